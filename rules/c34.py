"""Every request of a peer is answered by exactly one response of its kind, on its own response channel.

Each inbound request is followed through the task it is handed to: on every path the task either sends the handler exactly one
response command or answers the channel itself; each response command leads to exactly one response of the behaviour, and each
response of kameo's behaviour to exactly one response of the network protocol."""
from .wire import *

RESPONSE = {'Ask': 'ask', 'Tell': 'tell', 'Link': 'link', 'Unlink': 'unlink', 'SignalLinkDied': 'signal_link_died'}
SEND = {'Send%sResponse' % v: v for v in RESPONSE}
IMPL = "<kameo::remote::swarm::behaviour::ActorSwarmBehaviour as kameo::remote::swarm::SwarmBehaviour>::"
PROTO = 'libp2p_request_response::Behaviour::'


def request(F, few=None):
    """presets for an inbound request"""
    def setup(st):
        st.facts[('arg', 2)] = rr_events(F, 14)[0][0]
        k = ('arg', 14)
        st.facts[k] = make(F, RR, 'Message', key=k)
        m = field(F, RR, 'Message', 'message', k)[1]
        st.facts[m] = make(F, RRM, 'Request', key=m)
    m = field(F, RR, 'Message', 'message', ('arg', 14))[1]
    return setup, field(F, RRM, 'Request', 'request', m)[1], field(F, RRM, 'Request', 'channel', m)[1]


def responses(E, o):
    """(kind, channel, result, sent to the handler or to the behaviour)"""
    F, out = E.F, []
    for e in o.mon:
        if e[0] == 'send' and is_adt(F, e[3], CMD):
            n = adt(F, e[3])[1]
            g = fields(F, e[3])
            out.append((SEND.get(n), g.get('channel'), g.get('result'), strip(e[2])))
        elif e[0] == 'call' and e[1].startswith(SB + 'send_') and e[1].endswith('_response'):
            k = [n for n, s in RESPONSE.items() if e[1] == SB + 'send_%s_response' % s]
            out.append((k[0] if k else None, e[2][1], e[2][2], None))
    return out


def stopped(o):
    """the swarm task has ended"""
    return any(e[0] == 'send' and e[-1] == 'closed' for e in o.mon)


def check(ctx):
    F = ctx.facts('kameo')
    inbound(ctx, F)
    forwarded(ctx, F)
    behaviour(ctx, F)
    ctx.sample('sw_event: handle_event(Message::Request{request, channel}) with every request, its task run to the end')
    ctx.assume('libp2p delivers a response to the requester of its channel', 'the swarm handler runs until the process ends')


def inbound(ctx, F):
    setup, req, chan = request(F)
    r = ctx.run('sw_event', keep=('call', 'await', 'send', 'panic', 'spawn', 'spawned', 'channel'), setup=setup, spawn='inline', cap=8, **HANDLE)
    seen = {}
    for o in r.outs:
        E = r.E
        n = is_variant(E, o, req, REQ)
        if n is None and is_none(o.value) and not any(e[0] == 'spawn' for e in o.mon):
            continue            # bootstrapped before
        if n is None:
            n = 'request'
        if stopped(o):
            continue
        if not ctx.need(o.kind == 'ret' and not any(e[0] == 'panic' or e[0] == 'spawned' and e[-1] == 'panic' for e in o.mon), 'answered', n, 'handling a request panics', o, E):
            continue
        seen[n] = seen.get(n, 0) + 1
        rs = responses(E, o)
        if not ctx.need(len(rs) == 1, 'answered', n, 'a request is answered %d times' % len(rs), o, E):
            continue
        k, c, v, to = rs[0]
        ctx.need(k == n, 'own-kind', n, 'the response is not of the kind of the request', o, E)
        ctx.need(c is not None and whole(E, strip(c), chan), 'own-channel', n, 'the response does not go to the channel of the request', o, E)
        if to is not None:
            ctx.need(any(e[0] == 'channel' and same(strip(e[3]), to) for e in o.mon), 'answered', n, 'the response is not given to the handler of the request', o, E)
        ran = [e for e in o.mon if e[0] == 'await' and e[3][0] == 'sym']
        fn = [e for e in o.mon if e[0] == 'call' and e[1] == 'fnptr']
        if fn:
            ctx.need(len(fn) == 1, 'true-result', n, 'a request is dispatched %d times' % len(fn), o, E)
            ctx.need(len(ran) == 1 and v is not None and whole(E, v, ('aw', ran[0][3][1])), 'true-result', n, 'the response is not the result of the dispatched request', o, E)
        else:
            ctx.need(v is not None and err(v) is not None, 'true-result', n, 'a request that was not dispatched is not answered with an error', o, E)
    for n in RESPONSE:
        ctx.need(seen.get(n, 0) > 1, 'answered', n, 'no path handles the request')


def forwarded(ctx, F):
    for cmd, n in SEND.items():
        def setup(st):
            st.facts[('arg', 2)] = command(F, ('arg', 2), cmd)
        r = ctx.run('sw_cmd', keep=('call', 'netreq', 'osend', 'panic', 'spawn', 'send'), setup=setup, spawn='event', cap=4, **HANDLE)
        done = 0
        for o in r.outs:
            if is_none(o.value):
                continue
            if not ctx.need(o.kind == 'ret', 'forwarded', cmd, 'sending a response panics', o, r.E):
                continue
            done += 1
            rs = responses(r.E, o)
            ctx.need(len(rs) == 1 and rs[0][0] == n and rs[0][3] is None, 'forwarded', cmd, 'the response is not sent once, as what it is', o, r.E)
            if len(rs) == 1:
                ctx.need(whole(r.E, strip(rs[0][1]), field(F, CMD, cmd, 'channel', ('arg', 2))[1]) and whole(r.E, strip(rs[0][2]), field(F, CMD, cmd, 'result', ('arg', 2))[1]),
                         'forwarded', cmd, 'the response sent is not the result and channel of the command', o, r.E)
            ctx.need(not any(e[0] in ('netreq', 'osend', 'spawn', 'send') for e in o.mon), 'forwarded', cmd, 'sending a response does something else as well', o, r.E)
        ctx.need(done > 0, 'forwarded', cmd, 'the command is never handled')


def behaviour(ctx, F):
    for n, s in RESPONSE.items():
        r = ctx.run(IMPL + 'send_%s_response' % s, keep=('call', 'panic'), cap=4)
        done = 0
        for o in r.outs:
            inst = 'ActorSwarmBehaviour::send_%s_response' % s
            if not ctx.need(o.kind == 'ret', 'on-the-wire', inst, 'sending a response panics', o, r.E):
                continue
            done += 1
            k = [e for e in o.mon if e[0] == 'call' and e[1].startswith(PROTO)]
            if not ctx.need(len(k) == 1 and k[0][1] == PROTO + 'send_response', 'on-the-wire', inst, 'not exactly one response is sent', o, r.E):
                continue
            a = k[0][2]
            ctx.need(whole(r.E, strip(a[1]), ('arg', 1)), 'on-the-wire', inst, 'the response does not go to the channel given', o, r.E)
            ctx.need(is_adt(F, strip(a[2]), RESP, n) and whole(r.E, adt(F, strip(a[2]))[2][0], ('arg', 2)), 'on-the-wire', inst, 'the response is not the result given, as a response of its kind', o, r.E)
        ctx.need(done > 0, 'on-the-wire', inst, 'no response is ever sent')
