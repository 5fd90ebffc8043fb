"""Every swarm command with a reply channel is answered exactly once: while it is handled, by the task it is handed to, or when the
network event of its own request arrives, after which nothing of it is pending.

Commands are handled symbolically (every variant, every connection state); two commands are followed by two network events of every
kind and the answers sent are compared with a simulation of what is pending.  The run loop is checked to hand every command and
network event it receives on to the handling functions, and the public calls to issue the one command they stand for."""
from .wire import *


def check(ctx):
    F = ctx.facts('kameo')
    reps, chans = reply_fields(F)
    ctx.need(len(reps) >= 11, 'reached', 'SwarmCommand', 'the commands with a reply channel are not found')
    handled(ctx, F, reps)
    n = 0
    for label, o, E, cmds, evs in answers(ctx):
        n += 1
        if not ctx.need(o.kind == 'ret', 'answered', label, 'handling swarm commands or network events panics', o, E):
            continue
        if is_none(o.value):
            continue
        sent = [e for e in o.mon if e[0] == 'osend']
        want, left, prob = simulate(E, o, cmds, evs)
        if not ctx.need(prob is None, 'answered', label, prob, o, E):
            continue
        for c, rep in cmds:
            by = [e for e in sent if same(strip(e[1]), rep)]
            ev = [w for w in want if same(w[0], rep)]
            at_once = len(by) - len(ev)
            pend = any(same(x[0], rep) for x in left.values()) or bool(ev)
            task = any(e[0] == 'spawn' and rep[1] in keys(e[2]) or e[0] == 'spawn' and rep[1][1] in bases(e[2]) for e in o.mon)
            if pend:
                ctx.need(at_once == 0, 'answered', label, 'a pending %s is answered %d times by its network event' % (c, len(by)), o, E)
            elif task:
                ctx.need(not by, 'answered', label, 'a %s is answered although a task answers it' % c, o, E)
            else:
                ctx.need(len(by) == 1, 'answered', label, 'a %s is answered %d times' % (c, len(by)), o, E)
        ctx.need(all(any(same(strip(e[1]), rep) for _, rep in cmds) for e in sent), 'answered', label, 'something else than the replies of the commands is answered', o, E)
    ctx.need(n > 200, 'reached', 'sw_answers', 'commands followed by events are not explored')
    loop(ctx, F)
    api(ctx, F)
    ctx.sample('sw_answers: handle_command(Ask); handle_command(Tell); handle_event(e); handle_event(f) for every request-response event e, f')
    ctx.assume('libp2p gives every request and query an id of its own', 'the swarm handler runs until the process ends')


def keys(v):
    return bases(v)


def handled(ctx, F, reps):
    """one command in every connection state, tasks run to their end"""
    r = ctx.run('sw_cmd', keep=('netreq', 'osend', 'panic', 'call', 'spawn', 'spawned'), spawn='inline', cap=8, octets=True, **HANDLE)
    seen = {}
    for o in r.outs:
        c = is_variant(r.E, o, ('arg', 2), CMD)
        if is_none(o.value) and c is None:
            continue
        if not ctx.need(c is not None and o.kind == 'ret', 'handled', 'handle_command', 'handling a command panics or does not look at it', o, r.E):
            continue
        seen[c] = seen.get(c, 0) + 1
        sent = [e for e in o.mon if e[0] == 'osend']
        net = [e for e in o.mon if e[0] == 'netreq' and e[3][0] == 'int']
        if c not in reps:
            ctx.need(not sent, 'handled', c, 'a command without a reply channel answers something', o, r.E)
            own(ctx, r.E, o, c)
            continue
        rep = field(F, CMD, c, reps[c], ('arg', 2))
        mine = [e for e in sent if same(strip(e[1]), rep)]
        if net:
            ctx.need(len(net) == 1 and not sent and net[0][1] == NETOP.get(c), 'handled', c, 'a command asks the network for something else, more than once, or is answered as well', o, r.E)
            ctx.need(kept(r.E, o, rep), 'handled', c, 'the reply channel of a pending command is dropped', o, r.E)
        else:
            ctx.need(len(mine) == 1 and len(sent) == 1, 'handled', c, 'a command that asks nothing of the network is answered %d times' % len(mine), o, r.E)
            if len(mine) == 1:
                truth(ctx, r.E, o, c, mine[0])
    for v in F.adts[CMD]['v']:
        ctx.need(seen.get(v['n'], 0) > 0, 'handled', v['n'], 'no path handles the command')


def kept(E, o, rep):
    return rep[1] in subs(o.value) or rep[1][1] in bases(o.value)


def subs(v):
    return bases(v)


def calls(o, name):
    return [e for e in o.mon if e[0] == 'call' and e[1] == name]


SWM = 'libp2p_swarm::Swarm::'


def own(ctx, E, o, c):
    """commands that are passed on"""
    F = E.F
    f = lambda n: field(F, CMD, c, n, ('arg', 2))
    if c == 'AddPeerAddress':
        k = calls(o, SWM + 'add_peer_address')
        ctx.need(len(k) == 1 and same(strip(k[0][2][1]), f('peer_id')) and same(strip(k[0][2][2]), f('addr')), 'passed-on', c, 'the address of a peer is not given to the swarm once, as it is', o, E)
    if c == 'DisconnectPeerId':
        k = calls(o, SWM + 'disconnect_peer_id')
        ctx.need(len(k) == 1 and same(strip(k[0][2][1]), f('peer_id')), 'passed-on', c, 'the named peer is not disconnected once', o, E)


def truth(ctx, E, o, c, ans):
    """what an immediate answer says is what was done"""
    F = E.F
    f = lambda n: field(F, CMD, c, n, ('arg', 2))
    v = ans[2]
    if c in ('ListenOn', 'Dial'):
        k = calls(o, SWM + ('listen_on' if c == 'ListenOn' else 'dial'))
        ctx.need(len(k) == 1 and same(strip(k[0][2][1]), f('addr' if c == 'ListenOn' else 'opts')) and same(collapse(v), collapse(k[0][3])), 'true-answer', c, 'the answer is not the result the swarm gave for the request', o, E)
    elif c == 'Register':
        loc, net = calls(o, SB + 'kademlia_put_record_local'), [e for e in o.mon if e[0] == 'netreq']
        if loc:
            s = result_of(E, o, loc[0][3])
            ctx.need(len(loc) == 1 and not net and whole(E, strip(loc[0][2][1]), f('record')[1]) and s is not None and (ok(v) is not None) == s, 'true-answer', c, 'a local registration is not answered with what became of storing the record', o, E)
        else:
            ctx.need(len(net) == 1 and ok(v) is None and err(v) is not None, 'true-answer', c, 'a registration is confirmed which stored nothing', o, E)
    elif c == 'Unregister':
        rem = calls(o, SB + 'kademlia_remove_record') + calls(o, SB + 'kademlia_remove_record_local')
        net = [e for e in o.mon if e[0] == 'netreq']
        ctx.need(bool(rem) and all(same(strip(e[2][1]), f('key')) for e in rem), 'true-answer', c, 'the record of the key is not removed', o, E)
        ctx.need((ok(v) is not None) == (not net), 'true-answer', c, 'an unregistration is not answered with what became of it', o, E)
    elif c == 'LookupLocal':
        k = calls(o, SB + 'kademlia_get_record_local')
        ctx.need(len(k) == 1 and same(strip(k[0][2][1]), f('key')), 'true-answer', c, 'the key is not looked up in the local store', o, E)


def result_of(E, o, v):
    v = collapse(E.norm(o.st, v))
    if v[0] == 'adt' and v[1] == RES:
        return v[2] == 0
    f = o.st.facts.get(v[1]) if v[0] == 'sym' else None
    return f[2] == 0 if f and f[0] == 'adt' else None


class Hand:
    """every received command or event is handed on before the next is taken"""
    init = ()

    def __init__(self, F):
        self.F, self.bad, self.n = F, [], {'cmd': 0, 'event': 0}

    def event(self, E, st, ev, loc):
        F = self.F
        k = ev[0]
        if k == 'recv' or (k == 'await' and ev[1] == 'next'):
            self.settled(E, st, loc)
            return (('cmd', strip(ev[2])) if k == 'recv' else ('event', ('sym', ('aw', ev[3][1])) if ev[3][0] == 'sym' else ev[3]),)
        if k == 'call' and ev[1].endswith('::handle_command'):
            if not st.mon or st.mon[0][0] != 'cmd' or not whole(E, ev[2][2], ('fld', st.mon[0][1][1], 1, 0)):
                self.bad.append('a command is handled that was not received')
            self.n['cmd'] += 1
            return ()
        if k == 'call' and ev[1].endswith('::handle_event'):
            if not st.mon or st.mon[0][0] != 'event' or not self.is_event(E, st, st.mon[0][1], ev[2][2]):
                self.bad.append('an event is handled that is not the one received')
            self.n['event'] += 1
            return ()
        return st.mon

    def settled(self, E, st, loc):
        if not st.mon:
            return
        k, s = st.mon[0]
        f = st.facts.get(s[1])
        if f is not None and f[0] == 'adt' and f[2] == 0:
            return
        if k == 'cmd':
            self.bad.append('a received command is not handled')
            return
        e = ('fld', s[1], 1, 0)
        g = st.facts.get(e)
        if g is None or g[0] != 'adt' or self.F.variant('libp2p_swarm::SwarmEvent', g[2]) in ('ConnectionClosed', 'Behaviour'):
            self.bad.append('a closed connection or an event of the behaviour is not handled')

    def is_event(self, E, st, s, v):
        F = self.F
        e = ('fld', s[1], 1, 0)
        g = st.facts.get(e)
        v = collapse(v)
        if g is None or v[0] != 'adt' or v[1] != EVENT:
            return False
        n = F.variant('libp2p_swarm::SwarmEvent', g[2])
        if F.variant(EVENT, v[2]) != n:
            return False
        if n == 'Behaviour':
            return whole(E, v[3][0], ('fld', e, g[2], 0))
        src = F.adts['libp2p_swarm::SwarmEvent']['v'][g[2]]['f']
        return all(whole(E, x, ('fld', e, g[2], src.index(nm))) for nm, x in zip(F.adts[EVENT]['v'][v[2]]['f'], v[3]) if nm in src)


def loop(ctx, F):
    op = lambda n: n.endswith('::handle_command') or n.endswith('::handle_event')
    m = Hand(F)
    r = ctx.run('sa_run', mon=m, opaque=op, spawn='inline', hook_panics=False, max_same=1)
    for b in sorted(set(m.bad)):
        ctx.need(False, 'loop', 'run', b)
    ctx.need(m.n['cmd'] > 0 and m.n['event'] > 3, 'loop', 'run', 'the swarm task does not handle commands and events')


API = {'sa_listen': ('ListenOn', {'addr': 1}, True), 'sa_dial': ('Dial', {'opts': 1}, True), 'sa_add': ('AddPeerAddress', {'peer_id': 1, 'addr': 2}, False),
       'sa_disconnect': ('DisconnectPeerId', {'peer_id': 1}, False), 'sa_unregister': ('Unregister', {'key': 1}, True), 'sa_lookup': ('Lookup', {'key': 0}, True),
       'sa_lookup_local': ('LookupLocal', {'key': 0}, True), 'sa_register': ('Register', {'record': 1}, True)}


def api(ctx, F):
    for name, (cmd, fs, reply) in API.items():
        r = ctx.run(name, keep=('send', 'oneshot', 'orecv', 'panic', 'once_get'), octets=name in ('sa_register', 'sa_lookup'), maps=True, net=True)
        done = 0
        for o in r.outs:
            snd = [e for e in o.mon if e[0] == 'send' and is_adt(F, e[3], CMD)]
            if any(e[-1] == 'closed' for e in snd) or any(e[0] == 'orecv' and e[-1] == 'closed' for e in o.mon):
                continue
            if any(e[0] == 'once_get' and e[-1] == 'none' for e in o.mon) and not snd:
                ctx.need(o.kind == 'ret', 'api', name, 'a call before bootstrapping panics', o, r.E)
                continue
            if not ctx.need(o.kind == 'ret' and len(snd) == 1 and is_adt(F, snd[0][3], CMD, cmd), 'api', name, 'the call does not send its one command', o, r.E):
                continue
            done += 1
            g = fields(F, snd[0][3])
            for f, a in fs.items():
                v = g[f]
                if cmd == 'Register':
                    v = fields(F, v).get('key', v)
                ctx.need(('arg', a) in bases(v), 'api', name, 'the %s of the command is not the one given' % f, o, r.E)
                if cmd in ('ListenOn', 'AddPeerAddress', 'DisconnectPeerId'):
                    ctx.need(same(strip(v), arg(a)), 'api', name, 'the %s of the command is not the one given' % f, o, r.E)
            if reply:
                one = [e for e in o.mon if e[0] == 'oneshot' and same(e[1], g['reply'])]
                rec = [e for e in o.mon if e[0] == 'orecv']
                ctx.need(len(one) == 1 and len(rec) == 1 and same(strip(rec[0][1]), strip(one[0][2])), 'api', name, 'the call does not wait for the answer to its command', o, r.E)
                if name in ('sa_listen', 'sa_dial'):
                    ctx.need(len(rec) == 1 and collapse(o.value)[0] == 'sym' and bases(o.value) == bases(rec[0][1]), 'api', name, 'the call does not return the answer to its command', o, r.E)
        ctx.need(done > 0, 'api', name, 'the call never completes')
