"""The swarm: commands, network events and what becomes of the reply channels they carry."""
from .lib import *

SW = 'kameo::remote::swarm::'
CMD, EVENT, RESP, REQ = SW + 'SwarmCommand', SW + 'ActorSwarmEvent', SW + 'SwarmResponse', SW + 'SwarmRequest'
BEV = SW + 'behaviour::ActorSwarmBehaviourEvent'
SB = SW + 'SwarmBehaviour::'
RR, RRM, OUT = 'libp2p_request_response::Event', 'libp2p_request_response::Message', 'libp2p_request_response::OutboundFailure'
KAD, QR, GOT = 'libp2p_kad::behaviour::Event', 'libp2p_kad::behaviour::QueryResult', 'libp2p_kad::behaviour::GetRecordOk'
RSE = 'kameo::error::RemoteSendError'
HANDLE = dict(maps=True, net=True, hook_panics=False)


def vidx(F, ty, name):
    for i, v in enumerate(F.adts[ty]['v']):
        if v['n'] == name:
            return i
    return None


def make(F, ty, name, *fs, key=None, **kw):
    """a value of the variant; fields not given are those of the symbol `key`"""
    i = vidx(F, ty, name)
    v = F.adts[ty]['v'][i]
    if not fs:
        fs = tuple(kw.get(f, ('sym', ('fld', key, i, k))) for k, f in enumerate(v['f']))
    return ('adt', ty, i, fs)


def field(F, ty, name, f, key):
    """the field f of the symbol `key` when it is of the variant `name`"""
    i = vidx(F, ty, name)
    return ('sym', ('fld', key, i, F.adts[ty]['v'][i]['f'].index(f)))


def command(F, key, name):
    return make(F, CMD, name, key=key)


def rr_events(F, key, few=False):
    """a request-response event under the symbol ('arg', key); few: only what answers something, one kind of failure"""
    ev = lambda x: make(F, EVENT, 'Behaviour', make(F, BEV, 'RequestResponse', x))
    k = ('arg', key)
    if not few:
        return [(ev(('sym', k)), {})]
    m = make(F, RR, 'Message', key=k, message=make(F, RRM, 'Response', key=field(F, RR, 'Message', 'message', k)[1]))
    f = make(F, RR, 'OutboundFailure', key=k, error=make(F, OUT, 'Timeout'))
    return [(ev(('sym', k)), {k: m, field(F, RR, 'Message', 'message', k)[1]: make(F, RRM, 'Response', key=field(F, RR, 'Message', 'message', k)[1])}),
            (ev(('sym', k)), {k: f, field(F, RR, 'OutboundFailure', 'error', k)[1]: make(F, OUT, 'Timeout')})]


def kad_events(F, key, few=False):
    ev = lambda x: make(F, EVENT, 'Behaviour', make(F, BEV, 'Kademlia', x))
    k = ('arg', key)
    if not few:
        return [(ev(('sym', k)), {})]
    q = field(F, KAD, 'OutboundQueryProgressed', 'result', k)[1]
    return [(ev(('sym', k)), {k: make(F, KAD, 'OutboundQueryProgressed', key=k), q: make(F, QR, n, key=q)}) for n in ('GetRecord', 'PutRecord')]


def reply_fields(F):
    """command variant -> name of the field its answer goes to, the name of its response channel field"""
    r, c = {}, {}
    for v in F.adts[CMD]['v']:
        for f, t in zip(v['f'], v['t']):
            n = F.ty_str(t)
            if 'oneshot::Sender' in n:
                r[v['n']] = f
            elif 'ResponseChannel' in n:
                c[v['n']] = f
    return r, c


def is_variant(E, o, key, ty):
    f = o.st.facts.get(key)
    return E.F.variant(ty, f[2]) if f and f[0] == 'adt' and f[1] == ty else None


def whole(E, v, key):
    """the value is what the symbol `key` stands for, possibly taken apart and put together again"""
    v = collapse(v)
    if same(v, ('sym', key)):
        return True
    if v[0] == 'adt':
        a = E.F.adts.get(v[1])
        return bool(v[3]) and a is not None and all(whole(E, x, ('fld', key, v[2], i)) for i, x in enumerate(v[3]))
    return False


def eqid(E, o, a, n):
    """whether the id `a` of an event is the number n, on this path"""
    a = collapse(E.norm(o.st, a))
    if a[0] == 'int':
        return a == n
    for x, y in ((a, n), (n, a)):
        f = o.st.facts.get(('app', 'eq', (x, y)))
        if f is not None:
            return f[1] == 1
    return None


FAIL = {'DialFailure': 'DialFailure', 'Timeout': 'NetworkTimeout', 'ConnectionClosed': 'ConnectionClosed', 'UnsupportedProtocols': 'UnsupportedProtocols', 'Io': 'Io'}
NETOP = {'Ask': 'ask', 'Tell': 'tell', 'Link': 'link', 'Unlink': 'unlink', 'SignalLinkDied': 'signal_link_died',
         'Lookup': 'kademlia_get_record', 'Register': 'kademlia_put_record', 'Unregister': 'kademlia_put_record'}
REQUESTS = ('Ask', 'Tell', 'Link', 'Unlink', 'SignalLinkDied')
QUERIES = ('Lookup', 'Register', 'Unregister')


def answers(ctx):
    """runs of two commands followed by two network events: (label, outcome, engine, commands, events by key)"""
    F = ctx.facts('kameo')
    reps, _ = reply_fields(F)
    for first, seconds, ev, base in ((REQUESTS, ('Tell',), rr_events, 10), (QUERIES, ('Lookup', 'Register'), kad_events, 20)):
        for c in first:
            for d in seconds:
                for e, fe in ev(F, base + 4):
                    for f, ff in ev(F, base + 5, True):
                        def setup(st):
                            for k, n in ((2, c), (3, d)):
                                st.facts[('arg', k)] = command(F, ('arg', k), n)
                            st.facts[('arg', 4)], st.facts[('arg', 5)] = e, f
                            st.facts.update(fe)
                            st.facts.update(ff)
                        r = ctx.run('sw_answers', keep=('netreq', 'osend', 'panic', 'spawn'), setup=setup, spawn='event', cap=8, **HANDLE)
                        for o in r.outs:
                            yield c + '+' + d, o, r.E, ((c, field(F, CMD, c, reps[c], ('arg', 2))), (d, field(F, CMD, d, reps[d], ('arg', 3)))), (('arg', base + 4), ('arg', base + 5))


def possible(E, o, key, ty):
    """the variants the symbol can have on this path"""
    f = o.st.facts.get(key)
    vs = E.F.adts[ty]['v']
    if f is not None and f[0] == 'adt':
        return {vs[f[2]]['n']}
    no = f[1] if f is not None and f[0] == 'ne' else ()
    return {v['n'] for v in vs if int(v['d']) not in no}


def resolved(E, o, ev):
    """what a network event resolves: (kind of pending, id, kind of answer, key of its content), None (nothing), '?' when undecided"""
    F = E.F

    def pick(key, ty, wanted):
        vs = possible(E, o, key, ty)
        if not vs & set(wanted):
            return None
        return next(iter(vs)) if len(vs) == 1 else '?'

    def sub(key, ty, n, f):
        return field(F, ty, n, f, key)
    if ev[1] < 20:
        n = pick(ev, RR, ('OutboundFailure', 'Message'))
        if n in (None, '?'):
            return n
        if n == 'OutboundFailure':
            return 'request', sub(ev, RR, n, 'request_id'), 'failure', sub(ev, RR, n, 'error')[1]
        m = sub(ev, RR, n, 'message')[1]
        n = pick(m, RRM, ('Response',))
        if n in (None, '?'):
            return n
        return 'request', sub(m, RRM, n, 'request_id'), 'response', sub(m, RRM, n, 'response')[1]
    n = pick(ev, KAD, ('OutboundQueryProgressed',))
    if n in (None, '?'):
        return n
    q, i = sub(ev, KAD, n, 'result')[1], sub(ev, KAD, n, 'id')
    n = pick(q, QR, ('PutRecord', 'GetRecord'))
    if n in (None, '?'):
        return n
    r = ('fld', q, vidx(F, QR, n), 0)
    if n == 'PutRecord':
        return 'put', i, 'put', r
    n = pick(r, RES, ('Ok', 'Err'))
    if n in (None, '?'):
        return n
    if n == 'Err':
        return 'get', i, 'get-err', ('fld', r, 1, 0)
    g = ('fld', r, 0, 0)
    n = pick(g, GOT, ('FoundRecord',))
    if n in (None, '?'):
        return n
    return 'get', i, 'get-ok', ('fld', g, vidx(F, GOT, n), 0)


KIND = dict({c: 'request' for c in REQUESTS}, Lookup='get', Register='put', Unregister='put')


def pending(E, o, cmds):
    """the commands of which the network was asked something: id -> (reply channel, command)"""
    pend = {}
    for c, rep in cmds:
        for e in o.mon:
            if e[0] == 'netreq' and e[1] == NETOP[c] and e[3][0] == 'int' and any(rep[1][1] in bases(a) for a in e[2]):
                pend[e[3]] = (rep, c)
    return pend


def simulate(E, o, cmds, evs):
    """(the answers the two events bring, the commands still pending, what is undecided)"""
    pend = pending(E, o, cmds)
    out = []
    for ev in evs:
        r = resolved(E, o, ev)
        if r == '?':
            if pend:
                return out, pend, 'an event is not looked at'
            continue
        if r is None:
            continue
        kind, i, what, content = r
        for n, (rep, c) in list(pend.items()):
            if KIND[c] != kind:
                continue
            d = eqid(E, o, i, n)
            if d is None:
                return out, pend, 'an answer is not matched against the pending %s' % c
            if d:
                out.append((rep, what, content))
                del pend[n]
                break
    return out, pend, None


def peers(E, o):
    """how many peers are connected, as far as the path asked: (at least, at most), or None when it did not ask"""
    from kstatic import octets as OC
    asked = None
    for e in o.mon or ():
        if e[0] == 'call' and e[1].endswith('::num_peers'):
            lo, hi = OC.known(o.st, E.norm(o.st, e[3]))
            asked = (max(lo, asked[0]), min(hi, asked[1])) if asked else (lo, hi)
    return asked
