"""What peers send cannot crash the node, and is handled only by a running actor of the addressed type.

Every network event is followed through the swarm's handler and the tasks it starts with nothing known about its content; requests are
followed through the dispatch and the handling functions, every reason for which a request cannot be handled to its own error; the
decoders of what peers store and send are run over byte strings of any length."""
from .wire import *
from .conv import kind, received
from .c34 import stopped
from .c35 import ROLES, MAPS, INT, deref_bytes, dispatches, fnames, roles_of
from .c24 import typed, changes

REMOTE = 'kameo::remote::'
REGN = SW + 'ActorRegistration'
AR = 'kameo::actor::actor_ref::ActorRef'


def check(ctx):
    F = ctx.facts('kameo')
    events(ctx, F)
    for n in REQUESTS:
        dispatch(ctx, F, n)
        for fn in fnames(F, n):
            handling(ctx, F, n, fn)
    decoding(ctx, F)
    lookups(ctx, F)
    ctx.sample('request bytes -> SwarmRequest -> dispatch -> _internal::ask::<A, M>: no actor | another type | undecodable -> its own error; else ActorRef<A>::ask')
    ctx.assume('the swarm handler runs until the process ends', 'libp2p decodes requests with the derived decoders and reports what does not decode', 'user-written Deserialize implementations do not panic')


# ---- events

def events(ctx, F):
    n, kinds = 0, set()
    r = ctx.run('sw_event', keep=('panic', 'spawned', 'send'), spawn='inline', **HANDLE)
    for o in r.outs:
        if is_none(o.value) or stopped(o):
            continue
        n += 1
        x = o.st.facts.get(('arg', 2))
        kinds.add(F.variant(EVENT, x[2]) if x and x[0] == 'adt' else '?')
        bad = [e for e in o.mon if e[0] == 'panic' or e[0] == 'spawned' and e[-1] == 'panic']
        ctx.need(o.kind == 'ret' and not bad, 'no-panic', 'handle_event', 'an event from the network panics %s' % ('a task of the swarm' if o.kind == 'ret' else 'the swarm'), o, r.E)
    ctx.need(n > 100 and len(kinds) >= 2, 'reached', 'handle_event', 'no event is handled')


# ---- dispatch

def dispatch(ctx, F, n):
    fn = {'SignalLinkDied': 'signal_link_died'}.get(n, n.lower())
    name = REMOTE + fn
    r = ctx.run(name, keep=('lookup', 'call', 'panic', 'await'), **HANDLE)
    b = F.body(name) if False else None
    seen = set()
    for o in r.outs:
        if not ctx.need(o.kind == 'ret', 'no-panic', name, 'dispatching a request panics', o, r.E):
            continue
        called = [e for e in o.mon if e[0] == 'call' and e[1] == 'fnptr']
        look = [e for e in o.mon if e[0] == 'lookup' and e[1] in MAPS]
        if not ctx.need(len(look) == 1, 'looked-up', name, 'the ids of the request are not looked up', o, r.E):
            continue
        ids = list(fields(F, strip(look[0][2])).values()) if look[0][1].endswith('MESSAGES_MAP') else [look[0][2]]
        if called:
            seen.add('found')
            got = [e[3][1] for e in o.mon if e[0] == 'call' and e[1].endswith('HashMap::get')]
            ctx.need(len(called) == 1 and any(g in bases(called[0][2][0]) for g in got), 'looked-up', name, 'another function is called than the one looked up', o, r.E)
            ran = [e for e in o.mon if e[0] == 'await' and e[3][0] == 'sym']
            ctx.need(len(ran) == 1 and whole(r.E, o.value, ('aw', ran[0][3][1])), 'own-error', name, 'the result is not that of the handling function', o, r.E)
            continue
        seen.add('missing')
        x = part(o, o.value, 1)
        want = 'UnknownMessage' if n in ('Ask', 'Tell') else 'UnknownActor'
        t, k, fs = (x[1], F.variant(x[1], x[2]), x[3]) if x is not None and x[0] == 'adt' else (None, None, ())
        good = t == RSE and k == want
        if good:
            # the ids reported are those looked up, each under its own name
            rep = dict(zip(F.adts[RSE]['v'][vidx(F, RSE, k)]['f'], fs))
            asked = fields(F, strip(look[0][2])) if n in ('Ask', 'Tell') else {'actor_remote_id': look[0][2]}
            good = all(f in asked and argof(asked[f]) is not None and argof(asked[f]) == argof(v) for f, v in rep.items())
        ctx.need(good, 'own-error', name, 'a request for something unknown is answered with %s' % names(F, o.value), o, r.E)
    ctx.need(seen == {'found', 'missing'}, 'reached', name, 'dispatch only ever finds: %s' % sorted(seen))


def argof(v):
    b = [k for k in bases(v) if k[0] == 'arg']
    return b[0] if len(b) == 1 else None


def part(o, v, i):
    x = v if v[0] == 'adt' else received(o, v)
    return x[3][0] if x[0] == 'adt' and x[1] == RES and x[2] == i else None


# ---- the handling functions

def handling(ctx, F, n, fn):
    inst = '_internal::' + fn
    r = ctx.run(INT + fn, keep=('lookup', 'call', 'deliver', 'send', 'panic', 'downref'), kapi=n in ('Ask', 'Tell'), **HANDLE)
    seen = set()
    E = r.E
    for o in r.outs:
        if not ctx.need(o.kind == 'ret', 'no-panic', inst, 'handling a request panics', o, E):
            continue
        get = [e for e in o.mon if e[0] == 'call' and e[1].endswith('HashMap::get') and 'REMOTE_REGISTRY' in str(bases(e[2][0]))]
        if not ctx.need(len(get) == 1, 'addressed', inst, 'the addressed actor is not looked up', o, E):
            continue
        got = get[0][3][1]
        f = o.st.facts.get(got)
        down = [e for e in o.mon if e[0] == 'downref']
        acted = [e for e in o.mon if e[0] == 'deliver'] + [e for e in sends(o) if signal(F, e)[0]] + [c for c in changes(o) if c[1] != 'get' and 'REMOTE_REGISTRY' not in str(c[2])]
        e = part(o, o.value, 1)
        k = kind(o, F, e) if e is not None else None
        dec = [x for x in o.mon if x[0] == 'call' and x[1].startswith('rmp_serde::decode::from_')]
        bad = [x for x in dec if (o.st.facts.get(x[3][1]) or ('', '', 0))[0] == 'adt' and o.st.facts[x[3][1]][2] == 1]
        if f is not None and f[0] == 'adt' and f[2] == 0:
            case, want = 'no actor', 'ActorNotRunning'
        elif any(d[1] == 'no' for d in down):
            case, want = 'other type', 'BadActorType'
        elif bad:
            case, want = 'undecodable', 'DeserializeMessage'
        else:
            case, want = 'fits', None
        seen.add(case)
        if want:
            ctx.need(k == want, 'own-error', inst, 'a request (%s) is answered with %s' % (case, names(F, o.value)), o, E)
            ctx.need(not acted, 'only-where-it-fits', inst, 'a request (%s) is carried out all the same' % case, o, E)
        elif acted:
            good = any(d[1] == 'ok' and got in bases(d[2]) and typed_as(F, d[3]) for d in down)
            ctx.need(good, 'only-where-it-fits', inst, 'an actor acts on a request without being of the addressed type', o, E)
            sig = [x for x in sends(o) if signal(F, x)[0]]
            if sig and all(x[-1] == 'closed' for x in sig):
                seen.add('stopped')
                ctx.need(k == 'ActorNotRunning', 'own-error', inst, 'a notice for an actor that has stopped is answered with %s' % names(F, o.value), o, E)
            elif sig:
                ctx.need(part(o, o.value, 0) is not None, 'own-error', inst, 'a notice that was delivered is answered with %s' % names(F, o.value), o, E)
        else:
            ctx.need(e is not None, 'own-error', inst, 'a request nothing was done for is confirmed', o, E)
    need = {'no actor', 'other type', 'fits'} | ({'undecodable'} if n in ('Ask', 'Tell') else {'stopped'} if n == 'SignalLinkDied' else set())
    ctx.need(seen == need, 'reached', inst, 'of the cases %s only %s are told apart' % (sorted(need), sorted(seen)))


def typed_as(F, t):
    """the type is ActorRef of the function's own first parameter"""
    s = F.ty_str(t) if isinstance(t, int) else str(t)
    return s.replace(' ', '').endswith('ActorRef<A>')


# ---- decoders

def decoding(ctx, F):
    n = REGN + '::from_bytes'
    r = ctx.run(n, keep=('panic',), octets=True, maps=True)
    seen = set()
    for o in r.outs:
        ctx.need(o.kind == 'ret', 'no-panic', n, 'decoding a record of a peer panics', o, r.E)
        if o.kind == 'ret':
            seen.add(some(o.value) is not None)
    ctx.need(seen == {True, False}, 'reached', n, 'every or no record is accepted')
    hand = [f['n'] for f in F.fns if f['n'].startswith('<kameo::') and ' as serde_core::de::Deserialize>::deserialize' in f['n'] and '::{' not in f['n'] and f['n'].endswith('::deserialize')]
    done = 0
    for n in sorted(set(hand)):
        r = ctx.run(n, keep=('panic',), octets=True, maps=True)
        done += 1
        for o in r.outs:
            ctx.need(o.kind == 'ret', 'no-panic', n, 'decoding what a peer sent panics', o, r.E)
    ctx.need(done >= 4, 'reached', 'Deserialize', 'decoders analysed: %d' % done)


# ---- records

def lookups(ctx, F):
    for name in ('sa_lookup', 'sa_lookup_local'):
        r = ctx.run(name, keep=('orecv', 'panic', 'send', 'once_get', 'call'), octets=True, maps=True, net=True)
        for o in r.outs:
            rec = [e for e in o.mon if e[0] == 'orecv']
            if any(e[-1] == 'closed' for e in rec) or stopped(o):
                continue
            ctx.need(o.kind == 'ret', 'no-panic', name, 'what is stored under a name panics its lookup', o, r.E)

    def setup(st):
        st.facts[('arg', 2)] = command(F, ('arg', 2), 'LookupLocal')
    r = ctx.run('sw_cmd', keep=('panic', 'osend', 'call'), setup=setup, cap=8, octets=True, **HANDLE)
    n = 0
    for o in r.outs:
        if is_none(o.value):
            continue
        n += 1
        ctx.need(o.kind == 'ret', 'no-panic', 'LookupLocal', 'a record of a peer panics the swarm', o, r.E)
    ctx.need(n > 1, 'reached', 'LookupLocal', 'no local lookup is handled')
