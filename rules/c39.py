"""Registering an actor makes it addressable under the name, at its own type, while it runs.

What a registration writes into the name record is followed, symbolically, through the encoding into the record and back out of every
lookup; the entry of the registry is compared with the actor; lookups are decided for every answer of the swarm and every content of the
registry; a registration or unregistration asks the network exactly when peers are connected; the entry is made and released under one order (result of the shutdown, then the removal) that excludes a leftover entry."""
from .wire import *
from .c24 import changes, AR, AID, typed
from .c38 import entry, REG, bytype, walk
from . import proto

REGN = SW + 'ActorRegistration'
RERR = 'kameo::error::RegistryError'
GETERR, PUTERR = 'libp2p_kad::behaviour::GetRecordError', 'libp2p_kad::behaviour::PutRecordError'
RECORD, PEERREC = 'libp2p_kad::record::Record', 'libp2p_kad::behaviour::PeerRecord'
OPTS = dict(octets=True, maps=True, net=True, keep=('send', 'orecv', 'panic', 'once_get', 'lock', 'unlock', 'call', 'downref', 'await'))
BASE = ('deref', ('arg', 30))


def check(ctx):
    F = ctx.facts('kameo')
    recs = register(ctx, F)
    lookup(ctx, F, recs)
    lookup_local(ctx, F)
    handler(ctx, F, recs)
    unregister(ctx, F)
    published(ctx, F)
    proto.lifecycle(ctx, {'no-escape', 'registration-released', 'shutdown-result'})
    ctx.sample('register(actor, name): record(name -> encode(actor.id, A::REMOTE_ID)) stored, then REMOTE_REGISTRY[actor.id] = entry(actor) unless it has shut down')
    ctx.assume('the swarm handler runs until the process ends', 'the name record itself is Kademlia\'s: stored, found and expired by libp2p', 'which requests reach a registered actor is decided under C35 and C37')


def commands(F, o):
    return [e for e in o.mon if e[0] == 'send' and is_adt(F, e[3], CMD)]


def ended(o):
    return any(e[0] in ('send', 'orecv') and e[-1] == 'closed' for e in o.mon)


def unbootstrapped(ctx, F, inst, o, E):
    if commands(F, o) or not any(e[0] == 'once_get' and 'ACTOR_SWARM' in str(e[1]) and e[-1] == 'none' for e in o.mon):
        return False
    ctx.need(o.kind == 'ret' and err(o.value) is not None and is_adt(F, err(o.value), RERR, 'SwarmNotBootstrapped') and not changes(o), 'own-error', inst, 'before the node is bootstrapped the call gives %s' % (
        names(F, o.value) if o.kind == 'ret' else 'a panic'), o, E)
    return True


def answer(o):
    rec = [e for e in o.mon if e[0] == 'orecv']
    return ('aw', strip(rec[0][1])[1]) if len(rec) == 1 else None


def failure(ctx, E, o, inst, ty, aw, seen):
    """an error answer reaches the caller as the registry error of the same kind"""
    F = E.F
    kinds = possible(E, o, ('fld', aw, 1, 0), ty)
    e = err(o.value)
    for k in kinds:
        seen.add(k)
        if k == 'NotFound':
            v = ok(o.value)
            ctx.need(v is not None and is_none(v), 'own-error', inst, 'a name that is not found gives %s' % names(F, o.value), o, E)
        elif ctx.need(e is not None and is_adt(F, e, RERR, k), 'own-error', inst, 'a failure (%s) gives %s' % (k, names(F, o.value)), o, E) and k == 'QuorumFailed':
            ctx.need(('aw', aw[1]) in bases(e) or any(b == aw for b in walk(e)), 'own-error', inst, 'the quorum reported is not that of the failure', o, E)


PLAIN = {'into', 'from', 'into_bytes', 'to_string', 'to_owned', 'to_vec', 'as_bytes', 'as_str', 'clone', 'as_ref', 'deref', 'borrow', 'into_boxed_slice', 'into_owned', 'new', 'into_string', 'into_vec', 'copy_from_slice'}


def names_name(v, i):
    """v is the name itself, converted to a key and nothing else"""
    ks = [k for k in walk(v) if k and k[0] == 'app']
    return ('arg', i) in bases(v) and not any(b[0] == 'arg' and b != ('arg', i) for b in bases(v)) and all(k[1].split('::')[-1] in PLAIN for k in ks)


# ---- registering

def register(ctx, F):
    r = ctx.run('sa_register', args=[arg(30), arg(31)], **OPTS)
    recs, seen = [], set()
    E = r.E
    sh = bytype_named(F)
    for o in r.outs:
        if ended(o):
            continue
        if unbootstrapped(ctx, F, 'register', o, E):
            seen.add('unbootstrapped')
            continue
        if not ctx.need(o.kind == 'ret', 'own-error', 'register', 'registering panics', o, E):
            continue
        cmd = commands(F, o)
        aw = answer(o)
        if not ctx.need(len(cmd) == 1 and is_adt(F, cmd[0][3], CMD, 'Register') and aw is not None, 'registered', 'register', 'the record is not stored once', o, E):
            continue
        g = fields(F, fields(F, cmd[0][3])['record'])
        ctx.need(names_name(g['key'], 31), 'registered', 'register', 'the record is not stored under the name given', o, E)
        recs.append((o, E, g['value']))
        regs = [c for c in changes(o) if ('static', REG) in bases(c[2])]
        f = o.st.facts.get(aw)
        at = [i for i, e in enumerate(o.mon) if e[0] == 'orecv'][0]
        good = f is not None and f[0] == 'adt' and f[2] == 0
        if not good:
            if ctx.need(f is not None, 'registered', 'register', 'the outcome of storing the record is not looked at', o, E):
                ctx.need(not regs, 'registered', 'register', 'an actor whose name was not stored is registered', o, E)
                failure(ctx, E, o, 'register', PUTERR, aw, seen)
            continue
        ctx.need(ok(o.value) is not None, 'own-error', 'register', 'a registration that was made gives %s' % names(F, o.value), o, E)
        dead = [i for i, e in enumerate(o.mon) if e[0] == 'once_get' and in_field(e[1], sh) and e[-1] == 'some']
        alive = [i for i, e in enumerate(o.mon) if e[0] == 'once_get' and in_field(e[1], sh) and e[-1] == 'none']
        if dead:
            seen.add('dead')
            ctx.need(not regs, 'while-running', 'register', 'an actor that has shut down is registered', o, E)
            continue
        seen.add('alive')
        if not ctx.need(len(regs) == 1 and regs[0][1] == 'insert', 'registered', 'register', 'the actor is not registered once', o, E):
            continue
        entry(ctx, E, o, regs[0], BASE, 'registered', 'register')
        ins = regs[0][0]
        lock = [i for i, e in enumerate(o.mon) if e[0] == 'lock' and ('static', REG) in bases(e[1]) and i < ins]
        held = bool(lock) and not any(e[0] == 'unlock' and same(e[1], o.mon[lock[-1]][1]) for e in o.mon[lock[-1]:ins])
        ctx.need(held and any(lock[-1] < i < ins for i in alive), 'while-running', 'register', 'that the actor has not shut down is not established while the registry is locked for the entry', o, E)
        ctx.need(at < ins, 'registered', 'register', 'the actor is registered before its name is stored', o, E)
    ctx.need(seen >= {'unbootstrapped', 'alive', 'dead', 'QuorumFailed', 'Timeout'}, 'reached', 'register', 'not all situations were found: %s' % sorted(seen))
    return recs


def bytype_named(F):
    """the cells of an actor reference for its shutdown result: the one its exit waiters read"""
    i = F.field(AR, 'shutdown_error')
    return ('fld', BASE, 0, i)


def in_field(v, key):
    return any(k == key for k in walk(v))


# ---- what a record says

def recorded(recs):
    """each way a record was written: (facts about the registered actor, its bytes, whether the id is known to be on this node)"""
    done = set()
    for o, E, v in recs:
        fs = {k: f for k, f in o.st.facts.items() if ('arg', 30) in set(walk(k)) and not any(x and x[0] in ('aw', 'c') for x in walk(k))}
        key = (repr(v), repr(sorted(fs.items(), key=repr)))
        if key in done:
            continue
        done.add(key)
        yield fs, v, o


def is_id(E, o, v, base):
    """v is the actor's id, the peer possibly resolved to this node's"""
    F = E.F
    v = collapse(E.norm(o.st, v))
    k = ('fld', base, 0, typed(F, AR, AID))
    if whole(E, v, k):
        return True
    if not is_adt(F, v, AID):
        return False
    g = fields(F, v)
    ks = {n: ('fld', k, 0, i) for i, n in enumerate(F.adts[AID]['v'][0]['f'])}
    for n, x in g.items():
        if whole(E, x, ks[n]):
            continue
        p = strip(x)
        f = o.st.facts.get(ks[n])
        own = p[0] == 'adt' and len(p[3]) == 1 and 'ACTOR_SWARM' in str(bases(p[3][0])) and f is not None and f[0] == 'adt' and F.variant(f[1], f[2]) == 'Local'
        if not own:
            return False
    return True


def is_remote_id(F, v):
    v = strip(v)
    while v[0] == 'adt' and len(v[3]) == 1:
        v = strip(v[3][0])
    return any(k[0] == 'const' and 'REMOTE_ID' in str(k[1]) for k in walk(v) if k) and not any(k and k[0] == 'arg' for k in walk(v))


def lookup(ctx, F, recs):
    # every answer of the swarm, whatever the record holds
    r = ctx.run('sa_lookup', **OPTS)
    seen = set()
    E = r.E
    aw0 = None
    for o in r.outs:
        if ended(o):
            continue
        if unbootstrapped(ctx, F, 'lookup', o, E):
            seen.add('unbootstrapped')
            continue
        if not ctx.need(o.kind == 'ret', 'own-error', 'lookup', 'a lookup panics', o, E):
            continue
        cmd, aw = commands(F, o), answer(o)
        if not ctx.need(len(cmd) == 1 and is_adt(F, cmd[0][3], CMD, 'Lookup') and aw is not None and names_name(fields(F, cmd[0][3])['key'], 0), 'found', 'lookup', 'the name is not looked up once', o, E):
            continue
        aw0 = aw
        f = o.st.facts.get(aw)
        if f is None or f[0] != 'adt':
            ctx.need(False, 'found', 'lookup', 'the answer is not looked at', o, E)
        elif f[2] == 1:
            failure(ctx, E, o, 'lookup', GETERR, aw, seen)
        else:
            v = ok(o.value)
            s = some(v) if v is not None else None
            if s is not None:
                seen.add('some')
                ctx.need(type_known(o, True), 'own-type', 'lookup', 'a reference is given without the type having been compared', o, E)
            elif v is not None:
                seen.add('none')
            else:
                seen.add('wrong type')
                ctx.need(is_adt(F, err(o.value), RERR, 'BadActorType'), 'own-error', 'lookup', 'a record of another type, or that cannot be read, gives %s' % names(F, o.value), o, E)
    ctx.need(seen >= {'unbootstrapped', 'NotFound', 'QuorumFailed', 'Timeout', 'some', 'none', 'wrong type'}, 'reached', 'lookup', 'not all situations were found: %s' % sorted(seen))
    # what a registration wrote
    n = 0
    for fs, val, src in recorded(recs):
        def setup(st):
            st.facts.update(fs)
            if any(k[0] == 'app' and k[1] == 'once_is' for k in src.st.facts):
                st.facts.update({k: f for k, f in src.st.facts.items() if k[0] == 'app' and k[1] == 'once_is' and 'ACTOR_SWARM' in str(k)})
        rec = make(F, RECORD, F.adts[RECORD]['v'][0]['n'], key=('arg', 40), value=val)
        pr = make(F, PEERREC, F.adts[PEERREC]['v'][0]['n'], key=('arg', 41), record=rec)
        q = ctx.run('sa_lookup', setup=setup, given={aw0: ('adt', RES, 0, (pr,))}, **OPTS)
        for o in q.outs:
            if ended(o):
                continue
            v = ok(o.value) if o.kind == 'ret' else None
            s = some(v) if v is not None else None
            if not ctx.need(s is not None, 'found', 'register+lookup', 'a registered actor is not found under its name: %s' % names(F, o.value), o, q.E):
                continue
            n += 1
            g = fields(F, s)
            i = [x for x in g.values() if is_id(q.E, o, x, BASE)]
            ctx.need(len(i) == 1, 'found', 'register+lookup', 'the reference found is not to the registered actor: %s' % names(F, s), o, q.E)
    ctx.need(n >= 2, 'reached', 'register+lookup', 'no registration is followed')


def type_known(o, want):
    """whether the type's remote id was compared equal on this path (or is what the record was made of)"""
    for k, f in o.st.facts.items():
        if isinstance(k, tuple) and k[0] == 'app' and k[1] in ('eq', 'ne') and any(x and x[0] == 'const' and 'REMOTE_ID' in str(x[1]) for x in walk(k)) and f[0] == 'int':
            if ((f[1] == 1) == (k[1] == 'eq')) == want:
                return True
    return False


def lookup_local(ctx, F):
    r = ctx.run('sa_lookup_local', **OPTS)
    E, seen = r.E, set()
    idf = bytype(F, REGN, 'ActorID')
    for o in r.outs:
        if ended(o):
            continue
        if unbootstrapped(ctx, F, 'lookup_local', o, E):
            seen.add('unbootstrapped')
            continue
        if not ctx.need(o.kind == 'ret', 'own-error', 'lookup_local', 'a lookup panics', o, E):
            continue
        cmd, aw = commands(F, o), answer(o)
        if not ctx.need(len(cmd) == 1 and is_adt(F, cmd[0][3], CMD, 'LookupLocal') and aw is not None and names_name(fields(F, cmd[0][3])['key'], 0), 'found', 'lookup_local', 'the name is not looked up once', o, E):
            continue
        ctx.need(not [c for c in changes(o) if ('static', REG) in bases(c[2])], 'found', 'lookup_local', 'a lookup changes the registry', o, E)
        f = o.st.facts.get(aw)
        v = ok(o.value)
        s = some(v) if v is not None else None
        get = [e for e in o.mon if e[0] == 'call' and e[1].endswith('HashMap::get') and ('static', REG) in bases(e[2][0])]
        down = [e for e in o.mon if e[0] == 'downref']
        if s is not None:
            seen.add('some')
            good = (len(get) == 1 and whole(E, strip(get[0][2][1]), ('fld', ('fld', aw, 1, 0), 0, idf)) and len(down) == 1 and down[0][1] == 'ok' and
                    get[0][3][1] in bases(down[0][2]) and bases(s) <= {get[0][3][1]} | {b for b in bases(s) if b[0] == 'app'})
            ctx.need(good and get[0][3][1] in {x for x in walk(s)}, 'found', 'lookup_local', 'the reference given is not the registered actor\'s: %s' % names(F, s), o, E)
            ctx.need(type_known(o, True), 'own-type', 'lookup_local', 'a reference is given without the type having been compared', o, E)
            ctx.need(len(down) == 1 and F.types[down[0][3]].get('n') == AR, 'own-type', 'lookup_local', 'the entry is not checked to be of the requested type', o, E)
            continue
        g = o.st.facts.get(get[0][3][1]) if get else None
        if f is not None and f[0] == 'adt' and f[2] == 0:
            case, want = 'no record', None
        elif type_known(o, False) and not down:
            case, want = 'other type', 'BadActorType'
        elif g is not None and g[0] == 'adt' and g[2] == 0:
            case, want = 'not registered', None
        elif any(d[1] == 'no' for d in down):
            case, want = 'other entry', 'BadActorType'
        else:
            ctx.need(False, 'found', 'lookup_local', 'a registered actor of the type asked for is not found', o, E)
            continue
        seen.add(case)
        if want:
            ctx.need(err(o.value) is not None and is_adt(F, err(o.value), RERR, want), 'own-error', 'lookup_local', '%s gives %s' % (case, names(F, o.value)), o, E)
        else:
            ctx.need(v is not None and is_none(v), 'own-error', 'lookup_local', '%s gives %s' % (case, names(F, o.value)), o, E)
    ctx.need(seen >= {'unbootstrapped', 'some', 'no record', 'other type', 'not registered', 'other entry'}, 'reached', 'lookup_local', 'not all situations were found: %s' % sorted(seen))


def handler(ctx, F, recs):
    """a local lookup is answered with what the record says; no record, or an unreadable one, with nothing"""
    kept = ('call', 'osend', 'panic')

    def base(st):
        st.facts[('arg', 2)] = command(F, ('arg', 2), 'LookupLocal')
    r = ctx.run('sw_cmd', keep=kept, setup=base, spawn='event', cap=4, octets=True, **HANDLE)
    E, seen, res = r.E, set(), None
    for o in r.outs:
        if is_none(o.value):
            continue
        rep = [e for e in o.mon if e[0] == 'osend']
        get = [e for e in o.mon if e[0] == 'call' and e[1] == SB + 'kademlia_get_record_local']
        if not ctx.need(o.kind == 'ret' and len(rep) == 1 and len(get) == 1, 'found', 'LookupLocal', 'a local lookup is not answered from the local store', o, E):
            continue
        res = get[0][3][1]
        f = o.st.facts.get(res)
        s = some(rep[0][2])
        if f is not None and f[0] == 'adt' and f[2] == 0:
            seen.add('none')
            ctx.need(is_none(rep[0][2]), 'found', 'LookupLocal', 'a name without a record is answered with one', o, E)
        elif s is not None:
            seen.add('some')
            ctx.need(res in set(walk(s)) or any('deref' == x[0] for x in walk(s) if x), 'found', 'LookupLocal', 'the answer is not what the record says', o, E)
    ctx.need(seen == {'none', 'some'}, 'reached', 'LookupLocal', 'not all situations were found: %s' % sorted(seen))
    n = 0
    for fs, val, src in recorded(recs):
        def setup(st):
            base(st)
            st.facts.update(fs)
        rec = make(F, RECORD, F.adts[RECORD]['v'][0]['n'], key=('arg', 40), value=val)
        q = ctx.run('sw_cmd', keep=kept, setup=setup, spawn='event', cap=4, octets=True, given={res: ('adt', OPT, 1, (('adt', 'alloc::borrow::Cow', 1, (rec,)),))}, **HANDLE)
        for o in q.outs:
            if is_none(o.value):
                continue
            rep = [e for e in o.mon if e[0] == 'osend']
            s = some(rep[0][2]) if len(rep) == 1 else None
            if not ctx.need(o.kind == 'ret' and s is not None, 'found', 'register+LookupLocal', 'a registered actor is not found under its name', o, q.E):
                continue
            n += 1
            g = fields(F, s)
            i = [x for x in g.values() if is_id(q.E, o, x, BASE)]
            j = [x for x in g.values() if is_remote_id(F, x)]
            ctx.need(len(i) == 1 and len(j) == 1, 'found', 'register+LookupLocal', 'what is found is not the registered actor and its type: %s' % names(F, s), o, q.E)
    ctx.need(n >= 2, 'reached', 'register+LookupLocal', 'no registration is followed')


def unregister(ctx, F):
    r = ctx.run('sa_unregister', **OPTS)
    E, seen = r.E, set()
    for o in r.outs:
        if ended(o):
            continue
        if not ctx.need(o.kind == 'ret', 'own-error', 'unregister', 'unregistering panics', o, E):
            continue
        aw = answer(o)
        cmd = commands(F, o)
        ctx.need(len(cmd) == 1 and is_adt(F, cmd[0][3], CMD, 'Unregister') and names_name(fields(F, cmd[0][3])['key'], 1), 'unregistered', 'unregister', 'not the name given is unregistered, once', o, E)
        f = o.st.facts.get(aw) if aw else None
        if not ctx.need(f is not None and f[0] == 'adt', 'own-error', 'unregister', 'the outcome is not looked at', o, E):
            continue
        if f[2] == 0:
            seen.add('ok')
            ctx.need(ok(o.value) is not None, 'own-error', 'unregister', 'an unregistration that was made gives %s' % names(F, o.value), o, E)
        else:
            failure(ctx, E, o, 'unregister', PUTERR, aw, seen)
    ctx.need(seen == {'ok', 'QuorumFailed', 'Timeout'}, 'reached', 'unregister', 'not all situations were found: %s' % sorted(seen))
    # over the network the name's record is replaced by an empty one, which no lookup takes for an actor
    k = ('arg', 2)

    def setup(st):
        st.facts[k] = command(F, k, 'Unregister')
    r = ctx.run('sw_cmd', keep=('call', 'netreq', 'panic'), setup=setup, spawn='event', cap=4, octets=True, **HANDLE)
    n = 0
    for o in r.outs:
        if is_none(o.value) or o.kind != 'ret':
            continue
        for e in o.mon:
            if e[0] == 'netreq':
                n += 1
                rec = [fields(F, strip(a)) for a in e[2] if is_adt(F, strip(a), RECORD)]
                good = len(rec) == 1 and same(strip(rec[0]['key']), field(F, CMD, 'Unregister', 'key', k)) and empty(rec[0]['value'])
                ctx.need(good, 'unregistered', 'Unregister', 'the record of the name is not replaced by an empty one', o, r.E)
    ctx.need(n > 0, 'reached', 'Unregister', 'no record is replaced')


def published(ctx, F):
    """connected to others the record is put, or replaced, in the network; alone it is kept, as nobody could confirm it"""
    k = ('arg', 2)
    for c in ('Register', 'Unregister'):
        def setup(st):
            st.facts[k] = command(F, k, c)
        r = ctx.run('sw_cmd', keep=('call', 'netreq', 'panic', 'osend'), setup=setup, spawn='event', cap=4, octets=True, **HANDLE)
        seen = set()
        for o in r.outs:
            if is_none(o.value) or o.kind != 'ret':
                continue
            net = [e for e in o.mon if e[0] == 'netreq']
            n = peers(r.E, o)
            if n is None and any(e[0] == 'call' and 'peer' in e[1].split('::')[-1] for e in o.mon):
                seen |= {'alone', 'connected'}      # told apart by something else than their number
                continue
            lo, hi = n or (0, 1)
            stored(ctx, r.E, o, c, net)
            if net:
                ctx.need(lo > 0, 'published', c, 'a node that may have no peers asks the network to store the record, which fails', o, r.E)
            else:
                ctx.need(hi == 0, 'published', c, 'the record is not given to the network although peers may be connected', o, r.E)
            seen.add('connected' if net else 'alone')
        ctx.need(seen == {'alone', 'connected'}, 'reached', c, 'not all situations were found: %s' % sorted(seen))


def stored(ctx, E, o, c, net):
    """alone: what is confirmed was done to the record of the command; connected: the record given to the network is that of the command"""
    F = E.F
    ans = [e for e in o.mon if e[0] == 'osend']
    calls = lambda *ns: [e for e in o.mon if e[0] == 'call' and e[1].split('::')[-1] in ns]
    good = [e for e in ans if ok(e[2]) is not None]
    if c == 'Register':
        rec = field(F, CMD, c, 'record', ('arg', 2))[1]
        put = calls('kademlia_put_record_local')
        if good:
            ctx.need(not net and len(put) == 1 and whole(E, strip(put[0][2][1]), rec), 'published', c, 'a registration is confirmed without the record having been stored', o, E)
        if net:
            ctx.need(len(net) == 1 and any(whole(E, strip(a), rec) for a in net[0][2]), 'published', c, 'not the record of the registration is given to the network, once', o, E)
    elif good:
        key = field(F, CMD, c, 'key', ('arg', 2))
        rem = calls('kademlia_remove_record', 'kademlia_remove_record_local')
        ctx.need(bool(rem) and all(same(strip(e[2][1]), key) for e in rem), 'published', c, 'an unregistration is confirmed without the record having been removed', o, E)


def empty(v):
    v = collapse(v)
    return v[0] in ('bytes', 'coll', 'vec') and not v[1] or v[0] == 'list' and not v[1] or v == ('bytes', ())
