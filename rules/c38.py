"""Losing the last connection to a peer tells every actor linked to an actor on it, and nobody else.

The handler of a closed connection is followed through the task it starts, over every pair of registered actors and every pair of
links of each: the comparison of a link's peer with the lost one decides whether that actor's own signal mailbox is given exactly one
"died, because the peer disconnected" for that link.  Actors that can have remote links are in the registry the handler walks."""
from .wire import *
from .c24 import changes, table_of, typed, AR, LINK, AID
from .c35 import kind_key, KIND_
from .c33 import Hand

REG, ENTRY = 'kameo::remote::REMOTE_REGISTRY', 'kameo::remote::RemoteRegistryActorRef'
REASON = 'kameo::error::ActorStopReason'
SLD = 'kameo::mailbox::SignalMailbox::signal_link_died'


def check(ctx):
    F = ctx.facts('kameo')
    lost(ctx, F)
    remaining(ctx, F)
    listed(ctx, F)
    m = Hand(F)
    ctx.run('sa_run', mon=m, opaque=lambda n: n.endswith('::handle_command') or n.endswith('::handle_event'), spawn='inline', hook_panics=False, max_same=1)
    for b in sorted(set(m.bad)):
        ctx.need('event' not in b, 'handed-on', 'run', b)
    ctx.need(m.n['event'] > 3, 'handed-on', 'run', 'the swarm task does not handle events')
    ctx.sample('sw_event: ConnectionClosed{num_established: 0}: REMOTE_REGISTRY x links -> signal_mailbox.signal_link_died(linked id, PeerDisconnected)')
    ctx.assume('the removal of a link when its notification is handled is decided under C23', 'at most two registered actors and two links of each are enumerated')


def bytype(F, ty, part):
    """the field whose type names `part`"""
    return next(i for i, t in enumerate(F.adts[ty]['v'][0]['t']) if part in F.ty_str(t))


def closed(F, zero):
    z = field(F, EVENT, 'ConnectionClosed', 'num_established', ('arg', 2))

    def setup(st):
        st.facts[('arg', 2)] = make(F, EVENT, 'ConnectionClosed', key=('arg', 2))
        st.facts[z[1]] = ('int', 0) if zero else ('ne', frozenset([0]))
    return setup


def within(k, p):
    """a symbol key somewhere inside k satisfies p"""
    while isinstance(k, tuple):
        if p(k):
            return k
        k = next((x for x in k[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)), None) if k[0] != 'app' else (k[2][0][1] if k[2] and k[2][0][0] == 'sym' else None)
    return None


def elems(o):
    """(registered actors visited, links visited with the actor they are of, whether a walk ended early)"""
    regs, links, ends, walked = [], [], {}, set()
    for e in o.mon:
        if e[0] != 'next' or not isinstance(e[1], tuple):
            continue
        if ('static', REG) not in bases(e[1]):
            continue
        src = strip(e[1])
        if src[0] != 'sym' or src[1][0] != 'app' or not str(src[1][1]).startswith('iter'):
            continue            # a list made on the way
        owner = None
        if src[0] == 'sym':
            owner = within(src[1][2][0][1] if src[1][0] == 'app' and src[1][2] and src[1][2][0][0] == 'sym' else src[1], lambda k: k[0] == 'app' and k[1] == 'elem')
        s = strip(e[2]) if isinstance(e[2], tuple) else e[2]
        none = s == 'none' or not isinstance(s, tuple) or s[0] != 'sym'
        ends[repr(src)] = none
        walked.add(owner)
        if none:
            continue
        (regs if owner is None else links).append((s[1], owner))
    return regs, links, [k for k, v in ends.items() if not v] or None in walked and [k for k, _ in regs if k not in walked] or ([] if None in walked else ['registry'])


def item(E, o, k, ty):
    """the keys under which the visited item can be named: itself, behind a reference, or the value/key of a pair"""
    return [k, ('deref', k)] + [x for i in (0, 1) for x in (('fld', k, 0, i), ('deref', ('fld', k, 0, i)))]


def compared(E, o, key):
    """whether the peer of the id under `key` is the one whose connection closed, on this path; None: not examined"""
    F = E.F
    peer = field(F, EVENT, 'ConnectionClosed', 'peer_id', ('arg', 2))
    kk = kind_key(F, key)
    f = o.st.facts.get(kk)
    if f is None or f[0] != 'adt':
        return None
    if f[2] == vidx(F, KIND_, 'PeerId'):
        other = [('sym', ('fld', kk, f[2], 0))]
        local = False
    else:
        other, local = [], True
    for k, g in o.st.facts.items():
        if isinstance(k, tuple) and k[0] == 'app' and k[1] in ('eq', 'ne') and len(k[2]) == 2 and g[0] == 'int':
            for x, y in (k[2], k[2][::-1]):
                if same(strip(x), peer) and (any(same(strip(y), p) for p in other) or local and 'ACTOR_SWARM' in str(bases(y))):
                    return (g[1] == 1) == (k[1] == 'eq')
    return 'own' if local else None


def lost(ctx, F):
    r = ctx.run('sw_event', keep=('call', 'await', 'send', 'panic', 'spawn', 'spawned', 'next', 'lock', 'unlock', 'once_get'), setup=closed(F, True), spawn='inline', cap=8, **HANDLE)
    told = untold = both = 0
    mix = bytype(F, ENTRY, 'SignalMailbox')
    for o in r.outs:
        E = r.E
        if is_none(o.value):
            continue
        if not ctx.need(o.kind == 'ret' and not any(e[0] == 'panic' or e[0] == 'spawned' and e[-1] == 'panic' for e in o.mon), 'told', 'lost', 'handling a lost peer panics', o, E):
            continue
        regs, links, early = elems(o)
        if not ctx.need(not early, 'told', 'lost', 'not every registered actor and link is looked at', o, E):
            continue
        sig = []
        for i, e in enumerate(o.mon):
            if e[0] == 'call' and e[1] == SLD:
                sig.append(e)
                fin = [a for a in o.mon[i:] if a[0] == 'await' and a[3][0] == 'sym' and e[3] is not None and bases(a[2] if isinstance(a[2], tuple) and a[2] and isinstance(a[2][0], str) else a[3]) & bases(e[3])]
                fin = fin or [a for a in o.mon[i:] if a[0] == 'await' and str(e[3][1]) in str(a[3])]
                ctx.need(len(fin) > 0, 'told', 'lost', 'the notification is made but not carried out', o, E)
        used = set()
        unknown = sum(1 for e in o.mon if e[0] == 'once_get' and 'ACTOR_SWARM' in str(e[1]) and e[2] == 'none')     # this node has no peer id yet
        for k, owner in links:
            lost_ = None
            for key in item(E, o, k, AID):
                lost_ = compared(E, o, key)
                if lost_ is not None:
                    break
            mine = [n for n, e in enumerate(sig) if any(same(strip(e[2][1]), ('sym', key)) for key in item(E, o, k, AID))]
            used |= set(mine)
            local = (o.st.facts.get(kind_key(F, key)) or (0, 0, 0))[2] == vidx(F, KIND_, 'Local')
            if lost_ == 'own' or local and lost_ and not mine and unknown:
                lost_, unknown = (False, unknown - 1) if unknown else (None, 0)
            if lost_ is None:
                ctx.need(not mine, 'told', 'lost', 'an actor is told without the peer of its link being compared', o, E)
                ctx.need(bool(mine), 'told', 'lost', 'a link is not examined', o, E)
                continue
            if lost_:
                told += 1
                if not ctx.need(len(mine) == 1, 'told', 'lost', 'an actor linked to an actor on the lost peer is told %d times' % len(mine), o, E):
                    continue
                e = sig[mine[0]]
                boxes = [('fld', p, 0, mix) for p in item(E, o, owner, ENTRY)]
                ctx.need(any(b in boxes for b in chain(strip(e[2][0]))), 'told', 'own-mailbox', 'the notification does not go to the actor whose link died', o, E)
                ctx.need(is_adt(F, strip(e[2][2]), REASON, 'PeerDisconnected'), 'told', 'reason', 'the reason given is %s' % names(F, strip(e[2][2])), o, E)
                own = [a for a in o.mon if a[0] in ('lock', 'unlock')]
            else:
                untold += 1
                ctx.need(not mine, 'untouched', 'lost', 'an actor is told that a link to another peer died', o, E)
        ctx.need(used == set(range(len(sig))), 'untouched', 'lost', 'a notification is sent for something that is no link', o, E)
        ctx.need(not any(e[0] == 'call' and 'HashMap::' in e[1] and e[1].split('::')[-1] in ('insert', 'remove', 'clear', 'retain', 'drain', 'entry') for e in o.mon), 'untouched', 'lost',
                 'a table is changed besides', o, E)
        # nobody waits for another actor's mailbox while the registry or a link table is locked
        held = set()
        for e in o.mon:
            if e[0] == 'lock':
                held.add(repr(e[1]))
            elif e[0] == 'unlock':
                held.discard(repr(e[1]))
            elif e[0] == 'await' and e[3][0] == 'sym' and any(str(s[3][1]) in str(e[3]) for s in sig):
                ctx.need(not held, 'told', 'held', 'the registry or a link table is locked while waiting for a mailbox', o, E)
        both = max(both, len({w for _, w in links}))
    ctx.need(told > 4 and untold > 4 and both > 1, 'told', 'lost', 'not all situations were found: %s' % ((told, untold, both),))


def chain(v):
    """the symbol keys a value is under"""
    k = v[1] if v[0] == 'sym' else None
    while isinstance(k, tuple):
        yield k
        k = k[1] if len(k) > 1 and isinstance(k[1], tuple) else None


def remaining(ctx, F):
    r = ctx.run('sw_event', keep=('call', 'send', 'panic', 'spawn', 'osend'), setup=closed(F, False), spawn='event', cap=4, **HANDLE)
    done = 0
    for o in r.outs:
        if is_none(o.value):
            continue
        done += 1
        ctx.need(o.kind == 'ret' and not any(e[0] in ('send', 'panic', 'spawn', 'osend') or e[0] == 'call' and e[1] == SLD for e in o.mon), 'remaining', 'event',
                 'something happens although connections to the peer remain', o, r.E)
    ctx.need(done > 0, 'remaining', 'event', 'the event is never handled')


def listed(ctx, F):
    """an actor that gets a remote link is in the registry, under its own id with its own mailbox and links"""
    base = ('deref', ('arg', 0))
    lix = bytype(F, AR, '::Links')
    r = ctx.run('lr_link', keep=('call', 'await', 'panic', 'once_get', 'lock', 'unlock'), maps=True)
    n = 0
    for o in r.outs:
        ch = changes(o)
        mine = [c for c in ch if table_of(F, c[2], base, lix) and c[1] == 'insert']
        regs = [c for c in ch if ('static', REG) in bases(c[2])]
        for c in mine:
            if not is_adt(F, strip(c[3][1]), LINK, 'Remote'):
                continue
            n += 1
            dead = [k for k, f in o.st.facts.items() if isinstance(k, tuple) and k[0] == 'app' and k[1] == 'once_is' and 'shutdown' in str(k) + fieldname(F, k) and f == ('int', 1)]
            before = [g for g in regs if g[1] == 'insert' and g[0] < c[0]]
            if not ctx.need(before or dead, 'listed', 'link_remote', 'an actor gets a remote link without being registered', o, r.E):
                continue
            for g in before[:1]:
                entry(ctx, r.E, o, g, base, 'listed', 'link_remote')
    ctx.need(n > 0, 'listed', 'link_remote', 'no remote link is ever made')


def entry(ctx, E, o, g, base, rule, inst):
    """what was inserted into the registry is the entry of the actor whose reference is at `base`"""
    F = E.F
    e = fields(F, strip(g[3][1]))
    names_ = F.adts[ENTRY]['v'][0]['f']
    ctx.need(whole(E, strip(g[3][0]), ('fld', base, 0, typed(F, AR, AID))), rule, inst, 'the actor is registered under another id', o, E)
    for part, what, i in (('::Links', 'links', bytype(F, AR, '::Links')), ('SignalMailbox', 'mailbox', bytype(F, AR, '::MailboxSender'))):
        v = e.get(names_[bytype(F, ENTRY, part)])
        ctx.need(('fld', base, 0, i) in walk(v) and not any(k and k[0] == 'arg' and k != ('arg', base[1][1]) for k in walk(v)), rule, inst, 'the entry has another actor\'s %s' % what, o, E)
    v = strip(e.get(names_[bytype(F, ENTRY, 'dyn core::any::Any')]))
    ctx.need(same(v, ('sym', base)) or is_adt(F, v, AR) and whole(E, v, base), rule, inst, 'the entry is for another actor', o, E)


def fieldname(F, k):
    i = F.field(AR, 'shutdown_error')
    return 'shutdown' if any(isinstance(x, tuple) and len(x) == 4 and x[0] == 'fld' and x[3] == i for x in walk(k)) else ''


def walk(k):
    if isinstance(k, tuple):
        yield k
        for x in k:
            yield from walk(x)
