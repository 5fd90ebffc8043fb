"""Locks.  Every place in the crate where a lock is taken is followed from the public entry points that reach it, with an automaton of the
locks held: a second lock of the same kind is taken only where the path has compared the two owners' ids, in one and the same order at
every such place; locks of different kinds are nested without a cycle; and while a lock is held nothing is waited for but another lock,
and no hook, handler or callback runs.  (The lock inside a PanicError guards one error value and is not shared between actors' operations.)"""
import json
from .life import *

LOCKS = ('Mutex::lock', 'Mutex::blocking_lock', 'RwLock::read', 'RwLock::write', 'RwLock::blocking_read', 'RwLock::blocking_write', 'Mutex::lock_owned')
AR = 'kameo::actor::actor_ref::'
INT = 'kameo::remote::_internal::'
OWN = 'kameo::error::PanicError::'
MAX = 4


def is_lock(n):
    return n.endswith(LOCKS) and ('sync' in n or 'lock_api' in n or 'parking_lot' in n)


class Held:
    """(locks held as (kind, which, how), what went wrong)"""
    init = ((), None)

    def __init__(self, F):
        self.F = F
        self.kind = {}
        self.sites = set()
        self.edges = {}
        self.orders = {}

    def cls(self, ident, ty=None):
        if ty is not None:
            return self.F.ty_str(ty)
        return self.kind.get(strip(ident), '?')

    def event(self, E, st, ev, loc):
        held, bad = st.mon
        k = ev[0]
        if bad is not None:
            return st.mon
        if k == 'call' and is_lock(ev[1]):
            self.sites.add(loc)
            if len(ev) > 4 and ev[4]:
                self.kind[strip(ev[2][0])] = self.F.ty_str(ev[4][0])
            return st.mon
        if k == 'lock':
            if loc:
                self.sites.add(loc)
            c = self.cls(ev[1], ev[3] if len(ev) > 3 else None)
            me = strip(ev[1])
            for c0, i0, h0 in held:
                if i0 == me:
                    return (held, 'a lock is taken again while it is held')
                if h0 == 'std' and ev[2] == 'async':
                    return (held, 'a task is suspended waiting for a lock while it holds a thread-blocking one')
                if c0 == c:
                    d = self.order(st, i0, me)
                    if d is None:
                        return (held, 'a second lock of the same kind is taken without comparing the owners first')
                    self.orders.setdefault((c, d), loc)
                else:
                    self.edges.setdefault((c0, c), loc)
            if len(held) >= MAX:
                return (held, 'more than %d locks are held at once' % MAX)
            return (held + ((c, me, ev[2]),), None)
        if k == 'unlock':
            me = strip(ev[1])
            for j in range(len(held) - 1, -1, -1):
                if held[j][1] == me:
                    return (held[:j] + held[j + 1:], None)
            return st.mon
        if k == 'spawn' and E.spawn == 'only':
            return ((), None)
        if not held:
            return st.mon
        if k in ('await', 'recv', 'orecv', 'block_on', 'timeout', 'next_wait') or k == 'send' and ev[1] in ('async', 'blocking', 'timeout'):
            what = ev[1] if k == 'await' else {'recv': 'a message', 'orecv': 'a reply', 'send': 'room in a mailbox'}.get(k, k)
            if k == 'await' and is_lock(str(what)):
                return st.mon
            return (held, 'while holding a lock, %s is waited for' % what)
        if k == 'call' and ev[1] == 'fnptr':
            return (held, 'a callback runs while a lock is held')
        return st.mon

    def order(self, st, a, b):
        """how the owners of the two locks compare on this path: 'up' (first < second), 'down', or not known"""
        A, B = owners(a), owners(b)
        A, B = A - B, B - A
        for f, v in st.facts.items():
            if not (isinstance(f, tuple) and f[0] == 'app' and f[1] in ('lt', 'le', 'gt', 'ge') and len(f[2]) == 2 and v[0] == 'int'):
                continue
            x, y = f[2]
            if lossy(x) or lossy(y):
                continue
            lt = f[1] in ('lt', 'le')
            if v[1] == 0:
                lt = not lt
            if under(x, A) and under(y, B):
                return 'up' if lt else 'down'
            if under(x, B) and under(y, A):
                return 'down' if lt else 'up'
        return None


class Loop:
    """the same, counting the messages the loop was given"""
    init = ((), None, ())

    def __init__(self, h):
        self.h = h

    def event(self, E, st, ev, loc):
        m = st.mon
        st.mon = m[:2]
        try:
            n = self.h.event(E, st, ev, loc)
        finally:
            st.mon = m
        return n + ((m[2] + (ev,) if ev[0] == 'await' and ev[1] == NEXT else m[2]),)


def feed(kind):
    pick = choose(1, (kind, 'none'))

    def f(E, st, n, args):
        m = st.mon
        st.mon = m[2]
        try:
            out = pick(E, st, n, args)
            for s in out or ():
                s.mon = m
            return out
        finally:
            st.mon = m
    return f


def owners(v):
    """the values a lock is part of"""
    k = v[1] if v[0] == 'sym' else None
    out = set()
    while isinstance(k, tuple) and k[0] in ('fld', 'deref') and isinstance(k[1], tuple):
        k = k[1]
        out.add(k)
    return out


def under(v, own):
    return bool(own & keys_in(v))


# what two different ids may have in common, or what changes from one look to the next, orders nothing
LOSSY = {'Rem', 'Div', 'Shr', 'Shl', 'BitAnd', 'BitOr', 'BitXor', 'Mul', 'narrow', 'hash', 'lt', 'le', 'gt', 'ge', 'eq', 'not'}
LOSSY_END = ('strong_count', 'weak_count', '::len', '::finish', '::hash', 'capacity', 'abs_diff', 'leading_zeros', 'count_ones', 'is_none', 'is_some')


def lossy(v):
    return any(x[0] == 'app' and isinstance(x[1], str) and (x[1] in LOSSY or x[1].endswith(LOSSY_END)) for x in keys_in(v) if len(x) >= 3)


def keys_in(v):
    out = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            out.add(x)
            st.extend(x)
    return out


def short(c):
    import re
    return re.sub(r'[A-Za-z0-9_]+::', '', c)


def lock_sites(F):
    """source positions of the crate's blocking lock calls, per function"""
    out = {}
    for i, l in F._lines.items():
        if 'Mutex::' not in l and 'RwLock::' not in l:
            continue
        b = F.body(i)
        for blk in b['b']:
            t = blk[2]
            if not t or t[0] != 'call':
                continue
            c = t[1][1].get('c') if t[1][0] == 'k' else None
            if c and is_lock(c.get('rn') or c['n']) and '{closure' not in (c.get('rn') or ''):
                if b['n'].startswith(OWN):
                    continue
                if 'kscen' in b['n'] or '.cargo' in (t[7] or ''):
                    continue
                out.setdefault(t[7], b['n'])
    return out


def entries(F):
    out = [(n, {}) for n in ('l_link', 'l_unlink', 'l_blink', 'l_bunlink', 'lr_link', 'lr_unlink', 'lrr_link', 'lrr_unlink', 'l_died', 'l_died_weak')]
    out += [(n, {}) for n in F.by_name if n.startswith(INT) and n.count('::') == INT.count('::') and F.fn(n).get('pub')]
    for n in ('ActorRef::register', 'ActorRef::lookup', 'RemoteActorRef::lookup', 'WeakActorRef::upgrade'):
        if F.fn(AR + n):
            out.append((AR + n, {}))
    for n in ('ActorSwarm::register', 'ActorSwarm::lookup', 'ActorSwarm::lookup_local'):
        if F.fn('kameo::remote::swarm::' + n):
            out.append(('kameo::remote::swarm::' + n, {'spawn': 'follow'}))
    for n in ('handle_event', 'handle_command'):
        out.append(('kameo::remote::swarm::ActorSwarmHandler::' + n, {'spawn': 'event'}))
        out.append(('kameo::remote::swarm::ActorSwarmHandler::' + n, {'spawn': 'only'}))
    return out


def check(ctx):
    F = ctx.facts()
    mon = Held(F)
    done = 0

    def judge(r, name):
        for o in r.outs:
            held, bad = o.mon[:2]
            ctx.need(bad is None, 'no-wait-under-lock', name, bad or '', o, r.E)
            ctx.need(o.kind != 'ret' or not held or bad, 'released', name, 'returns with a lock held', o, r.E)
    for name, kw in entries(F):
        r = ctx.run(name, mon=mon, **kw)
        judge(r, name)
        done += 1
    # the life of an actor: around its loop, and the loop itself
    r = ctx.run('life_run', mon=mon, abortable='opaque', max_elems=1, no_panic=lambda n: True)
    judge(r, 'life_run')
    for kind in ('stop', 'startup', 'in', 'out', 'link'):
        r = ctx.run('life_run', mon=Loop(mon), abortable='only', max_elems=0, max_same=3, no_panic=lambda n: True, havoc=feed(kind), args=[arg(0), mb(ctx)])
        judge(r, 'message loop, ' + kind)
    # one global order
    for c in {c for c, d in mon.orders}:
        ds = sorted(d for cc, d in mon.orders if cc == c)
        ctx.need(len(ds) == 1, 'one-order', short(c), 'locks of this kind are taken in both orders: %s' % [(d, mon.orders[c, d]) for d in ds])
    adj = {}
    for a, b in mon.edges:
        adj.setdefault(a, set()).add(b)
    for a in adj:
        seen, stack = set(), list(adj[a])
        while stack:
            x = stack.pop()
            if x not in seen:
                seen.add(x)
                stack.extend(adj.get(x, ()))
        ctx.need(a not in seen, 'no-cycle', short(a), 'this kind of lock is taken while holding another kind, and the reverse: %s' % sorted((short(x), short(y), l) for (x, y), l in mon.edges.items()))
    # nothing left out
    sites = lock_sites(F)
    for loc, fn in sorted(sites.items()):
        ctx.need(loc in mon.sites, 'every-lock-analysed', fn + ' ' + loc.split(':')[-1], 'a lock taken here is not reached from any analysed entry point')
    ctx.need(len(sites) >= 10, 'every-lock-analysed', 'crate', 'the lock sites of the crate are not found')
    FA = ctx.facts('kameo_actors')
    more = {n for n in lock_sites(FA).values() if 'kameo_actors' in n}
    ctx.need(not more, 'every-lock-analysed', 'kameo_actors', 'locks are taken in %s' % sorted(more))
    ctx.sample('%d lock sites, %d entry points; nestings %s; same kind %s' % (len(sites), done + 2, sorted((short(a), short(b)) for a, b in mon.edges), sorted((short(c), d) for c, d in mon.orders)))
