"""Ambiguous remote ids are refused, never resolved to an arbitrary entry.

The routing tables are built by the initialisers of the statics the dispatch looks its functions up in (which statics: C35). Each is run
over every number of registered entries up to a bound, with symbolic ids and functions: what it returns must be exactly one entry per
registration with all ids pairwise different on that path; a path on which two ids are equal must panic, and only such a path may."""
from .wire import *
from .c35 import INT, MAPS

BOUND = {'quick': 4, 'thorough': 6}
SLICES = {'RemoteActorFns': INT + 'REMOTE_ACTORS', 'RemoteMessageFns': INT + 'REMOTE_MESSAGES'}
KEY = INT + 'RemoteMessageRegistrationID'


def initialiser(ctx, F, m):
    """the function the lazily built table is built by"""
    r = ctx.run(m, keep=('call',))
    made = [e for o in r.outs for e in o.mon if e[0] == 'call' and e[1].endswith('Lazy::new') or e[0] == 'call' and e[1].endswith('LazyLock::new')]
    if not ctx.need(len(made) == 1 and made[0][2][0][0] in ('clo', 'fn'), 'table', m.split('::')[-1], 'the table is not built by one initialiser'):
        return None
    v = made[0][2][0]
    c = r.E.callees[v[1]] if v[0] == 'fn' else None
    i = v[1] if v[0] == 'clo' else c.get('i')
    if i is None and c is not None:
        f = F.fn(c.get('rn') or c['n'])
        i = f['i'] if f else None
    if not ctx.need(i is not None, 'table', m.split('::')[-1], 'the initialiser of the table is not analysed'):
        return None
    return dict(n=F.body(i)['n'], i=i)


def entries(F, fns, n):
    ids = [('sym', ('arg', 50 + i)) for i in range(n)]
    if fns == 'RemoteMessageFns':
        ids = [('adt', KEY, 0, tuple(('sym', ('arg', 60 + 10 * i + j)) for j in range(len(F.adts[KEY]['v'][0]['f'])))) for i in range(n)]
    return ids, [('sym', ('arg', 150 + i)) for i in range(n)]


def check(ctx):
    F = ctx.facts('kameo')
    for m, ty in MAPS.items():
        table(ctx, F, m, ty.split('::')[-1])
    key(ctx, F)
    ctx.sample('for n registrations with ids i0..: returns {i_k -> f_k | k} only where every i_j != i_k; panics exactly where some i_j = i_k')
    ctx.assume('the linker collects every registration into the distributed slice (linkme)',
               'the initialiser treats entries alike: tables of up to %d entries stand for all' % BOUND['thorough' if ctx.tier == 'thorough' else 'quick'])


def table(ctx, F, m, fns):
    fn = initialiser(ctx, F, m)
    name = m.split('::')[-1]
    if fn is None:
        return
    for n in range(BOUND['thorough' if ctx.tier == 'thorough' else 'quick'] + 1):
        ids, vals = entries(F, fns, n)

        def setup(st):
            st.mem[('S', SLICES[fns])] = ('coll', tuple(('tup', iv) for iv in zip(ids, vals)))
        r = ctx.run(fn, keep=('panic',), maps=True, setup=setup, max_elems=n + 1, max_same=n + 2, max_coll=n + 1)
        E, inst = r.E, '%s/%d' % (name, n)
        seen = set()
        for o in r.outs:
            pairs = [(i, j) for i in range(n) for j in range(i)]
            same_ = [p for p in pairs if known(E, o, ids[p[0]], ids[p[1]]) is True]
            diff = [p for p in pairs if known(E, o, ids[p[0]], ids[p[1]]) is False]
            if o.kind == 'panic':
                seen.add('panic')
                ctx.need(same_, 'distinct-routable', inst, 'building the table panics although no two ids are the same', o, E)
                continue
            seen.add('ret')
            if not ctx.need(len(diff) == len(pairs), 'ambiguous-refused', inst, 'a table is built although two ids may be the same', o, E):
                continue
            v = E.norm(o.st, o.value)
            good = v[0] == 'map' and len(v[1]) == n and all(any(eqv(E, o, k, ids[i]) and eqv(E, o, x, vals[i]) for k, x in v[1]) for i in range(n))
            ctx.need(good, 'all-routable', inst, 'the table is not exactly the registered entries: %s' % names(F, v), o, E)
        ctx.need(seen == ({'ret', 'panic'} if n > 1 else {'ret'}), 'reached', inst, 'not all situations were found: %s' % sorted(seen))


def eqv(E, o, a, b):
    a, b = deref(E, o, a), deref(E, o, b)
    return collapse(a) == collapse(b)


def deref(E, o, v):
    v = E.norm(o.st, v)
    n = 0
    while v[0] == 'ref' and n < 4:
        v = E.norm(o.st, E.read(o.st, v[1], v[2]))
        n += 1
    return v


def known(E, o, a, b):
    """whether the path knows two ids to be the same (True) or different (False)"""
    for x, y in ((a, b), (b, a)):
        f = o.st.facts.get(('app', 'eq', (x, y)))
        if f is not None and f[0] == 'int':
            return f[1] == 1
        f = o.st.facts.get(('app', 'ne', (x, y)))
        if f is not None and f[0] == 'int':
            return f[1] == 0
    if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1] and a[3]:
        parts = [True if x == y else known(E, o, x, y) for x, y in zip(a[3], b[3])]
        if False in parts:
            return False
        if all(p is True for p in parts):
            return True
    return None


def key(ctx, F):
    """the key of a message handler is the pair of both ids"""
    ids, _ = entries(F, 'RemoteMessageFns', 2)

    def setup(st):
        st.mem[('G', 'a')], st.mem[('G', 'b')] = ids
    r = ctx.run('<%s as core::cmp::PartialEq>::eq' % KEY, keep=('panic',), args=[('ref', ('G', 'a'), ()), ('ref', ('G', 'b'), ())], setup=setup)
    seen = set()
    for o in r.outs:
        for truth in (0, 1):
            s = o.st.fork()
            v = r.E.norm(s, o.value)
            if v[0] == 'int' and v[1] != truth or v[0] == 'sym' and not r.E.refine(s, v[1], ('int', truth)):
                continue
            seen.add(truth)
            w = Known(s)
            parts = [known(r.E, w, x, y) for x, y in zip(ids[0][3], ids[1][3])]
            if truth:
                ctx.need(all(p is True for p in parts), 'key', 'message key', 'two handlers count as the same although only part of their ids is compared', o, r.E)
            else:
                ctx.need(any(p is False for p in parts), 'key', 'message key', 'two handlers of the same ids may count as different', o, r.E)
    ctx.need(seen == {0, 1}, 'reached', 'message key', 'not all situations were found: %s' % sorted(seen))


class Known:
    def __init__(self, st):
        self.st = st
