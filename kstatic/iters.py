"""Contracts of iterators, vectors and maps.

Iterators are values: ('iter', elements) or ('adapt', kind, inner, closure-or-extra), advanced by `pull`, which runs closures in place
and delivers ('pulled', iterator', Option).  An iterator over an unknown collection yields up to max_elems unknown elements.
Vectors are ('coll', elements), maps ('map', ((key, value), ...)); references into them are paths ending in ('e', index)."""
import itertools
from . import engine as EN
from . import models as M
from .models import model, MODELS, OPT, RES
ORD = 'core::cmp::Ordering'

IT = 'core::iter::traits::'
CF = 'core::ops::control_flow::ControlFlow'
ENTRY = 'MapEntry'
COLLS = ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque', 'futures_util::stream::futures_unordered::FuturesUnordered',
         'futures_util::stream::futures_ordered::FuturesOrdered', 'smallvec::SmallVec')
MAPS = ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap', 'hashbrown::map::HashMap')
SETS = ('std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet', 'hashbrown::set::HashSet')


def native(v):
    if v[0] in ('iter', 'adapt'):
        return True
    if v[0] == 'adt' and v[1] in ('IterU', 'core::ops::range::Range'):
        return True
    return v[0] == 'sym' and v[1][0] == 'app' and v[1][1].startswith('iter:')


def as_native(E, st, v):
    v = E.norm(st, v)
    if native(v):
        if v[0] == 'adt' and v[1] == 'core::ops::range::Range':
            a, b = E.norm(st, v[3][0]), E.norm(st, v[3][1])
            if a[0] == 'int' and b[0] == 'int' and b[1] - a[1] <= 32:
                return ('iter', tuple(('int', i) for i in range(a[1], b[1])))
        return v
    if v[0] in ('ref', 'dref') and native(E.read(st, v[1], v[2])):
        return ('adapt', 'by_ref', v, None)
    if v[0] == 'coll':
        return ('iter', v[1])
    if v[0] == 'map':
        return ('iter', tuple(('tup', kv) for kv in v[1]))
    if v[0] == 'adt' and v[1] == OPT:
        return ('iter', v[3])
    if v[0] == 'arr':
        return ('iter', v[1])
    return None


def with_ops(ctx, *ops):
    return (ctx[0], ctx[1], ctx[2], tuple(ops) + ctx[3])


def callf(E, st, f, args, ctx, root):
    """call a closure kept at `root` (its captured state persists there)"""
    f = E.norm(st, f)
    k = 0
    sref = None
    while f[0] in ('ref', 'dref', 'box', 'dynv') and k < 6:
        k += 1
        if f[0] in ('ref', 'dref'):
            sref = ('ref', f[1], f[2])
            f = E.read(st, f[1], f[2])
        else:
            if sref is not None and f[0] == 'box':
                sref = ('ref', sref[1], sref[2] + (('b',),))
            f = E.norm(st, f[1])
    if f[0] == 'clo':
        if sref is None:
            st.mem[root] = f
            sref = ('ref', root, ())
        return E.call_closure(st, f, args, ctx, None, None, sref)
    return E.invoke(st, f, args, ctx, None, None)


def froot(st):
    i = 0
    while ('T', len(st.frames), 'itf', i) in st.mem:
        i += 1
    return ('T', len(st.frames), 'itf', i)


def xroot(st, x):
    i = 0
    while ('T', len(st.frames), 'itx', i) in st.mem:
        i += 1
    r = ('T', len(st.frames), 'itx', i)
    st.mem[r] = x
    return r


def after(st, root, f):
    """the closure after a call: its state is what is left at root"""
    f2 = st.mem.pop(root, None)
    return f2 if f2 is not None and f[0] == 'clo' else f


def clean(it):
    """('adapt', ..., range) values know their integers"""
    return it


# ---------------------------------------------------------------------- pulling
def pull(E, st, it, ctx):
    def done(s, it2, opt):
        return E.finish(s, ('pulled', it2, opt), ctx)
    it = as_native(E, st, it) or it
    k = it[0]
    if k == 'iter':
        if not it[1]:
            return done(st, it, EN.NONE())
        return done(st, ('iter', it[1][1:]), EN.SOME(it[1][0]))
    if k == 'adapt':
        kind, inner, f = it[1], it[2], it[3]
        if kind == 'by_ref':
            r, p = inner[1], inner[2]
            return pull(E, st, E.read(st, r, p), with_ops(ctx, ('it_p', 'by_ref', inner, None)))
        if kind == 'chain':
            return pull(E, st, inner, with_ops(ctx, ('it_p', kind, f, None)))
        if kind == 'take' and f[0] == 'int' and f[1] == 0:
            return done(st, it, EN.NONE())
        if kind == 'peeked':
            return done(st, inner, f)
        return pull(E, st, inner, with_ops(ctx, ('it_p', kind, f, None)))
    # an unknown collection
    n = 0
    if k == 'adt' and it[1] == 'IterU':
        n, src = it[2], it[3][0]
    else:
        src = EN.collapse(it)
    s2 = st.fork()
    E.emit(s2, ('next', src, 'none'), None)
    outs = done(s2, it, EN.NONE())
    if n >= E.max_elems:
        return outs
    el = ('sym', ('app', 'elem', (src, ('int', n))))
    E.emit(st, ('next', src, el), None)
    return outs + done(st, ('adt', 'IterU', n + 1, (src,)), EN.SOME(el))


def op_pulled(E, st, op, v, ctx):
    """the inner iterator of an adapter delivered"""
    kind, f = op[1], op[2]
    inner, opt = v[1], v[2]

    def done(s, it2, o):
        return E.finish(s, ('pulled', it2, o), ctx)
    if kind == 'by_ref':
        E.write(st, f[1], f[2], inner)
        return done(st, ('adapt', 'by_ref', f, None), opt)
    if opt[2] == 0:
        if kind == 'chain':
            return pull(E, st, f, ctx)
        if kind == 'flatten' and f is not None:
            return pull(E, st, f, ctx)
        return done(st, ('adapt', kind, inner, f), opt)
    x = opt[3][0]
    if kind == 'chain':
        return done(st, ('adapt', 'chain', inner, f), opt)
    if kind == 'enumerate':
        i = f if f is not None else ('int', 0)
        return done(st, ('adapt', kind, inner, ('int', i[1] + 1)), EN.SOME(('tup', (i, x))))
    if kind == 'take':
        n = ('int', f[1] - 1) if f[0] == 'int' else f
        return done(st, ('adapt', kind, inner, n), opt)
    if kind == 'skip':
        if f[0] == 'int' and f[1] > 0:
            return pull(E, st, ('adapt', 'skip', inner, ('int', f[1] - 1)), ctx)
        return done(st, ('adapt', kind, inner, f), opt)
    if kind in ('fuse', 'peekable'):
        return done(st, ('adapt', kind, inner, f), opt)
    if kind in ('cloned', 'copied'):
        return done(st, ('adapt', kind, inner, f), EN.SOME(M.dv1(E, st, x)))
    if kind == 'zip':
        return pull(E, st, f, with_ops(ctx, ('it_z', inner, x)))
    if kind == 'flatten':
        # x is itself an iterable; what remains of the outer one comes after it
        y = as_iter(E, st, x)
        if y is None:
            return done(st, ('adapt', kind, inner, f), EN.SOME(('sym', ('app', 'flat', (EN.collapse(x),)))))
        return pull(E, st, ('adapt', 'chain', y, ('adapt', 'flatten', inner, f)), ctx)
    root = froot(st)
    if kind in ('filter', 'take_while', 'skip_while', 'inspect'):
        a = ('ref', xroot(st, x), ())
        c2 = with_ops(ctx, ('it_f', kind, inner, f, x, root, a[1]))
    else:
        a = x
        c2 = with_ops(ctx, ('it_f', kind, inner, f, x, root, None))
    return callf(E, st, f, [a], c2, root)


def as_iter(E, st, x):
    x = E.norm(st, x)
    y = as_native(E, st, x)
    if y is not None:
        return y
    if x[0] in ('ref', 'dref'):
        z = E.read(st, x[1], x[2])
        if z[0] in ('coll', 'map'):
            return refs(z, x[1], x[2])
    return None


def refs(z, r, p, what='both'):
    if z[0] == 'coll':
        return ('iter', tuple(('ref', r, p + (('e', i),)) for i in range(len(z[1]))))
    out = []
    for i in range(len(z[1])):
        kr, vr = ('ref', r, p + (('k', i),)), ('ref', r, p + (('e', i),))
        out.append(kr if what == 'keys' else vr if what == 'values' else ('tup', (kr, vr)))
    return ('iter', tuple(out))


def op_closure(E, st, op, v, ctx):
    """the closure of an adapter returned"""
    _, kind, inner, f, x, root, xr = op
    f = after(st, root, f)
    if xr is not None:
        x = st.mem.pop(xr, x)

    def done(s, it2, o):
        return E.finish(s, ('pulled', it2, o), ctx)
    again = ('adapt', kind, inner, f)
    if kind == 'map':
        return done(st, again, EN.SOME(v))
    if kind == 'inspect':
        return done(st, again, EN.SOME(x))
    outs = []
    if kind in ('filter', 'take_while', 'skip_while'):
        for s, b in truth(E, st, v):
            if kind == 'filter':
                outs += done(s, again, EN.SOME(x)) if b else pull(E, s, again, ctx)
            elif kind == 'take_while':
                outs += done(s, again, EN.SOME(x)) if b else done(s, ('iter', ()), EN.NONE())
            else:
                outs += pull(E, s, again, ctx) if b else done(s, inner, EN.SOME(x))
        return outs
    if kind in ('filter_map', 'map_while'):
        for s, a in variants(E, st, v, OPT, 2):
            if a[2] == 1:
                outs += done(s, again, a)
            elif kind == 'filter_map':
                outs += pull(E, s, again, ctx)
            else:
                outs += done(s, ('iter', ()), EN.NONE())
        return outs
    if kind == 'flat_map':
        y = as_iter(E, st, v)
        if y is None:
            return done(st, again, EN.SOME(('sym', ('app', 'flat', (EN.collapse(v),)))))
        return pull(E, st, ('adapt', 'chain', y, again), ctx)
    raise AssertionError(kind)


def op_zip(E, st, op, v, ctx):
    inner, x = op[1], op[2]
    it2, opt = v[1], v[2]
    z = ('adapt', 'zip', inner, it2)
    return E.finish(st, ('pulled', z, opt if opt[2] == 0 else EN.SOME(('tup', (x, opt[3][0])))), ctx)


def truth(E, st, v):
    """the boolean v on this path: [(state, bool)]"""
    v = E.norm(st, v)
    if v[0] == 'int':
        return [(st, bool(v[1]))]
    out = []
    s2 = st.fork()
    if E.refine_v(s2, v, ('int', 1)):
        out.append((s2, True))
    if E.refine_v(st, v, ('int', 0)):
        out.append((st, False))
    return out


def variants(E, st, v, ty, n):
    v = E.norm(st, v)
    if v[0] == 'adt':
        return [(st, v)]
    if v[0] != 'sym':
        v = ('sym', ('val', v))
    out = []
    for i in range(n):
        a = E.expand(v[1], ty, i)
        s = st.fork()
        if E.refine(s, v[1], a):
            out.append((s, a))
    return out


# ---------------------------------------------------------------------- adapters
def adapter(kind, nargs=1):
    def f(E, st, n, c, args, ctx, dty, loc):
        it = as_native(E, st, args[0])
        if it is None:
            return None
        extra = E.norm(st, args[1]) if nargs == 2 else None
        if kind in ('chain', 'zip'):
            extra = as_iter(E, st, args[1])
            if extra is None:
                return None
        if kind == 'peekable' or kind == 'fuse':
            return E.finish(st, it, ctx)
        if kind == 'rev':
            r = reverse(it)
            return E.finish(st, r, ctx) if r is not None else None
        return E.finish(st, ('adapt', kind, it, extra), ctx)
    return f


def reverse(it):
    if it[0] == 'iter':
        return ('iter', it[1][::-1])
    if it[0] == 'adapt' and it[1] in ('map', 'filter', 'filter_map', 'cloned', 'copied', 'inspect'):
        x = reverse(it[2])
        return ('adapt', it[1], x, it[3]) if x is not None else None
    if it[0] == 'sym' or it[0] == 'adt' and it[1] == 'IterU':
        return it
    return None


ADAPT = {'map': 2, 'filter': 2, 'filter_map': 2, 'flat_map': 2, 'take_while': 2, 'skip_while': 2, 'map_while': 2, 'inspect': 2, 'enumerate': 1,
         'cloned': 1, 'copied': 1, 'chain': 2, 'zip': 2, 'take': 2, 'skip': 2, 'flatten': 1, 'fuse': 1, 'peekable': 1, 'rev': 1}
ADAPTERS = {k: adapter(k, n) for k, n in ADAPT.items()}


# ---------------------------------------------------------------------- consumers
def consumer(kind):
    def f(E, st, n, c, args, ctx, dty, loc):
        place = None
        it = None
        a0 = E.norm(st, args[0])
        if a0[0] in ('ref', 'dref') and native(E.read(st, a0[1], a0[2])) and kind in BYMUT:
            place = (a0[1], a0[2])
            it = as_native(E, st, E.read(st, *place))
        else:
            it = as_native(E, st, a0)
        if it is None:
            return None
        fn = E.norm(st, args[-1]) if kind in WITHF else None
        acc = None
        if kind in ('fold', 'try_fold'):
            acc = args[1]
        if kind == 'nth':
            acc = E.norm(st, args[1])
            if acc[0] != 'int':
                return None
        if kind in ('collect', 'sum', 'count', 'min_by_key', 'max_by_key', 'last', 'partition', 'max', 'min', 'join_all', 'try_join_all'):
            acc = ()
        if kind == 'position':
            acc = 0
        return consume(E, st, kind, it, acc, fn, place, (dty, loc), ctx)
    return f


BYMUT = {'find', 'find_map', 'any', 'all', 'position', 'try_fold', 'try_for_each', 'nth', 'next', 'by_ref'}
WITHF = {'find', 'find_map', 'any', 'all', 'position', 'try_fold', 'try_for_each', 'fold', 'for_each', 'min_by_key', 'max_by_key', 'partition', 'reduce', 'min_by', 'max_by'}


def consume(E, st, kind, it, acc, f, place, info, ctx):
    return pull(E, st, it, with_ops(ctx, ('it_c', kind, acc, f, place, info)))


def final(E, st, kind, acc, info):
    if kind in ('find', 'find_map', 'position', 'nth'):
        return EN.NONE()
    if kind in ('reduce', 'min_by', 'max_by'):
        return EN.NONE() if acc is None else EN.SOME(acc)
    if kind == 'any':
        return EN.FALSE
    if kind == 'all':
        return EN.TRUE
    if kind == 'fold':
        return acc
    if kind == 'for_each':
        return EN.UNIT
    if kind == 'count':
        return ('int', len(acc))
    if kind == 'last':
        return EN.SOME(acc[-1]) if acc else EN.NONE()
    if kind in ('try_fold', 'try_for_each'):
        return cont(E, info[0], acc if kind == 'try_fold' else EN.UNIT)
    if kind == 'join_all':
        return ('fut', 'join_all', acc, E.fresh(st)[1])
    if kind == 'try_join_all':
        return ('fut', 'joined', ('try_coll',) + tuple(acc), E.fresh(st)[1])
    return None


def cont(E, dty, v):
    t = E.F.types[dty] if dty is not None else {'k': '?'}
    if t.get('n') == OPT:
        return EN.SOME(v)
    if t.get('n') == CF:
        return ('adt', CF, 0, (v,))
    return EN.OK(v)


def op_consume(E, st, op, v, ctx):
    _, kind, acc, f, place, info = op
    it, opt = v[1], v[2]
    if place is not None:
        E.write(st, place[0], place[1], it)
    if opt[2] == 0:
        if kind == 'collect':
            return gather(E, st, acc, info, ctx)
        if kind in ('min_by_key', 'max_by_key', 'min', 'max'):
            return extreme(E, st, kind, acc, ctx)
        if kind == 'partition':
            return E.finish(st, ('tup', (('coll', tuple(x for x, b in acc if b)), ('coll', tuple(x for x, b in acc if not b)))), ctx)
        if kind == 'sum':
            if all(x[0] == 'int' for x in acc):
                return E.finish(st, ('int', sum(x[1] for x in acc)), ctx)
            return E.finish(st, ('sym', ('app', 'sum', tuple(map(EN.collapse, acc)))), ctx)
        return E.finish(st, final(E, st, kind, acc, info), ctx)
    x = opt[3][0]
    if kind == 'collect':
        acc2 = acc + (x,)
        if len(acc2) > max(E.max_coll, 4):
            return []
        return consume(E, st, kind, it, acc2, f, place, info, ctx)
    if kind in ('count', 'last', 'sum', 'min', 'max', 'join_all', 'try_join_all'):
        return consume(E, st, kind, it, acc + (M.dv1(E, st, x) if kind == 'sum' else x,), f, place, info, ctx)
    if kind == 'nth':
        if acc[1] == 0:
            return E.finish(st, EN.SOME(x), ctx)
        return consume(E, st, kind, it, ('int', acc[1] - 1), f, place, info, ctx)
    if kind in ('reduce', 'min_by', 'max_by') and acc is None:
        return consume(E, st, kind, it, x, f, place, info, ctx)
    root = froot(st)
    xr = None
    if kind in ('find', 'min_by_key', 'max_by_key', 'partition'):
        xr = xroot(st, x)
        args = [('ref', xr, ())]
    elif kind in ('fold', 'try_fold', 'reduce'):
        args = [acc, x]
    elif kind in ('min_by', 'max_by'):
        xr = (xroot(st, acc), xroot(st, x))
        args = [('ref', r, ()) for r in xr]
    else:
        args = [x]
    return callf(E, st, f, args, with_ops(ctx, ('it_d', kind, acc, f, place, info, x, it, root, xr)), root)


def op_consumed(E, st, op, v, ctx):
    _, kind, acc, f, place, info, x, it, root, xr = op
    f = after(st, root, f)
    if kind in ('min_by', 'max_by'):
        acc, x = st.mem.pop(xr[0], acc), st.mem.pop(xr[1], x)
    elif xr is not None:
        x = st.mem.pop(xr, x)

    def more(s, a):
        return consume(E, s, kind, it, a, f, place, info, ctx)
    if kind in ('fold', 'reduce'):
        return more(st, v)
    if kind == 'for_each':
        return more(st, acc)
    if kind in ('min_by_key', 'max_by_key'):
        return more(st, acc + ((x, v),))
    outs = []
    if kind in ('min_by', 'max_by'):
        # of equal elements the first is the least, the last the greatest
        for s, a in variants(E, st, v, ORD, 3):
            outs += more(s, x if (a[2] == 2 if kind == 'min_by' else a[2] < 2) else acc)
        return outs
    if kind == 'partition':
        for s, b in truth(E, st, v):
            outs += more(s, acc + ((x, b),))
        return outs
    if kind in ('find', 'any', 'all', 'position'):
        for s, b in truth(E, st, v):
            if kind == 'find':
                outs += E.finish(s, EN.SOME(x), ctx) if b else more(s, acc)
            elif kind == 'any':
                outs += E.finish(s, EN.TRUE, ctx) if b else more(s, acc)
            elif kind == 'all':
                outs += more(s, acc) if b else E.finish(s, EN.FALSE, ctx)
            else:
                outs += E.finish(s, EN.SOME(('int', acc)), ctx) if b else more(s, acc + 1)
        return outs
    if kind == 'find_map':
        for s, a in variants(E, st, v, OPT, 2):
            outs += E.finish(s, a, ctx) if a[2] == 1 else more(s, acc)
        return outs
    if kind in ('try_fold', 'try_for_each'):
        t = E.F.types[info[0]] if info[0] is not None else {'k': '?'}
        ty = t.get('n') if t.get('n') in (OPT, RES, CF) else RES
        for s, a in variants(E, st, v, ty, 2):
            go = a[2] == (1 if ty == OPT else 0)
            outs += more(s, a[3][0] if a[3] else EN.UNIT) if go else E.finish(s, a, ctx)
        return outs
    raise AssertionError(kind)


def extreme(E, st, kind, acc, ctx):
    """any of the elements may be the extreme one"""
    if not acc:
        return E.finish(st, EN.NONE(), ctx)
    outs = []
    for i, a in enumerate(acc):
        s = st.fork() if i < len(acc) - 1 else st
        x = a[0] if kind.endswith('key') else a
        E.emit(s, ('extreme', kind, x, tuple(acc)), None)
        outs += E.finish(s, EN.SOME(x), ctx)
    return outs


def gather(E, st, acc, info, ctx):
    """collect the elements into the container type asked for"""
    t = E.F.types[info[0]] if info[0] is not None else {'k': '?'}
    name = t.get('n', '')
    if name in (RES, OPT):
        inner = E.F.types[t['a'][0]] if isinstance(t['a'][0], int) else {}
        good = 0 if name == RES else 1
        sts = [(st, ())]
        outs = []
        for x in acc:
            nxt = []
            for s, got in sts:
                for s2, a in variants(E, s, x, name, 2):
                    if a[2] == good:
                        nxt.append((s2, got + (a[3][0],)))
                    else:
                        outs += E.finish(s2, a, ctx)
            sts = nxt
        for s, got in sts:
            for v in container(E, s, inner, got):
                outs += E.finish(v[0], ('adt', name, good, (v[1],)), ctx)
        return outs
    outs = []
    for s, v in container(E, st, t, acc):
        outs += E.finish(s, v, ctx)
    return outs


def container(E, st, t, acc):
    name = t.get('n', '')
    if name in COLLS:
        return [(st, ('coll', tuple(acc)))]
    if name == 'alloc::boxed::Box':
        return [(st, ('box', ('coll', tuple(acc))))]
    if name in MAPS + SETS and E.maps:
        out = [(st, ('map', ()))]
        for x in acc:
            k, v = (x[1][0], x[1][1]) if name in MAPS and x[0] == 'tup' else (x, EN.UNIT)
            nxt = []
            for s, m in out:
                for s2, i in find(E, s, m[1], k):
                    nxt.append((s2, put(m, i, k, v)))
            out = nxt
        return out
    return [(st, ('sym', ('app', 'collect', tuple(map(EN.collapse, acc)))))]


CONSUME = {k: consumer(k) for k in ('find', 'find_map', 'any', 'all', 'position', 'try_fold', 'try_for_each', 'fold', 'for_each', 'count', 'last', 'sum', 'collect',
                                    'min_by_key', 'max_by_key', 'partition', 'nth', 'reduce', 'min', 'max', 'min_by', 'max_by')}


def m_next(E, st, n, c, args, ctx, dty, loc):
    r, p = E.deref(st, args[0])
    it = as_native(E, st, E.read(st, r, p))
    if it is None or it[0] == 'adt' and it[1] == 'core::ops::range::Range':
        return M.m_next(E, st, n, c, args, ctx, dty, loc)
    return pull(E, st, it, with_ops(ctx, ('it_n', r, p)))


def m_from_iter(E, st, n, c, args, ctx, dty, loc):
    it = as_iter(E, st, args[0])
    if it is None:
        return None
    return consume(E, st, 'collect', it, (), None, None, (dty, loc), ctx)


def m_extend(E, st, n, c, args, ctx, dty, loc):
    r, p = E.deref(st, args[0])
    v = E.read(st, r, p)
    if v[0] not in ('coll', 'map'):
        return None
    it = as_iter(E, st, args[1])
    if it is None:
        return None
    copied = any('&' in x for x in ())
    return consume(E, st, 'collect', it, (), None, None, (None, loc), with_ops(ctx, ('it_x', r, p)))


def op_extend(E, st, op, v, ctx):
    r, p = op[1], op[2]
    old = E.read(st, r, p)
    xs = v[1][2] if v[0] == 'sym' else v[1]
    if old[0] == 'coll':
        E.write(st, r, p, ('coll', old[1] + tuple(xs)))
        return E.finish(st, EN.UNIT, ctx)
    outs = [(st, old)]
    for x in xs:
        nxt = []
        for s, m in outs:
            kv = x[1] if x[0] == 'tup' and len(x[1]) == 2 else (x, EN.UNIT)
            for s2, i in find(E, s, m[1], kv[0]):
                nxt.append((s2, put(m, i, kv[0], kv[1])))
        outs = nxt
    res = []
    for s, m in outs:
        E.write(s, r, p, m)
        res += E.finish(s, EN.UNIT, ctx)
    return res


def m_join_all(E, st, n, c, args, ctx, dty, loc):
    it = as_iter(E, st, args[0])
    if it is None:
        return None
    return consume(E, st, n.rsplit('::', 1)[-1], it, (), None, None, (dty, loc), ctx)


MODELS['futures_util::future::join_all::join_all'] = m_join_all
MODELS['futures_util::future::try_join_all::try_join_all'] = m_join_all


def await_join_all(E, st, todo, got, ctx, kind='coll'):
    """all of them are polled together: they complete in any order, the results keep theirs. todo: ((index, future), …), got: ((index, value), …)"""
    if not todo:
        vs = tuple(v for _, v in sorted(got, key=lambda g: g[0]))
        v = ('coll' if kind.endswith('coll') else 'tup', vs)
        return E.finish(st, EN.OK(v) if kind.startswith('try') else v, ctx)
    outs = []
    alone = tuple(x for x in todo if passive(x[1]))[:1]
    for i, x in (alone or todo):
        s2 = st.fork() if not alone and len(todo) > 1 else st
        outs += M.poll_val(E, s2, x, with_ops(ctx, ('join', i, tuple(y for y in todo if y[0] != i), got, kind)))
    return outs


def op_join(E, st, op, v, ctx):
    _, i, todo, got, kind = op
    if not kind.startswith('try'):
        return await_join_all(E, st, todo, got + ((i, v),), ctx, kind)
    outs = []
    for s, a in variants(E, st, v, RES, 2):
        if a[2] == 0:
            outs += await_join_all(E, s, todo, got + ((i, a[3][0]),), ctx, kind)
        else:
            for _, x in todo:
                E.drop_value(s, x, None, 'cancel')
            outs += E.finish(s, a, ctx)
    return outs


def passive(v):
    """a future that is ready at once and does nothing"""
    return v[0] == 'fut' and v[1] == 'ready'


OPS = {
    'it_p': op_pulled, 'it_f': op_closure, 'it_z': op_zip, 'it_c': op_consume, 'it_d': op_consumed, 'it_x': op_extend,
}


def op_next(E, st, op, v, ctx):
    E.write(st, op[1], op[2], v[1])
    return E.finish(st, v[2], ctx)


OPS['it_n'] = op_next
OPS['join'] = op_join


# ---------------------------------------------------------------------- keys
IDENT = ('clone', 'to_owned', 'into_owned', 'borrow', 'as_ref', 'as_str', 'to_string', 'from', 'into')


def key(E, st, v):
    """a map key as equality sees it"""
    v = EN.collapse(M.deepdv(E, st, v))
    while True:
        if v[0] == 'adt' and v[1] == 'alloc::borrow::Cow':
            v = EN.collapse(M.deepdv(E, st, v[3][0]))
        elif v[0] == 'sym' and v[1][0] == 'app' and v[1][1].split('::')[-1] in IDENT and len(v[1][2]) == 1:
            v = EN.collapse(M.deepdv(E, st, v[1][2][0]))
        elif v[0] in ('box', 'dynv'):
            v = EN.collapse(M.deepdv(E, st, v[1]))
        else:
            return v


def find(E, st, entries, k):
    """[(state, index of the entry with that key | None)]"""
    k = key(E, st, k)
    pend, out = [st], []
    for i, (k2, _) in enumerate(entries):
        nxt = []
        for s in pend:
            a, b = key(E, s, k2), k
            if a == b:
                out.append((s, i))
                continue
            if a[0] == b[0] and a[0] in ('str', 'int'):
                nxt.append(s)
                continue
            for s2, t in truth(E, s, E.binop(s, 'eq', a, b)):
                if t:
                    out.append((s2, i))
                else:
                    nxt.append(s2)
        pend = nxt
    return out + [(s, None) for s in pend]


def put(m, i, k, v):
    es = list(m[1])
    if i is None:
        es.append((k, v))
    else:
        es[i] = (es[i][0], v)
    return ('map', tuple(es))


def exact(E, st, a):
    a = E.norm(st, a)
    if a[0] in ('ref', 'dref', 'guard', 'box', 'arc', 'sym') or a[0] == 'adt' and a[1] == EN.PIN:
        r, p = E.deref(st, a)
        n = 0
        v = E.read(st, r, p)
        while v[0] in ('ref', 'guard') and n < 4:
            r, p = E.deref(st, v)
            v = E.read(st, r, p)
            n += 1
        if v[0] == 'map':
            return r, p, v
    return None


def mapop(*names):
    def d(f):
        for base in MAPS + SETS:
            for x in names:
                MODELS[base + '::' + x] = f
        return f
    return d


def mapnew(E, st, n, c, args, ctx, dty, loc):
    if not E.maps:
        return None
    return E.finish(st, ('map', ()), ctx)


for _b in MAPS + SETS:
    for _x in ('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher'):
        MODELS[_b + '::' + _x] = mapnew
    MODELS['<%s as core::default::Default>::default' % _b] = mapnew


def note(E, st, n, args, res, loc):
    E.emit(st, ('call', n, tuple(E.ev_arg(st, a) for a in args), res, ()), loc)


@mapop('insert')
def m_insert(E, st, n, c, args, ctx, dty, loc):
    x = exact(E, st, args[0])
    if x is None:
        return None
    r, p, m = x
    isset = len(args) == 2
    outs = []
    for s, i in find(E, st, m[1], args[1]):
        old = m[1][i][1] if i is not None else None
        res = ('int', int(i is None)) if isset else EN.SOME(old) if i is not None else EN.NONE()
        note(E, s, n, args, res, loc)
        E.write(s, r, p, put(m, i, args[1], EN.UNIT if isset else args[2]))
        outs += E.finish(s, res, ctx)
    return outs


@mapop('get', 'get_mut', 'contains_key', 'contains', 'get_key_value')
def m_get(E, st, n, c, args, ctx, dty, loc):
    x = exact(E, st, args[0])
    if x is None:
        return None
    r, p, m = x
    last = n.rsplit('::', 1)[-1]
    outs = []
    for s, i in find(E, st, m[1], args[1]):
        if last.startswith('contains'):
            res = ('int', int(i is not None))
        elif i is None:
            res = EN.NONE()
        else:
            res = EN.SOME(('ref', r, p + (('e', i),)))
        note(E, s, n, args, res, loc)
        outs += E.finish(s, res, ctx)
    return outs


@mapop('remove', 'remove_entry', 'take')
def m_remove(E, st, n, c, args, ctx, dty, loc):
    x = exact(E, st, args[0])
    if x is None:
        return None
    r, p, m = x
    outs = []
    isset = n.rsplit('::', 2)[-2] in ('HashSet', 'BTreeSet')
    for s, i in find(E, st, m[1], args[1]):
        res = EN.NONE()
        if i is not None:
            E.write(s, r, p, ('map', m[1][:i] + m[1][i + 1:]))
            res = EN.SOME(m[1][i][1] if not n.endswith('entry') else ('tup', m[1][i]))
        if isset:
            res = ('int', int(i is not None))
        note(E, s, n, args, res, loc)
        outs += E.finish(s, res, ctx)
    return outs


@mapop('clear')
def m_mclear(E, st, n, c, args, ctx, dty, loc):
    x = exact(E, st, args[0])
    if x is None:
        return None
    r, p, m = x
    note(E, st, n, args, EN.UNIT, loc)
    for k, v in m[1]:
        E.drop_value(st, v, None, 'drop', loc)
    E.write(st, r, p, ('map', ()))
    return E.finish(st, EN.UNIT, ctx)


@mapop('len', 'is_empty')
def m_mlen(E, st, n, c, args, ctx, dty, loc):
    x = exact(E, st, args[0])
    if x is None:
        return None
    return E.finish(st, ('int', int(not x[2][1]) if n.endswith('is_empty') else len(x[2][1])), ctx)


@mapop('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'into_keys', 'into_values')
def m_miter(E, st, n, c, args, ctx, dty, loc):
    last = n.rsplit('::', 1)[-1]
    a0 = E.norm(st, args[0])
    if a0[0] == 'map':
        es = a0[1]
        return E.finish(st, ('iter', tuple(k if last == 'into_keys' else v if last == 'into_values' else ('tup', (k, v)) for k, v in es)), ctx)
    x = exact(E, st, args[0])
    if x is None:
        return M.m_iter(E, st, n, c, args, ctx, dty, loc)
    r, p, m = x
    if last == 'drain':
        E.write(st, r, p, ('map', ()))
        return E.finish(st, ('iter', tuple(('tup', kv) for kv in m[1])), ctx)
    return E.finish(st, refs(m, r, p, 'keys' if last == 'keys' else 'values' if last.startswith('values') else 'both'), ctx)


# entries: ('adt', MapEntry, 0 occupied / 1 vacant, (map reference, key, index))
def entry_variant(E, dty, occupied):
    t = E.F.types[dty] if dty is not None else {}
    return t.get('n')


@mapop('entry')
def m_entry(E, st, n, c, args, ctx, dty, loc):
    x = exact(E, st, args[0])
    if x is None:
        return None
    r, p, m = x
    outs = []
    name = E.F.types[dty].get('n')
    a = E.F.adts.get(name)
    for s, i in find(E, st, m[1], args[1]):
        payload = ('adt', ENTRY, 0 if i is not None else 1, (('ref', r, p), args[1], ('int', -1 if i is None else i)))
        note(E, s, n, args, payload, loc)
        vi = 0
        if a:
            for j, v in enumerate(a['v']):
                if v['n'] == ('Occupied' if i is not None else 'Vacant'):
                    vi = j
        outs += E.finish(s, ('adt', name, vi, (payload,)), ctx)
    return outs


def entry_of(E, st, v):
    v = M.dv(E, st, v)
    if v[0] == 'adt' and v[1] == ENTRY:
        return v
    if v[0] == 'adt' and v[3]:
        w = E.norm(st, v[3][0])
        if w[0] == 'adt' and w[1] == ENTRY:
            return w
    return None


def put_new(E, st, en, v):
    """fill a vacant entry; reference to the value"""
    _, r, p = en[3][0]
    m = E.read(st, r, p)
    E.write(st, r, p, ('map', m[1] + ((en[3][1], v),)))
    return ('ref', r, p + (('e', len(m[1])),))


def slot(en):
    _, r, p = en[3][0]
    return ('ref', r, p + (('e', en[3][2][1]),))


def default_of(E, st, dty):
    """the Default value of the type behind the `&mut V` result"""
    t = E.F.types[dty] if dty is not None else {}
    if t.get('k') == 'ref':
        t = E.F.types[t['t']]
    if t.get('n') in COLLS:
        return ('coll', ())
    if t.get('n') in MAPS + SETS and E.maps:
        return ('map', ())
    if t.get('n') == OPT:
        return EN.NONE()
    return ('sym', ('app', 'default', (E.fresh(st),)))


def entry_model(kind):
    def f(E, st, n, c, args, ctx, dty, loc):
        en = entry_of(E, st, args[0])
        if en is None:
            return None
        occ = en[2] == 0
        if kind in ('or_default', 'or_insert'):
            if occ:
                if kind == 'or_insert':
                    E.drop_value(st, args[1], None, 'drop', loc)
                return E.finish(st, slot(en), ctx)
            v = default_of(E, st, dty) if kind == 'or_default' else args[1]
            return E.finish(st, put_new(E, st, en, v), ctx)
        if kind in ('or_insert_with', 'or_insert_with_key'):
            if occ:
                return E.finish(st, slot(en), ctx)
            root = froot(st)
            a = [] if kind == 'or_insert_with' else [('ref', xroot(st, en[3][1]), ())]
            return callf(E, st, args[1], a, with_ops(ctx, ('ent_put', en, root)), root)
        if kind == 'and_modify':
            if not occ:
                return E.finish(st, args[0], ctx)
            root = froot(st)
            return callf(E, st, args[1], [slot(en)], with_ops(ctx, ('const', args[0])), root)
        if kind == 'vinsert':
            return E.finish(st, put_new(E, st, en, args[1]), ctx)
        if kind == 'vinsert_entry':
            put_new(E, st, en, args[1])
            return E.finish(st, ('sym', ('app', 'entry', ())), ctx)
        if kind == 'get':
            return E.finish(st, slot(en), ctx)
        if kind == 'oinsert':
            s = slot(en)
            old = E.read(st, s[1], s[2])
            E.write(st, s[1], s[2], args[1])
            return E.finish(st, old, ctx)
        if kind == 'oremove':
            _, r, p = en[3][0]
            m = E.read(st, r, p)
            i = en[3][2][1]
            E.write(st, r, p, ('map', m[1][:i] + m[1][i + 1:]))
            note(E, st, MAPS[0] + '::remove', [en[3][0], en[3][1]], EN.SOME(m[1][i][1]), loc)
            return E.finish(st, m[1][i][1], ctx)
        if kind == 'key':
            return E.finish(st, ('ref', xroot(st, en[3][1]), ()), ctx)
        return None
    return f


OPS['ent_put'] = lambda E, st, op, v, ctx: (after(st, op[2], ('x',)), E.finish(st, put_new(E, st, op[1], v), ctx))[1]
for _b in ('std::collections::hash::map', 'alloc::collections::btree::map::entry', 'hashbrown::map'):
    for _x in ('or_default', 'or_insert', 'or_insert_with', 'or_insert_with_key', 'and_modify', 'key'):
        MODELS[_b + '::Entry::' + _x] = entry_model(_x)
    MODELS[_b + '::VacantEntry::insert'] = entry_model('vinsert')
    MODELS[_b + '::VacantEntry::insert_entry'] = entry_model('vinsert_entry')
    for _x in ('get', 'get_mut', 'into_mut'):
        MODELS[_b + '::OccupiedEntry::' + _x] = entry_model('get')
    MODELS[_b + '::OccupiedEntry::insert'] = entry_model('oinsert')
    MODELS[_b + '::OccupiedEntry::remove'] = entry_model('oremove')
    MODELS[_b + '::OccupiedEntry::key'] = entry_model('key')
    MODELS[_b + '::VacantEntry::key'] = entry_model('key')


# ---------------------------------------------------------------------- retain
def retain_from(E, st, r, p, i, f, style, ctx):
    v = E.read(st, r, p)
    if v[0] not in ('coll', 'map') or i >= len(v[1]):
        return E.finish(st, EN.UNIT, ctx)
    e, k = ('ref', r, p + (('e', i),)), ('ref', r, p + (('k', i),))
    args = [e] if v[0] == 'coll' else [k] if style == 'set' else [k, e]
    root = froot(st)
    return callf(E, st, f, args, with_ops(ctx, ('retain', r, p, i, f, style, root)), root)


def op_retain(E, st, op, v, ctx):
    _, r, p, i, f, style, root = op
    f = after(st, root, f)
    outs = []
    for s, keep in truth(E, st, v):
        if keep:
            outs += retain_from(E, s, r, p, i + 1, f, style, ctx)
        else:
            x = E.read(s, r, p)
            gone = x[1][i]
            E.write(s, r, p, (x[0], x[1][:i] + x[1][i + 1:]))
            E.emit(s, ('retained', 'no', gone if x[0] == 'coll' else gone[1]), None)
            E.drop_value(s, gone if x[0] == 'coll' else gone[1], None, 'drop')
            outs += retain_from(E, s, r, p, i, f, style, ctx)
    return outs


OPS['retain'] = op_retain


def m_retain(E, st, n, c, args, ctx, dty, loc):
    r, p = E.deref(st, args[0])
    v = E.read(st, r, p)
    if v[0] in ('ref', 'guard'):
        r, p = E.deref(st, v)
        v = E.read(st, r, p)
    if v[0] not in ('coll', 'map'):
        return None
    return retain_from(E, st, r, p, 0, E.norm(st, args[1]), 'set' if 'Set' in n else 'map', ctx)


mapop('retain')(m_retain)
for _b in COLLS:
    MODELS[_b + '::retain'] = m_retain
    MODELS[_b + '::retain_mut'] = m_retain


# ---------------------------------------------------------------------- vectors
def coll_at(E, st, a):
    a = E.norm(st, a)
    if a[0] in ('coll', 'arr'):
        return None
    r, p = E.deref(st, a)
    v = E.read(st, r, p)
    n = 0
    while v[0] in ('ref', 'guard', 'box') and n < 4:
        r, p = (r, p + (('b',),)) if v[0] == 'box' else E.deref(st, v)
        v = E.read(st, r, p)
        n += 1
    return (r, p, v) if v[0] == 'coll' else None


def vecop(*names):
    def d(f):
        for base in COLLS[:2] + ('[T]', 'core::slice'):
            for x in names:
                MODELS[base + '::' + x] = f
        return f
    return d


@vecop('get', 'get_mut')
def m_vget(E, st, n, c, args, ctx, dty, loc):
    x = coll_at(E, st, args[0])
    i = E.norm(st, args[1])
    if x is None or i[0] == 'adt':
        return None
    r, p, v = x
    if i[0] == 'int':
        return E.finish(st, EN.SOME(('ref', r, p + (('e', i[1]),))) if i[1] < len(v[1]) else EN.NONE(), ctx)
    outs = []
    for j in range(len(v[1])):
        s = st.fork()
        if E.refine_v(s, E.binop(s, 'eq', i, ('int', j)), ('int', 1)):
            outs += E.finish(s, EN.SOME(('ref', r, p + (('e', j),))), ctx)
    return outs + E.finish(st, EN.NONE(), ctx)


@vecop('first', 'last', 'first_mut', 'last_mut', 'front', 'back', 'front_mut', 'back_mut')
def m_vfirst(E, st, n, c, args, ctx, dty, loc):
    x = coll_at(E, st, args[0])
    if x is None:
        return None
    r, p, v = x
    if not v[1]:
        return E.finish(st, EN.NONE(), ctx)
    i = 0 if n.rsplit('::', 1)[-1].startswith(('first', 'front')) else len(v[1]) - 1
    return E.finish(st, EN.SOME(('ref', r, p + (('e', i),))), ctx)


@vecop('remove', 'swap_remove')
def m_vremove(E, st, n, c, args, ctx, dty, loc):
    x = coll_at(E, st, args[0])
    i = E.norm(st, args[1])
    if x is None or i[0] != 'int':
        return None
    r, p, v = x
    opt = 'vec_deque' in n
    if i[1] >= len(v[1]):
        if opt:
            return E.finish(st, EN.NONE(), ctx)
        E.emit(st, ('panic', n, ()), loc)
        return E.unwind_to(st, ctx, E.fresh(st, 'panic'))
    es = list(v[1])
    y = es[i[1]]
    if n.endswith('swap_remove'):
        es[i[1]] = es[-1]
        es.pop()
    else:
        es.pop(i[1])
    E.write(st, r, p, ('coll', tuple(es)))
    return E.finish(st, EN.SOME(y) if opt else y, ctx)


@vecop('reverse')
def m_vreverse(E, st, n, c, args, ctx, dty, loc):
    x = coll_at(E, st, args[0])
    if x is None:
        return None
    E.write(st, x[0], x[1], ('coll', x[2][1][::-1]))
    return E.finish(st, EN.UNIT, ctx)


@vecop('swap')
def m_vswap(E, st, n, c, args, ctx, dty, loc):
    x = coll_at(E, st, args[0])
    i, j = E.norm(st, args[1]), E.norm(st, args[2])
    if x is None or i[0] != 'int' or j[0] != 'int':
        return None
    es = list(x[2][1])
    if max(i[1], j[1]) >= len(es):
        E.emit(st, ('panic', n, ()), loc)
        return E.unwind_to(st, ctx, E.fresh(st, 'panic'))
    es[i[1]], es[j[1]] = es[j[1]], es[i[1]]
    E.write(st, x[0], x[1], ('coll', tuple(es)))
    return E.finish(st, EN.UNIT, ctx)


@vecop('rotate_left', 'rotate_right')
def m_vrotate(E, st, n, c, args, ctx, dty, loc):
    x = coll_at(E, st, args[0])
    k = E.norm(st, args[1])
    if x is None or k[0] != 'int':
        return None
    es = x[2][1]
    if k[1] > len(es):
        E.emit(st, ('panic', n, ()), loc)
        return E.unwind_to(st, ctx, E.fresh(st, 'panic'))
    i = k[1] if n.endswith('left') else len(es) - k[1]
    E.write(st, x[0], x[1], ('coll', es[i:] + es[:i]))
    return E.finish(st, EN.UNIT, ctx)


@vecop('truncate')
def m_vtruncate(E, st, n, c, args, ctx, dty, loc):
    x = coll_at(E, st, args[0])
    k = E.norm(st, args[1])
    if x is None or k[0] != 'int':
        return None
    for y in x[2][1][k[1]:]:
        E.drop_value(st, y, None, 'drop', loc)
    E.write(st, x[0], x[1], ('coll', x[2][1][:k[1]]))
    return E.finish(st, EN.UNIT, ctx)


@vecop('split_off')
def m_vsplit_off(E, st, n, c, args, ctx, dty, loc):
    x = coll_at(E, st, args[0])
    k = E.norm(st, args[1])
    if x is None or k[0] != 'int':
        return None
    if k[1] > len(x[2][1]):
        E.emit(st, ('panic', n, ()), loc)
        return E.unwind_to(st, ctx, E.fresh(st, 'panic'))
    E.write(st, x[0], x[1], ('coll', x[2][1][:k[1]]))
    return E.finish(st, ('coll', x[2][1][k[1]:]), ctx)


@vecop('sort', 'sort_by', 'sort_by_key', 'sort_by_cached_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key')
def m_vsort(E, st, n, c, args, ctx, dty, loc):
    """any order may be the sorted one"""
    x = coll_at(E, st, args[0])
    if x is None or len(x[2][1]) > 4:
        return None
    outs = []
    for p in itertools.permutations(x[2][1]):
        s = st.fork()
        E.write(s, x[0], x[1], ('coll', p))
        outs += E.finish(s, EN.UNIT, ctx)
    return outs


@vecop('shrink_to_fit', 'reserve', 'reserve_exact', 'shrink_to')
def m_vcap(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, EN.UNIT, ctx) if coll_at(E, st, args[0]) is not None else None


@vecop('insert')
def m_vinsert(E, st, n, c, args, ctx, dty, loc):
    x = coll_at(E, st, args[0])
    i = E.norm(st, args[1])
    if x is None or i[0] != 'int':
        return None
    es = list(x[2][1])
    es.insert(i[1], args[2])
    E.write(st, x[0], x[1], ('coll', tuple(es)))
    return E.finish(st, EN.UNIT, ctx)


@vecop('extend_from_slice')
def m_vextend_slice(E, st, n, c, args, ctx, dty, loc):
    x, y = coll_at(E, st, args[0]), coll_at(E, st, args[1])
    if x is None or y is None or y[2][1]:
        return None
    return E.finish(st, EN.UNIT, ctx)


@vecop('append')
def m_vappend(E, st, n, c, args, ctx, dty, loc):
    x, y = coll_at(E, st, args[0]), coll_at(E, st, args[1])
    if x is None or y is None:
        return None
    E.write(st, x[0], x[1], ('coll', x[2][1] + y[2][1]))
    E.write(st, y[0], y[1], ('coll', ()))
    return E.finish(st, EN.UNIT, ctx)


@model(*['<%s as core::ops::deref::%s' % (b, x) for b in COLLS for x in ('Deref>::deref', 'DerefMut>::deref_mut')],
       *['%s::%s' % (b, x) for b in COLLS for x in ('as_slice', 'as_mut_slice')],
       *['<%s as core::convert::%s' % (b, x) for b in COLLS for x in ('AsRef>::as_ref', 'AsMut>::as_mut')],
       *['<%s as core::borrow::Borrow>::borrow' % b for b in COLLS])
def m_slice(E, st, n, c, args, ctx, dty, loc):
    x = coll_at(E, st, args[0])
    return E.finish(st, ('ref', x[0], x[1]), ctx) if x is not None else None


@model('<linkme::distributed_slice::DistributedSlice as core::iter::traits::collect::IntoIterator>::into_iter')
def m_linked(E, st, n, c, args, ctx, dty, loc):
    """a distributed slice is iterated by reference to its elements"""
    v = M.dv(E, st, args[0])
    if v[0] == 'coll':
        for r, x in st.mem.items():
            if isinstance(r, tuple) and r[0] == 'S' and x == v:
                return E.finish(st, refs(v, r, ()), ctx)
    return None


@model('alloc::boxed::Box::new_uninit')
def m_new_uninit(E, st, n, c, args, ctx, dty, loc):
    """the allocation of vec![..]"""
    u = ('sym', ('const', 'uninit'))
    return E.finish(st, ('box', ('adt', 'core::mem::maybe_uninit::MaybeUninit', 0, (u, ('adt', 'core::mem::manually_drop::ManuallyDrop', 0, (u,))))), ctx)


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def m_vec_macro(E, st, n, c, args, ctx, dty, loc):
    v = E.norm(st, args[0])
    for el in (('b',), ('f', 0, 1), ('f', 0, 0)):
        v = E.proj(st, v, el)
    v = E.norm(st, v)
    return E.finish(st, ('coll', tuple(v[1])), ctx) if v[0] == 'arr' and len(v[1]) <= E.max_coll + 8 else None


@vecop('contains')
def m_contains(E, st, n, c, args, ctx, dty, loc):
    x = coll_at(E, st, args[0])
    if x is None:
        return None
    k = key(E, st, args[1])
    outs, pend = [], [st]
    for e in x[2][1]:
        nxt = []
        for s in pend:
            a = key(E, s, e)
            if a == k:
                outs += E.finish(s, EN.TRUE, ctx)
                continue
            for s2, t in truth(E, s, E.binop(s, 'eq', a, k)):
                if t:
                    outs += E.finish(s2, EN.TRUE, ctx)
                else:
                    nxt.append(s2)
        pend = nxt
    for s in pend:
        outs += E.finish(s, EN.FALSE, ctx)
    return outs


def m_index(E, st, n, c, args, ctx, dty, loc):
    i = E.norm(st, args[1])
    y = exact(E, st, args[0])
    if y is not None:
        r, p, m = y
        outs = []
        for s, j in find(E, st, m[1], args[1]):
            if j is None:
                E.emit(s, ('panic', n, ()), loc)
                outs += E.unwind_to(s, ctx, E.fresh(s, 'panic'))
            else:
                outs += E.finish(s, ('ref', r, p + (('e', j),)), ctx)
        return outs
    x = coll_at(E, st, args[0])
    if x is None or i[0] == 'adt':
        return None
    r, p, v = x
    outs = []
    if i[0] == 'int':
        if i[1] < len(v[1]):
            return E.finish(st, ('ref', r, p + (('e', i[1]),)), ctx)
    else:
        for j in range(len(v[1])):
            s = st.fork()
            if E.refine_v(s, E.binop(s, 'eq', i, ('int', j)), ('int', 1)):
                outs += E.finish(s, ('ref', r, p + (('e', j),)), ctx)
    E.emit(st, ('panic', n, ()), loc)
    return outs + E.unwind_to(st, ctx, E.fresh(st, 'panic'))


@model('core::iter::sources::repeat_n::repeat_n')
def m_repeat_n(E, st, n, c, args, ctx, dty, loc):
    k = E.norm(st, args[1])
    if k[0] != 'int' or k[1] > 16:
        return None
    x = args[0]
    return E.finish(st, ('iter', (('sym', ('app', 'clone', (EN.collapse(x),))),) * (k[1] - 1) + (x,) * min(k[1], 1)), ctx)


def lookup(n, c):
    """models found by method name"""
    last = n.rsplit('::', 1)[-1]
    if n.startswith(IT + 'iterator::Iterator::') or ' as ' + IT + 'iterator::Iterator>::' in n or n.startswith(IT + 'double_ended') or ' as ' + IT + 'double_ended' in n:
        if last == 'next':
            return m_next
        if last in ADAPTERS:
            return ADAPTERS[last]
        if last in CONSUME:
            return CONSUME[last]
        if last == 'by_ref':
            return lambda E, st, n, c, args, ctx, dty, loc: E.finish(st, args[0], ctx)
    if last == 'from_iter' and IT + 'collect::FromIterator' in n:
        return m_from_iter
    if last == 'extend' and IT + 'collect::Extend' in n:
        return m_extend
    if last in ('index', 'index_mut') and ('core::ops::index::Index' in n):
        return m_index
    return None
