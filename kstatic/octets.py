"""Byte strings: ('bytes', segments), a segment being (min length, max length, term).  Enabled with Engine(octets=True).

Terms: ('le'|'be'|'ne', value) an integer's encoding, ('peer', value) a peer id's encoding, ('raw', value) unknown bytes,
('sub', term, offset) the rest of a term from an offset, ('part', term, offset, length) a fixed piece of it."""
from . import engine as EN
from . import models as M
from .models import model, MODELS, OPT, RES, PIN
from . import iters

BIG = 1 << 40
RNG = 'core::ops::range::'
INTS = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'usize': 8, 'i64': 8, 'i128': 16, 'i32': 4}
PEER = 'libp2p_identity::peer_id::PeerId'


def get(E, st, v, raw=True):
    v = M.dv(E, st, v)
    if v[0] == 'bytes':
        return v
    if v[0] == 'coll' and not v[1]:
        return ('bytes', ())
    if v[0] == 'coll' or v[0] == 'arr':
        return ('bytes', tuple((1, 1, ('byte', x)) for x in v[1]))
    if v[0] == 'rep':
        return None
    if v[0] == 'box':
        return get(E, st, v[1], raw)
    if v[0] == 'str':
        return ('bytes', ((len(v[1]), len(v[1]), ('raw', v)),))
    if v[0] == 'adt' and v[1] == 'alloc::borrow::Cow':
        return get(E, st, v[3][0], raw)
    if v[0] == 'sym' and raw:
        return ('bytes', ((0, BIG, ('raw', EN.collapse(v))),))
    return None


def length(E, st, b):
    lo, hi = span(E, st, b)
    if lo == hi:
        return ('int', lo)
    return ('sym', ('app', 'blen', (b,)))


def span(E, st, b):
    lo = hi = 0
    for seg in b[1]:
        a, z = segspan(E, st, seg)
        lo += a
        hi += z
    l2, h2 = facts_on(E, st, b)
    return max(lo, l2), min(hi, h2)


def segspan(E, st, seg):
    lo, hi, t = seg
    if lo == hi:
        return lo, hi
    a, z = facts_on(E, st, ('bytes', (seg,)))
    lo, hi = max(lo, a), min(hi, z)
    if t[0] == 'sub':
        # what is known of the term it is cut from
        src = (0, BIG, t[1])
        a, z = segspan(E, st, src)
        lo, hi = max(lo, a - t[2]), min(hi, z - t[2])
    elif t[0] != 'part':
        # what is known of the rests cut from it
        for sub in rests(st, t):
            a, z = facts_on(E, st, ('bytes', (sub,)))
            a = max(a, sub[0])
            lo, hi = max(lo, a + sub[2][2]) if a else lo, min(hi, z + sub[2][2])
    return lo, hi


def rests(st, t):
    """the rests of the byte string t whose length the path has looked at"""
    out = set()
    for k in st.facts:
        if k[0] != 'app':
            continue
        for x in (k,) if k[1] == 'blen' else tuple(y[1] for y in k[2] if y[0] == 'sym') if k[1] in ('lt', 'le', 'gt', 'ge', 'eq') else ():
            if x[0] == 'app' and x[1] == 'blen' and x[2][0][0] == 'bytes' and len(x[2][0][1]) == 1:
                seg = x[2][0][1][0]
                if isinstance(seg[2], tuple) and seg[2][0] == 'sub' and seg[2][1] == t:
                    out.add(seg)
    return sorted(out, key=repr)


def facts_on(E, st, b):
    """bounds the path's comparisons put on the length of b"""
    return known(st, ('sym', ('app', 'blen', (b,))))


def known(st, me):
    """bounds the path's comparisons put on an unsigned number"""
    if me[0] == 'int':
        return me[1], me[1]
    lo, hi = 0, BIG
    f = st.facts.get(me[1])
    if f is not None and f[0] == 'int':
        return f[1], f[1]
    if f is not None and f[0] == 'ne':
        while lo in f[1]:
            lo += 1
    for k, v in st.facts.items():
        if k[0] != 'app' or k[1] not in ('lt', 'le', 'gt', 'ge', 'eq') or v[0] != 'int' or len(k[2]) != 2:
            continue
        a, c = k[2]
        op, t = k[1], bool(v[1])
        if c == me and a[0] == 'int':
            a, c = c, a
            op = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq'}[op]
        if a != me or c[0] != 'int':
            continue
        n = c[1]
        if not t:
            op = {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt', 'eq': 'ne'}[op]
        if op == 'lt':
            hi = min(hi, n - 1)
        elif op == 'le':
            hi = min(hi, n)
        elif op == 'gt':
            lo = max(lo, n + 1)
        elif op == 'ge':
            lo = max(lo, n)
        elif op == 'eq':
            lo, hi = max(lo, n), min(hi, n)
        elif op == 'ne' and lo == n:
            lo = n + 1
    return lo, hi


def decide(E, st, op, a, b):
    """a comparison with the length of a byte string, when the path's facts settle it"""
    flip = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
    if op not in flip:
        return None
    if b[0] == 'sym' and b[1][0] == 'app' and b[1][1] == 'blen':
        a, b, op = b, a, flip[op]
    if not (a[0] == 'sym' and a[1][0] == 'app' and a[1][1] == 'blen' and b[0] == 'int'):
        return None
    lo, hi = span(E, st, a[1][2][0])
    n = b[1]
    r = {'lt': (hi < n, lo >= n), 'le': (hi <= n, lo > n), 'gt': (lo > n, hi <= n), 'ge': (lo >= n, hi < n),
         'eq': (lo == hi == n, n < lo or n > hi), 'ne': (n < lo or n > hi, lo == hi == n)}[op]
    if r[0]:
        return EN.TRUE
    if r[1]:
        return EN.FALSE
    return None


def norm_segs(segs):
    out = []
    for s in segs:
        if s[1] > 0:
            out.append(s)
    return tuple(out)


def split(E, st, b, n):
    """[(state, (first n bytes, rest) or None when shorter)]"""
    ln = length(E, st, b)
    if ln[0] == 'int':
        if ln[1] < n:
            return [(st, None)]
        return [(st, cut(E, st, b, n))]
    lo, hi = span(E, st, b)
    if lo >= n:
        return [(st, cut(E, st, b, n))]
    if hi < n:
        return [(st, None)]
    key = ('app', 'lt', (ln, ('int', n)))
    s2 = st.fork()
    out = []
    if E.refine(s2, key, EN.TRUE):
        out.append((s2, None))
    if E.refine(st, key, EN.FALSE):
        out.append((st, cut(E, st, b, n)))
    return out


def cut(E, st, b, n):
    head = []
    segs = list(b[1])
    while n > 0 and segs:
        lo, hi, t = segs[0]
        a, z = segspan(E, st, segs[0])
        if a == z and a <= n:
            head.append((a, a, t) if t[0] in ('le', 'be', 'ne', 'byte', 'peer', 'part') else (a, a, t))
            n -= a
            segs.pop(0)
            continue
        base, off = (t[1], t[2]) if t[0] in ('sub', 'part') else (t, 0)
        head.append((n, n, ('part', base, off, n)))
        if t[0] == 'part' or a == z:
            left = (a - n) if a == z else None
            segs[0] = (left, left, ('part', base, off + n, left))
        else:
            segs[0] = (max(0, lo - n), hi - n if hi < BIG else BIG, ('sub', base, off + n))
        n = 0
    return ('bytes', norm_segs(head)), ('bytes', norm_segs(segs))


def bytemodel(*names):
    """the model applies when the argument is (or may be) a byte string; otherwise what was there before"""
    def d(f):
        for n in names:
            old = MODELS.get(n) or iters.lookup(n, {})

            def g(E, st, n_, c, args, ctx, dty, loc, old=old):
                if E.octets:
                    r = f(E, st, n_, c, args, ctx, dty, loc)
                    if r is not None:
                        return r
                return old(E, st, n_, c, args, ctx, dty, loc) if old else None
            MODELS[n] = g
        return f
    return d


def is_u8(E, c, k=0):
    """the element type of the generic slice/vector method is u8"""
    a = c.get('ra') or c.get('a') or []
    for x in a:
        if isinstance(x, int):
            t = E.F.types[x]
            while t['k'] in ('ref', 'slice'):
                t = E.F.types[t['t']]
            if t['k'] == 'adt' and t['n'] in ('alloc::vec::Vec',):
                t = E.F.types[t['a'][0]]
            return t['k'] == 'prim' and t['n'] == 'u8'
    return False


@bytemodel(*['%s::to_%s_bytes' % (i, o) for i in INTS for o in ('le', 'be', 'ne')])
def m_to(E, st, n, c, args, ctx, dty, loc):
    i, o = n.split('::')
    w = INTS[i]
    return E.finish(st, ('bytes', ((w, w, (o[3:5], EN.collapse(M.dv(E, st, args[0])))),)), ctx)


@bytemodel(*['%s::from_%s_bytes' % (i, o) for i in INTS for o in ('le', 'be', 'ne')])
def m_from(E, st, n, c, args, ctx, dty, loc):
    i, o = n.split('::')
    b = get(E, st, args[0])
    if b is None:
        return None
    o = o[5:7]
    if len(b[1]) == 1 and b[1][0][2][0] == o and b[1][0][0] == INTS[i]:
        return E.finish(st, b[1][0][2][1], ctx)
    return E.finish(st, ('sym', ('app', 'from_' + o, (('int', INTS[i]), b))), ctx)


@bytemodel(PEER + '::to_bytes', '<alloc::vec::Vec as core::convert::From>::from')
def m_peer_to(E, st, n, c, args, ctx, dty, loc):
    if n.endswith('from'):
        a = c.get('ra') or c.get('a') or []
        ts = [E.F.types[x] for x in a if isinstance(x, int)]
        if any(t.get('n') == PEER for t in ts):
            return E.finish(st, ('bytes', ((2, 80, ('peer', EN.collapse(M.dv(E, st, args[0])))),)), ctx)
        b = get(E, st, args[0], raw=False)
        return E.finish(st, b, ctx) if b is not None and is_u8(E, c) else None
    return E.finish(st, ('bytes', ((2, 80, ('peer', EN.collapse(M.dv(E, st, args[0])))),)), ctx)


@bytemodel(PEER + '::from_bytes', '<%s as core::convert::TryFrom>::try_from' % PEER)
def m_peer_from(E, st, n, c, args, ctx, dty, loc):
    b = get(E, st, args[0])
    if b is None:
        return None
    if len(b[1]) == 1 and b[1][0][2][0] == 'peer':
        return E.finish(st, EN.OK(b[1][0][2][1]), ctx)
    res = ('sym', ('app', 'peer_from', (b,)))
    E.emit(st, ('call', n, (b,), res, ()), loc)
    if span(E, st, b)[1] < 2:
        return E.finish(st, EN.ERR(('sym', ('app', 'peer_error', (b,)))), ctx)
    s2 = st.fork()
    return E.finish(s2, EN.ERR(('sym', ('app', 'peer_error', (b,)))), ctx) + E.finish(st, EN.OK(res), ctx)


@bytemodel('[T]::len', 'alloc::vec::Vec::len')
def m_len(E, st, n, c, args, ctx, dty, loc):
    b = get(E, st, args[0]) if is_u8(E, c) else None
    return E.finish(st, length(E, st, b), ctx) if b is not None else None


@bytemodel('[T]::is_empty', 'alloc::vec::Vec::is_empty')
def m_is_empty(E, st, n, c, args, ctx, dty, loc):
    b = get(E, st, args[0]) if is_u8(E, c) else None
    if b is None:
        return None
    return E.finish(st, E.binop(st, 'eq', length(E, st, b), ('int', 0)), ctx)


def bounds(E, st, r):
    """(from, to or None) of a range value; None when it is not constant"""
    r = M.dv(E, st, r)
    if r[0] != 'adt' or not r[1].startswith(RNG):
        return None
    k = r[1][len(RNG):]
    fs = [E.norm(st, x) for x in r[3]]
    if k == 'RangeFull':
        return 0, None
    if any(x[0] != 'int' for x in fs[:2]):
        return None
    if k == 'Range':
        return fs[0][1], fs[1][1]
    if k == 'RangeFrom':
        return fs[0][1], None
    if k == 'RangeTo':
        return 0, fs[0][1]
    if k == 'RangeInclusive':
        return fs[0][1], fs[1][1] + 1
    if k == 'RangeToInclusive':
        return 0, fs[0][1] + 1
    return None


def window(E, st, b, r):
    """[(state, slice or None when out of range)]"""
    f, t = r
    if t is not None and t < f:
        return [(st, None)]
    out = []
    for s, x in split(E, st, b, f):
        if x is None:
            out.append((s, None))
        elif t is None:
            out.append((s, x[1]))
        else:
            for s2, y in split(E, s, x[1], t - f):
                out.append((s2, None if y is None else y[0]))
    return out


def as_sym_range(E, st, b, r):
    """a range whose bounds are not constants: the part between two known positions, or else any slice, or out of range"""
    v = M.dv(E, st, r)
    if v[0] == 'adt' and v[1].startswith(RNG):
        k = v[1][len(RNG):]
        fs = [E.norm(st, x) for x in v[3]]
        if k in ('RangeFrom', 'RangeTo') or k == 'Range' and fs[0] == ('int', 0):
            return [(s, None if x is None else x[1 if k == 'RangeFrom' else 0]) for s, x in split_by(E, st, b, fs[-1])]
        if k == 'Range' and fs[0][0] == 'int':
            outs = []
            for s, x in split(E, st, b, fs[0][1]):
                if x is None:
                    outs.append((s, None))
                else:
                    (k1, t1) = linear(E, s, fs[1])
                    for i in range(len(x[1][1]) + 1):
                        kk, tt = linear(E, s, ('sym', ('app', 'blen', (('bytes', x[1][1][:i]),))))
                        if (kk + fs[0][1], tt) == (k1, t1):
                            outs.append((s, ('bytes', x[1][1][:i])))
                            break
                    else:
                        y = ('bytes', ((0, BIG, ('raw', ('sym', ('app', 'slice', (b, EN.collapse(M.deepdv(E, s, r))))))),))
                        outs += [(s2, y if ok else None) for s2, ok in reaches(E, s, b, fs[1])]
            return outs
    x = ('bytes', ((0, BIG, ('raw', ('sym', ('app', 'slice', (b, EN.collapse(M.deepdv(E, st, r))))))),))
    return [(st.fork(), None), (st, x)]


def length_range(E, st, r, b):
    """replace a bound which is the string's own length"""
    r = M.dv(E, st, r)
    if r[0] == 'adt' and r[1].startswith(RNG):
        k = r[1][len(RNG):]
        fs = [E.norm(st, x) for x in r[3]]
        ln = length(E, st, b)
        if k == 'Range' and fs[1] == ln and ln[0] == 'sym' and fs[0][0] == 'int':
            return ('adt', RNG + 'RangeFrom', 0, (fs[0],))
        if k == 'RangeTo' and fs[0] == ln and ln[0] == 'sym':
            return ('adt', RNG + 'RangeFull', 0, ())
    return r


@bytemodel('[T]::get')
def m_get(E, st, n, c, args, ctx, dty, loc):
    if not is_u8(E, c):
        return None
    b = get(E, st, args[0])
    if b is None:
        return None
    r = M.dv(E, st, args[1])
    if r[0] == 'int':
        outs = []
        for s, x in window(E, st, b, (r[1], r[1] + 1)):
            outs += E.finish(s, EN.NONE() if x is None else EN.SOME(byte(x)), ctx)
        return outs
    if r[0] != 'adt':
        return None
    r = length_range(E, st, r, b)
    w = bounds(E, st, r)
    outs = []
    for s, x in (window(E, st, b, w) if w else as_sym_range(E, st, b, r)):
        outs += E.finish(s, EN.NONE() if x is None else EN.SOME(x), ctx)
    return outs


def byte(x):
    if len(x[1]) == 1 and (x[1][0][2][0] == 'byte' or x[1][0][2][0] in ('le', 'be', 'ne') and x[1][0][:2] == (1, 1)):
        return x[1][0][2][1]
    return ('sym', ('app', 'byte', (x,)))


@bytemodel('<[T] as core::ops::index::Index>::index', '<alloc::vec::Vec as core::ops::index::Index>::index',
           '<[T; N] as core::ops::index::Index>::index')
def m_index(E, st, n, c, args, ctx, dty, loc):
    if not is_u8(E, c):
        return None
    b = get(E, st, args[0])
    if b is None:
        return None
    r = M.dv(E, st, args[1])
    if r[0] == 'int':
        w = (r[1], r[1] + 1)
    elif r[0] == 'adt':
        r = length_range(E, st, r, b)
        w = bounds(E, st, r)
    else:
        return None
    outs = []
    for s, x in (window(E, st, b, w) if w else as_sym_range(E, st, b, r)):
        if x is None:
            outs += E.do_panic(s, 'index out of bounds', args, ctx, loc)
        else:
            outs += E.finish(s, byte(x) if r[0] == 'int' else x, ctx)
    return outs


def linear(E, st, v, depth=8):
    """a length as (constant, {segment: count}); anything else is a term of its own"""
    v = E.norm(st, v)
    if v[0] == 'int':
        return v[1], {}
    if v[0] == 'sym' and v[1][0] == 'app' and depth:
        op, a = v[1][1], v[1][2]
        if op == 'blen':
            k, t = 0, {}
            for seg in a[0][1]:
                lo, hi = segspan(E, st, seg)
                if lo == hi:
                    k += lo
                else:
                    t[seg] = t.get(seg, 0) + 1
            return k, t
        if op in ('Add', 'Sub', 'add', 'sub'):
            (k1, t1), (k2, t2) = linear(E, st, a[0], depth - 1), linear(E, st, a[1], depth - 1)
            s = 1 if op.lower() == 'add' else -1
            t = dict(t1)
            for x, c in t2.items():
                t[x] = t.get(x, 0) + s * c
            return k1 + s * k2, {x: c for x, c in t.items() if c}
        if op == 'narrow' and a[0][0] == 'int':
            k, t = linear(E, st, a[1], depth - 1)
            # no bits are lost when the largest value fits
            if all(isinstance(x, tuple) and len(x) == 3 and c > 0 for x, c in t.items()) and k >= -2:
                lo = k + sum(c * segspan(E, st, x)[0] for x, c in t.items())
                hi = k + sum(c * segspan(E, st, x)[1] for x, c in t.items())
                if 0 <= lo and hi < 1 << a[0][1]:
                    return k, t
    return 0, {v: 1}


def length_form(E, st, v):
    """a number as (constant, {term: count}), lengths of rests expressed by the length of what they are the rest of"""
    c, t = linear(E, st, v)
    out = {}
    for x, n in t.items():
        if x[0] not in ('sym', 'int') and len(x) == 3 and isinstance(x[2], tuple):
            base = x[2]
            if base[0] == 'sub':
                c, base = c - n * base[2], base[1]
            x = ('length', base)
        out[x] = out.get(x, 0) + n
    return c, {x: n for x, n in out.items() if n}


def known_reach(E, st, base, v, c):
    """whether comparisons on the path settle that the length of `base` is at least v + c"""
    want = {('length', base): 1, v: -1}
    for k, f in list(st.facts.items()):
        if k[0] != 'app' or k[1] not in ('lt', 'le', 'gt', 'ge') or f[0] != 'int' or len(k[2]) != 2:
            continue
        a, b = k[2]
        if k[1] in ('gt', 'le'):
            a, b = b, a
        lt = bool(f[1]) == (k[1] in ('lt', 'gt'))
        (c1, t1), (c2, t2) = length_form(E, st, a), length_form(E, st, b)
        d = dict(t1)
        for x, n in t2.items():
            d[x] = d.get(x, 0) - n
        d = {x: n for x, n in d.items() if n}
        k1 = c1 - c2
        if d == want:               # k1 + (L - v) < 0, or >= 0
            if lt and c >= -k1:
                return False
            if not lt and c <= -k1:
                return True
        elif d == {x: -n for x, n in want.items()}:
            if lt and c <= k1 + 1:
                return True
            if not lt and c >= k1 + 1:
                return False
    return None


def split_by(E, st, b, n):
    """split at a length which is not a constant"""
    n = E.norm(st, n)
    if n[0] == 'int':
        return split(E, st, b, n[1])
    want = linear(E, st, n)
    for i in range(len(b[1]) + 1):
        if linear(E, st, ('sym', ('app', 'blen', (('bytes', b[1][:i]),)))) == want:
            return [(st, (('bytes', b[1][:i]), ('bytes', b[1][i:])))]
    x = lambda w: ('bytes', ((0, BIG, ('raw', ('sym', ('app', 'slice', (b, n, ('str', w)))))),))
    return [(s, (x('head'), x('tail')) if ok else None) for s, ok in reaches(E, st, b, n)]


def reaches(E, st, b, n):
    """[(state, whether the string is at least n bytes long)], consistently with what the path found out about other lengths"""
    c, t = linear(E, st, n)
    if len(t) != 1 or list(t.values()) != [1] or len(b[1]) != 1:
        return [(st.fork(), False), (st, True)]
    v = next(iter(t))
    if v[0] not in ('sym', 'int'):
        v = ('sym', ('app', 'blen', (('bytes', (v,)),)))
    base = b[1][0][2]
    if base[0] == 'sub':
        c, base = c + base[2], base[1]
    me = ('bytes', ((0, BIG, base),))
    for k, f in st.facts.items():
        if k[0] == 'app' and k[1] == 'reaches' and k[2][0] == me and k[2][1] == v and f[0] == 'int':
            if f[1] == 1 and k[2][2][1] >= c:
                return [(st, True)]
            if f[1] == 0 and k[2][2][1] <= c:
                return [(st, False)]
    k = known_reach(E, st, base, v, c)
    if k is not None:
        return [(st, k)]
    key = ('app', 'reaches', (me, v, ('int', c)))
    s2 = st.fork()
    s2.facts[key] = ('int', 0)
    st.facts[key] = ('int', 1)
    return [(s2, False), (st, True)]


@bytemodel('[T]::split_at', '[T]::split_at_checked')
def m_split_at(E, st, n, c, args, ctx, dty, loc):
    if not is_u8(E, c):
        return None
    b = get(E, st, args[0])
    if b is None:
        return None
    outs = []
    for s, x in split_by(E, st, b, args[1]):
        if x is None:
            outs += E.finish(s, EN.NONE(), ctx) if n.endswith('checked') else E.do_panic(s, 'split out of bounds', args, ctx, loc)
        else:
            v = ('tup', x)
            outs += E.finish(s, EN.SOME(v) if n.endswith('checked') else v, ctx)
    return outs


@bytemodel('[T]::split_first', '[T]::first')
def m_split_first(E, st, n, c, args, ctx, dty, loc):
    if not is_u8(E, c):
        return None
    b = get(E, st, args[0])
    if b is None:
        return None
    outs = []
    for s, x in split(E, st, b, 1):
        if x is None:
            outs += E.finish(s, EN.NONE(), ctx)
            continue
        r = ('A',) + E.fresh(s, 'c')[1][1:]
        s.mem[r] = byte(x[0])
        h = ('ref', r, ())
        outs += E.finish(s, EN.SOME(('tup', (h, x[1])) if n.endswith('split_first') else h), ctx)
    return outs


@bytemodel('core::str::converts::from_utf8', 'str::from_utf8', 'std::str::from_utf8', 'core::str::from_utf8')
def m_utf8(E, st, n, c, args, ctx, dty, loc):
    b = get(E, st, args[0])
    if b is None:
        return None
    if len(b[1]) == 1 and b[1][0][2][0] == 'raw':
        v = b[1][0][2][1]
        if v[0] == 'sym' and v[1][0] == 'app' and v[1][1] in ('str::as_bytes', 'alloc::string::String::as_bytes'):
            return E.finish(st, EN.OK(M.uncow(v[1][2][0])), ctx)
    res = ('sym', ('app', 'text', (b,)))
    E.emit(st, ('call', n, (b,), res, ()), loc)
    s2 = st.fork()
    return E.finish(s2, EN.ERR(('sym', ('app', 'utf8_error', (b,)))), ctx) + E.finish(st, EN.OK(res), ctx)


def arrlen(E, ty, d=0):
    """the length of the first array type inside a type"""
    if ty is None or d > 6:
        return None
    t = E.F.types[ty]
    if t['k'] == 'slice':
        return t.get('len')
    if t['k'] in ('ref', 'ptr'):
        return arrlen(E, t['t'], d + 1)
    for x in t.get('a') or ():
        if isinstance(x, int):
            r = arrlen(E, x, d + 1)
            if r is not None:
                return r
    return None


@bytemodel('[T]::split_first_chunk', '[T]::first_chunk', '[T]::last_chunk', '[T]::split_last_chunk')
def m_chunk(E, st, n, c, args, ctx, dty, loc):
    if not is_u8(E, c) or 'last' in n:
        return None
    b, k = get(E, st, args[0]), arrlen(E, dty)
    if b is None or k is None:
        return None
    outs = []
    for s, x in split(E, st, b, k):
        if x is None:
            outs += E.finish(s, EN.NONE(), ctx)
        else:
            outs += E.finish(s, EN.SOME(('tup', x) if 'split' in n else x[0]), ctx)
    return outs


@bytemodel('<[T; N] as core::convert::TryFrom>::try_from', '<&[T; N] as core::convert::TryFrom>::try_from')
def m_try_arr(E, st, n, c, args, ctx, dty, loc):
    b, k = get(E, st, args[0]), arrlen(E, dty)
    if b is None or k is None:
        return None
    bad = EN.ERR(('sym', ('app', 'TryFromSliceError', ())))
    outs = []
    ln = length(E, st, b)
    if ln[0] == 'int':
        return E.finish(st, EN.OK(b) if ln[1] == k else bad, ctx)
    lo, hi = span(E, st, b)
    if not lo <= k <= hi:
        return E.finish(st, bad, ctx)
    s2 = st.fork()
    if E.refine(s2, ln[1], ('int', k)):
        outs += E.finish(s2, EN.OK(b), ctx)
    if E.refine_ne(st, ln, k):
        outs += E.finish(st, bad, ctx)
    return outs


@bytemodel('<alloc::vec::Vec as core::iter::traits::collect::Extend>::extend', 'alloc::vec::Vec::extend_from_slice', 'alloc::vec::Vec::append',
           '<alloc::vec::Vec as std::io::Write>::write_all', 'alloc::vec::Vec::push', 'alloc::vec::Vec::extend_from_within')
def m_extend(E, st, n, c, args, ctx, dty, loc):
    r, p = E.deref(st, args[0])
    v = E.read(st, r, p)
    if not is_u8(E, c) and not (v[0] == 'bytes'):
        return None
    if v[0] == 'coll':
        v = get(E, st, v)
    if v[0] != 'bytes':
        return None
    if n.endswith('push'):
        x = ('bytes', ((1, 1, ('byte', EN.collapse(M.dv(E, st, args[1])))),))
    else:
        x = stream(E, st, args[1])
    if x is None:
        return None
    E.write(st, r, p, ('bytes', v[1] + x[1]))
    if n.endswith('append'):
        r2, p2 = E.deref(st, args[1])
        E.write(st, r2, p2, ('bytes', ()))
    return E.finish(st, EN.OK(EN.UNIT) if n.endswith('write_all') else EN.UNIT, ctx)


@bytemodel('str::bytes')
def m_str_bytes(E, st, n, c, args, ctx, dty, loc):
    b = get(E, st, ('sym', ('app', 'str::as_bytes', (EN.collapse(M.dv(E, st, args[0])),))))
    return E.finish(st, ('biter', b), ctx) if b is not None else None


def m_widen(E, st, n, c, args, ctx, dty, loc):
    """a number as a wider one"""
    ts = [E.F.types[x] for x in c.get('ra') or c.get('a') or () if isinstance(x, int)]
    return E.finish(st, args[0], ctx) if len(ts) == 2 and all(t['k'] == 'prim' and t['n'] in EN.INT_W for t in ts) else None


for _i in ('u16', 'u32', 'u64', 'u128', 'usize', 'i16', 'i32', 'i64', 'i128'):
    MODELS.setdefault('<%s as core::convert::From>::from' % _i, m_widen)


def stream(E, st, v):
    """the bytes an iterable delivers"""
    v = E.norm(st, v)
    if v[0] == 'adapt' and v[1] in ('cloned', 'copied'):
        return stream(E, st, v[2])
    if v[0] == 'adapt' and v[1] == 'chain':
        a, b = stream(E, st, v[2]), stream(E, st, v[3])
        return ('bytes', a[1] + b[1]) if a and b else None
    if v[0] == 'adt' and v[1] == OPT:
        return ('bytes', ()) if v[2] == 0 else None
    if v[0] == 'biter':
        return v[1]
    return get(E, st, v)


@bytemodel('[T]::to_vec', 'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::into_boxed_slice', '[T]::into_vec', '<[T] as alloc::borrow::ToOwned>::to_owned',
           'alloc::vec::Vec::as_mut_slice', '<alloc::vec::Vec as core::ops::deref::Deref>::deref', '<alloc::vec::Vec as core::convert::AsRef>::as_ref',
           '[T; N]::as_slice', '<[T; N] as core::convert::AsRef>::as_ref', '<[T] as core::convert::AsRef>::as_ref', '<alloc::vec::Vec as core::clone::Clone>::clone',
           '<alloc::vec::Vec as core::borrow::Borrow>::borrow')
def m_same(E, st, n, c, args, ctx, dty, loc):
    v = M.dv(E, st, args[0])
    if v[0] == 'bytes' or (v[0] == 'sym' and is_u8(E, c) and n in ('[T]::to_vec', '<[T] as alloc::borrow::ToOwned>::to_owned')):
        return E.finish(st, get(E, st, v), ctx)
    if v[0] == 'sym' and is_u8(E, c) and not n.endswith('::clone'):
        return E.finish(st, args[0], ctx)       # the same bytes, seen as a slice
    return None


@bytemodel('[T]::concat', '<[V] as alloc::slice::Concat>::concat', '<[S] as alloc::slice::Concat>::concat')
def m_concat(E, st, n, c, args, ctx, dty, loc):
    v = M.dv(E, st, args[0])
    if v[0] not in ('arr', 'coll') or not v[1]:
        return None
    xs = [M.dv(E, st, x) for x in v[1]]
    if any(x[0] not in ('bytes', 'coll') for x in xs):
        return None
    bs = [get(E, st, x) for x in xs]
    return E.finish(st, ('bytes', tuple(s for b in bs for s in b[1])), ctx)


@bytemodel('[T]::copy_from_slice', '[T]::clone_from_slice')
def m_copy(E, st, n, c, args, ctx, dty, loc):
    r, p = E.deref(st, args[0])
    v = E.read(st, r, p)
    b = get(E, st, args[1])
    if b is None or v[0] not in ('rep', 'bytes'):
        return None
    ln = length(E, st, b)
    if ln[0] != 'int':
        return None
    E.write(st, r, p, b)
    return E.finish(st, EN.UNIT, ctx)


def meta_len(E, st, v):
    b = M.dv(E, st, v)
    return length(E, st, b) if b[0] == 'bytes' else None
