"""Path-sensitive abstract interpreter over the exported MIR ("property simulation").

Values are immutable tuples; unknown inputs and results of opaque calls are symbols, everything the code does with
them (moves, boxing, erasure, matching) is tracked structurally, so a rule can say "the message returned in this
error is the argument" and have it decided by where the value flows.  Calls whose body is available in the facts are
inlined (async bodies are run to completion at the await), library calls go through `models.py`, anything else is an
opaque event.  Every feasible path is enumerated (loops: until no new abstract state appears), branching on each
unknown discriminant.  Nothing is executed and no solver is involved.
"""
import sys
from . import models
sys.setrecursionlimit(20000)

MOVED = ('moved',)
UNIT = ('tup', ())
TRUE = ('int', 1)
FALSE = ('int', 0)
OPT = 'core::option::Option'
RES = 'core::result::Result'
POLL = 'core::task::poll::Poll'
PIN = 'core::pin::Pin'

def NONE(): return ('adt', OPT, 0, ())
def SOME(v): return ('adt', OPT, 1, (v,))
def OK(v): return ('adt', RES, 0, (v,))
def ERR(v): return ('adt', RES, 1, (v,))
def READY(v): return ('adt', POLL, 0, (v,))
PENDING = ('adt', POLL, 1, ())
def sym(*k): return ('sym', k)


class Budget(Exception):
    pass


class St:
    __slots__ = ('frames', 'mem', 'facts', 'mon', 'execd', 'hist', 'flags')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = {}
        self.mon = None
        self.execd = set()
        self.hist = None
        self.flags = ()

    def fork(self):
        s = St.__new__(St)
        s.frames = list(self.frames)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.mon = self.mon
        s.execd = set(self.execd)
        s.hist = self.hist
        s.flags = self.flags
        return s


class Outcome:
    __slots__ = ('kind', 'value', 'st', 'mon')

    def __init__(self, kind, value, st):
        self.kind = kind
        self.value = value
        self.st = st
        self.mon = st.mon

    def path(self):
        out = []
        h = self.st.hist
        while h is not None:
            out.append(h[1])
            h = h[0]
        out.reverse()
        return out


_bases_cache = {}


def bases(v):
    """base symbols (with their wrappers stripped to the origin) contained in a value"""
    r = _bases_cache.get(v)
    if r is not None:
        return r
    out = set()
    _coll(v, out)
    r = frozenset(out)
    if len(_bases_cache) > 400000:
        _bases_cache.clear()
    _bases_cache[v] = r
    return r


def _coll(v, out):
    if not isinstance(v, tuple) or not v:
        return
    t = v[0]
    if t == 'sym':
        key_bases(v[1], out)
        return
    if t in ('int', 'str', 'moved', 'fn'):
        return
    for x in v[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in ('fld', 'deref', 'arg', 'c', 'tx', 'rx', 'app', 'static', 'aw', 'panic', 'tl', 'discr'):
                key_bases(x, out)
            else:
                _coll(x, out) if (x and isinstance(x[0], str)) else [_coll(y, out) for y in x]


def key_bases(k, out):
    t = k[0]
    if t in ('fld', 'deref', 'aw', 'part'):
        key_bases(k[1], out)
    elif t == 'app':
        out.add(k)
        for a in k[2]:
            _coll(a, out)
    else:
        out.add(k)


def root_of(k):
    while k[0] in ('fld', 'deref', 'aw', 'part'):
        k = k[1]
    return k


INT_W = {p + str(n): n for p in 'ui' for n in (8, 16, 32, 64, 128)}
INT_W.update(usize=64, isize=64)


class Engine:
    def __init__(self, facts, mon=None, opaque=None, inline_only=None, max_steps=400000, cancel=False,
                 hook_panics=True, spawn='event', pure=None, enter=None, max_same=3, no_panic=None, deep_panics=False, want_pend=False, havoc=None, poison=False, abortable=None, max_elems=2, max_coll=3, loop_value=None, maps=False, octets=False, kapi=False, net=False, given=None):
        self.maps = maps
        self.octets = octets
        self.kapi = kapi
        self.net = net
        self.loop_value = loop_value
        self.max_coll = max_coll
        self.abortable = abortable
        self.max_elems = max_elems
        self.poison = poison
        self.havoc = havoc
        self.muts = None
        self.given = given or {}        # facts about symbols that only appear later
        self.F = facts
        self.mon = mon
        self.opaque = opaque or (lambda n: False)
        self.max_steps = max_steps
        self.cancel = cancel
        self.hook_panics = hook_panics
        self.spawn = spawn
        self.enter = enter or (lambda n: False)
        self.pure = pure if pure is not None else (lambda n: n == '<kameo::actor::id::ActorID as core::cmp::PartialEq>::eq')
        self.no_panic = no_panic or (lambda n: False)
        self.callees = []
        self.callee_ix = {}
        self.vts = []
        self.steps = 0
        self.calls = 0
        self.covered = set()      # (inst name) analysed
        self.blocks = set()
        self.sites = {}
        self.max_same = max_same
        self.unknown = {}
        self.want_pend = want_pend
        self.drop_types = {}
        for im in facts.impls:
            if im['tr'] == 'core::ops::drop::Drop':
                t = facts.types[im['ty']]
                if t['k'] == 'adt':
                    self.drop_types[t['n']] = im

    # ------------------------------------------------------------------ values
    def intern(self, c):
        i = self.callee_ix.get(id(c))
        if i is None:
            i = len(self.callees)
            self.callees.append(c)
            self.callee_ix[id(c)] = i
        return i

    def norm(self, st, v):
        if v[0] == 'sym':
            f = st.facts.get(v[1])
            if f is not None and f[0] in ('adt', 'int', 'map', 'coll'):
                return f
        return v

    def nfields(self, adt, variant):
        a = self.F.adts.get(adt)
        if a is None or variant >= len(a['v']):
            return None
        return len(a['v'][variant]['f'])

    def expand(self, key, adt, variant):
        n = self.nfields(adt, variant)
        return ('adt', adt, variant, tuple(('sym', ('fld', key, variant, i)) for i in range(n or 0)))

    def proj(self, st, v, el):
        """read one path element out of a value"""
        v = self.norm(st, v)
        t = v[0]
        if el[0] == 'f':
            _, vi, i = el
            if t == 'adt':
                if i < len(v[3]):
                    return v[3][i]
                return ('sym', ('fld', ('bad',), vi, i))
            if t == 'tup' or t == 'arr':
                return v[1][i] if i < len(v[1]) else ('sym', ('fld', ('bad',), vi, i))
            if t in ('clo', 'cor'):
                return v[3][i] if i < len(v[3]) else ('sym', ('fld', ('bad',), vi, i))
            if t == 'sym':
                return ('sym', ('fld', v[1], vi, i))
            if t == 'upd':
                for e, x in v[2]:
                    if e == el:
                        return x
                return self.proj(st, v[1], el)
            if t == 'dynv':
                return self.proj(st, v[1], el)
            if t == 'moved':
                return MOVED
            if t == 'box':   # Box<T>.0 unique pointers
                return v
            return ('sym', ('fld', ('val', v), vi, i))
        if el[0] == 'b':
            if t == 'box':
                return v[1]
            if t == 'sym':
                return ('sym', ('deref', v[1]))
            if t == 'upd':
                for e, x in v[2]:
                    if e == el:
                        return x
                return self.proj(st, v[1], el)
            if t == 'moved':
                return MOVED
            if t == 'dynv':
                return self.proj(st, v[1], el)
            return ('sym', ('deref', ('val', v)))
        if el[0] in ('e', 'k'):
            if t == 'coll' and el[1] < len(v[1]):
                return v[1][el[1]]
            if t == 'map' and el[1] < len(v[1]):
                return v[1][el[1]][1 if el[0] == 'e' else 0]
        if el[0] == 'i':
            if t == 'coll' and isinstance(el[1], int) and el[1] < len(v[1]):
                return v[1][el[1]]
            if t == 'arr' and isinstance(el[1], int) and el[1] < len(v[1]):
                return v[1][el[1]]
            if t == 'rep':
                return v[1]
            return ('sym', ('part', ('val', v) if t != 'sym' else v[1], el))
        return ('sym', ('part', ('val', v) if t != 'sym' else v[1], el))

    def root_val(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == 'P':
                s = root[1]
                while s[0] == 'dynv':
                    s = s[1]
                if s[0] == 'sym':
                    return ('sym', ('deref', s[1]))
                if s[0] == 'bytes':
                    return s
                return ('sym', ('deref', ('val', s)))
            if root[0] == 'S':
                return ('sym', ('static', root[1]))
            return ('sym', ('undef', root))
        return v

    def read(self, st, root, path):
        v = self.root_val(st, root)
        for el in path:
            v = self.proj(st, v, el)
        return self.norm(st, v)

    def _store(self, st, v, path, new):
        if not path:
            return new
        el = path[0]
        v = self.norm(st, v)
        t = v[0]
        if el[0] == 'f':
            i = el[2]
            if t == 'adt' and i < len(v[3]):
                fs = list(v[3])
                fs[i] = self._store(st, fs[i], path[1:], new)
                return ('adt', v[1], v[2], tuple(fs))
            if t in ('tup', 'arr') and i < len(v[1]):
                fs = list(v[1])
                fs[i] = self._store(st, fs[i], path[1:], new)
                return (t, tuple(fs))
            if t in ('clo', 'cor') and i < len(v[3]):
                fs = list(v[3])
                fs[i] = self._store(st, fs[i], path[1:], new)
                return (t, v[1], v[2], tuple(fs))
            if t == 'dynv':
                return ('dynv', self._store(st, v[1], path, new), v[2], v[3])
        if el[0] == 'b' and t == 'box':
            return ('box', self._store(st, v[1], path[1:], new))
        if el[0] == 'i' and t == 'arr' and isinstance(el[1], int) and el[1] < len(v[1]):
            fs = list(v[1])
            fs[el[1]] = self._store(st, fs[el[1]], path[1:], new)
            return ('arr', tuple(fs))
        if el[0] in ('e', 'i') and t == 'coll' and isinstance(el[1], int) and el[1] < len(v[1]):
            fs = list(v[1])
            fs[el[1]] = self._store(st, fs[el[1]], path[1:], new)
            return ('coll', tuple(fs))
        if el[0] in ('e', 'k') and t == 'map' and el[1] < len(v[1]):
            fs = list(v[1])
            kv = list(fs[el[1]])
            j = 1 if el[0] == 'e' else 0
            kv[j] = self._store(st, kv[j], path[1:], new)
            fs[el[1]] = tuple(kv)
            return ('map', tuple(fs))
        # overlay
        if t == 'upd':
            base, ovs = v[1], dict(v[2])
        else:
            base, ovs = v, {}
        cur = ovs.get(el)
        if cur is None:
            cur = self.proj(st, base, el)
        ovs[el] = self._store(st, cur, path[1:], new)
        return ('upd', base, tuple(sorted(ovs.items(), key=repr)))

    def write(self, st, root, path, v):
        if not path:
            st.mem[root] = v
        else:
            st.mem[root] = self._store(st, self.root_val(st, root), path, v)

    def deref(self, st, v):
        """place denoted by dereferencing a pointer-like value"""
        v = self.norm(st, v)
        t = v[0]
        if t == 'ref':
            return v[1], v[2]
        if t == 'dref':
            return v[1], v[2]
        if t == 'arc':
            return v[1], ()
        if t == 'guard':
            return v[1], v[2] + (('f', 0, 0),)
        if t == 'adt' and v[1] == PIN:
            return self.deref(st, v[3][0])
        return ('P', v), ()

    def place(self, st, depth, p):
        root = (depth, p[0])
        path = ()
        var = 0
        for e in p[1]:
            if e == '*':
                v = self.read(st, root, path)
                if v[0] == 'box':
                    path = path + (('b',),)
                elif v[0] == 'upd' and v[1][0] in ('sym', 'box') and any(e2 == ('b',) for e2, _ in v[2]):
                    path = path + (('b',),)
                else:
                    root, path = self.deref(st, v)
                var = 0
            elif e[0] == 'f':
                path = path + (('f', var, e[1]),)
                var = 0
            elif e[0] == 'v':
                var = e[1]
            elif e[0] == 'i':
                iv = self.read(st, (depth, e[1]), ())
                path = path + (('i', iv[1] if iv[0] == 'int' else iv),)
            elif e[0] == 'ci':
                path = path + (('i', e[1] if not e[2] else ('end', e[1])),)
            elif e[0] in ('ss', 'o'):
                path = path + (('ss',),)
            # 'oc': no-op
        return root, path

    def is_box_ty(self, st):
        return False

    def operand(self, st, depth, o):
        k = o[0]
        if k == 'c':
            r, p = self.place(st, depth, o[1])
            return self.read(st, r, p)
        if k == 'm':
            r, p = self.place(st, depth, o[1])
            v = self.read(st, r, p)
            if v[0] not in ('int', 'str', 'fn', 'ref', 'dref'):
                self.write(st, r, p, MOVED)
            return v
        return self.const(st, depth, o[1])

    def const(self, st, depth, c):
        k = c['k']
        if k == 'int':
            if c.get('rt'):
                return ('int', 0)
            v = c['v']
            return ('int', v)
        if k == 'fn':
            return ('fn', self.intern(c['c']))
        if k == 'str':
            return ('str', c['v'])
        if k == 'bytes':
            return ('str', c['v'])
        if k == 'clo':
            return ('clo', c['i'], c['n'], ())
        if k == 'zst':
            t = self.F.types[c['ty']]
            if t['k'] == 'adt':
                return ('adt', t['n'], 0, ())
            return UNIT
        if k == 'enum':
            return ('adt', self.F.types[c['ty']]['n'], c['v'], tuple(self.const(st, depth, f) for f in c['f']))
        if k == 'static':
            return ('ref', ('S', c['n']), ())
        if k == 'promoted':
            inst = st.frames[-1][0]
            return self.promoted(st, inst, c['i'])
        # opaque constant
        d = c.get('def') or c.get('cp') or c.get('s') or '?'
        return ('sym', ('const', d, c['ty']) + (tuple(c['ga']) if c.get('ga') else ()))

    def promoted(self, st, inst, i):
        """evaluate a promoted constant body (straight-line) into a private root"""
        root = ('Q', inst, i)
        if root not in st.mem:
            b = self.F.body(inst)['prom'][i]
            # evaluate in a scratch frame at a pseudo depth
            d = ('q', inst, i)
            cur = 0
            n = 0
            st.frames.append((inst, 0, None, None, None, ()))
            try:
                while True:
                    n += 1
                    blk = b['b'][cur]
                    for s in blk[1]:
                        if s[0] == 'a':
                            v = self.rvalue(st, d, s[2])
                            r, p = self.place(st, d, s[1])
                            self.write(st, r, p, v)
                    t = blk[2]
                    if t[0] == 'goto' and n < 50:
                        cur = t[1]
                    elif t[0] == 'drop' and n < 50:
                        cur = t[2]
                    elif t[0] == 'call' and t[4] is not None and n < 50:
                        f = self.operand(st, d, t[1])
                        args = tuple(self.operand(st, d, a) for a in t[2])
                        nm = self.callees[f[1]].get('rn') or self.callees[f[1]]['n'] if f[0] == 'fn' else '?'
                        r, p = self.place(st, d, t[3])
                        self.write(st, r, p, ('sym', ('app', nm, args)))
                        cur = t[4]
                    elif t[0] == 'assert' and n < 50:
                        cur = t[3]
                    else:
                        break
            finally:
                st.frames.pop()
            st.mem[root] = st.mem.get((d, 0), ('sym', ('const', 'promoted', inst, i)))
        return st.mem[root]

    def cast_dyn(self, st, v, src, vt):
        """attach a vtable to an unsized pointer"""
        if vt is None:
            return v
        v = self.norm(st, v)
        t = v[0]
        if vt == 'up':
            return v
        if t == 'adt' and v[1] == PIN:
            return ('adt', PIN, 0, (self.cast_dyn(st, v[3][0], src, vt),))
        if t == 'box':
            return ('box', ('dynv', v[1], src, vt))
        if t == 'ref':
            return ('dref', v[1], v[2], src, vt)
        if t == 'sym':
            st_key = v
            return ('dref', ('P', st_key), (), src, vt) if False else ('box', ('dynv', ('sym', ('deref', v[1])), src, vt)) if self._is_box else ('dref', ('P', v), (), src, vt)
        if t == 'arc':
            return ('arc', v[1], src, vt)
        return v

    def rvalue(self, st, depth, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, depth, r[1])
        if k == 'ref':
            root, path = self.place(st, depth, r[2])
            # reborrow of an erased pointer keeps the vtable
            pr = r[2][1]
            if pr and pr[-1] == '*':
                base = self.read_place_noderef(st, depth, r[2])
                if base[0] == 'dref':
                    return base
                if base[0] == 'adt' and base[1] == PIN and base[3][0][0] == 'dref':
                    return base[3][0]
                if root[0] == 'P' and not path and base[0] == 'sym':
                    return base if self.read(st, root, path)[0] == 'sym' and root not in st.mem else ('ref', root, path)
            return ('ref', root, path)
        if k == 'agg':
            ops = tuple(self.operand(st, depth, o) for o in r[2])
            kd = r[1]
            if kd[0] == 'adt':
                if kd[4] is not None:  # union
                    return ('sym', ('app', 'union', ops))
                return ('adt', kd[1], kd[2], ops)
            if kd[0] == 'tuple':
                return ('tup', ops)
            if kd[0] == 'array':
                return ('arr', ops)
            if kd[0] == 'closure':
                return ('clo', kd[2], kd[1], ops)
            if kd[0] in ('coroutine', 'coclosure'):
                return ('cor' if kd[0] == 'coroutine' else 'clo', kd[2], kd[1], ops)
            return ('sym', ('app', 'rawptr', ops))
        if k == 'discr':
            root, path = self.place(st, depth, r[1])
            v = self.read(st, root, path)
            return self.discr_of(st, v, r[2])
        if k == 'bin':
            a = self.operand(st, depth, r[2])
            b = self.operand(st, depth, r[3])
            op = r[1]
            if op in ('lt', 'le', 'gt', 'ge'):
                z = self.zero_test(st, op, r[2], r[3], a, b)
                if z is not None:
                    return z
            return self.binop(st, op, a, b)
        if k == 'un':
            a = self.norm(st, self.operand(st, depth, r[2]))
            if r[1] == 'not':
                if a[0] == 'int':
                    return ('int', 1 - a[1]) if a[1] in (0, 1) else ('int', ~a[1])
                if a[0] == 'sym' and a[1][0] == 'app' and a[1][1] == 'not':
                    return a[1][2][0]
                return ('sym', ('app', 'not', (a,)))
            if r[1] == 'meta' and self.octets:
                b = models.OCTETS_LEN(self, st, a)
                if b is not None:
                    return b
            if r[1] == 'neg' and a[0] == 'int':
                return ('int', -a[1])
            return ('sym', ('app', r[1], (a,)))
        if k == 'cast':
            kind = r[1]
            v = self.operand(st, depth, r[2])
            if kind == 'unsize':
                vt = r[5]
                if vt is None:
                    return v
                src, tab = vt
                if isinstance(tab, dict) and tab.get('up'):
                    return v
                key = ('vt', id(vt))
                i = self.callee_ix.get(key)
                if i is None:
                    i = len(self.vts)
                    self.vts.append(tab)
                    self.callee_ix[key] = i
                st_ty = self.F.types[r[3]]
                self._is_box = st_ty['k'] == 'adt' and st_ty['n'].startswith('alloc::boxed::Box')
                if st_ty['k'] == 'adt' and st_ty['n'] == PIN:
                    self._is_box = True
                dst = self.F.types[r[4]]
                if not self._unsizes_to_dyn(dst):
                    return v
                return self.cast_dyn(st, v, src, i)
            if kind == 'int':
                a, b = self.F.types[r[3]], self.F.types[r[4]]
                wa, wb = INT_W.get(a.get('n')), INT_W.get(b.get('n'))
                if wa and wb and wb < wa:
                    if v[0] == 'int':
                        return ('int', v[1] % (1 << wb)) if b['n'][0] == 'u' else v
                    return ('sym', ('app', 'narrow', (('int', wb), v)))
                return v
            return v
        if k == 'rep':
            return ('rep', self.operand(st, depth, r[1]))
        if k == 'tls':
            return ('ref', ('S', r[1]), ())
        return ('sym', ('unk',))

    _is_box = False

    def _unsizes_to_dyn(self, t, d=0):
        if d > 4:
            return False
        if t['k'] == 'dyn':
            return True
        if t['k'] in ('ref', 'ptr'):
            return self._unsizes_to_dyn(self.F.types[t['t']], d + 1)
        if t['k'] == 'adt':
            for x in t['a'][:1]:
                if isinstance(x, int):
                    return self._unsizes_to_dyn(self.F.types[x], d + 1)
        return False

    def read_place_noderef(self, st, depth, p):
        root, path = self.place(st, depth, [p[0], p[1][:-1]])
        return self.read(st, root, path)

    def discr_of(self, st, v, ty):
        v = self.norm(st, v)
        while v[0] in ('upd', 'dynv'):
            v = self.norm(st, v[1])
        t = self.F.types[ty]
        if v[0] == 'adt':
            a = self.F.adts.get(v[1])
            if a and v[2] < len(a['v']):
                return ('int', int(a['v'][v[2]]['d']))
            return ('int', v[2])
        if v[0] == 'sym':
            return ('sym', ('discr', v[1], t.get('n', '?')))
        return ('sym', ('discr', ('val', v), t.get('n', '?')))

    def zero_test(self, st, op, ra, rb, a, b):
        """x < 1, x <= 0, 0 < x and the like, of an unsigned x: is x zero"""
        if self.octets:
            return None
        for k, x, o in ((rb, a, op), (ra, b, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[op])):
            if k[0] != 'k' or k[1].get('k') != 'int' or not str(self.F.types[k[1]['ty']].get('n', '')).startswith('u'):
                continue
            t = {('lt', 1): 'eq', ('le', 0): 'eq', ('gt', 0): 'ne', ('ge', 1): 'ne'}.get((o, k[1]['v']))
            if t:
                return self.binop(st, t, x, ('int', 0))
        return None

    def binop(self, st, op, a, b):
        a = self.norm(st, a)
        b = self.norm(st, b)
        if a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            try:
                r = {'eq': lambda: int(x == y), 'ne': lambda: int(x != y), 'lt': lambda: int(x < y), 'le': lambda: int(x <= y),
                     'gt': lambda: int(x > y), 'ge': lambda: int(x >= y), 'Add': lambda: x + y, 'Sub': lambda: x - y,
                     'Mul': lambda: x * y, 'Div': lambda: x // y, 'Rem': lambda: x % y, 'BitAnd': lambda: x & y,
                     'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y,
                     'AddUnchecked': lambda: x + y, 'SubUnchecked': lambda: x - y}.get(op)
                if r is not None:
                    return ('int', r())
                if op.endswith('WithOverflow'):
                    z = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[op[:3]]
                    return ('tup', (('int', z), ('int', int(z < 0))))
            except Exception:
                pass
        if self.octets:
            r = models.OCTETS_DECIDE(self, st, op, a, b)
            if r is not None:
                return r
        if op.endswith('WithOverflow'):
            return ('tup', (('sym', ('app', op[:3], (a, b))), FALSE))
        if op in ('eq', 'ne') and a == b:
            return ('int', int(op == 'eq'))
        if op == 'ne':
            return ('sym', ('app', 'not', (self.binop(st, 'eq', a, b),)))
        if op == 'eq':
            if b[0] != 'int' and a[0] == 'int':
                a, b = b, a
            if a[0] == 'sym' and a[1][0] == 'discr' and b[0] == 'int':
                pass
            elif repr(a) > repr(b) and b[0] != 'int':
                a, b = b, a
        return ('sym', ('app', op, (a, b)))

    # ------------------------------------------------------------------ facts
    def refine(self, st, key, val):
        """assume symbol `key` equals `val`; False when contradictory"""
        cur = st.facts.get(key)
        if cur is not None:
            if cur[0] == 'int':
                return cur == val
            if cur[0] == 'ne':
                if val[0] == 'int' and val[1] in cur[1]:
                    return False
            if cur[0] == 'adt':
                if val[0] == 'adt':
                    return cur[2] == val[2]
                return True
        st.facts[key] = val
        if key[0] == 'app' and val[0] == 'int':
            if key[1] == 'not' and val[1] in (0, 1) and key[2][0][0] == 'sym':
                return self.refine_v(st, key[2][0], ('int', 1 - val[1]))
            if key[1] == 'eq' and key[2][1][0] == 'int' and key[2][0][0] == 'sym':
                if val[1] == 1:
                    return self.refine_v(st, key[2][0], key[2][1])
                return self.refine_ne(st, key[2][0], key[2][1][1])
        return True

    def refine_v(self, st, v, val):
        v = self.norm(st, v)
        if v[0] == 'int':
            return v == val
        if v[0] == 'sym':
            if v[1][0] == 'discr' and val[0] == 'int':
                return self.refine_discr(st, v[1], val[1])
            return self.refine(st, v[1], val)
        return True

    def refine_ne(self, st, v, x):
        v = self.norm(st, v)
        if v[0] == 'int':
            return v[1] != x
        if v[0] == 'sym':
            if v[1][0] == 'discr':
                vs = self.F.adts[v[1][2]]['v'] if v[1][2] in self.F.adts else ()
                if len(vs) == 2:
                    other = [int(y['d']) for y in vs if int(y['d']) != x]
                    if len(other) == 1:
                        return self.refine_discr(st, v[1], other[0])
                elif vs and v[1][1][0] != 'val':
                    cur = st.facts.get(v[1])
                    st.facts[v[1]] = ('ne', (cur[1] if cur and cur[0] == 'ne' else frozenset()) | {x})
                return True
            cur = st.facts.get(v[1])
            s = cur[1] if cur and cur[0] == 'ne' else frozenset()
            st.facts[v[1]] = ('ne', s | {x})
        return True

    def refine_discr(self, st, dkey, d):
        _, key, adt = dkey
        vi = self.F.discr_to_variant(adt, d)
        if vi is None:
            return self.refine(st, dkey, ('int', d))
        if key[0] == 'val':
            return True
        ne = st.facts.get(dkey)
        if ne is not None and ne[0] == 'ne' and d in ne[1]:
            return False
        return self.refine(st, key, self.expand(key, adt, vi))

    def do_panic(self, st, n, args, ctx, loc):
        self.emit(st, ('panic', n, ()), loc)
        return self.unwind_to(st, ctx, self.fresh(st, 'panic'))

    # ------------------------------------------------------------------ fresh symbols
    def fresh(self, st, tag='c'):
        """symbol for the current call site (call string), smallest index not live"""
        chain = tuple((f[0], f[1]) for f in st.frames[-6:])
        site = self.sites.setdefault(chain, len(self.sites))
        k = 0
        if (tag, site) in st.execd:
            live = self.live(st)
            while k < self.max_same and (tag, site, k) in live:
                k += 1
            key = (tag, site, k)
            if k < self.max_same:
                for f in [f for f in st.facts if root_of(f) == key or (f[0] == 'discr' and root_of(f[1]) == key) or (f[0] == 'app' and key in bases(('sym', f)))]:
                    del st.facts[f]
                st.mem.pop(('P', ('sym', key)), None)
        else:
            st.execd.add((tag, site))
            key = (tag, site, 0)
        return ('sym', key)

    def live(self, st):
        out = set()
        for r, v in st.mem.items():
            out |= bases(v)
        for f in st.frames:
            for op in f[5]:
                out |= bases(('ops',) + op if op and isinstance(op, tuple) else ('ops',))
        if st.mon is not None:
            out |= bases(('mon', st.mon)) if isinstance(st.mon, tuple) else set()
        return out

    def gc(self, st):
        """drop facts about symbols nothing can reach any more"""
        if not st.facts:
            return
        live = self.live(st)
        dead = []
        for k in st.facts:
            kk = k[1] if k[0] == 'discr' else k
            bs = set()
            key_bases(kk, bs)
            ok = False
            for b in bs:
                if b in live or b[0] in ('arg', 'static', 'tl'):
                    ok = True
                    break
            if not ok and k not in self.given:
                dead.append(k)
        for k in dead:
            del st.facts[k]
        # unreachable pointees
        for r in [r for r in st.mem if isinstance(r, tuple) and r[0] in ('P',) and not (bases(r[1]) & live) and not any(b[0] in ('arg', 'static', 'tl') for b in bases(r[1]))]:
            del st.mem[r]

    # ------------------------------------------------------------------ events
    def emit(self, st, ev, loc=None):
        st.hist = (st.hist, (ev[0], ev[1] if len(ev) > 1 and isinstance(ev[1], str) else '', loc))
        if self.mon is not None:
            st.mon = self.mon.event(self, st, ev, loc)

    def ev_arg(self, st, v):
        """an argument as a rule wants to see it: references show the value they point to"""
        v = self.norm(st, v)
        if v[0] in ('ref', 'dref'):
            return ('&', self.read(st, v[1], v[2]))
        return v

    # ------------------------------------------------------------------ running
    def start(self, inst, args=None, setup=None):
        st = St()
        b = self.F.body(inst)
        if args is None:
            args = [sym('arg', i) for i in range(b['argc'])]
        st.mon = self.mon.init if self.mon is not None else None
        self.push(st, inst, args, None, None, None, ())
        st.facts.update(self.given)
        if setup:
            setup(st)
        return st

    def run(self, inst, args=None, setup=None):
        return self.explore([self.start(inst, args, setup)])

    def run_async(self, inst, args=None, setup=None):
        """call an async function and run the future it returns"""
        outs = []
        for o in self.run(inst, args, setup):
            if o.kind != 'ret':
                outs.append(o)
                continue
            st = o.st
            st.frames = []
            st.mem = {r: v for r, v in st.mem.items() if not isinstance(r[0], int)}
            root = ('T', 'root')
            st.mem[root] = o.value
            res = models.poll(self, st, ('ref', root, ()), (None, None, None, ()), True)
            outs.extend(self.explore(res, unwrap_ready=True))
        return outs

    exhausted = None

    def explore(self, init, unwrap_ready=False):
        work = list(init)
        outs = []
        seen = set()
        while work:
            st = work.pop()
            if isinstance(st, Outcome):
                if unwrap_ready and st.kind == 'ret' and st.value[0] == 'adt' and st.value[1] == POLL:
                    if st.value[2] == 1:
                        continue
                    st.value = st.value[3][0]
                outs.append(st)
                continue
            top = st.frames[-1]
            b = self.F.body(top[0])
            if top[1] in b['merge']:
                self.gc(st)
                key = (tuple(st.frames), frozenset(st.mem.items()), frozenset(st.facts.items()), st.mon, st.flags)
                h = hash(key)
                if key in seen:
                    continue
                seen.add(key)
            self.steps += 1
            if self.steps > self.max_steps:
                # the paths finished so far are handed out; the runner does not call the property decided
                self.exhausted = 'path budget exceeded in ' + b['n']
                break
            work.extend(self.step(st))
        return outs

    def push(self, st, inst, args, dest, target, unwind, ops):
        b = self.F.body(inst)
        self.covered.add(b['n'])
        d = len(st.frames)
        st.frames.append((inst, 0, dest, target, unwind, ops))
        for i, a in enumerate(args):
            st.mem[(d, i + 1)] = a
        if self.enter(b['n']):
            self.emit(st, ('enter', b['n'], tuple(self.ev_arg(st, a) for a in args)), b['loc'])
        return st

    def pop(self, st):
        f = st.frames.pop()
        d = len(st.frames)
        n = len(self.F.body(f[0])['l'])
        mem = st.mem
        for i in range(n):
            mem.pop((d, i), None)
        return f

    def goto(self, st, bb):
        f = st.frames[-1]
        st.frames[-1] = (f[0], bb, f[2], f[3], f[4], f[5])
        return st

    def finish(self, st, v, ctx):
        """deliver a call result to the caller frame (applying pending ops); ctx = (dest, target, unwind, ops)"""
        dest, target, unwind, ops = ctx
        while ops:
            op = ops[0]
            ops = ops[1:]
            r = models.apply_op(self, st, op, v, (dest, target, unwind, ops))
            if r[0] == 'val':
                v = r[1]
            elif r[0] == 'states':
                return r[1]
        if not st.frames:
            return [Outcome('ret', v, st)]
        if target is None:
            return []   # diverging call that "returned": infeasible
        if dest is not None:
            self.write(st, dest[0], dest[1], v)
        return [self.goto(st, target)]

    def unwind_to(self, st, ctx, payload):
        """a call in the current frame panics; ctx is that call's context"""
        dest, target, unwind, ops = ctx
        while ops:
            op = ops[0]
            ops = ops[1:]
            r = models.unwind_op(self, st, op, payload, (dest, target, unwind, ops))
            if r is not None:
                return r
        if not st.frames:
            return [Outcome('panic', payload, st)]
        if unwind is not None:
            d = len(st.frames)
            st.mem[('X', d)] = payload
            return [self.goto(st, unwind)]
        # no cleanup: pop this frame
        f = self.pop(st)
        return self.unwind_to(st, (f[2], f[3], f[4], f[5]), payload)

    def abort_to(self, st, depth, value_fn):
        """cancel everything above `depth` frames: drop what the popped frames own, then deliver"""
        while len(st.frames) > depth:
            d = len(st.frames) - 1
            f = st.frames[-1]
            n = len(self.F.body(f[0])['l'])
            for i in range(n):
                v = st.mem.get((d, i))
                if v is not None and v[0] not in ('moved', 'int', 'ref', 'dref', 'str', 'fn'):
                    self.drop_value(st, v, None, 'cancel')
            last = self.pop(st)
        return last

    # ------------------------------------------------------------------ one block
    def step(self, st):
        inst, bb = st.frames[-1][0], st.frames[-1][1]
        depth = len(st.frames) - 1
        b = self.F.body(inst)
        blk = b['b'][bb]
        self.blocks.add((inst, bb))
        mem = st.mem
        for s in blk[1]:
            k = s[0]
            if k == 'a':
                v = self.rvalue(st, depth, s[2])
                p = s[1]
                if p[1]:
                    r, pa = self.place(st, depth, p)
                    self.write(st, r, pa, v)
                else:
                    mem[(depth, p[0])] = v
            elif k == 'dead':
                mem.pop((depth, s[1]), None)
            elif k == 'sd':
                r, pa = self.place(st, depth, s[1])
                v = self.read(st, r, pa)
                if v[0] == 'adt':
                    self.write(st, r, pa, ('adt', v[1], s[2], v[3]))
        t = blk[2]
        k = t[0]
        if k == 'goto':
            return [self.goto(st, t[1])]
        if k == 'switch':
            return self.switch(st, depth, t)
        if k == 'ret':
            v = self.norm(st, mem.get((depth, 0), UNIT))
            f = self.pop(st)
            return self.finish(st, v, (f[2], f[3], f[4], f[5]))
        if k == 'unreach' or k == 'abort' or k == 'cordrop':
            return []
        if k == 'resume':
            payload = mem.pop(('X', depth + 1), ('sym', ('panic', 0, 0)))
            f = self.pop(st)
            return self.unwind_to(st, (f[2], f[3], f[4], f[5]), payload)
        if k == 'drop':
            r, p = self.place(st, depth, t[1])
            v = self.read(st, r, p)
            if v[0] != 'moved':
                res = self.drop_value(st, v, t[4], 'cleanup' if blk[0] else 'drop', t[5])
                self.write(st, r, p, MOVED)
            return [self.goto(st, t[2])]
        if k == 'assert':
            c = self.norm(st, self.operand(st, depth, t[1]))
            exp = 1 if t[2] else 0
            if c[0] == 'int':
                if c[1] == exp:
                    return [self.goto(st, t[3])]
                self.emit(st, ('panic', 'assert:' + t[5][:24], ()), t[6])
                return self.unwind_to(st, (None, None, t[4], ()), ('sym', ('panic', 1, 0)))
            outs = []
            if not t[5].startswith(('Overflow', 'attempt', 'Misaligned', 'NullPointer', '"attempt')):
                s2 = st.fork()
                if self.refine_v(s2, c, ('int', 1 - exp)):
                    self.emit(s2, ('panic', 'assert:' + t[5][:24], (c,)), t[6])
                    outs += self.unwind_to(s2, (None, None, t[4], ()), ('sym', ('panic', 1, 0)))
            if self.refine_v(st, c, ('int', exp)):
                outs.append(self.goto(st, t[3]))
            return outs
        if k == 'call':
            return self.call(st, depth, t)
        if k == 'yield':
            return []     # awaits run to completion; a pending path is subsumed by its completion
        return []

    def switch(self, st, depth, t):
        v = self.norm(st, self.operand(st, depth, t[1]))
        tgts = t[3]
        if v[0] == 'int':
            for x, bb in tgts:
                if x == v[1]:
                    return [self.goto(st, bb)]
            return [self.goto(st, t[4])]
        outs = []
        ty = self.F.types[t[2]]
        if v[0] == 'sym' and v[1][0] == 'discr':
            _, key, adt = v[1]
            a = self.F.adts.get(adt)
            if a is not None and len(a['v']) > 0 and key[0] != 'val':
                dk = ('discr', key, adt)
                ne = st.facts.get(dk)
                ne = ne[1] if ne is not None and ne[0] == 'ne' else frozenset()
                tm = {x: bb for x, bb in tgts}
                nv = len(a['v'])
                other = []
                for i, va in enumerate(a['v']):
                    d = int(va['d'])
                    if d in ne:
                        continue
                    if d in tm:
                        s2 = st.fork()
                        if self.refine(s2, key, self.expand(key, adt, i)):
                            outs.append(self.goto(s2, tm[d]))
                    else:
                        other.append(i)
                if other and self._reachable_otherwise(st, t[4]):
                    if len(other) <= 14:
                        for i in other:
                            s2 = st.fork()
                            if self.refine(s2, key, self.expand(key, adt, i)):
                                outs.append(self.goto(s2, t[4]))
                    else:
                        s2 = st.fork()
                        s2.facts[dk] = ('ne', ne | frozenset(tm))
                        outs.append(self.goto(s2, t[4]))
                return outs
        if v[0] != 'sym':
            # unknown composite: follow everything
            for x, bb in tgts:
                outs.append(self.goto(st.fork(), bb))
            outs.append(self.goto(st.fork(), t[4]))
            return outs
        vals = [x for x, _ in tgts]
        for x, bb in tgts:
            s2 = st.fork()
            if self.refine_v(s2, v, ('int', x)):
                outs.append(self.goto(s2, bb))
        s2 = st.fork()
        if ty['k'] == 'prim' and ty['n'] == 'bool' and len(vals) == 1:
            if self.refine_v(s2, v, ('int', 1 - vals[0])):
                outs.append(self.goto(s2, t[4]))
        else:
            cur = s2.facts.get(v[1])
            if cur is not None and cur[0] == 'int':
                if cur[1] not in vals:
                    outs.append(self.goto(s2, t[4]))
            else:
                s = cur[1] if cur and cur[0] == 'ne' else frozenset()
                s2.facts[v[1]] = ('ne', s | frozenset(vals))
                outs.append(self.goto(s2, t[4]))
        return outs

    def _reachable_otherwise(self, st, bb):
        b = self.F.body(st.frames[-1][0])
        return b['b'][bb][2][0] != 'unreach'

    def drop_value(self, st, v, ty, how, loc=None):
        v = self.norm(st, v)
        t = v[0]
        if t in ('moved', 'int', 'str', 'ref', 'dref', 'fn'):
            return
        if t == 'guard':
            self.emit(st, ('unlock', self.lock_ident(st, v)), loc)
            return
        if t in ('adt', 'tup', 'clo', 'cor', 'box', 'arr', 'dynv', 'upd', 'fut'):
            self._drop_guards(st, v, loc)
        if not bases(v) and not _has(v, ('arc', 'fut', 'cor', 'clo')):
            return
        self.emit(st, ('drop', how, v, ty), loc)

    def _drop_guards(self, st, v, loc):
        if not isinstance(v, tuple):
            return
        if v and v[0] == 'guard':
            self.emit(st, ('unlock', self.lock_ident(st, v)), loc)
            return
        for x in v:
            if isinstance(x, tuple):
                self._drop_guards(st, x, loc)

    def lock_ident(self, st, g):
        v = self.read(st, g[1], g[2])
        if v[0] == 'sym':
            return v
        if v[0] == 'upd' and v[1][0] == 'sym':
            return v[1]
        return ('place', g[1], g[2])

    # ------------------------------------------------------------------ calls
    def call(self, st, depth, t):
        _, fop, aops, dplace, target, unwind, dty, loc = t
        self.calls += 1
        f = self.norm(st, self.operand(st, depth, fop))
        args = [self.operand(st, depth, a) for a in aops]
        dest = None
        if target is not None:
            dest = self.place(st, depth, dplace)
        ctx = (dest, target, unwind, ())
        # which arguments are mutable references: what opaque code may write through
        ls = self.F.body(st.frames[depth][0])['l']
        self.muts = (args, [o[0] in ('c', 'm') and self._mutref(ls, o[1]) for o in aops])
        return self.invoke(st, f, args, ctx, dty, loc)

    def _mutref(self, ls, pl):
        l, proj = (pl, ()) if isinstance(pl, int) else (pl[0], pl[1])
        if proj:
            return False
        t = self.F.types[ls[l][0]]
        return t['k'] == 'ref' and t['m']

    def invoke(self, st, f, args, ctx, dty, loc):
        """call a function value"""
        f = self.norm(st, f)
        if f[0] == 'fn':
            return self.call_named(st, self.callees[f[1]], args, ctx, dty, loc)
        if f[0] == 'clo':
            return self.call_closure(st, f, args, ctx, dty, loc)
        if f[0] in ('ref', 'dref'):
            return self.invoke(st, self.read(st, f[1], f[2]), args, ctx, dty, loc)
        if f[0] in ('box', 'dynv'):
            return self.invoke(st, f[1], args, ctx, dty, loc)
        return models.opaque(self, st, 'fnptr', {'n': 'fnptr', 'a': []}, [f] + list(args), ctx, dty, loc, user=True)

    def call_closure(self, st, clo, args, ctx, dty, loc, selfref=None):
        inst = clo[1]
        if inst is None or inst not in self.F._lines:
            return models.opaque(self, st, clo[2], {'n': clo[2], 'a': []}, [clo] + list(args), ctx, dty, loc, user=True)
        b = self.F.body(inst)
        t1 = self.F.types[b['l'][1][0]]
        if t1['k'] in ('ref', 'ptr'):
            if selfref is None:
                root = ('T', len(st.frames), 'clo')
                st.mem[root] = clo
                selfref = ('ref', root, ())
            a0 = selfref
        else:
            a0 = clo
        return [self.push(st, inst, [a0] + list(args), *ctx)]

    def depth_ok(self, st, inst):
        if len(st.frames) > 60:
            return False
        n = 0
        for f in st.frames:
            if f[0] == inst:
                n += 1
        return n < 3

    def call_named(self, st, c, args, ctx, dty, loc):
        if 'ctor' in c:
            return self.finish(st, ('adt', c['ctor'][0], c['ctor'][1], tuple(args)), ctx)
        n = c.get('rn') or c['n']
        if self.opaque(n) or self.opaque(c['n']):
            return models.opaque(self, st, n, c, args, ctx, dty, loc, user=False)
        if self.pure(n):
            if n.endswith('PartialEq>::eq'):
                return models.m_eq(self, st, n, c, args, ctx, dty, loc)
            return models.m_pure(self, st, n, c, args, ctx, dty, loc)
        m = models.lookup(n, c)
        if m is not None:
            r = m(self, st, n, c, args, ctx, dty, loc)
            if r is not None:
                return r
        rk = c.get('rk')
        if rk == 'virtual':
            r = self.call_virtual(st, c, args, ctx, dty, loc)
            if r is not None:
                return r
            return models.opaque(self, st, n, c, args, ctx, dty, loc, user=True)
        i = c.get('i')
        if i is not None and i in self.F._lines:
            b = self.F.body(i)
            if b['kind'] == 'coroutine':
                return models.poll(self, st, args[0], ctx, 'Await' in (loc or ''))
            if b['kind'] == 'closure':
                # rust-call ABI: (self, (args...))
                a = self.norm(st, args[1]) if len(args) > 1 else UNIT
                tupl = list(a[1]) if a[0] == 'tup' else [a]
                fv = self.norm(st, args[0])
                sref = None
                if fv[0] in ('ref', 'dref'):
                    sref = fv
                    fv = self.read(st, fv[1], fv[2])
                if fv[0] == 'clo':
                    return self.call_closure(st, fv, tupl, ctx, dty, loc, sref)
                if fv[0] == 'sym' or fv[0] == 'upd':
                    root, path = self.deref(st, args[0]) if sref else (None, None)
                    t1 = self.F.types[b['l'][1][0]]
                    return [self.push(st, i, [args[0]] + tupl, *ctx)]
                return self.invoke(st, fv, tupl, ctx, dty, loc)
            if self.depth_ok(st, i):
                return [self.push(st, i, args, *ctx)]
            return models.opaque(self, st, n, c, args, ctx, dty, loc, user=False)
        if 'tr' in c and rk is None:
            r = self.call_virtual(st, c, args, ctx, dty, loc)
            if r is not None:
                return r
        return models.opaque(self, st, n, c, args, ctx, dty, loc, user=models.is_user_hook(c))

    def dyn_target(self, st, v):
        """(content place or value, vtable) of an erased receiver"""
        v = self.norm(st, v)
        if v[0] == 'dref':
            return v, self.vts[v[4]]
        if v[0] == 'ref':
            x = self.read(st, v[1], v[2])
            if x[0] == 'dynv':
                return v, self.vts[x[3]]
            if x[0] in ('box', 'adt', 'ref', 'dref', 'arc'):
                # &Box<dyn T> passed where &dyn T expected (auto-deref already explicit in MIR, be lenient)
                if x[0] == 'box' and x[1][0] == 'dynv':
                    return ('ref', v[1], v[2] + (('b',),)), self.vts[x[1][3]]
                if x[0] in ('ref', 'dref'):
                    return self.dyn_target(st, x)
                if x[0] == 'arc' and len(x) > 3:
                    return ('ref', x[1], ()), self.vts[x[3]]
        if v[0] == 'box' and v[1][0] == 'dynv':
            return v, self.vts[v[1][3]]
        if v[0] == 'arc' and len(v) > 3:
            return ('ref', v[1], ()), self.vts[v[3]]
        if v[0] == 'adt' and v[1] == PIN:
            return self.dyn_target(st, v[3][0])
        return None, None

    def call_virtual(self, st, c, args, ctx, dty, loc):
        if not args:
            return None
        tgt, vt = self.dyn_target(st, args[0])
        if vt is None:
            return None
        i = vt.get(c['n'])
        if i is None or i not in self.F._lines:
            return None
        b = self.F.body(i)
        a0 = tgt
        t1 = self.F.types[b['l'][1][0]]
        if tgt[0] == 'box':
            # self: Box<Self>
            a0 = ('box', tgt[1][1])
        else:
            if tgt[0] == 'dref':
                a0 = ('ref', tgt[1], tgt[2])
        if not self.depth_ok(st, i):
            return None
        return [self.push(st, i, [a0] + list(args[1:]), *ctx)]


def _has(v, tags):
    if not isinstance(v, tuple):
        return False
    if v and v[0] in tags:
        return True
    return any(_has(x, tags) for x in v if isinstance(x, tuple))


def contains(v, target):
    """does value `v` contain the (sub)value `target`, moved-out parts excluded"""
    if v == target:
        return True
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'upd':
        # overlaid parts replace the base's
        for el, x in v[2]:
            if contains(x, target):
                return True
        if v[1] == target:
            return True
        if target[0] == 'sym' and v[1][0] == 'sym':
            k = target[1]
            while k[0] in ('fld', 'deref'):
                par = k[1]
                if par == v[1][1]:
                    el = ('f', k[2], k[3]) if k[0] == 'fld' else ('b',)
                    return all(e != el for e, _ in v[2])
                k = par
        return False
    if v[0] == 'sym':
        if target[0] == 'sym':
            k = target[1]
            while k[0] in ('fld', 'deref', 'part'):
                k = k[1]
                if k == v[1]:
                    return True
        return False
    for x in v[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                if contains(x, target):
                    return True
            else:
                for y in x:
                    if isinstance(y, tuple) and contains(y, target):
                        return True
    return False


def collapse(v):
    """undo refinement: an adt whose fields are exactly the projections of one symbol is that symbol"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'adt' and v[3]:
        fs = tuple(collapse(x) for x in v[3])
        k0 = None
        ok = True
        for i, x in enumerate(fs):
            if x[0] == 'sym' and x[1][0] == 'fld' and x[1][2] == v[2] and x[1][3] == i and (k0 is None or x[1][1] == k0):
                k0 = x[1][1]
            else:
                ok = False
                break
        if ok and k0 is not None:
            return ('sym', k0)
        return ('adt', v[1], v[2], fs)
    if v[0] in ('tup', 'arr'):
        return (v[0], tuple(collapse(x) for x in v[1]))
    if v[0] == 'box':
        c = collapse(v[1])
        if c[0] == 'sym' and c[1][0] == 'deref':
            return ('sym', c[1][1])
        return ('box', c)
    if v[0] == 'dynv':
        return ('dynv', collapse(v[1]), v[2], v[3])
    if v[0] in ('clo', 'cor'):
        return (v[0], v[1], v[2], tuple(collapse(x) for x in v[3]))
    return v


def same(a, b):
    return a == b or collapse(a) == collapse(b)
