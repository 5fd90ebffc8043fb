"""The local registry (the build without the remote feature).  Every operation is run over a registry holding up to two actors of
different types under names in any relation to each other and to the name asked for; the result on each path must be what a map from
names to typed actor references gives under the name equalities that path assumed.  The map operations are local to one key, so two
entries (the one addressed and another one) stand for any contents."""
from .lib import *
from kstatic import iters

CR = 'kameo_local'
REF = 'kameo::actor::actor_ref::ActorRef'


def eqfact(E, o, a, b):
    """whether the two names are equal on this path (None: not decided there)"""
    if a == b:
        return True
    v = E.norm(o.st, E.binop(o.st, 'eq', arg(a), arg(b)))
    return bool(v[1]) if v[0] == 'int' else None


def is_ref(o, E, v, i, by_ref):
    v = strip(v)
    want = ('sym', ('deref', ('arg', i))) if by_ref else arg(i)
    if same(v, want):
        return True
    if v[0] == 'adt' and v[1] == REF:
        # a clone is rebuilt field by field (its mailbox variant is known on the path)
        w = E.norm(o.st, want)
        return all(same_deep(E, o, x, E.proj(o.st, w, ('f', 0, k))) for k, x in enumerate(v[3]))
    return False


def same_deep(E, o, x, y):
    x, y = collapse(strip(x)), collapse(E.norm(o.st, y))
    if same(x, y):
        return True
    if x[0] == 'adt' and y[0] == 'sym':
        return all(same_deep(E, o, f, E.proj(o.st, y, ('f', x[2], k))) for k, f in enumerate(x[3]))
    if x[0] == 'adt' and y[0] == 'adt':
        return x[1:3] == y[1:3] and all(same_deep(E, o, f, g) for f, g in zip(x[3], y[3]))
    return False


class Model:
    """the registry as a list of (name, argument holding the actor, its type)"""

    def __init__(self, E, o):
        self.E, self.o, self.m, self.unknown = E, o, [], False

    def eq(self, a, b):
        r = eqfact(self.E, self.o, a, b)
        if r is None:
            self.unknown = True
        return r

    def insert(self, n, i, ty):
        for k, (n2, _, _) in enumerate(self.m):
            if self.eq(n2, n):
                self.m[k] = (n2, i, ty)
                return True
        self.m.append((n, i, ty))
        return False

    def get(self, q):
        for n2, i, ty in self.m:
            if self.eq(n2, q):
                return i, ty
        return None

    def remove(self, q):
        for k, (n2, _, _) in enumerate(self.m):
            if self.eq(n2, q):
                del self.m[k]
                return True
        return False


def check(ctx):
    F = ctx.facts(CR)
    paths = 0

    def got(m, o, E, v, q, ty, inst, by_ref=False):
        """the value a typed lookup of name q must return"""
        want = m.get(q)
        if want is None:
            ctx.need(ok(v) is not None and is_none(ok(v)), 'absent-is-none', inst, 'a name nothing is registered under is not looked up as none', o, E)
        elif want[1] == ty:
            x = some(ok(v)) if ok(v) is not None else None
            ctx.need(x is not None and is_ref(o, E, x, want[0], by_ref), 'returns-registered', inst, 'a lookup does not return the actor registered under that name', o, E)
        else:
            ctx.need(err(v) is not None and is_adt(F, err(v), 'kameo::error::RegistryError', 'BadActorType'), 'wrong-type-reported', inst, 'a lookup at another type is not reported as a bad type', o, E)

    def run(name, **kw):
        nonlocal paths
        r = ctx.run('kameo::kscen::' + name, crate=CR, keep=kw.pop('keep', ('panic',)), maps=True, **kw)
        for o in r.outs:
            paths += 1
            if ctx.need(o.kind == 'ret', 'no-panic', name, 'a registry operation panics', o, r.E):
                yield o, r.E

    def val(v, i):
        v = collapse(v)
        return v[1][i] if v[0] == 'tup' and i < len(v[1]) else ('sym', ('undef',))

    def boolean(v):
        v = collapse(v)
        return bool(v[1]) if v[0] == 'int' else None

    def decided(m, o, E, inst):
        ctx.need(not m.unknown, 'compares-names', inst, 'the result does not depend on the names compared', o, E)

    for name, ty in (('rg_get', 'B'), ('rg_same', 'A')):
        for o, E in run(name):
            m = Model(E, o)
            x, y = m.insert(0, 3, 'A'), m.insert(1, 4, ty)
            ctx.need(boolean(val(o.value, 0)) == x and boolean(val(o.value, 1)) == y, 'insert-reports', 'insert', 'insert does not report whether the name was taken', o, E)
            got(m, o, E, val(o.value, 2), 2, 'A', 'get')
            decided(m, o, E, 'get')
    for o, E in run('rg_again'):
        m = Model(E, o)
        m.insert(0, 3, 'A'), m.remove(0)
        y = m.insert(1, 4, 'B')
        ctx.need(boolean(val(o.value, 0)) is True and boolean(val(o.value, 1)) == y, 'insert-reports', 'insert after remove', 'insert does not report whether the name was taken', o, E)
        got(m, o, E, val(o.value, 2), 2, 'B', 'get after remove')
    for name, n, i in (('rg_default_get', 1, 3), ('rg_string', 0, 2)):
        for o, E in run(name):
            m = Model(E, o)
            m.insert(n, i, 'A')
            got(m, o, E, o.value, n + 1, 'A', name)
            decided(m, o, E, name)
    for o, E in run('rg_contains'):
        m = Model(E, o)
        m.insert(0, 3, 'A'), m.insert(1, 4, 'B')
        w = m.get(2) is not None
        ctx.need(boolean(val(o.value, 0)) == w, 'contains', 'contains_name', 'contains_name disagrees with the registered names', o, E)
        ctx.need(collapse(val(o.value, 1)) == ('int', len(m.m)), 'counts', 'len', 'len is not the number of registered names', o, E)
        ctx.need(boolean(val(o.value, 2)) is False, 'counts', 'is_empty', 'a registry with entries counts as empty', o, E)
        decided(m, o, E, 'contains_name')
    for o, E in run('rg_names', max_coll=4):
        m = Model(E, o)
        m.insert(0, 2, 'A'), m.insert(1, 3, 'B')
        v = collapse(o.value)
        ns = sorted(map(str, (iters.key(E, o.st, x) for x in v[1]))) if v[0] == 'coll' else None
        ctx.need(ns == sorted(str(iters.key(E, o.st, arg(n))) for n, _, _ in m.m), 'counts', 'names', 'names does not list every registered name once', o, E)
    for o, E in run('rg_remove'):
        m = Model(E, o)
        m.insert(0, 4, 'A'), m.insert(1, 5, 'B')
        x = m.remove(2)
        ctx.need(boolean(val(o.value, 0)) == x, 'remove-reports', 'remove', 'remove does not report whether the name was registered', o, E)
        ctx.need(boolean(val(o.value, 1)) == m.remove(2), 'remove-reports', 'remove', 'a removed name is reported as registered', o, E)
        got(m, o, E, val(o.value, 2), 3, 'A', 'get after remove')
        decided(m, o, E, 'remove')
    for o, E in run('rg_clear'):
        m = Model(E, o)
        ctx.need(boolean(val(o.value, 0)) is True and collapse(val(o.value, 1)) == ('int', 0), 'counts', 'clear', 'a cleared registry is not empty', o, E)
        got(m, o, E, val(o.value, 2), 2, 'A', 'get after clear')
    # actor references use the same registry
    keys = set()
    for nm in ('rg_ref_register', 'rg_ref_lookup'):
        r = ctx.run('kameo::kscen::' + nm, crate=CR, keep=('call',))
        for o in r.outs:
            for e in o.mon:
                if 'HashMap::' in e[1]:
                    v = strip(e[2][0])
                    if v[0] == 'sym':
                        keys.add(v[1])
    ctx.need(len(keys) == 1 and root_static(next(iter(keys))) is not None, 'one-registry', 'ActorRef', 'register and lookup of actor references do not use one global registry')
    if len(keys) == 1:
        k = next(iter(keys))

        def setup(st):
            st.facts[k] = ('map', ())
        for name, ty in (('rg_ref_both', 'B'), ('rg_ref_same', 'A')):
            for o, E in run(name, setup=setup, poison=False):
                m = Model(E, o)
                m.insert(0, 3, 'A'), m.insert(1, 4, ty)
                ctx.need(boolean(val(o.value, 0)) is True and boolean(val(o.value, 1)) is True, 'register-succeeds', 'ActorRef::register', 'registering fails', o, E)
                got(m, o, E, val(o.value, 2), 2, 'A', 'ActorRef::lookup', True)
                decided(m, o, E, 'ActorRef::lookup')
        for name, by in (('rg_ref_registry', True), ('rg_registry_ref', False)):
            for o, E in run(name, setup=setup):
                m = Model(E, o)
                m.insert(0, 2, 'A')
                got(m, o, E, o.value, 1, 'A', name, by)
                decided(m, o, E, name)
    ctx.need(paths > 20, 'reached', 'all', 'the registry operations have no paths')
    ctx.sample('rg_get: insert(n1, a: A); insert(n2, b: B); get::<A>(q) under all equalities of n1, n2, q')
    ctx.assume('HashMap implements a finite map under the Eq of its keys', 'the registry lock is not poisoned')


def root_static(k):
    while k[0] in ('fld', 'deref', 'aw', 'part'):
        k = k[1]
    return k[1] if k[0] == 'static' else None
