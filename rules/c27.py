"""Actor ids.  Every actor reference a spawn function returns carries an id whose sequence number is the result of an atomic
read-modify-write of one process-wide 64-bit counter that changes it by a fixed odd step (every other use of the counter being of that
kind too), so no two spawns read the same value, whatever their interleaving; the number is carried over unnarrowed."""
import re
from .lib import *
from . import proto

AT = 'core::sync::atomic::Atomic'
READS = ('load', 'get_mut', 'as_ptr', 'into_inner')


def on_static(e):
    """(operation, static) of an atomic operation on a process-wide variable"""
    if e[0] != 'call' or not e[1].startswith(AT + '::') or not e[2]:
        return None
    v = strip(e[2][0])
    if v[0] == 'sym' and v[1][0] == 'static':
        return e[1].split('::')[-1], v[1][1]
    return None


def steps(e, op):
    """the fixed non-zero step of a counting operation"""
    a = [collapse(x) for x in e[2]]
    if op in ('fetch_add', 'fetch_sub') and a[1][0] == 'int' and a[1][1] % 2:
        return a[1][1]
    if op in ('compare_exchange', 'compare_exchange_weak'):
        old, new = a[1], a[2]
        if new[0] == 'sym' and new[1][0] == 'app' and new[1][1].split('::')[-1].lower().replace('wrapping_', '') in ('add', 'sub') and len(new[1][2]) == 2:
            x, k = map(collapse, new[1][2])
            if x == old and k[0] == 'int' and k[1] % 2:
                return k[1]
    return None


def source(o, v):
    """the static counter the value was drawn from on this path, and the operation"""
    v = collapse(v)
    for e in o.mon:
        s = on_static(e)
        if s is None:
            continue
        if s[0].startswith('fetch') and collapse(e[3]) == v:
            return s[1], steps(e, s[0])
        if s[0].startswith('compare_exchange'):
            r = collapse(e[3])
            if r[0] == 'sym' and v == collapse(e[2][1]) and o.st.facts.get(r[1]) and o.st.facts[r[1]][:3] == ('adt', RES, 0):
                return s[1], steps(e, s[0])
            if r[0] == 'sym' and v == ('sym', ('fld', r[1], 0, 0)):
                return s[1], steps(e, s[0])
    return None, None


def seq(F, v):
    return fields(F, strip(v)).get('sequence_id')


def check(ctx):
    F = ctx.facts()
    counters = set()
    n = 0

    def drawn(o, E, idv, inst):
        q = seq(F, idv)
        if not ctx.need(q is not None, 'id-is-drawn', inst, 'the id of the new actor is not made here', o, E):
            return
        c, step = source(o, q)
        ctx.need(c is not None, 'id-is-drawn', inst, 'the sequence number is not the result of an atomic step of a process-wide counter', o, E)
        ctx.need(c is None or step is not None, 'odd-step', inst, 'the counter is not advanced by a fixed odd step', o, E)
        if c:
            counters.add(c)

    r = ctx.run('kameo::actor::id::ActorID::generate', keep=('call', 'panic'), args=None)
    for o in r.outs:
        if o.kind == 'ret':
            drawn(o, r.E, o.value, 'ActorID::generate')
            n += 1
    for sp in proto.SPAWNS:
        r = ctx.run(sp, keep=('call', 'await'), args=None, spawn='event')
        for o in r.outs:
            if o.kind != 'ret' or 'task' in o.st.flags:
                continue
            refs = [x for x in parts_of(o.value)]
            ctx.need(bool(refs), 'id-is-drawn', sp, 'no actor reference is returned', o, r.E)
            for x in refs:
                drawn(o, r.E, fields(F, x).get('id'), sp)
                n += 1
    ctx.need(n > len(proto.SPAWNS), 'spawns-reached', 'all', 'a spawn function returns nothing')
    ctx.need(len(counters) == 1, 'one-counter', 'all', 'ids are drawn from %d counters: %s' % (len(counters), ', '.join(sorted(counters))))
    for c in counters:
        # the counter itself, and every other use of it
        body = [F.body(f) for f in F._lines if F._lines[f].split('"n":"', 1)[1].startswith(c + '"')]
        ty = F.types[body[0]['l'][0][0]] if body else None
        a = F.types[ty['a'][0]] if ty and ty.get('n') == AT else None
        ctx.need(a is not None and a.get('n') in ('usize', 'u64', 'i64', 'isize', 'u128'), 'counter-width', c, 'the counter is a %s' % (F.ty_str(body[0]['l'][0][0]) if body else 'value of unknown type'))
        names = set()
        for i, l in F._lines.items():
            if '"n":"%s"' % c in l:
                m = re.match(r'\{"id":\d+,"n":"([^"]+)"', l)
                if m.group(1) != c:
                    names.add(m.group(1))
        for nm in sorted(names):
            base = re.split(r'::\{', nm)[0]
            f = F.fn(base)
            if not ctx.need(f is not None, 'every-use-counts', nm, 'a use of the counter that cannot be analysed'):
                continue
            r = ctx.run(f, keep=('call',), args=None)
            for o in r.outs:
                for e in o.mon:
                    s = on_static(e)
                    if s and s[1] == c:
                        ctx.need(s[0] in READS[:1] or steps(e, s[0]) is not None, 'every-use-counts', nm, 'the counter is changed by %s' % s[0], o, r.E)
    ctx.sample('ActorID::generate: sequence_id = ACTOR_COUNTER.fetch_add(1)')
    ctx.assume('fewer than 2^64 actors are spawned in one process')


def parts_of(v):
    v = strip(v)
    return [v] if v[0] == 'adt' and v[1] == 'kameo::actor::actor_ref::ActorRef' else []
