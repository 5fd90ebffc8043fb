"""Comparing what two scenarios do: outcomes (results and effects in order) up to the names of fresh values, references and boxes."""
from .lib import *

TAGS3 = ('c', 'tx', 'rx', 'aw0', 'panic')


def canon_value(v, names_):
    if not isinstance(v, tuple):
        return v
    if v and v[0] in ('&', 'box', 'dynv'):
        return canon_value(v[1], names_)
    if v and v[0] == 'deref' and isinstance(v[1], tuple):
        return canon_value(v[1], names_)
    if len(v) == 3 and v[0] in TAGS3 and isinstance(v[1], int) and isinstance(v[2], int):
        return (v[0], names_.setdefault(v[1:], len(names_)))
    return tuple(canon_value(x, names_) for x in v)


def canon(o, unwrap=None):
    """(kind, result, effects)"""
    nm = {}
    evs = []
    for e in o.mon or ():
        if isinstance(e, tuple):
            e = tuple(collapse(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else tuple(collapse(y) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) else x for x in e)
            if e[0] == 'call':
                e = e[:4]
            if e[0] in ('call', 'dup'):
                e = (e[0], e[1].split('::')[-1]) + e[2:] if 'kameo' in e[1] else e
            evs.append(canon_value(e, nm))
    v = collapse(o.value)
    if unwrap:
        v = unwrap(v)
    return o.kind, canon_value(collapse(v), nm), tuple(evs)


def unwrap(types):
    def f(v):
        if not isinstance(v, tuple):
            return v
        if v and v[0] in ('&', 'box', 'dynv'):
            return f(v[1])
        if v and v[0] == 'adt' and v[1] in types and len(v[3]) == 1:
            return collapse(f(v[3][0]))
        r = tuple(f(x) if isinstance(x, tuple) else x for x in v)
        return collapse(r) if r and isinstance(r[0], str) else r
    return f


def same_behaviour(ctx, rule, a, b, keep, types=(), **kw):
    """every outcome of scenario a is one of scenario b and the reverse"""
    ra, rb = ctx.run(a, keep=keep, **kw), ctx.run(b, keep=keep, **kw)
    u = unwrap(types) if types else None
    ca = {canon(o, u): o for o in ra.outs}
    cb = {canon(o, u): o for o in rb.outs}
    from kstatic import show
    for c, o in ca.items():
        ctx.need(c in cb, rule, a, 'the call ends in a way the call it stands for does not: ' + show.outcome(ra.E.F, o)[:240], o, ra.E)
    for c, o in cb.items():
        ctx.need(c in ca, rule, a, 'the call never ends the way the call it stands for can: ' + show.outcome(rb.E.F, o)[:240], o, rb.E)
    ctx.need(bool(ca), rule, a, 'no outcome')
    return ra, rb
