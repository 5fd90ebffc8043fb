"""Rendering of abstract values, events and paths for reports."""
from .engine import collapse


def short(n):
    n = n.replace('kameo::', '')
    return n if len(n) < 90 else n[:87] + '...'


def val(F, v, d=0):
    if not isinstance(v, tuple):
        return repr(v)
    if d > 6:
        return '…'
    if not v:
        return '()'
    t = v[0]
    if not isinstance(t, str):
        return '(' + ', '.join(val(F, x, d + 1) if isinstance(x, tuple) else str(x) for x in v) + ')'
    if t == 'sym':
        return key(F, v[1], d + 1)
    if t in ('int', 'str'):
        return repr(v[1])
    if t == 'adt':
        vn = F.variant(v[1], v[2]) if F else str(v[2])
        nm = v[1].rsplit('::', 1)[-1]
        return (nm if vn == nm else nm + '::' + vn) + ('(' + ', '.join(val(F, x, d + 1) for x in v[3]) + ')' if v[3] else '')
    if t == 'tup':
        return '(' + ', '.join(val(F, x, d + 1) for x in v[1]) + ')'
    if t == 'box':
        return 'Box(' + val(F, v[1], d + 1) + ')'
    if t == 'dynv':
        return 'dyn ' + val(F, v[1], d + 1)
    if t in ('clo', 'cor'):
        return '{' + t + ' ' + v[2].rsplit('::', 3)[-1] + '}'
    if t == 'ref':
        return '&' + str(v[1])[:40]
    if t == 'fut':
        return 'fut:%s(%s)' % (str(v[1]).rsplit('::', 1)[-1], ', '.join(val(F, x, d + 1) for x in v[2]))
    if t == 'coll' or t == 'iter':
        return '[' + ', '.join(val(F, x, d + 1) for x in v[1]) + ']'
    if t == '&':
        return '&' + val(F, v[1], d + 1)
    return t + '(' + ', '.join(val(F, x, d + 1) if isinstance(x, tuple) else str(x) for x in v[1:])[:80] + ')'


def key(F, k, d=0):
    if d > 8:
        return '…'
    if k[0] == 'fld':
        return key(F, k[1], d + 1) + '.' + (str(k[2]) + ':' if k[2] else '') + str(k[3])
    if k[0] == 'deref':
        return '*' + key(F, k[1], d + 1)
    if k[0] == 'val':
        return val(F, k[1], d + 1)
    if k[0] == 'app':
        return str(k[1]).rsplit('::', 1)[-1] + '(' + ', '.join(val(F, x, d + 1) for x in k[2]) + ')'
    if k[0] == 'arg':
        return 'arg%d' % k[1]
    if k[0] == 'aw':
        return 'out(' + (key(F, k[1], d + 1) if isinstance(k[1], tuple) else str(k[1])) + ')'
    return '#'.join(str(x) if not isinstance(x, tuple) else '..' for x in k)


def ev(F, e):
    return e[0] + '(' + ', '.join(val(F, x) if isinstance(x, tuple) else str(x) for x in e[1:])[:220] + ')'


def outcome(F, o):
    return '%s %s | %s' % (o.kind, val(F, collapse(o.value)), '; '.join(ev(F, e) for e in (o.mon or ()) if isinstance(e, tuple) and e and isinstance(e[0], str))[:900])


def path(o):
    return ['%s %s%s' % (a, short(b), (' @' + c) if isinstance(c, str) else '') for a, b, c in o.path()]
