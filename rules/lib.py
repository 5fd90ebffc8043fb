"""Vocabulary shared by the rules: reading abstract values and events of kameo by type and name."""
from kstatic.engine import collapse, same, contains, bases

SE = 'kameo::error::SendError'
SIG = 'kameo::mailbox::Signal'
OPT, RES = 'core::option::Option', 'core::result::Result'
UNIT = ('tup', ())


def arg(i):
    return ('sym', ('arg', i))


def strip(v):
    """look through references shown in events and through (erased) boxes"""
    v = collapse(v)
    while isinstance(v, tuple) and v and v[0] in ('&', 'box', 'dynv'):
        v = collapse(v[1])
    return v


CONV = ('clone', 'to_owned', 'into_owned', 'borrow', 'as_ref', 'as_str', 'to_string', 'from', 'into')


def textual(v):
    """the string a Cow, String or box of it holds, whatever it was converted from"""
    v = strip(v)
    for _ in range(12):
        if v[0] == 'adt' and len(v[3]) == 1 and v[1] in ('alloc::borrow::Cow', 'alloc::string::String'):
            v = strip(v[3][0])
        elif v[0] == 'sym' and v[1][0] == 'app' and str(v[1][1]).split('::')[-1] in CONV and len(v[1][2]) == 1:
            v = strip(v[1][2][0])
        else:
            break
    return v


def adt(F, v):
    """(type, variant name, fields) of a constructed value"""
    v = collapse(v)
    if v[0] != 'adt':
        return None, None, ()
    return v[1], F.variant(v[1], v[2]), v[3]


def is_adt(F, v, ty, var=None):
    t, n, fs = adt(F, v)
    return t == ty and (var is None or n == var)


def fields(F, v):
    """field values by name"""
    v = collapse(v)
    if v[0] != 'adt':
        return {}
    a = F.adts.get(v[1])
    if not a:
        return {}
    return dict(zip(a['v'][v[2]]['f'], v[3]))


def ok(v):
    v = collapse(v)
    return v[3][0] if v[0] == 'adt' and v[1] == RES and v[2] == 0 else None


def err(v):
    v = collapse(v)
    return v[3][0] if v[0] == 'adt' and v[1] == RES and v[2] == 1 else None


def some(v):
    v = collapse(v)
    return v[3][0] if v[0] == 'adt' and v[1] == OPT and v[2] == 1 else None


def is_none(v):
    v = collapse(v)
    return v[0] == 'adt' and v[1] == OPT and v[2] == 0


def is_send_error(F, v, var, payload=None):
    """SendError::<var> carrying exactly `payload`"""
    t, n, fs = adt(F, v)
    if t != SE or n != var:
        return False
    if payload is None:
        return True
    if var == 'Timeout':
        x = some(fs[0])
        return x is not None and same(strip_box(x), payload)
    return same(strip_box(fs[0]), payload)


def strip_box(v):
    v = collapse(v)
    while v[0] in ('box', 'dynv'):
        v = collapse(v[1])
    return v


def events(o, *kinds):
    return [e for e in (o.mon or ()) if isinstance(e, tuple) and e[0] in kinds]


def sends(o):
    return events(o, 'send')


def signal(F, e):
    """(variant name, fields by name) of the signal of a mailbox send event"""
    v = collapse(e[3])
    if v[0] == 'adt' and v[1] == SIG:
        return F.variant(SIG, v[2]), fields(F, v)
    return None, {}


def of_arg(v, i=0):
    """does the value come from argument i and nothing else"""
    b = bases(v)
    return bool(b) and all(x == ('arg', i) for x in b)


def names(F, v):
    """readable constructor path of a value, for messages"""
    from kstatic import show
    return show.val(F, collapse(v))[:160]


def handler_takes_reply(E, st, n, args):
    """a message handler may take the reply sender out of its context"""
    if n != 'kameo::message::Message::handle' or len(args) < 3:
        return None
    r = E.norm(st, args[2])
    if r[0] != 'ref':
        return None
    ix = E.F.field('kameo::message::Context', 'reply')
    if ix is None:
        return None
    path = r[2] + (('f', 0, ix),)
    cur = E.read(st, r[1], path)
    if is_none(cur):
        return None
    s2 = st.fork()
    E.write(s2, r[1], path, ('adt', OPT, 0, ()))
    E.emit(s2, ('reply_taken', cur), None)
    return [st, s2]


def derived(v, *keys):
    """v is exactly the chain of symbol projections given by the innermost key"""
    return collapse(v) in [('sym', k) for k in keys]


def callv(o, suffix, res=None):
    """call events whose callee ends with suffix (and whose result is the base of `res`)"""
    out = []
    for e in o.mon or ():
        if isinstance(e, tuple) and e[0] == 'call' and e[1].endswith(suffix):
            if res is None or e[3][1] in bases(res) or value_is(e, res):
                out.append(e)
    return out


def value_is(ev, v):
    """is v the result of that call event"""
    v = collapse(v)
    if v == ('sym', ev[3][1]) or v == ev[3]:
        return True
    return v[0] == 'fut' and v[1] == ev[1] and v[3] == ev[3][1]


def fld(v, variant, i):
    """projection of a symbol"""
    return ('sym', ('fld', v[1], variant, i))
