"""The network below the swarm, enabled with Engine(net=True): every request and query gets an identifier of its own (what libp2p
promises), and looking a key up in one of the link-time tables is an event showing the key."""
from . import engine as EN
from . import models as M
from .models import MODELS

SB = 'kameo::remote::swarm::SwarmBehaviour::'
REQ = ('ask', 'tell', 'link', 'unlink', 'signal_link_died')


def net(*names):
    def d(f):
        for n in names:
            old = MODELS.get(n)

            def g(E, st, n, c, args, ctx, dty, loc, old=old):
                if E.net and 'i' not in c:
                    r = f(E, st, n, c, args, ctx, dty, loc)
                    if r is not None:
                        return r
                return old(E, st, n, c, args, ctx, dty, loc) if old else None
            MODELS[n] = g
        return f
    return d


def fresh_id(E, st, base):
    k = st.mem.get(('NET', 'n'), ('int', 0))[1]
    st.mem[('NET', 'n')] = ('int', k + 1)
    return ('int', base + k)


def deep(E, st, v, k=0):
    """a value with the references inside it shown as what they point to"""
    v = E.norm(st, v)
    if k > 6:
        return v
    if v[0] in ('ref', 'dref'):
        return ('&', deep(E, st, E.read(st, v[1], v[2]), k + 1))
    if v[0] == 'adt':
        return ('adt', v[1], v[2], tuple(deep(E, st, x, k + 1) for x in v[3]))
    if v[0] == 'tup':
        return ('tup', tuple(deep(E, st, x, k + 1) for x in v[1]))
    return v


@net(*[SB + r for r in REQ], SB + 'kademlia_get_record')
def m_request(E, st, n, c, args, ctx, dty, loc):
    i = fresh_id(E, st, 1000)
    E.emit(st, ('netreq', n[len(SB):], tuple(deep(E, st, a) for a in args[1:]), i), loc)
    return E.finish(st, i, ctx)


@net(SB + 'kademlia_put_record')
def m_put(E, st, n, c, args, ctx, dty, loc):
    s2 = st.fork()
    a = tuple(deep(E, st, a) for a in args[1:])
    i = fresh_id(E, st, 1000)
    E.emit(st, ('netreq', n[len(SB):], a, i), loc)
    outs = E.finish(st, EN.OK(i), ctx)
    e = E.fresh(s2, 'storeerr')
    E.emit(s2, ('netreq', n[len(SB):], a, ('str', 'refused')), loc)
    return outs + E.finish(s2, EN.ERR(e), ctx)


@net('std::collections::hash::map::HashMap::get')
def m_lookup(E, st, n, c, args, ctx, dty, loc):
    m = E.norm(st, args[0])
    if m[0] in ('ref', 'dref') and m[1][0] == 'S':
        E.emit(st, ('lookup', m[1][1], deep(E, st, args[1])), loc)
    return None


@net('libp2p_kad::record::Record::new')
def m_record(E, st, n, c, args, ctx, dty, loc):
    a = E.F.adts.get('libp2p_kad::record::Record')
    k = EN.collapse(args[0])
    t = c.get('a') or ()
    if a is None:
        return None
    if not (t and E.F.ty(t[0]).get('n') == 'libp2p_kad::record::Key'):
        k = ('sym', ('app', 'into', (k,)))
    by = {'key': k, 'value': args[1], 'publisher': EN.NONE(), 'expires': EN.NONE()}
    return E.finish(st, ('adt', 'libp2p_kad::record::Record', 0, tuple(by[f] for f in a['v'][0]['f'])), ctx)


@net('serde_core::de::MapAccess::next_key')
def m_next_key(E, st, n, c, args, ctx, dty, loc):
    """with net=('fields', n): the keys of a map as derived code writes them: every field once, in order"""
    if not isinstance(E.net, tuple) or E.net[0] != 'fields':
        return None
    k = st.mem.get(('NET', 'field'), ('int', 0))[1]
    st.mem[('NET', 'field')] = ('int', k + 1)
    if k >= E.net[1]:
        return E.finish(st, EN.OK(EN.NONE()), ctx)
    t = E.F.ty(c['a'][-1] if isinstance(c['a'][-1], int) else c['a'][0])
    for a in c['a']:
        if isinstance(a, int) and '__Field' in str(E.F.ty(a).get('n')):
            t = E.F.ty(a)
    return E.finish(st, EN.OK(EN.SOME(('adt', t['n'], k, ()))), ctx)
