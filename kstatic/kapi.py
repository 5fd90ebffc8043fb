"""Contract of kameo's public messaging API, for code that uses it from another crate.  Enabled with Engine(kapi=True).

A request under construction is ('fut', 'kreq', (kind, target, message, mailbox timeout, reply timeout)); performing it emits
('deliver', kind, how, target, message, mailbox timeout, reply timeout, outcome, reply sender) and forks over the outcomes its
documentation allows (the rules about kameo itself decide that kameo keeps them)."""
from . import engine as EN
from . import models as M
from .models import MODELS, AWAIT, OPT

SE = 'kameo::error::SendError'
REFS = ('kameo::actor::actor_ref::ActorRef', 'kameo::actor::actor_ref::Recipient', 'kameo::actor::actor_ref::WeakActorRef',
        'kameo::actor::actor_ref::WeakRecipient', 'kameo::reply::ReplyRecipient')
REQS = ('kameo::request::tell::TellRequest', 'kameo::request::tell::RecipientTellRequest', 'kameo::request::ask::AskRequest')


def se(E, var, *fs):
    vs = E.F.adts.get(SE)
    ix = {'ActorNotRunning': 0, 'ActorStopped': 1, 'MailboxFull': 2, 'HandlerError': 3, 'Timeout': 4}
    if vs:
        ix = {v['n']: i for i, v in enumerate(vs['v'])}
    return ('adt', SE, ix[var], tuple(fs))


def kapi(*names):
    def d(f):
        def g(E, st, n, c, args, ctx, dty, loc):
            if not E.kapi:
                return None
            return f(E, st, n, c, args, ctx, dty, loc)
        for n in names:
            if n in MODELS:
                raise ValueError(n)
            MODELS[n] = g
        return f
    return d


def refval(E, st, v):
    v = M.dv(E, st, v)
    while v[0] in ('box', 'dynv'):
        v = M.dv(E, st, v[1])
    return v


def start(kind):
    def f(E, st, n, c, args, ctx, dty, loc):
        E.reqs = getattr(E, 'reqs', 0) + 1
        return E.finish(st, ('fut', 'kreq', (('str', kind), refval(E, st, args[0]), args[1], EN.NONE(), EN.NONE()), ('k', 'kreq')), ctx)
    return f


for _r in REFS[:2]:
    kapi(_r + '::tell')(start('tell'))
    kapi(_r + '::ask')(start('ask'))


def modify(ix, opt):
    def f(E, st, n, c, args, ctx, dty, loc):
        r = E.norm(st, args[0])
        if r[0] != 'fut' or r[1] != 'kreq':
            return None
        a = list(r[2])
        a[ix] = args[1] if opt else EN.SOME(args[1])
        return E.finish(st, ('fut', 'kreq', tuple(a), r[3]), ctx)
    return f


for _r in REQS:
    for _n, _i in (('mailbox_timeout', 3), ('reply_timeout', 4)):
        kapi(_r + '::' + _n)(modify(_i, False))
        kapi(_r + '::' + _n + '_opt')(modify(_i, True))


def send(how):
    def f(E, st, n, c, args, ctx, dty, loc):
        r = E.norm(st, args[0])
        if r[0] != 'fut' or r[1] != 'kreq':
            return None
        tx = args[1] if len(args) > 1 else None
        x = ('fut', 'ksend', (r, ('str', how), tx if tx is not None else EN.UNIT), ('k', 'ksend'))
        is_async = how in ('send', 'forward', 'enqueue') or (how == 'try_send' and 'AskRequest' in n)
        if n.endswith('into_future'):
            return E.finish(st, ('adt', M.PIN, 0, (('box', x),)), ctx)
        if is_async:
            return E.finish(st, x, ctx)
        return perform(E, st, x, ctx, loc)
    return f


for _r in REQS:
    for _h in ('send', 'try_send', 'blocking_send', 'forward', 'try_forward', 'blocking_forward'):
        kapi(_r + '::' + _h)(send(_h))
    kapi('<%s as core::future::into_future::IntoFuture>::into_future' % _r)(send('send'))


def perform(E, st, x, ctx, loc=None):
    req, how, tx = x[2]
    kind, target, msg, mb, rp = req[2]
    how, kind = how[1], kind[1]
    fwd = how.endswith('forward')
    back = ('tup', (msg, tx)) if fwd else msg
    outs = []

    def fork(tag, val, last=False):
        nonlocal outs
        s = st if last else st.fork()
        if tag == 'not_running':
            s.facts[gone(target)] = ('int', 1)
        E.emit(s, ('deliver', kind, how, E.ev_arg(s, target), E.ev_arg(s, msg), E.ev_arg(s, mb), E.ev_arg(s, rp), tag, E.ev_arg(s, tx)), loc)
        outs += E.finish(s, val, ctx)
    if gone(target) in st.facts:
        fork('not_running', EN.ERR(se(E, 'ActorNotRunning', back)), True)
        return outs
    timed = not (mb[0] == 'adt' and mb[1] == OPT and mb[2] == 0)
    fork('not_running', EN.ERR(se(E, 'ActorNotRunning', back)))
    if timed and not how.startswith('try'):
        fork('mailbox_timeout', EN.ERR(se(E, 'Timeout', EN.SOME(back))))
    if how.startswith('try'):
        fork('full', EN.ERR(se(E, 'MailboxFull', back)))
    if kind == 'ask' and not fwd:
        fork('stopped', EN.ERR(se(E, 'ActorStopped')))
        fork('handler_error', EN.ERR(se(E, 'HandlerError', E.fresh(st, 'herr'))))
        if not (rp[0] == 'adt' and rp[1] == OPT and rp[2] == 0):
            fork('reply_timeout', EN.ERR(se(E, 'Timeout', EN.NONE())))
        fork('ok', EN.OK(E.fresh(st, 'reply')), True)
    else:
        fork('ok', EN.OK(EN.UNIT), True)
    return outs


def aw_send(E, st, n, a, ctx, sid):
    return perform(E, st, ('fut', 'ksend', a, sid), ctx)


AWAIT['ksend'] = aw_send
AWAIT['kreq'] = lambda E, st, n, a, ctx, sid: perform(E, st, ('fut', 'ksend', (('fut', 'kreq', a, sid), ('str', 'send'), EN.UNIT), sid), ctx)


def term(name):
    def f(E, st, n, c, args, ctx, dty, loc):
        v = EN.collapse(refval(E, st, args[0]))
        return E.finish(st, ('sym', ('app', name, (v,))), ctx)
    return f


for _r in REFS:
    kapi(_r + '::id')(term('id'))


@kapi('kameo::message::Context::actor_ref')
def m_actor_ref(E, st, n, c, args, ctx, dty, loc):
    r = args[0]
    return E.finish(st, ('sym', ('app', 'self_ref', (EN.collapse(E.norm(st, E.ev_arg(st, r))),))), ctx)


def same_ref(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, refval(E, st, args[0]), ctx)


for _r in REFS:
    kapi('<%s as core::clone::Clone>::clone' % _r)(same_ref)
kapi(REFS[0] + '::recipient')(lambda E, st, n, c, args, ctx, dty, loc: E.finish(st, args[0], ctx))


def gone(t):
    return ('app', 'gone', (EN.collapse(t),))


def alive(E, st, n, c, args, ctx, dty, loc):
    """an actor found gone stays gone"""
    t = refval(E, st, args[0])
    outs = []
    if gone(t) not in st.facts:
        s2 = st.fork()
        E.emit(s2, ('alive', E.ev_arg(s2, t), EN.TRUE), loc)
        outs += E.finish(s2, EN.TRUE, ctx)
    st.facts[gone(t)] = ('int', 1)
    E.emit(st, ('alive', E.ev_arg(st, t), EN.FALSE), loc)
    return outs + E.finish(st, EN.FALSE, ctx)


for _r in REFS[:2]:
    kapi(_r + '::is_alive')(alive)


@kapi('kameo::message::Context::reply_sender')
def m_reply_sender(E, st, n, c, args, ctx, dty, loc):
    v = EN.collapse(E.norm(st, E.ev_arg(st, args[0])))
    r = E.fresh(st, 'c')
    outs = []
    s2 = st.fork()
    outs += E.finish(s2, ('tup', (r, EN.NONE())), ctx)
    return outs + E.finish(st, ('tup', (r, EN.SOME(('sym', ('app', 'reply_sender', (v,)))))), ctx)


for _m in ('link', 'unlink'):
    def _l(E, st, n, c, args, ctx, dty, loc):
        return E.finish(st, ('fut', 'k' + n.rsplit('::', 1)[-1], (refval(E, st, args[0]), refval(E, st, args[1])), ('k', 'klink')), ctx)
    kapi(REFS[0] + '::' + _m)(_l)

    def _a(E, st, n, a, ctx, sid):
        E.emit(st, (n[1:], E.ev_arg(st, a[0]), E.ev_arg(st, a[1])), None)
        return E.finish(st, EN.UNIT, ctx)
    AWAIT['k' + _m] = _a


@kapi('kameo::actor::actor_ref::ActorRef::kill', 'kameo::actor::actor_ref::Recipient::kill')
def m_kill(E, st, n, c, args, ctx, dty, loc):
    E.emit(st, ('kill', E.ev_arg(st, refval(E, st, args[0]))), loc)
    return E.finish(st, EN.UNIT, ctx)


@kapi('kameo::actor::actor_ref::WeakActorRef::upgrade', 'kameo::actor::actor_ref::WeakRecipient::upgrade')
def m_upgrade(E, st, n, c, args, ctx, dty, loc):
    t = refval(E, st, args[0])
    s2 = st.fork()
    E.emit(s2, ('upgrade', E.ev_arg(s2, t), 'none'), loc)
    outs = E.finish(s2, EN.NONE(), ctx)
    return outs + E.finish(st, EN.SOME(('sym', ('app', 'upgraded', (EN.collapse(t),)))), ctx)


@kapi('kameo::reply::ReplySender::send')
def m_reply_send(E, st, n, c, args, ctx, dty, loc):
    E.emit(st, ('reply', E.ev_arg(st, args[0]), E.ev_arg(st, args[1])), loc)
    return E.finish(st, EN.UNIT, ctx)
