"""The actor life cycle from PreparedActor::new to the end of its task, cut at the abort boundary.

outer: everything around the abortable message loop, the loop itself being any reason or an abort.
inner: the message loop of a started actor, fed at most N signals by its next-message hook."""
from .lib import *
from .conv import received, equal
from kstatic import engine as EN
from kstatic.models import held

HOOK = 'kameo::actor::Actor::'
NEXT = HOOK + 'next'
HOOKSET = ('on_start', 'on_stop', 'on_panic', 'on_message', 'on_link_died', 'next')


def keep(E, st, ev, loc):
    k = ev[0]
    if k in ('once_set', 'abortable', 'aborted', 'drain', 'send', 'lock', 'unlock', 'push', 'caught', 'upgrade'):
        return ev
    if k in ('await', 'panic'):
        return ev if ev[1].startswith(HOOK) else ev if k == 'panic' else None
    if k == 'call':
        n = ev[1]
        if n == 'fnptr' or n.endswith(('Semaphore::add_permits', 'Semaphore::close', 'Semaphore::new', 'HashMap::remove', 'HashMap::remove_entry', 'HashMap::clear', 'HashMap::retain')):
            return ev
    return None


def hooks(o, name=None):
    """await events of user hooks, in order"""
    return [e for e in o.mon if isinstance(e, tuple) and e[0] == 'await' and e[1].startswith(HOOK) and (name is None or e[1] == HOOK + name)]


def sym_of(ev):
    """result symbol of an awaited hook: sid is the symbol's payload"""
    return ('sym', ('aw', ev[3][1]))


def choose(limit, kinds):
    """feed the loop: the next-message hook yields at most `limit` signals of the given kinds (or None)"""
    def f(E, st, n, args):
        if n != NEXT:
            return None
        evs = [e for e in st.mon if isinstance(e, tuple) and e[0] == 'await' and e[1] == NEXT]
        if len(evs) > limit:
            return []
        key = ('aw', evs[-1][3][1])
        F = E.F
        vs = [v['n'] for v in F.adts[SIG]['v']]
        out = []
        for k in kinds:
            s = st.fork()
            if k == 'none':
                E.refine(s, key, ('adt', OPT, 0, ()))
            else:
                E.refine(s, key, E.expand(key, OPT, 1))
                sk = ('fld', key, 1, 0)
                var = {'stop': 'Stop', 'startup': 'StartupFinished', 'in': 'Message', 'out': 'Message', 'link': 'LinkDied'}[k]
                vi = vs.index(var)
                E.refine(s, sk, E.expand(sk, SIG, vi))
                if var == 'Message':
                    i = F.adts[SIG]['v'][vi]['f'].index('sent_within_actor')
                    E.refine(s, ('fld', sk, vi, i), ('int', 1 if k == 'in' else 0))
            out.append(s)
        return out
    return f


def smooth(*names):
    """these hooks succeed"""
    def f(E, st, n, args):
        if not n.startswith(HOOK) or n[len(HOOK):] not in names:
            return None
        evs = [e for e in st.mon if isinstance(e, tuple) and e[0] == 'await' and e[1] == n]
        key = ('aw', evs[-1][3][1])
        s = st.fork()
        E.refine(s, key, E.expand(key, RES, 0))
        return [s]
    return f


def reason_val(F, var, *fs):
    ty = 'kameo::error::ActorStopReason'
    return ('adt', ty, [v['n'] for v in F.adts[ty]['v']].index(var), tuple(fs))


def signals(F, o):
    """received signals in order: (kind, key of the signal, position in the trace)"""
    out = []
    vs = [v['n'] for v in F.adts[SIG]['v']]
    for i, e in enumerate(o.mon):
        if isinstance(e, tuple) and e[0] == 'await' and e[1] == NEXT:
            key = ('aw', e[3][1])
            f = o.st.facts.get(key)
            if f is None or f[0] != 'adt':
                out.append(('?', None, i))
                continue
            if f[2] == 0:
                out.append(('none', None, i))
                continue
            sk = ('fld', key, 1, 0)
            g = o.st.facts.get(sk)
            if g is None or g[0] != 'adt':
                out.append(('?', sk, i))
                continue
            k = {'Stop': 'stop', 'StartupFinished': 'startup', 'LinkDied': 'link', 'Message': 'out'}[vs[g[2]]]
            if k == 'out':
                ix = F.adts[SIG]['v'][g[2]]['f'].index('sent_within_actor')
                w = o.st.facts.get(('fld', sk, g[2], ix))
                k = 'in' if w == ('int', 1) else 'out' if w == ('int', 0) else 'msg'
            out.append((k, ('sigfld', sk, g[2]), i))
    return out


def sigfield(F, sig, name):
    sk, vi = sig[1:3]
    return ('sym', ('fld', sk, vi, F.adts[SIG]['v'][vi]['f'].index(name)))


def mb(ctx, kind='Bounded'):
    """a mailbox of one kind with unknown channel ends"""
    F = ctx.facts()
    def e(ty, i):
        vi = [v['n'] for v in F.adts[ty]['v']].index(kind)
        return ('adt', ty, vi, (('sym', ('fld', ('arg', 1), 0, 90 + i)),))
    return ('tup', (e('kameo::mailbox::MailboxSender', 0), e('kameo::mailbox::MailboxReceiver', 1)))


def outer(ctx, name='life_run', **kw):
    nopan = kw.pop('nopanic', ())
    return ctx.run(name, keep=kw.pop('keep', keep), abortable='opaque', max_elems=kw.pop('max_elems', 0),
                   no_panic=lambda n: n == 'fnptr' or n == NEXT or n.split('::')[-1] in nopan, **kw)


def inner(ctx, limit, kinds, nopanic=(), **kw):
    r = ctx.run('life_run', keep=kw.pop('keep', keep), cap=99, abortable='only', max_elems=0, max_same=limit + 2, max_coll=limit + 2,
                no_panic=lambda n: n == 'fnptr' or n == NEXT or n.split('::')[-1] in nopanic, havoc=choose(limit, kinds),
                args=kw.pop('args', None) or [arg(0), mb(ctx)], **kw)
    # the receiving end is owned by this very task, so the channel cannot be closed while the start-up signal is sent
    r.outs = [o for o in r.outs if events(o, 'abortable') and not any(e[4] == 'closed' for e in sends(o))]
    return r


# ---------------------------------------------------------------------- what a hook gave back
class Run1:
    """one call of a user hook on a path: name, argument values, and how it ended"""

    def __init__(self, o, E, i):
        e = o.mon[i]
        self.i, self.ev, self.name = i, e, e[1][len(HOOK):]
        self.args = e[2]
        self.sig = None
        self.how, self.val = 'ok', None
        nx = o.mon[i + 1] if i + 1 < len(o.mon) else None
        if isinstance(nx, tuple) and nx[0] == 'panic' and nx[1] == e[1]:
            self.how = 'panic'
            c = o.mon[i + 2] if i + 2 < len(o.mon) else None
            self.val = c[1] if isinstance(c, tuple) and c[0] == 'caught' else None
            return
        self.key = ('aw', e[3][1])
        f = o.st.facts.get(self.key)
        if f is None or f[0] != 'adt':
            self.how = '?'
        else:
            self.how = 'ok' if f[2] == 0 else 'err'
            self.val = ('sym', ('fld', self.key, f[2], 0))

    def flow(self, o):
        """'continue', 'break' or '?' for a hook answering with a ControlFlow"""
        f = o.st.facts.get(self.val[1]) if self.val and self.val[0] == 'sym' else None
        if f is None or f[0] != 'adt':
            return '?'
        return 'continue' if f[2] == 0 else 'break'

    def reason(self):
        return ('sym', ('fld', self.val[1], 1, 0))


def runs(o, E):
    return [Run1(o, E, i) for i, e in enumerate(o.mon) if isinstance(e, tuple) and e[0] == 'await' and e[1].startswith(HOOK)]


def reason_kind(F, o, v):
    r = received(o, v)
    return F.variant(r[1], r[2]) if r[0] == 'adt' else '?'


def perr_content(o, v):
    """what a PanicError holds"""
    v = received(o, v)
    if v[0] != 'adt' or v[1] != 'kameo::error::PanicError':
        return None
    for x in v[3]:
        if x[0] == 'arc':
            m = o.st.mem.get(x[1])
            if m is not None and m[0] == 'adt' and m[3]:
                return m[3][0]
    return None


def perr_of(o, v, run):
    """v is a PanicError of exactly what this hook run failed with"""
    c = perr_content(o, v)
    if c is None or run.val is None:
        return False
    c = strip_box(c)
    if run.how == 'panic':
        return bool(bases(c)) and {k for k in bases(c) if k[0] != 'app'} == bases(run.val)
    return same(c, run.val)


def panicked(F, o, v):
    """the PanicError inside ActorStopReason::Panicked, or None"""
    r = received(o, v)
    if r[0] == 'adt' and F.variant(r[1], r[2]) == 'Panicked':
        return r[3][0]
    return None


def same_reason(o, F, a, b):
    if equal(o, a, b):
        return True
    pa, pb = panicked(F, o, a), panicked(F, o, b)
    if pa is not None and pb is not None:
        return equal(o, pa, pb) or (perr_content(o, pa) is not None and same(perr_content(o, pa), perr_content(o, pb) or UNIT))
    return False


def parts(v, ty):
    """sub-values of a given type"""
    while v[0] in ('&', 'box', 'dynv'):
        v = v[1]
    out = []
    if v[0] == 'adt':
        if v[1] == ty:
            return [v]
        for x in v[3]:
            out += parts(x, ty)
    return out


AID = 'kameo::actor::id::ActorID'
MBS, WMBS = 'kameo::mailbox::MailboxSender', 'kameo::mailbox::WeakMailboxSender'


def own_ref(v, rn):
    """v is a (weak) reference to the actor of start-up run rn: same id, same mailbox"""
    own = rn.args[1]
    a, b = parts(own, AID), parts(v, AID)
    ma, mb_ = parts(own, MBS), parts(v, MBS) + parts(v, WMBS)
    return bool(a) and bool(b) and same(a[0], b[0]) and bool(ma) and bool(mb_) and chan_bases(ma[0]) == chan_bases(mb_[0])


def chan_bases(v):
    """bases, looking through weak handles"""
    out = set()
    while v[0] in ('&', 'box', 'dynv'):
        v = v[1]
    if v[0] == 'sym' and v[1][0] == 'app' and v[1][1] in ('weak', 'strong'):
        for x in v[1][2]:
            out |= chan_bases(x)
        return out
    if v[0] == 'adt':
        for x in v[3]:
            out |= chan_bases(x)
        return out
    return set(bases(v))
