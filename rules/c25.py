"""Link-died notifications.  In the loop, for every outcome of the link-died hook: one notification leads to exactly one call of the
hook with the notification's id and reason, the link to the dead actor is removed from the actor's own table, Continue goes on with
the next message and Break ends the loop with the reason given (a Panicked reason passes the panic hook first).  The provided hook
continues after a normal death, passes on a peer's disconnection, and stops with LinkDied{id, reason} otherwise.  The signal reaches
the mailbox with the id and reason it was given (strong and weak mailbox handles)."""
from . import loop
from .life import *


def check(ctx):
    F = ctx.facts()
    A = {'link-to-hook', 'link-args', 'link-forgotten', 'obeyed', 'true-reason', 'hook-args', 'one-at-a-time', 'panic-to-hook', 'order'}
    loop.single(ctx, A)
    loop.several(ctx, A, kinds=('startup', 'link', 'out'), n=2 if ctx.tier == 'quick' else 3, max_steps=20000000)
    default_link(ctx)
    for name in ('l_died', 'l_died_weak'):
        r = ctx.run(name, keep=('send', 'upgrade', 'panic'))
        for o in r.outs:
            if not ctx.need(o.kind == 'ret', 'signal-delivered', name, 'notifying panics', o, r.E):
                continue
            s = sends(o)
            gone = any(e[0] == 'upgrade' and e[2] == 'none' for e in o.mon)
            if not ctx.need(len(s) == (0 if gone else 1), 'signal-delivered', name, '%d signals are sent' % len(s), o, r.E) or gone:
                continue
            n, f = signal(F, s[0])
            ctx.need(n == 'LinkDied' and same(f['id'], arg(1)) and same_reason(o, F, f['reason'], arg(2)) and s[0][1] in ('async', 'unbounded'), 'signal-delivered', name,
                     'the notification sent is %s (%s)' % (names(F, s[0][3]), s[0][1]), o, r.E)


def default_link(ctx):
    F = ctx.facts()
    r = ctx.run('d_link', keep=('panic', 'await'))
    kinds = set()
    for o in r.outs:
        k = reason_kind(F, o, arg(3))
        kinds.add(k)
        fl = ok(o.value) if o.kind == 'ret' else None
        if fl is None or fl[0] != 'adt':
            ctx.need(False, 'default-link-died', k, 'the provided link-died hook fails', o, r.E)
            continue
        if k == 'Normal':
            ctx.need(fl[2] == 0, 'default-link-died', k, 'the provided hook stops the actor after a normal death', o, r.E)
        elif k == 'PeerDisconnected':
            ctx.need(fl[2] == 1 and reason_kind(F, o, fl[3][0]) in ('PeerDisconnected', 'LinkDied'), 'default-link-died', k, 'the provided hook ignores a disconnected peer', o, r.E)
        elif k == '?':
            ctx.need(fl[2] == 1 and link_reason(F, o, fl[3][0]), 'default-link-died', k, 'the provided hook does not stop with LinkDied{id, reason}', o, r.E)
        else:
            ctx.need(fl[2] == 1 and link_reason(F, o, fl[3][0]), 'default-link-died', k, 'the provided hook does not stop with LinkDied{id, reason} after a death of kind %s' % k, o, r.E)
    ctx.need('Normal' in kinds and ('?' in kinds or len(kinds) >= 4), 'default-link-died', 'all kinds', 'kinds of death distinguished: %s' % sorted(kinds))


def link_reason(F, o, v):
    r = received(o, v)
    if r[0] != 'adt' or F.variant(r[1], r[2]) != 'LinkDied':
        return False
    f = dict(zip(F.adts[r[1]]['v'][r[2]]['f'], r[3]))
    return same(f['id'], arg(2)) and same_reason(o, F, strip_box(f['reason']), arg(3))
