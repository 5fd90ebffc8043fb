"""Shutdown waits.  Over every path of the lifecycle, in every spawn variant: the stop hook's own outcome is recorded exactly once
(in the very cell the result-bearing wait reads; not at all only when no reference is left to wait with) after the stop hook and
before the mailbox's receiving end is dropped or closed, which happens on every path and never before the stop hook has run.  Every
shutdown wait waits for exactly that closing on its own actor's mailbox; liveness is the negation of the same condition."""
from . import proto
from .c13 import waits, fieldix
from .life import *

OUT = {'shutdown-result', 'shutdown-released', 'no-escape'}


def check(ctx):
    F = ctx.facts()
    proto.lifecycle(ctx, OUT)
    proto.spawned(ctx, OUT, nopanic=('on_start', 'on_panic'))
    waits(ctx, {'w_shutdown': False, 'w_shutdown_old': False, 'w_shutdown_rec': False, 'w_shutdown_res': True}, 'shutdown')
    for name in ('w_alive', 'w_alive_rec'):
        r = ctx.run(name, keep=('call',))
        for o in r.outs:
            c = callv(o, '::is_closed')
            ctx.need(len(c) == 1 and of_arg(c[0][2][0]), 'liveness-is-open-mailbox', name, 'liveness is not asked of the actor\'s mailbox', o, r.E)
            if len(c) == 1:
                v = collapse(o.value)
                neg = v == ('sym', ('app', 'not', (c[0][3],)))
                f = o.st.facts.get(c[0][3][1])
                neg = neg or (v[0] == 'int' and f is not None and f[0] == 'int' and v[1] == 1 - f[1])
                ctx.need(neg, 'liveness-is-open-mailbox', name, 'liveness is not the opposite of the mailbox being closed', o, r.E)
    ctx.assume('tokio: closed() resolves, and is_closed() turns true, exactly when the receiving end is dropped or closed')
