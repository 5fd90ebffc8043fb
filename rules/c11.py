"""Stop hook: on every path of the lifecycle, whatever the start hook, the loop (which may end for any reason or be aborted) and the
panic hook do, and in the task or thread of every spawn function, the stop hook is called exactly once, as the last hook, on the
actor itself, with the reason the loop ended with (killed when aborted, the failure when the start hook failed) and the same
reason is returned.  In the loop, over every single signal and hook outcome, the reason it ends with is the true one."""
from . import proto, loop

OUT = {'stop-once', 'true-reason', 'no-escape'}


def check(ctx):
    proto.lifecycle(ctx, OUT)
    proto.spawned(ctx, OUT, nopanic=('on_start', 'on_panic'))
    loop.single(ctx, {'true-reason', 'one-at-a-time', 'stop'})
    ctx.sample('aborted -> on_stop(.., Killed)')
