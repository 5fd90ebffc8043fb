"""Kill.  The message loop, and with it every message, link-died and in-loop panic hook, runs only inside one Abortable, created
after the start hook succeeded, whose registration belongs to the abort handle of the reference that was handed out; kill, on
references and recipients, aborts exactly that handle.  Every path on which the loop is aborted ends with the killed reason and
runs the rest of the protocol: stop hook once with that reason, shutdown result, mailbox closed, registration released, links told."""
from . import proto, c23
from .life import *

OUT = {'kill-aborts-loop', 'nothing-outside-loop', 'loop-after-start', 'stop-once', 'true-reason', 'shutdown-result', 'shutdown-released', 'registration-released', 'no-escape'}


def check(ctx):
    F = ctx.facts()
    r = proto.lifecycle(ctx, OUT)
    n = 0
    for o in r.outs:
        if any(e[0] == 'aborted' for e in o.mon):
            n += 1
            dr = [e for e in o.mon if e[0] == 'drain' or e[0] == 'call' and 'HashMap::' in e[1] and ('app', 'default', ()) in bases(e[2][0])]
            ctx.need(bool(dr), 'links-told-after-kill', 'actor lifecycle', 'the links of a killed actor are not told', o, r.E)
    ctx.need(n > 0, 'links-told-after-kill', 'actor lifecycle', 'no path aborts the loop')
    proto.spawned(ctx, OUT, nopanic=('on_start', 'on_panic', 'on_stop'))
    c23.notifications(ctx, only='aborted')
    for name in ('w_kill', 'w_kill_rec'):
        r = ctx.run(name, keep=('call', 'send', 'panic'))
        for o in r.outs:
            c = callv(o, 'AbortHandle::abort')
            ctx.need(o.kind == 'ret' and len(c) == 1 and of_arg(c[0][2][0]), 'kill-aborts', name, 'killing does not abort the actor\'s own handle exactly once', o, r.E)
    ctx.assume('futures Abortable stops polling its future at the next suspension point once its handle is aborted')
