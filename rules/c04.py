"""Every path of the enqueue family (async, try, blocking, with and without timeouts) followed by awaiting or receiving the
pending reply.  Obligations per path: no panic; one send of the caller's message with a fresh reply channel to the right
queue; delivery failures give the error naming the cause; the pending reply waits on this request's reply channel and
resolves like an ask (handler value, handler error, ActorStopped, Timeout(None) when the configured reply timeout expires)."""
from .requests import *


def check(ctx):
    for name, (how, mt, rt) in ENQ.items():
        r = ctx.run(name, keep=keep)
        for o, tag, s in delivered(ctx, r, name, how, mt, reply='fresh', what=('delivery', 'timeout')):
            if tag != 'ok':
                F = r.E.F
                t, n, fs = adt(F, err(o.value) or UNIT)
                ctx.need(t == SE and n == FAIL[tag], 'enqueue-error-names-cause', '%s:%s' % (name, tag),
                         'a %s mailbox must give %s, the path returns %s' % (tag, FAIL[tag], names(F, o.value)), o, r.E)
                no_reply_wait(ctx, r, name, o)
            else:
                inner = ok(o.value)
                ctx.need(inner is not None, 'pending-reply', name, 'an enqueued request must give a pending reply', o, r.E)
                if inner is not None:
                    reply(ctx, r, name, o, s, inner, rt, ('reply', 'timeout'))
