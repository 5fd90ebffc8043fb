"""Every path of the twelve tell variants (ActorRef and Recipient; send/await/timeout/try/blocking; both mailbox kinds) is
enumerated from the resolved MIR.  Obligations per path: no panic; exactly one send, of the caller's message without reply
channel, to the addressed actor's own queue; Ok only after a successful send; each failure of the queue (closed, full,
timeout) maps to the SendError naming it, carrying the very value the caller passed (value-flow identity)."""
from .requests import *


def check(ctx):
    for name, (how, mt) in TELL.items():
        r = ctx.run(name, keep=keep)
        for o, tag, s in delivered(ctx, r, name, how, mt, what=('delivery',)):
            if tag == 'ok':
                ctx.need(same(ok(o.value) or ('int', 0), UNIT), 'ok-iff-enqueued', name, 'an enqueued message must give Ok(()), not ' + names(r.E.F, o.value), o, r.E)
            else:
                failure(ctx, r, name, o, tag, o.value, arg(1))
            no_reply_wait(ctx, r, name, o)
