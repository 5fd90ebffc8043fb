"""Every path of the nine ask variants up to the delivery of the request, both mailbox kinds.  Obligations per path: no panic;
exactly one send, of the caller's message with a fresh reply channel, to the addressed actor's own queue; each failure of the
queue maps to the SendError naming it, carrying the caller's message; no wait for a reply on a path whose send failed."""
from .requests import *


def check(ctx):
    for name, (how, mt, rt) in ASK.items():
        r = ctx.run(name, keep=keep)
        for o, tag, s in delivered(ctx, r, name, how, mt, reply='fresh', what=('delivery',)):
            if tag != 'ok':
                failure(ctx, r, name, o, tag, o.value, arg(1))
                no_reply_wait(ctx, r, name, o)
