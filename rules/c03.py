"""The asker's side after delivery (every path of the nine ask variants, both mailbox kinds): one wait, on this request's own
reply channel; channel closed gives ActorStopped, an expired reply timeout gives Timeout(None), a reply gives exactly the value
or error received, through the reply type's downcast; no panic.  The downcasts of Result, plain, delegated and forwarded
replies are followed with the types the reply side boxes them with: each returns the boxed value itself and no downcast meets
another type.  The handling side (handle_dyn) answers with the handler's own result."""
from .requests import *
from . import replies


def check(ctx):
    for name, (how, mt, rt) in ASK.items():
        r = ctx.run(name, keep=keep)
        for o, tag, s in delivered(ctx, r, name, how, mt, reply='fresh', what=('panic',)):
            if tag == 'ok':
                reply(ctx, r, name, o, s, o.value, rt, ('reply',))
    replies.roundtrips(ctx)
    replies.handled(ctx, asker_only=True)
