"""Overridable hooks.  Actor::{on_start, on_message, on_panic, on_link_died, on_stop, next} are each called, through the trait (so an
override runs), at the point documented: see the walks over lifecycle and message loop; with the actor itself, its own reference and
the documented values, and their answer decides what happens next.  The provided bodies are analysed too: start and stop succeed
and do nothing, message dispatches the message to its handler with the same reference and reply channel, panic stops with the
error, link-died continues after a normal death and stops with LinkDied{id, reason} otherwise, next takes the mailbox's next signal."""
from . import loop, proto
from .c17 import default_next
from .c25 import default_link
from .life import *


def check(ctx):
    F = ctx.facts()
    r1 = proto.lifecycle(ctx, {'hook-args', 'start-once', 'stop-once', 'failed-start-to-panic-hook'})
    A = {'hook-args', 'obeyed', 'panic-to-hook', 'link-to-hook', 'link-args', 'stop', 'order'}
    r2 = loop.single(ctx, A)
    seen = {x.name for r in (r1, r2) for o in r.outs for x in runs(o, r.E)}
    for h in HOOKSET:
        ctx.need(h in seen, 'hook-is-used', h, 'Actor::%s is never called' % h)
    # the answer of the next hook is what is handled, in either kind of mailbox
    for kind in ('Bounded', 'Unbounded'):
        r = inner(ctx, 1, ('startup', 'out', 'in'), nopanic=loop.CALM, args=[arg(0), mb(ctx, kind)])
        loop.go(ctx, r, A)
    default_next(ctx)
    default_link(ctx)
    for name in ('d_start', 'd_stop'):
        r = ctx.run(name, keep=('send', 'panic', 'await', 'call'))
        for o in r.outs:
            ctx.need(o.kind == 'ret' and ok(o.value) is not None and not o.mon, 'default-hook', name, 'the provided hook does not simply succeed', o, r.E)
    r = ctx.run('d_panic', keep=('panic', 'await'))
    for o in r.outs:
        v = collapse(o.value)
        fl = ok(v)
        good = o.kind == 'ret' and fl is not None and fl[0] == 'adt' and fl[2] == 1 and panicked(F, o, fl[3][0]) is not None and same(panicked(F, o, fl[3][0]), arg(2))
        ctx.need(good, 'default-hook', 'd_panic', 'the provided panic hook does not stop with the error: ' + names(F, o.value), o, r.E)
    r = ctx.run('d_message', keep=('panic', 'await', 'call'))
    for o in r.outs:
        c = callv(o, 'DynMessage::handle_dyn')
        good = len(c) == 1 and same(strip_box(c[0][2][0]), strip_box(arg(1))) and same(strip(c[0][2][1]), arg(0)) or len(c) == 1 and of_arg(c[0][2][0], 1) and of_arg(c[0][2][1], 0)
        ctx.need(good and same(c[0][2][2], arg(2)) and same(c[0][2][3], arg(3)), 'default-hook', 'd_message', 'the provided message hook does not run the message\'s handler with its own reference and reply channel', o, r.E)
        if o.kind == 'ret' and c:
            ctx.need(c[0][3][1] in bases(o.value) or any(c[0][3][1] == b or str(c[0][3][1]) in str(b) for b in bases(o.value)), 'default-hook', 'd_message', 'the handler\'s outcome is not returned', o, r.E)
