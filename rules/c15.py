"""Graceful stop.  In the loop, over every sequence of signals up to the bound (any mix of messages from outside and from the actor
itself, start-up finishing at any point or not at all, a stop request or the last reference going away): when the loop is asked to
stop everything received before is handled first, nothing is fetched afterwards, and it ends with the normal reason.
stop_gracefully, on references and recipients, queues one stop signal behind the mailbox with a waiting send and reports not
running on a closed mailbox without panicking."""
from . import proto, loop
from .life import *


def check(ctx):
    A = {'stop', 'true-reason', 'order', 'one-at-a-time'}
    loop.single(ctx, A)
    loop.several(ctx, A, max_steps=20000000, n=4 if ctx.tier == 'quick' else 5)
    F = ctx.facts()
    for name in ('w_stop', 'w_stop_rec'):
        r = ctx.run(name, keep=('send', 'panic', 'timeout', 'elapsed'))
        got = set()
        for o in r.outs:
            if not ctx.need(o.kind == 'ret', 'stop-never-panics', name, 'stopping panics', o, r.E):
                continue
            s = sends(o)
            if not ctx.need(len(s) == 1 and signal(F, s[0])[0] == 'Stop' and of_arg(s[0][2]), 'one-stop-signal', name, 'not exactly one stop signal is sent to the actor\'s mailbox', o, r.E):
                continue
            ctx.need(s[0][1] in ('async', 'unbounded'), 'one-stop-signal', name, 'the stop signal may be lost when the mailbox is full (sent with %s)' % s[0][1], o, r.E)
            got.add(s[0][4])
            if s[0][4] == 'ok':
                ctx.need(ok(o.value) is not None, 'stop-result', name, 'a queued stop is reported as ' + names(F, o.value), o, r.E)
            else:
                e = err(o.value)
                ctx.need(e is not None and adt(F, e)[1] == 'ActorNotRunning', 'stop-result', name, 'stopping a stopped actor reports ' + names(F, o.value), o, r.E)
        ctx.need(got >= {'ok', 'closed'}, 'stop-result', name, 'outcomes found: %s' % sorted(got))
    ctx.sample('out, out, stop before start-up finished: both handled, then Normal')
    ctx.assume('tokio mpsc delivers in the order of successful sends and yields None only when empty and without senders')
