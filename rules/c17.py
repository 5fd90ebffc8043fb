"""Order of handling.  The message loop of a started actor is fed every sequence of signals up to the bound: messages from outside,
messages the actor sent to itself, start-up finishing at any point (or signalled as finished because the mailbox was full), stop and
last reference going away; handlers succeed, fail or panic and the panic hook continues or not.  On every path each message handled
is one received and not yet handled, with its own reference and reply channel, and the oldest one waiting (the actor's own messages
may go ahead while it starts); once start-up is finished nothing is fetched while an earlier message waits; on a normal stop none is
left; one hook runs at a time and no task is spawned to run one."""
from . import loop
from .life import *


def check(ctx):
    A = {'order', 'one-at-a-time', 'hook-args', 'stop', 'startup-first'}
    loop.single(ctx, A)
    loop.several(ctx, A, n=4 if ctx.tier == 'quick' else 5, max_steps=60000000)
    loop.several(ctx, A, kinds=('startup', 'out'), n=3, nopanic=('on_start', 'on_stop', 'on_panic', 'on_link_died'), max_steps=20000000)
    r = inner(ctx, 2, ('startup', 'in', 'out'), nopanic=loop.CALM, keep=lambda E, st, ev, loc: ev if ev[0] in ('await', 'abortable', 'spawn', 'send') else None)
    for o in r.outs:
        ctx.need(not events(o, 'spawn'), 'no-concurrent-handling', 'message loop', 'a task is spawned from the message loop', o, r.E)
    default_next(ctx)
    ctx.assume('tokio mpsc yields messages in the order of their successful sends', 'handlers run on &mut of the one actor value (checked by rustc)')
    ctx.sample('out(1) out(2) startup: 1 handled, then 2, then the next message is fetched')


def default_next(ctx):
    """the provided next-message hook fetches exactly one message from the mailbox's own channel"""
    F = ctx.facts()
    r = ctx.run('d_next', keep=('recv', 'await', 'call', 'panic'))
    for o in r.outs:
        rv = events(o, 'recv')
        ctx.need(o.kind == 'ret' and len(rv) == 1 and of_arg(rv[0][1], 2) and same(o.value, rv[0][2]), 'default-next', 'Actor::next', 'the provided next-message hook does not yield exactly the next message of its mailbox', o, r.E)
