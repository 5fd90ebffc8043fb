"""Start hook: over every path of the actor lifecycle (all outcomes of every hook, panics included; loop entered, aborted or not
reached; all eight spawn functions followed into the task or thread they start) the start hook is the first hook, called exactly
once, on the actor itself; the message loop is entered exactly once after it succeeded and never after it failed, and a failed
start goes to the panic hook and ends the actor with that failure (or the reason its panic hook gives).  In the loop no message
from outside is handled before start-up is finished, and every spawn call starts exactly one lifecycle."""
from . import proto, loop
from .life import *

OUT = {'start-once', 'loop-after-start', 'no-loop-after-failed-start', 'failed-start-to-panic-hook', 'nothing-outside-loop', 'true-reason'}


def check(ctx):
    proto.lifecycle(ctx, OUT)
    proto.spawned(ctx, OUT, nopanic=('on_stop', 'on_panic'))
    loop.single(ctx, {'start-first', 'startup-first'})
    loop.several(ctx, {'start-first', 'startup-first'}, n=3 if ctx.tier == 'quick' else 4, max_steps=20000000)
    for sp in proto.SPAWNS:
        r = ctx.run(sp, keep=('spawn', 'panic'), args=proto.spawn_args(ctx, sp))
        for o in r.outs:
            if o.kind != 'ret':
                continue
            n = events(o, 'spawn')
            ctx.need(len(n) == 1, 'one-task-per-spawn', sp, '%d tasks are started' % len(n), o, r.E)
            if len(n) == 1:
                a, b = parts(o.value, AID), deep_parts(n[0][2], AID)
                ctx.need(bool(a) and any(same(a[0], x) for x in b), 'own-reference-returned', sp, 'the reference returned is not the spawned actor\'s', o, r.E)
        ctx.need(any(o.kind == 'ret' for o in r.outs), 'one-task-per-spawn', sp, 'spawning never returns')
    ctx.sample('run_actor_lifecycle: on_start err -> on_panic -> on_stop, no Abortable')


def deep_parts(v, ty, d=0):
    """sub-values of a type anywhere, in captured state too"""
    out = []
    if not isinstance(v, tuple) or d > 30:
        return out
    if v and v[0] == 'adt' and v[1] == ty:
        return [v]
    for x in v:
        if isinstance(x, tuple):
            out += deep_parts(x, ty, d + 1)
    return out
