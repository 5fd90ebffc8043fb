"""Panics of user code: every hook the framework awaits (start, message, link-died, panic, stop hook) may panic at its call or at
any await; on every path of the lifecycle and of the message loop the panic is caught, and the next user code called is the panic
hook with exactly that payload (for the panic hook itself: the actor stops with it); an error the message hook returns is handed
over the same way; a Continue answer leads back to fetching the next message, a Break answer ends the loop with the reason given.
An error of a told message is reported by the handling code itself (one walk over DynMessage::handle_dyn)."""
from . import proto, loop, replies


def check(ctx):
    proto.lifecycle(ctx, {'no-escape', 'failed-start-to-panic-hook', 'true-reason'})
    A = {'no-escape', 'panic-to-hook', 'obeyed', 'true-reason', 'one-at-a-time', 'order'}
    loop.single(ctx, A)
    loop.several(ctx, A, kinds=('startup', 'out'), n=4 if ctx.tier == 'quick' else 5, nopanic=('on_start', 'on_stop'), max_steps=20000000)
    replies.handled(ctx)
    ctx.assume('a panic in the user\'s own Actor::next hook or in the configured error hook is not caught (the property does not name them)')
    ctx.sample('panic(on_message) -> caught -> on_panic(PanicError of the payload)')
