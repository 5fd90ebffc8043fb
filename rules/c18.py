"""DynMessage::handle_dyn, every path, with the handler free to return, panic, or take the reply sender out of its context: the
handler runs exactly once on the message, the actor's state and a context of this request; an asked message is answered exactly
once with the handler's own value or error and reports nothing to the actor; a told (or delegated) message is never answered by
the framework and its error, and only its error, is reported; nothing is answered after a panic.  The actor loop hands that
error to the panic hook (followed in the lifecycle of every spawn)."""
from . import replies


def check(ctx):
    replies.handled(ctx)
