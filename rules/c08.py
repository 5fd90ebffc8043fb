"""Type-erased recipients.  For every operation a recipient, a weak recipient or a copy of one offers, the operation is explored twice,
through the recipient and on the actor reference it was made from; the two sets of outcomes (result, queue operations, signals,
waits, aborts, timeouts, in order) must be equal, and none may panic."""
from .lib import *
from .relate import same_behaviour

KEEP = ('call', 'send', 'recv', 'await', 'upgrade', 'tls', 'panic', 'timeout', 'elapsed', 'oneshot', 'orecv', 'lock', 'once_get', 'once_set', 'spawn')
REC = ('kameo::actor::actor_ref::Recipient', 'kameo::actor::actor_ref::WeakRecipient')
OPS = ('id', 'alive', 'strong', 'weak', 'current', 'kill', 'stop', 'startup', 'shutdown', 'tell', 'tell_mt', 'tell_try', 'tell_blocking', 'clone', 'clone_kill', 'down', 'wid', 'wstrong', 'wweak', 'wup', 'wclone_up', 'wup_tell')


def keep(E, st, ev, loc):
    if ev[0] not in KEEP:
        return None
    if ev[0] == 'call' and ('Clone' in ev[1] or ev[1].endswith(('clone_boxed', 'type_id'))):
        return None
    return ev


def check(ctx):
    for op in OPS:
        a, b = same_behaviour(ctx, 'recipient-behaves-as-the-reference', 'pr_' + op, 'pa_' + op, keep, REC)
        for r in (a, b):
            for o in r.outs:
                ctx.need(o.kind == 'ret', 'never-panics', r.name, 'the operation can panic', o, r.E)
    ctx.sample('pr_stop: Recipient::stop_gracefully() has the outcomes of ActorRef::stop_gracefully()')
