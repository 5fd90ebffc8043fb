"""Start-up waits.  Over every path of the lifecycle, in every spawn variant: the start-up result is recorded exactly once, as the
start hook's own outcome, in the very cell the result-bearing wait reads; then, with nothing in between that can wait (no await, no
async lock, no bounded send), an unbounded number of permits is released on the very semaphore all waits acquire, and this is
reached on every path, before the loop can be aborted.  Every start-up wait (plain, deprecated alias, recipient) acquires that
semaphore and nothing else; the result-bearing ones return the recorded outcome."""
from . import proto
from .life import *
from .conv import received, equal

OUT = {'startup-result', 'startup-released'}


def check(ctx):
    F = ctx.facts()
    proto.lifecycle(ctx, OUT)
    proto.spawned(ctx, OUT, nopanic=('on_stop', 'on_panic'))
    waits(ctx, {'w_startup': False, 'w_startup_old': False, 'w_startup_rec': False, 'w_startup_res': True, 'w_startup_res_old': True}, 'startup')
    ctx.assume('the result-bearing wait panics, by design of its signature, when the start hook panicked (the payload is not an Actor::Error)')


def fieldix(v):
    """index of the part of the actor reference argument a value lives in"""
    k = strip(v)
    k = k[1] if k[0] == 'sym' else None
    while k is not None and k[0] in ('deref', 'fld'):
        if k[0] == 'fld' and k[1] in (('deref', ('arg', 0)), ('arg', 0)):
            return k[3]
        k = k[1]
    return None


def waits(ctx, table, which):
    F = ctx.facts()
    cell = proto.cells(ctx)
    ctx.need(all(v is not None for v in cell.values()), 'waits-on-own-actor', 'ActorRef', 'the waiting functions do not look at the reference they are called on')
    for name, res in table.items():
        r = ctx.run(name, keep=('await', 'recv', 'once_get', 'once_set', 'panic', 'clone'))
        got = set()
        for o in r.outs:
            aw = [e for e in o.mon if e[0] == 'await']
            good = len(aw) == 1 and (('Semaphore::acquire' in aw[0][1] and fieldix(aw[0][2][0]) == cell['sem']) if which == 'startup' else
                                     (aw[0][1].endswith('::closed') and is_mailbox(F, aw[0][2][0])))
            ctx.need(good, 'waits-for-the-right-thing', name, 'the call waits for something else: %s' % [e[1] for e in aw], o, r.E)
            gets = [(i, e) for i, e in enumerate(o.mon) if e[0] == 'once_get']
            if o.kind == 'panic':
                p = [e for e in o.mon if e[0] == 'panic'][-1]
                bad = str(p[2])
                # allowed: the recorded error is not of the actor's own error type
                if gets and gets[-1][1][2] == 'some' and any(isinstance(x, tuple) for x in p[2]):
                    got.add('other-type')
                    continue
                got.add('unset')
                continue
            if not res:
                ctx.need(not gets or True, 'plain-wait', name, '', o, r.E)
                continue
            if not ctx.need(len(gets) >= 1 and fieldix(gets[-1][1][1]) == cell[which], 'reads-the-recorded-result', name, 'the result is not read from the recorded outcome', o, r.E):
                continue
            i = o.mon.index(aw[0]) if aw else -1
            ctx.need(gets[-1][0] > i, 'reads-the-recorded-result', name, 'the result is read before the wait is over', o, r.E)
            v = received(o, o.value)
            src = ('app', 'once')
            if ok(o.value) is not None:
                got.add('ok')
                ctx.need(fact_none(o, gets[-1][1]), 'reads-the-recorded-result', name, 'success is reported although an error is recorded', o, r.E)
            else:
                got.add('err')
                e = err(o.value)
                ctx.need(e is not None and any('once' in str(b) for b in bases(e)), 'reads-the-recorded-result', name, 'the error returned is not the recorded one: ' + names(F, o.value), o, r.E)
        if res:
            ctx.need(got >= {'ok', 'err'}, 'reads-the-recorded-result', name, 'only the outcomes %s exist' % sorted(got))


def fact_none(o, ev):
    """the cell read holds None on this path"""
    for k, f in o.st.facts.items():
        if f[0] == 'adt' and f[1] == OPT and f[2] == 0 and 'once' in str(k):
            return True
    return False


def is_mailbox(F, v):
    k = strip(v)
    k = k[1] if k[0] == 'sym' else None
    ixs = [i for i, f in enumerate(F.adts['kameo::actor::actor_ref::ActorRef']['v'][0]['f'])]
    while k is not None and k[0] in ('deref', 'fld'):
        if k[0] == 'fld' and k[1] in (('deref', ('arg', 0)), ('arg', 0)):
            t = F.adts['kameo::actor::actor_ref::ActorRef']['v'][0]
            return True
        k = k[1]
    return False
