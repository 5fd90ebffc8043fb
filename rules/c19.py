"""Whether the framework keeps an actor alive by itself.  At the entry of the message loop, at every later fetch of a message and
while the stop hook runs, for task- and thread-spawned actors, everything the path still owns (locals of all live frames, captured
state of running futures, heap cells) is searched for a strong handle of the actor's own mailbox: none may be left, and none of a
message already handled.  The sets of links hold weak mailbox handles only, for both link variants and both directions."""
from .life import *
from . import proto, loop

KEEPS = ('once_set', 'abortable', 'aborted', 'loopres', 'caught', 'panic', 'await', 'send')


def own_tx(st):
    for e in st.mon:
        if e[0] == 'await' and e[1] == HOOK + 'on_start':
            m = parts(e[2][1], MBS)
            return m[0][3][0] if m and m[0][3] else None
    return None


def keep(E, st, ev, loc):
    if ev[0] not in KEEPS:
        return None
    if ev[0] in ('abortable', 'aborted') or ev[0] == 'await' and ev[1] in (NEXT, HOOK + 'on_stop', HOOK + 'on_link_died', HOOK + 'on_panic'):
        t = own_tx(st)
        if t is not None:
            old = any(held(st, x[2][2]) for x in st.mon if x[0] == 'await' and x[1] == HOOK + 'on_message') if ev[1] == NEXT else False
            ev = ev + (('held', held(st, t), old),)
    return ev


def check(ctx):
    F = ctx.facts()
    n = 0
    for sp in ('life_run', 'sp_spawn', 'sp_mailbox', 'sp_thread', 'sp_thread_mailbox', 'sp_link', 'sp_prepared', 'sp_prepared_thread'):
        only = {} if sp == 'life_run' else {'spawn': 'only'}
        r = outer(ctx, name=sp, keep=keep, nopanic=('on_start', 'on_panic', 'on_stop'), **only)
        for o in r.outs:
            if only and 'task' not in o.st.flags:
                continue
            for e in o.mon:
                if isinstance(e[-1], tuple) and e[-1] and e[-1][0] == 'held':
                    n += 1
                    ctx.need(not e[-1][1], 'no-strong-self-reference', sp, 'the actor\'s own task still owns a strong reference to it at %s' % (e[1] if e[0] == 'await' else 'the message loop'), o, r.E)
        ctx.need(n > 0, 'loop-reached', sp, 'the message loop is never reached')
    # inside the loop
    r = inner(ctx, 2, ('startup', 'in', 'out', 'link'), nopanic=('on_start', 'on_panic', 'on_stop', 'on_message', 'on_link_died'), keep=keep)
    seen = 0
    for o in r.outs:
        for e in o.mon:
            if isinstance(e[-1], tuple) and e[-1] and e[-1][0] == 'held':
                ctx.need(not e[-1][1], 'no-strong-self-reference', 'message loop', 'the message loop owns a strong reference at %s' % str(e[1]), o, r.E)
                ctx.need(not e[-1][2], 'handled-message-released', 'message loop', 'the reference carried by a message already handled is still owned at %s' % str(e[1]), o, r.E)
                seen += 1
    ctx.need(seen > 0, 'loop-reached', 'message loop', 'the message loop is never reached')
    # links
    for name in ('l_link', 'l_blink', 'sp_link', 'sp_link_mailbox'):
        r = ctx.run(name, keep=('call',), args=None)
        k = 0
        for o in r.outs:
            for e in callv(o, 'HashMap::insert'):
                k += 1
                ctx.need(bool(parts(e[2][2], WMBS)) and not strong(e[2][2]), 'links-are-weak', name, 'a link owns a strong mailbox handle: ' + names(F, e[2][2]), o, r.E)
        ctx.need(k > 0, 'links-are-weak', name, 'no link is stored')
    ctx.sample('recv loop of spawn(): live locals at Actor::next hold WeakActorRef only')
    ctx.assume('a handle stored by user code (actor state, messages) is the user\'s')


def strong(v):
    """a strong mailbox handle reachable by ownership in v"""
    return bool(parts(v, MBS)) or bool(parts(v, 'kameo::actor::actor_ref::ActorRef'))
