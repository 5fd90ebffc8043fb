"""Self-detection.  Every way of sending a message (tell, ask, enqueue, forward; references and recipients; with and without timeouts)
enqueues it with a mark that equals `the id of the running task's actor == the id of the actor addressed`, and false when the caller
runs in no actor's task; is_current() of references and recipients answers the same comparison.  Every spawn function, and running a prepared actor in place, runs the actor's
whole life (all hooks and handlers) inside a task-local scope holding that actor's own id, and nothing else enters that scope."""
from . import proto, requests
from .life import *

CUR = 'CURRENT_ACTOR_ID'


def mark_ok(v, idv, o):
    """v is the comparison of idv with the current task's id, or false when there is none"""
    none = any(e[0] == 'tls' and e[2] == 'none' for e in o.mon)
    v = collapse(v)
    if none:
        return v == ('int', 0)
    if v[0] == 'int':
        # the comparison has been branched on: its outcome is among the facts of the path
        for k, f in o.st.facts.items():
            if isinstance(k, tuple) and k[0] == 'app' and k[1] in ('eq', 'ne') and is_cmp(k, idv):
                return f == ('int', v[1] if k[1] == 'eq' else 1 - v[1])
        return False
    return v[0] == 'sym' and v[1][0] == 'app' and v[1][1] == 'eq' and is_cmp(v[1], idv)


def is_cmp(k, idv):
    a, b = [strip(x) for x in k[2]]
    for x, y in ((a, b), (b, a)):
        if y[0] == 'sym' and y[1][0] == 'tl' and CUR in str(y[1]) and same(x, strip(idv)):
            return True
    return False


def idof(F, base):
    for i, t in enumerate(F.adts['kameo::actor::actor_ref::ActorRef']['v'][0]['t']):
        if F.types[t].get('n') == AID:
            return ('sym', ('fld', base, 0, i))


def check(ctx):
    F = ctx.facts()
    names_ = [(n, ('deref', ('arg', 0))) for n in list(requests.TELL) + list(requests.ASK) + list(requests.ENQ) + list(requests.FWD)]
    names_ += [(n, ('deref', ('arg', 1))) for n in ('ctx_fwd', 'ctx_fwd_try', 'ctx_fwd_blocking')]
    for name, base in names_:
        r = ctx.run(name, keep=('send', 'tls', 'panic'))
        modes = set()
        for o in r.outs:
            for e in sends(o):
                sn, fs = signal(F, e)
                if sn != 'Message':
                    continue
                modes.add(any(x[0] == 'tls' and x[2] == 'none' for x in o.mon))
                ctx.need(mark_ok(fs['sent_within_actor'], idof(F, base), o), 'true-mark', name,
                         'the mark of a message %s is %s' % ('sent from outside any actor' if any(x[0] == 'tls' and x[2] == 'none' for x in o.mon) else 'sent', names(F, fs['sent_within_actor'])), o, r.E)
        ctx.need(modes == {True, False}, 'both-callers', name, 'the caller\'s own task is not looked at before sending: %s' % modes)
    for name, base in (('ref_cur', ('deref', ('arg', 0))), ('rec_cur', ('arg', 0))):
        r = ctx.run(name, keep=('tls', 'panic'))
        ctx.need(len({e[2] for o in r.outs for e in events(o, 'tls')}) == 2, 'both-callers', name, 'the answer does not depend on the running task')
        for o in r.outs:
            ctx.need(o.kind == 'ret' and mark_ok(o.value, idof(F, base), o), 'is-current', name, 'is_current answers ' + (names(F, o.value) if o.kind == 'ret' else 'with a panic'), o, r.E)

    def keep(E, st, ev, loc):
        if ev[0] in ('scope', 'spawn', 'panic'):
            return ev
        if ev[0] == 'await' and ev[1].startswith(HOOK):
            return ev + (tuple((k[1], v) for k, v in st.mem.items() if k[0] == 'TL'),)
        if ev[0] == 'abortable':
            return ev + (tuple((k[1], v) for k, v in st.mem.items() if k[0] == 'TL'),)
        return None
    for sp in proto.SPAWNS + ('life_run',):
        here = sp == 'life_run'
        r = outer(ctx, name=sp, keep=keep, nopanic=HOOKSET, **({} if here else dict(spawn='only', args=proto.spawn_args(ctx, sp))))
        n = 0
        for o in r.outs:
            if 'task' not in o.st.flags and not here:
                continue
            hk = [e for e in o.mon if e[0] == 'await']
            ab = [e for e in o.mon if e[0] == 'abortable']
            st = [e for e in hk if e[1] == HOOK + 'on_start']
            if not st:
                continue
            me = parts(st[0][2][1], AID)
            for e in hk + ab:
                n += 1
                tl = [v for k, v in e[-1] if CUR in str(k)]
                ctx.need(len(tl) == 1 and bool(me) and same(strip(tl[0]), me[0]), 'runs-in-own-scope', sp + ': ' + (e[1].split('::')[-1] if e[0] == 'await' else 'message loop'),
                         'the task-local actor id is %s' % ('missing' if not tl else 'another actor\'s'), o, r.E)
        ctx.need(n > 0, 'runs-in-own-scope', sp, 'no hook is run in the spawned task')
    # nobody else enters the scope: the key is only ever set by functions reached from a spawn function
    users = scope_users(F)
    ctx.need(bool(users), 'only-spawns-enter', 'crate', 'no use of the task-local id is found')
    for u in users:
        ctx.need(u in ctx.analysed, 'only-spawns-enter', u, 'the task-local actor id is set in %s, which is not part of spawning an actor' % u)
    ctx.sample('TellRequest::send: sent_within_actor = actor_ref.id == CURRENT_ACTOR_ID')


def scope_users(F):
    """functions that set the task-local id (scope / sync_scope) by callee name"""
    out = set()
    for i, line in F._lines.items():
        if ('LocalKey::scope' in line or 'LocalKey::sync_scope' in line) and CUR in line:
            out.add(F.body(i)['n'])
    return out
