"""The life of an actor around its message loop: start hook, release of start-up waiters, loop or failure, stop hook, link
notifications, shutdown result.  One walk per path; rules pick the aspects they own."""
from .life import *

RX = 'kameo::mailbox::MailboxReceiver'
BLOCKING = ('await', 'recv', 'orecv', 'block_on', 'timeout')


def keep(E, st, ev, loc):
    k = ev[0]
    if k in ('once_set', 'abortable', 'aborted', 'loopres', 'drain', 'next', 'send', 'lock', 'caught', 'upgrade', 'panic', 'await', 'recv', 'orecv', 'block_on', 'scope', 'unlock'):
        return ev
    if k == 'drop':
        t = E.F.types[ev[3]] if isinstance(ev[3], int) else None
        if t is not None and t.get('n') in (RX, 'tokio::sync::mpsc::bounded::Receiver', 'tokio::sync::mpsc::unbounded::UnboundedReceiver'):
            return ('drop_rx', ev[2])
        return None
    if k == 'call':
        n = ev[1]
        if n == 'fnptr' or n.endswith(('Semaphore::add_permits', 'Semaphore::close', 'Receiver::close', 'UnboundedReceiver::close', 'HashMap::remove', 'HashMap::remove_entry')):
            return ev
    return None


def cell_index(ctx, name, kind):
    """which part of an actor reference a waiting function looks at"""
    r = ctx.run(name)
    out = set()
    for o in ctx.run(name, keep=('once_get', 'await')).outs:
        for e in o.mon:
            v = e[1] if e[0] == 'once_get' and kind == 'cell' else e[2][0] if e[0] == 'await' and kind == 'sem' and 'Semaphore' in e[1] else None
            if v is None:
                continue
            k = strip(v)
            k = k[1] if k[0] == 'sym' else None
            while k is not None and k[0] in ('deref', 'fld'):
                if k[0] == 'fld' and k[1] == ('deref', ('arg', 0)):
                    out.add(k[3])
                    break
                k = k[1]
    return out.pop() if len(out) == 1 else None


def cells(ctx):
    F = ctx.facts()
    return {'startup': cell_index(ctx, 'w_startup_res', 'cell'), 'shutdown': cell_index(ctx, 'w_shutdown_res', 'cell'), 'sem': cell_index(ctx, 'w_startup_res', 'sem')}


def ident(o, ref, ix):
    """identity of the shared cell at field ix of an actor reference"""
    v = collapse(strip(ref))
    if v[0] != 'adt' or ix is None or ix >= len(v[3]):
        return None
    x = v[3][ix]
    if x[0] != 'arc':
        return None
    m = o.st.mem.get(x[1])
    if m is None:
        return None
    return m[3][1] if m[0] == 'adt' and m[1] == 'OnceLock' else m


def outcome_matches(o, val, run):
    """the recorded result is None for success and Some(error) for this failure"""
    v = received(o, val)
    if v[0] != 'adt' or v[1] != OPT:
        return False
    if run.how == 'ok':
        return v[2] == 0
    return v[2] == 1 and perr_of(o, v[3][0], run)


def walk(ctx, r, o, aspects, cell, inst='actor lifecycle', actor=arg(0), value=True):
    F, E = r.E.F, r.E

    def need(aspect, cond, what):
        if aspect in aspects:
            ctx.need(cond, aspect, inst, what, o, E)
        return cond

    rs = runs(o, E)
    if o.kind != 'ret':
        need('no-escape', False, 'a panic ends the actor\'s task')
        return
    if not need('start-once', bool(rs) and rs[0].name == 'on_start' and sum(x.name == 'on_start' for x in rs) == 1, 'the start hook is not called first, exactly once'):
        return
    s = rs[0]
    need('start-once', same(strip(s.args[0]), actor), 'the start hook is called on another value than the actor')
    ref = s.args[1]
    sem, c1, c2 = ident(o, ref, cell['sem']), ident(o, ref, cell['startup']), ident(o, ref, cell['shutdown'])
    need('startup-result', sem is not None and c1 is not None, 'the reference given to the start hook is not one that can be waited on')
    sets = [(i, e) for i, e in enumerate(o.mon) if e[0] == 'once_set']
    set1 = [(i, e) for i, e in sets if e[1] == c1]
    rel = [i for i, e in enumerate(o.mon) if e[0] == 'call' and strip(e[2][0]) == sem and
           (e[1].endswith('Semaphore::close') or e[1].endswith('add_permits') and e[2][1][0] == 'int' and e[2][1][1] >= 1 << 28)]
    if need('startup-released', len(rel) >= 1, 'waiters for start-up are not released'):
        between = [e for e in o.mon[s.i + 1:rel[0]] if e[0] in BLOCKING or e[0] == 'lock' and e[2] == 'async' or e[0] == 'send' and e[1] in ('async', 'blocking')]
        need('startup-released', not between, 'waiters for start-up are released only after something that can wait: %s' % (between[0][1] if between else ''))
        need('startup-released', rel[0] > s.i, 'waiters for start-up are released before the start hook finished')
    if need('startup-result', len(set1) == 1, 'the start-up result is recorded %d times' % len(set1)):
        need('startup-result', not rel or set1[0][0] < rel[0], 'waiters for start-up are released before the result is recorded')
        need('startup-result', set1[0][1][3] == 'ok' and outcome_matches(o, set1[0][1][2], s), 'the recorded start-up result is not the start hook\'s outcome')
    # -- the loop, or none
    loop = [i for i, e in enumerate(o.mon) if e[0] in ('abortable', 'aborted')]
    lres = [e[1] for e in o.mon if e[0] == 'loopres']
    stops = [x for x in rs if x.name == 'on_stop']
    pan = [x for x in rs if x.name == 'on_panic']
    other = [x for x in rs if x.name not in ('on_start', 'on_panic', 'on_stop')]
    need('nothing-outside-loop', not other, 'the %s hook is called outside the part that a kill aborts' % (other[0].name if other else ''))
    if s.how == 'ok':
        if not need('loop-after-start', len(loop) == 1, 'the message loop is entered %d times after a successful start' % len(loop)):
            return
        need('nothing-outside-loop', not pan, 'the panic hook is called outside the message loop')
        reg = o.mon[loop[0]][1]
        ahs = [x for x in collapse(strip(ref))[3] if x[0] == 'sym' and x[1][0] == 'tx']
        need('kill-aborts-loop', any(x[1][1:] == strip(reg)[1][1:] for x in ahs if strip(reg)[0] == 'sym'), 'the loop is not aborted by this actor\'s abort handle')
        if o.mon[loop[0]][0] == 'aborted':
            want = ('kind', 'Killed')
        else:
            want = ('val', lres[0])
    else:
        if not need('no-loop-after-failed-start', not loop, 'messages are handled although the start hook failed'):
            return
        if not need('failed-start-to-panic-hook', len(pan) == 1 and perr_of(o, pan[0].args[2], s), 'a failed start is not handed to the panic hook exactly once'):
            return
        p = pan[0]
        if p.how == 'ok' and p.flow(o) == 'break':
            want = ('val', p.reason())
        elif p.how == 'ok':
            need('failed-start-to-panic-hook', p.flow(o) == 'continue', 'the answer of the panic hook is ignored')
            want = ('fail', s)
        else:
            want = ('fail', p)

    def is_reason(v):
        if want[0] == 'kind':
            return reason_kind(F, o, v) == want[1]
        if want[0] == 'val':
            return same_reason(o, F, v, want[1])
        pe = panicked(F, o, v)
        return pe is not None and perr_of(o, pe, want[1])
    # -- termination
    if not need('stop-once', len(stops) == 1 and rs[-1] is stops[0], 'the stop hook is called %d times, or not last' % len(stops)):
        return
    st = stops[0]
    need('stop-once', same(strip(st.args[0]), actor), 'the stop hook is called on another value than the actor')
    need('true-reason', is_reason(st.args[2]), 'the stop hook is given another reason than the true one: ' + names(F, st.args[2]))
    need('hook-args', own_ref(st.args[1], s) and all(own_ref(p.args[1], s) for p in pan), 'a hook is not given the actor\'s own reference')
    set2 = [(i, e) for i, e in sets if e[1] == c2]
    gone = [i for i, e in enumerate(o.mon) if e[0] == 'upgrade' and e[2] == 'none' and i > st.i]
    if need('shutdown-result', len(set2) == 1 or (not set2 and bool(gone)), 'the shutdown result is recorded %d times' % len(set2)) and set2:
        i, e = set2[0]
        need('shutdown-result', i > st.i and e[3] == 'ok' and outcome_matches(o, e[2], st), 'the recorded shutdown result is not the stop hook\'s outcome')
        closed = [j for j, x in enumerate(o.mon) if x[0] == 'drop_rx' and len(sets) and not moved(x[1]) or x[0] == 'call' and x[1].endswith('Receiver::close')]
        need('shutdown-result', all(j > i for j in closed), 'waiters for shutdown are released before the result is recorded')
    else:
        closed = [j for j, x in enumerate(o.mon) if x[0] == 'drop_rx' and not moved(x[1]) or x[0] == 'call' and x[1].endswith('Receiver::close')]
    need('shutdown-released', bool(closed) and closed[-1] >= st.i and all(j > st.i for j in closed), 'the mailbox is closed before the stop hook has run, or not at all')
    if value:
        v = collapse(o.value)
        need('true-reason', v[0] == 'tup' and len(v[1]) == 2 and same(v[1][0], actor) and is_reason(v[1][1]), 'the task ends with another reason than the true one: ' + names(F, o.value))
    # -- reporting
    failed = [x for x in (s, st) if x.how != 'ok']
    calls = [(i, e) for i, e in enumerate(o.mon) if e[0] == 'call' and e[1] == 'fnptr']
    need('reported-once', len(calls) == len(failed), '%d failures of start and stop hooks, %d calls of the error hook' % (len(failed), len(calls)))
    if len(calls) == len(failed):
        for x, (i, e) in zip(failed, calls):
            need('reported-once', i > x.i and perr_of(o, strip(e[2][1]), x), 'the error hook is given something else than the failure of %s' % x.name)
    rem = [(i, e) for i, e in enumerate(o.mon) if e[0] == 'call' and 'HashMap::remove' in e[1] and any('REMOTE_REGISTRY' in str(b) for b in bases(e[2][0]))]
    need('registration-released', len(rem) == 1 and same(strip(rem[0][1][2][1]), parts(ref, AID)[0]), 'the actor is not removed from the node\'s registry of remote actors')
    if rem and set2:
        need('registration-released', rem[0][0] > set2[0][0], 'the registration is released before the shutdown result is recorded')


def moved(v):
    return v[0] == 'moved' or v[0] == 'sym' and v[1][0] == 'undef'


ASPECTS = {'no-escape', 'start-once', 'startup-result', 'startup-released', 'loop-after-start', 'nothing-outside-loop', 'kill-aborts-loop', 'no-loop-after-failed-start',
           'failed-start-to-panic-hook', 'stop-once', 'true-reason', 'hook-args', 'shutdown-result', 'shutdown-released', 'reported-once', 'registration-released'}


def lifecycle(ctx, aspects, **kw):
    cell = cells(ctx)
    r = outer(ctx, keep=keep, **kw)
    for o in r.outs:
        walk(ctx, r, o, aspects, cell)
    kinds = {(x.name, x.how) for o in r.outs for x in runs(o, r.E)}
    want = {(n, h) for n in ('on_start', 'on_stop') for h in ('ok', 'err', 'panic')}
    ctx.need(want <= kinds, 'all-outcomes', 'actor lifecycle', 'expected hook outcomes not found: %s' % sorted(want - kinds))
    ctx.need(any(e[0] == 'aborted' for o in r.outs for e in o.mon) and any(e[0] == 'abortable' for o in r.outs for e in o.mon), 'all-outcomes', 'actor lifecycle', 'the loop is never entered or never aborted')
    return r


SPAWNS = ('sp_spawn', 'sp_mailbox', 'sp_link', 'sp_link_mailbox', 'sp_thread', 'sp_thread_mailbox', 'sp_prepared', 'sp_prepared_thread')


def spawn_args(ctx, name):
    if 'mailbox' in name or 'prepared' in name:
        return [arg(0), mb(ctx)] + ([arg(2)] if 'link' in name else [])
    return None


def spawned(ctx, aspects, names_=SPAWNS, **kw):
    """the same walk over the task or thread started by every spawn function"""
    cell = cells(ctx)
    for sp in names_:
        r = outer(ctx, name=sp, keep=keep, spawn='only', args=spawn_args(ctx, sp), **kw)
        n = 0
        for o in r.outs:
            if 'task' in o.st.flags:
                n += 1
                walk(ctx, r, o, aspects, cell, inst=sp)
        ctx.need(n > 0, 'spawn-runs-lifecycle', sp, 'no task running the actor is started')
