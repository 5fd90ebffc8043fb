"""Actor pools: the pool's own handlers explored with a factory that gives anything, workers that may be found gone at any point, and
the worker's handler explored on its own.  Workers are what the pool spawns around what its factory gave; the rules speak about those,
about the deliveries made and about the replies given, not about how the pool keeps them."""
from .lib import *
from .fanout import copy_of, eq, plain

CR = 'kameo_actors'
OPTS = dict(crate=CR, maps=True, kapi=True, max_same=8, max_coll=4, hook_panics=False, cap=9,
            keep=('call', 'panic', 'link', 'alive', 'deliver', 'reply', 'kill', 'spawn', 'spawned', 'upgrade'))
DIS = 'kameo_actors::pool::Dispatch'
WR = 'kameo_actors::pool::WorkerReply'


def made(o, f=0):
    """what the factory gave: results of calling the function argument (or the outputs of the futures it gave)"""
    return [e[3] for e in events(o, 'call') if e[1] in ('fnptr', 'core::ops::function::FnMut::call_mut') and e[2] and copy_of(e[2][0]) == f]


def spawned(o):
    """[(worker ref, worker value)]"""
    return [(e[3], strip(e[2][0])) for e in events(o, 'call') if e[1].startswith('kameo::actor::spawn::') and e[2]]


def wraps(w, src):
    """which field of a worker value is (the output of) what the factory gave"""
    if w[0] != 'adt':
        return None
    for i, x in enumerate(w[3]):
        x = plain(x)
        if x == plain(src) or x == ('sym', ('aw', plain(src)[1])):
            return i
    return None


def carries(v, a):
    """field of a delivered wrapper that is (a copy of) argument a"""
    v = strip(v)
    if v[0] == 'adt':
        for i, x in enumerate(v[3]):
            if copy_of(x) == a:
                return i
    return None


def not_running(F, v, a):
    t, n, fs = adt(F, v) if v[0] == 'adt' else (None, None, ())
    return t == SE and n == 'ActorNotRunning' and copy_of(strip_box(fs[0])) == a


def raw(E, o, v):
    return E.norm(o.st, v)


class Workers:
    """the workers of one path, their wrapping and the one message field of what is sent to them"""

    def __init__(self, need, o, n=2):
        self.w = spawned(o)
        m = made(o)
        self.good = need(len(self.w) >= n and len(m) >= n, 'spawns-workers', 'the pool does not spawn a worker for each slot')
        self.good = self.good and need(len(self.w) == len(m), 'one-worker-per-actor', 'an actor of the factory has no worker or has several')
        self.at = None
        if self.good:
            ix = [[wraps(w, x) for _, w in self.w] for x in m]
            self.good = need(all(sum(i is not None for i in row) == 1 for row in ix), 'worker-wraps-own-actor', 'a worker is not around its own actor')
            if self.good:
                self.at = (self.w[0][1][1], [i for i in ix[0] if i is not None][0])
        self.refs = [collapse(r) for r, _ in self.w]


def dispatch(ctx):
    r = ctx.run('pl_dispatch', **OPTS)
    E, F = r.E, r.E.F
    wrapper = set()
    n = 0
    for o in r.outs:
        n += 1
        need = lambda c, rule, what: ctx.need(c, rule, 'dispatch', what, o, E)
        if not need(o.kind == 'ret' and not events(o, 'panic'), 'no-panic', 'dispatching panics the pool'):
            continue
        ws = Workers(need, o)
        if not ws.good:
            continue
        ds = events(o, 'deliver')
        rp = events(o, 'reply')
        gone = set()
        for e in o.mon:
            if e[0] == 'alive' and raw(E, o, e[2])[-1] == 0:
                gone.add(collapse(strip(e[1])))
            if e[0] == 'deliver' and e[7] == 'not_running':
                gone.add(collapse(strip(e[3])))
        asked = any(e[2] == 'forward' or e[1] == 'ask' for e in ds) or bool(rp)
        done = False
        for e in ds:
            need(collapse(strip(e[3])) in ws.refs, 'to-a-worker', 'a dispatched message goes to something that is not a worker')
            need(not done, 'dispatched-once', 'a message is sent again after a worker took it')
            done = done or e[7] == 'ok'
            i = carries(e[4], 2)
            need(i is not None, 'carries-the-message', 'what a worker gets does not hold the dispatched message')
            if i is not None:
                wrapper.add((strip(e[4])[1], i))
            need(is_none(e[5]) and is_none(e[6]), 'waits-for-room', 'a dispatch may time out')
            tx = strip(e[8])
            has = tx[0] == 'sym' and tx[1][:2] == ('app', 'reply_sender')
            need((e[1], e[2], has) in (('ask', 'forward', True), ('tell', 'send', False)), 'forwards-reply-sender',
                 'a dispatch is sent as %s/%s %s the reply sender' % (e[1], e[2], 'with' if has else 'without'))
            need(has == asked, 'forwards-reply-sender', 'the reply sender is not forwarded')
        v = raw(E, o, o.value)
        v = raw(E, o, v[1][0]) if v[0] == 'tup' else v
        var = F.variant(WR, v[2]) if v[0] == 'adt' else None
        if done:
            need(var == 'Forwarded' and not rp, 'forwarded', 'a message a worker took is answered by the pool')
        else:
            need(all(x in gone for x in ws.refs), 'tries-every-worker', 'the pool gives a message up though a worker may be running')
            if asked:
                back = len(rp) == 1 and strip(rp[0][1])[0] == 'sym' and strip(rp[0][1])[1][:2] == ('app', 'reply_sender')
                x = err(raw(E, o, rp[0][2])) if back else None
                need(back and x is not None and not_running(F, raw(E, o, strip_raw(E, o, x)), 2), 'gives-message-back',
                     'an asker is not told that no worker is running, with its message')
                need(var == 'Forwarded', 'answered-once', 'the pool answers twice')
            else:
                x = raw(E, o, v[3][0]) if var == 'Err' else None
                need(x is not None and not_running(F, x, 2), 'gives-message-back', 'a dispatch no worker takes is not reported with its message')
    # without the reply sender taken every path must have gone the tell way, with it the ask way: both must exist
    for a in ('ask', 'tell'):
        ctx.need(any(e[1] == a for o in r.outs for e in events(o, 'deliver')), 'both-ways', 'dispatch', 'a dispatch is never sent by %s' % a)
    ctx.sample('%d dispatch paths over two workers' % n)
    return wrapper


def strip_raw(E, o, v):
    v = E.norm(o.st, v)
    while v[0] in ('box', 'dynv'):
        v = E.norm(o.st, v[1])
    return v


def worker(ctx, at, wrapper):
    """the worker's handler asks its own actor and returns what that gave"""
    F = ctx.facts(CR)
    for ty, mi in wrapper:
        fs = [f for f in F.fns if f.get('item') == 'handle' and f.get('tr') == 'kameo::message::Message'
              and F.types[f['impl']].get('n') == at[0] and F.types[f['in'][1]].get('n') == ty]
        if len(fs) != 1:
            raise RuntimeError('the handler of %s for %s is not found' % (at[0], ty))
        r = ctx.run(fs[0], **OPTS)
        E = r.E
        seen = set()
        for o in r.outs:
            need = lambda c, rule, what: ctx.need(c, rule, 'worker', what, o, E)
            if not need(o.kind == 'ret' and not events(o, 'panic'), 'no-panic', 'the worker panics'):
                continue
            ds = events(o, 'deliver')
            if not need(len(ds) == 1, 'asks-once', 'a worker asks %d times' % len(ds)):
                continue
            e = ds[0]
            tgt = plain(e[3])
            need(tgt in (('sym', ('fld', ('deref', ('arg', 0)), 0, at[1])), ('sym', ('fld', ('arg', 0), 0, at[1]))), 'asks-own-actor',
                 'a worker asks something other than its actor')
            need(plain(e[4]) == ('sym', ('fld', ('arg', 1), 0, mi)), 'passes-message', 'a worker asks with something other than the message')
            need(e[1] == 'ask' and e[2] == 'send' and is_none(e[5]) and is_none(e[6]), 'waits-for-reply', 'a worker does not wait for the reply')
            seen.add(e[7])
            v = raw(E, o, o.value)
            if e[7] == 'ok':
                good = v[0] == 'adt' and v[2] == 0 and strip(v[3][0])[0] == 'sym' and 'reply' in str(strip(v[3][0])[1][0])
            else:
                x = raw(E, o, v[3][0]) if v[0] == 'adt' and v[2] == 1 else ('?',)
                var = F.variant(SE, x[2]) if x[0] == 'adt' and x[1] == SE else None
                good = var == {'not_running': 'ActorNotRunning', 'stopped': 'ActorStopped', 'handler_error': 'HandlerError'}.get(e[7])
                if good and var == 'ActorNotRunning':
                    good = plain(x[3][0]) == ('sym', ('fld', ('arg', 1), 0, mi))
            need(good, 'reply-unchanged', 'a worker does not return what its actor answered (%s)' % e[7])
            ks = events(o, 'kill')
            if e[7] == 'not_running':
                need(len(ks) >= 1 and strip(ks[0][1])[0] == 'sym' and strip(ks[0][1])[1][:2] == ('app', 'self_ref'), 'dies-with-its-actor',
                     'a worker whose actor is gone stays')
            else:
                need(not ks, 'stays', 'a worker stops though its actor runs')
        for k in ('ok', 'not_running', 'handler_error', 'stopped'):
            ctx.need(k in seen, 'explored', 'worker', 'the worker handler never sees %s' % k)


def starts(ctx):
    for scen in ('pl_start', 'pl_start_async'):
        r = ctx.run(scen, **OPTS)
        for o in r.outs:
            need = lambda c, rule, what: ctx.need(c, rule, scen, what, o, r.E)
            if not need(o.kind == 'ret' and not events(o, 'panic'), 'no-panic', 'starting a pool panics'):
                continue
            ws = Workers(need, o)
            if not ws.good:
                continue
            need(len(ws.refs) == 2, 'pool-size', 'a pool of two has %d workers' % len(ws.refs))
            links(need, o, ws.refs, arg(1))
    for scen in ('pl_zero', 'pl_zero_async'):
        r = ctx.run(scen, **OPTS)
        for o in r.outs:
            ctx.need(o.kind == 'panic', 'empty-pool-refused', scen, 'a pool without workers is made', o, r.E)


def links(need, o, refs, me):
    got = []
    for e in events(o, 'link'):
        a, b = plain(e[1]), plain(e[2])
        got.append(a if b == plain(me) else b if a == plain(me) else None)
    need(None not in got, 'links-to-self', 'a worker is linked to something other than the pool')
    need(all(got.count(plain(x)) >= 1 for x in refs), 'links-every-worker', 'a worker is not linked to the pool')


def dies(ctx):
    n = 0
    for scen in ('pl_died', 'pl_died_async'):
        r = ctx.run(scen, **OPTS)
        E, F = r.E, r.E.F
        slots = set()
        for o in r.outs:
            n += 1
            need = lambda c, rule, what: ctx.need(c, rule, scen, what, o, E)
            if not need(o.kind == 'ret' and not events(o, 'panic'), 'no-panic', 'a death panics the pool'):
                continue
            ws = Workers(need, o)
            if not ws.good:
                continue
            v = raw(E, o, o.value)
            res = raw(E, o, v[1][1])
            v = ok(raw(E, o, v[1][0]))
            need(v is not None and v[0] == 'adt' and F.variant(v[1], v[2]) == 'Continue', 'pool-survives', 'a worker death stops the pool')
            # who is in the pool afterwards is who a broadcast reaches
            now = {plain(e[3]): e[7] for e in events(o, 'deliver')}
            need(len(now) == len(events(o, 'deliver')) and res[0] == 'coll' and len(res[1]) == len(now), 'one-result-each', 'a broadcast does not give one result per worker')
            said = [raw(E, o, x)[2] == 0 for x in res[1]] if res[0] == 'coll' else []
            # the slots a factory of futures fills are not known from outside, only that its order is kept
            place = lambda ws_: scen != 'pl_died' or said == [now.get(x) == 'ok' for x in ws_]
            old, new = [plain(x) for x in ws.refs[:2]], [plain(x) for x in ws.refs[2:]]
            hit = [eq(E, o, ('sym', ('app', 'id', (x,))), arg(2)) for x in old]
            if new:
                i = [k for k, h in enumerate(hit) if h]
                if need(len(i) >= 1, 'replaces-the-dead', 'a worker is replaced that did not die'):
                    want = list(old)
                    want[i[0]] = new[0]
                    slots.add(i[0])
                    need(len(new) == 1, 'one-replacement', 'a death gives more than one new worker')
                    need(set(now) == set(want) and place(want), 'same-slot', 'the replacement does not take the slot of the worker that died')
                    links(need, o, new, ('sym', ('app', 'upgraded', (arg(1),))))
            else:
                need(not any(hit), 'replaces-the-dead', 'a dead worker is not replaced')
                need(set(now) == set(old) and place(old), 'keeps-workers', 'the pool changes though no worker died')
                if None in hit:
                    need(not compared(o) and any(e[2] == 'none' for e in events(o, 'upgrade')), 'finds-the-dead', 'the pool does not compare the dead actor with every worker')
        ctx.need(slots == {0, 1}, 'replaces-the-dead', scen, 'a worker that dies is never replaced')
    ctx.sample('%d worker-death paths' % n)


def compared(o):
    """did the path find the pool itself running (so that the dead one matters)"""
    return any(k[0] == 'app' and k[1] == 'eq' and 'id' in str(k) for k in o.st.facts)


def broadcast(ctx):
    n = 0
    for scen in ('pl_broadcast',):
        r = ctx.run(scen, **OPTS)
        E, F = r.E, r.E.F
        for o in r.outs:
            n += 1
            need = lambda c, rule, what: ctx.need(c, rule, scen, what, o, E)
            if not need(o.kind == 'ret' and not events(o, 'panic'), 'no-panic', 'a broadcast panics the pool'):
                continue
            ws = Workers(need, o)
            if not ws.good:
                continue
            ds = events(o, 'deliver')
            need(sorted(map(str, [plain(e[3]) for e in ds])) == sorted(map(str, [plain(x) for x in ws.refs])), 'reaches-every-worker',
                 'a broadcast does not reach each worker once')
            v = raw(E, o, raw(E, o, o.value)[1][0])
            if not need(v[0] == 'coll' and len(v[1]) == len(ws.refs), 'one-result-each', 'a broadcast does not give one result per worker'):
                continue
            for e in ds:
                need(e[1] == 'tell' and e[2] == 'send' and is_none(e[5]), 'waits-for-room', 'a broadcast is sent by %s/%s' % (e[1], e[2]))
                need(carries(e[4], 2) is not None, 'carries-the-message', 'a worker does not get the broadcast message')
                if collapse(e[3]) not in ws.refs:
                    continue
                x = raw(E, o, v[1][ws.refs.index(collapse(e[3]))])
                if e[7] == 'ok':
                    good = x[0] == 'adt' and x[1] == RES and x[2] == 0
                else:
                    y = raw(E, o, x[3][0]) if x[0] == 'adt' and x[2] == 1 else ('?',)
                    good = not_running(F, y, 2)
                need(good, 'reports-each-result', 'the result of a worker (%s) is not what the broadcast reports for it' % e[7])
    ctx.sample('%d broadcast paths' % n)


def errors(ctx):
    """the asker's own error is the worker's, with its message wrapped as it was sent"""
    r = ctx.run('pl_err', **OPTS)
    E, F = r.E, r.E.F
    seen = set()
    for o in r.outs:
        need = lambda c, rule, what: ctx.need(c, rule, 'pl_err', what, o, E)
        if not need(o.kind == 'ret' and not events(o, 'panic'), 'no-panic', 'reading an error panics'):
            continue
        a, b = E.norm(o.st, arg(0)), raw(E, o, o.value)
        if not need(a[0] == 'adt' and b[0] == 'adt' and b[1] == SE, 'reads-error', 'the error is not looked at'):
            continue
        n = F.variant(SE, a[2])
        seen.add(n)
        if not need(a[2] == b[2], 'same-error', 'a worker\'s %s reaches the asker as %s' % (n, F.variant(SE, b[2]))):
            continue
        if n == 'HandlerError':
            need(plain(strip(b[3][0])) == plain(a[3][0]), 'same-error', 'the handler error is another one')
        elif n in ('ActorNotRunning', 'MailboxFull'):
            x = strip_raw(E, o, b[3][0])
            need(x[0] == 'adt' and x[1] == DIS and same(x[3][0], a[3][0]), 'same-message', 'the message does not come back')
        elif n == 'Timeout':
            x, y = [v[3][0] if v[2] == 1 else None for v in (raw(E, o, b[3][0]), raw(E, o, a[3][0]))]
            if need((x is None) == (y is None), 'same-message', 'a timeout keeps or loses the message') and x is not None:
                x = strip_raw(E, o, x)
                need(x[0] == 'adt' and x[1] == DIS and same(x[3][0], y), 'same-message', 'the message does not come back')
    ctx.need(len(seen) == len(F.adts[SE]['v']), 'explored', 'pl_err', 'some errors are never read')
    r = ctx.run('pl_err_own', **OPTS)
    for o in r.outs:
        v = raw(r.E, o, o.value)
        t, n, fs = adt(F, v)
        x = strip_raw(r.E, o, v[3][0]) if t == SE and n == 'ActorNotRunning' else ('?',)
        ctx.need(o.kind == 'ret' and x[0] == 'adt' and x[1] == DIS and copy_of(x[3][0]) == 0, 'same-message', 'pl_err_own',
                 'an error of the pool itself loses the message', o, r.E)
    r = ctx.run('pl_any_err', **OPTS)
    for o in r.outs:
        a = r.E.norm(o.st, arg(0))
        n = F.variant(WR, a[2]) if a[0] == 'adt' else None
        v = raw(r.E, o, o.value)
        x = some(v)
        good = is_none(v) if n == 'Forwarded' else n == 'Err' and x is not None and same(strip_box(x), a[3][0])
        ctx.need(o.kind == 'ret' and good, 'failure-is-an-error', 'pl_any_err', 'a failed dispatch is not seen as an error', o, r.E)


def check(ctx):
    wr = dispatch(ctx)
    at = None
    r = ctx.run('pl_start', **OPTS)
    for o in r.outs:
        ws = Workers(lambda *a: a[0], o)
        at = at or ws.at
    starts(ctx)
    dies(ctx)
    broadcast(ctx)
    errors(ctx)
    if at is None or not wr:
        raise RuntimeError('the workers of the pool are not found')
    worker(ctx, at, wr)
