"""Death notifications.  The lifecycle is run with up to two linked actors, local and remote, for each way of ending: each link found
yields exactly one notification with the dead actor's id and its stop reason, to that link's own mailbox (or through the swarm with
that link's id), whatever happens to the other's; the notifications run side by side (either can complete first, so a full mailbox
holds up only its own).  The link table is emptied under its lock after the loop has ended, so nobody linked until then is missed,
and this is reached on every path."""
from .life import *
from . import proto

LINK = 'kameo::actor::actor_ref::Link'


def keep(E, st, ev, loc):
    k = ev[0]
    if k in ('abortable', 'aborted', 'loopres', 'drain', 'next', 'await', 'panic', 'send', 'caught', 'orecv', 'recv', 'lock', 'once_get'):
        return ev
    if k == 'call' and (ev[1].endswith(('signal_link_died', 'HashMap::remove', 'HashMap::clear', 'HashMap::iter', 'HashMap::retain', 'HashMap::drain')) or 'SignalMailbox' in ev[1]):
        return ev
    return None


def havoc(E, st, n, args):
    if n == 'orecv':
        # the swarm answers a request with its own kind of response, or a failure
        F = E.F
        ty = 'kameo::remote::swarm::SwarmResponse'
        out = []
        for i, v in enumerate(F.adts[ty]['v']):
            if v['n'] in ('SignalLinkDied', 'OutboundFailure'):
                s = st.fork()
                E.refine(s, ('aw', args[0][1]), E.expand(('aw', args[0][1]), ty, i))
                out.append(s)
        return out
    return smooth('on_stop')(E, st, n, args) or None


def check(ctx):
    notifications(ctx)
    F = ctx.facts()
    # what carrying out a notification does: it is enqueued, waiting for room
    for name in ('l_died', 'l_died_weak'):
        r = ctx.run(name, keep=('send', 'upgrade', 'panic'))
        seen = set()
        for o in r.outs:
            if not ctx.need(o.kind == 'ret', 'notification-enqueued', name, 'notifying a linked actor can panic', o, r.E):
                continue
            ss = sends(o)
            if not ss and any(e[2] == 'none' for e in events(o, 'upgrade')):
                ctx.need(err(o.value) is not None, 'notification-enqueued', name, 'a notification to a gone actor is reported as delivered', o, r.E)
                continue
            if not ctx.need(len(ss) == 1, 'notification-enqueued', name, 'a notification is enqueued %d times' % len(ss), o, r.E):
                continue
            s = ss[0]
            sn, fs = signal(F, s)
            seen.add((s[1], s[4]))
            ctx.need(sn == 'LinkDied' and same(strip(fs['id']), arg(1)) and same(strip(fs['reason']), arg(2)) and chan_bases(s[2]) <= {('arg', 0)},
                     'notification-enqueued', name, 'something else is enqueued: ' + names(F, s[3]), o, r.E)
            ctx.need(s[1] in ('async', 'unbounded'), 'notification-enqueued', name, 'a notification is given up when the linked actor\'s mailbox is full', o, r.E)
            ctx.need((ok(o.value) is not None) == (s[4] == 'ok'), 'notification-enqueued', name, 'a failed notification is reported as delivered, or the reverse', o, r.E)
        ctx.need({k for k, t in seen} == {'async', 'unbounded'} or any(k not in ('async', 'unbounded') for k, t in seen), 'notification-enqueued', name, 'expected one path per mailbox kind, found %s' % sorted(seen))


def elems(o):
    """links taken from the table on this path"""
    return [e[2] for e in o.mon if e[0] == 'next' and e[2] != 'none']


def notifications(ctx, only=None):
    F = ctx.facts()
    runs_ = []
    kw = dict(keep=keep, nopanic=('on_start', 'on_stop', 'on_panic', 'on_link_died', 'signal_link_died'), args=[arg(0), mb(ctx)], max_steps=8000000)
    # any reason, one link
    runs_.append((1, outer(ctx, max_elems=1, havoc=havoc, **kw)))
    # two links
    runs_.append((2, outer(ctx, max_elems=2, havoc=lambda E, st, n, a: smooth('on_start')(E, st, n, a) or havoc(E, st, n, a), loop_value=reason_val(F, 'Normal'), **kw)))
    for k, r in runs_:
        firsts = {}
        total = 0
        for o in r.outs:
            if only and not any(e[0] == only for e in o.mon):
                continue
            if o.kind != 'ret':
                # the swarm is gone: its own shutdown
                if any(e[0] == 'send' and e[4] == 'closed' or e[0] == 'orecv' and e[2] == 'closed' for e in o.mon):
                    continue
                ctx.need(False, 'protocol-completes', '%d links' % k, 'a panic ends the actor\'s task', o, r.E)
                continue
            if any(e[0] == 'send' and e[4] == 'closed' and signal(F, e)[0] is None for e in o.mon):
                continue
            rs = runs(o, r.E)
            s = rs[0]
            st = [x for x in rs if x.name == 'on_stop']
            reason = st[0].args[2] if st else None
            me = parts(s.args[1], AID)[0]
            end = max([i for i, e in enumerate(o.mon) if e[0] in ('abortable', 'aborted')] or [s.i])
            dr = [i for i, e in enumerate(o.mon) if e[0] == 'drain' and ('app', 'default', ()) in bases(e[1])]
            if not ctx.need(len(dr) >= 1 and dr[0] > end, 'links-taken-at-the-end', '%d links' % k, 'the link table is not emptied after the loop has ended', o, r.E):
                continue
            lk = [i for i, e in enumerate(o.mon) if e[0] == 'lock' and i > end and ('app', 'default', ()) in bases(e[1])]
            ctx.need(bool(lk) and lk[0] < dr[0], 'links-taken-at-the-end', '%d links' % k, 'the link table is emptied without holding its lock', o, r.E)
            notes = [(i, e) for i, e in enumerate(o.mon) if e[0] == 'call' and e[1].endswith('signal_link_died')]
            remote = [(i, e) for i, e in enumerate(o.mon) if e[0] == 'send' and is_adt(F, e[3], 'kameo::remote::swarm::SwarmCommand', 'SignalLinkDied')]
            es = elems(o)
            total += len(es)
            used = 0
            for e in es:
                key = e[1]
                link = ('fld', key, 0, 1)
                f = o.st.facts.get(link)
                if f is None or f[0] != 'adt':
                    ctx.need(False, 'one-notification-per-link', '%d links' % k, 'a link is dropped without being looked at', o, r.E)
                    continue
                if F.variant(LINK, f[2]) == 'Local':
                    mine = [(i, x) for i, x in notes if ('fld', link, f[2], 0) in keys_of(x[2][0])]
                    used += len(mine)
                    if ctx.need(len(mine) == 1, 'one-notification-per-link', '%d links, local' % k, 'a linked actor is notified %d times' % len(mine), o, r.E):
                        a = mine[0][1][2]
                        ctx.need(same(strip(a[1]), me) and same_reason(o, F, strip(a[2]), reason), 'true-id-and-reason', '%d links, local' % k, 'a notification carries another id or reason: ' + names(F, a[1]) + ' ' + names(F, a[2]), o, r.E)
                        firsts.setdefault('order', []).append((str(key), mine[0][0]))
                        aw = [x for x in o.mon if x[0] == 'await' and 'signal_link_died' in x[1] or x[0] == 'await' and mine[0][1][3][1] in bases_all(x)]
                        ctx.need(bool(aw), 'notification-delivered', '%d links, local' % k, 'a notification is created but not carried out', o, r.E)
                else:
                    got = [(i, x) for i, x in remote if any(key == b or ('fld', key, 0, 0) in keys_of(y) for y in collapse(x[3])[3] for b in [None])]
                    none = any(x[0] == 'once_get' and x[2] == 'none' for x in o.mon)
                    used += len(got)
                    if none and not got:
                        continue    # no swarm runs here when this link is reached
                    if ctx.need(len(got) == 1, 'one-notification-per-link', '%d links, remote' % k, 'a remotely linked actor is notified %d times' % len(got), o, r.E):
                        fs = fields(F, got[0][1][3])
                        ctx.need(same(fs['dead_actor_id'], me) and same_reason(o, F, fs['stop_reason'], reason) and same(fs['notified_actor_id'], ('sym', ('fld', key, 0, 0))) and
                                 same(fs['notified_actor_remote_id'], ('sym', ('fld', link, f[2], 0))), 'true-id-and-reason', '%d links, remote' % k,
                                 'a notification carries another id or reason: ' + names(F, got[0][1][3]), o, r.E)
            ctx.need(used == len(notes) + len(remote), 'one-notification-per-link', '%d links' % k, 'a notification goes to an actor that is not linked', o, r.E)
            if k == 2 and len(notes) == 2:
                order = tuple(sorted(range(2), key=lambda j: first_await(o, notes[j])))
                firsts.setdefault('orders', set()).add(tuple(str(notes[j][1][2][0]) for j in order))
        ctx.need(total > 0 or bool(only), 'links-considered', '%d links' % k, 'no link is ever taken from the table')
        if k == 2 and not only:
            ctx.need(len(firsts.get('orders', ())) >= 2, 'independent-delivery', '2 links', 'one notification is always completed before the other is begun: a full mailbox holds up the others')
    ctx.sample('links.drain(): Local(m) -> m.signal_link_died(id, reason.clone())')
    ctx.assume('a remote link is only notified when this node runs a swarm', 'the swarm answers SignalLinkDied with its own response kind (its handler is analysed under C38)')


def first_await(o, note):
    i, e = note
    for j, x in enumerate(o.mon):
        if j >= i and x[0] == 'await' and e[3][1] in bases_all(x):
            return j
    return 10 ** 6 + i


def bases_all(x):
    out = set()
    for y in x[1:]:
        if isinstance(y, tuple):
            for z in (y if y and isinstance(y[0], tuple) else (y,)):
                out |= set(bases(z))
                out |= keys_of(z)
    return out


def keys_of(v, d=0):
    """all symbol keys mentioned in a value, with their prefixes"""
    out = set()
    if not isinstance(v, tuple) or d > 30:
        return out
    if v and v[0] == 'sym':
        k = v[1]
        while isinstance(k, tuple) and k and k[0] in ('fld', 'deref', 'aw', 'part'):
            out.add(k)
            k = k[1]
        out.add(k)
        return out
    for x in v:
        if isinstance(x, tuple):
            out |= keys_of(x, d + 1)
    return out
