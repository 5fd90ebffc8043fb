"""Obligations shared by the request properties (tell, ask, enqueue, forward)."""
from .lib import *

KEEP = ('send', 'oneshot', 'orecv', 'elapsed', 'timeout', 'panic')


def keep(E, st, ev, loc):
    if ev[0] in KEEP:
        return ev
    if ev[0] == 'call' and ev[1].startswith('kameo::reply::Reply::downcast_'):
        return ev
    return None


# scenario: (kind, how on a bounded mailbox, index of mailbox timeout argument, index of reply timeout argument)
TELL = {'tell_send': ('async', None), 'tell_await': ('async', None), 'tell_timeout_send': ('timeout', 2), 'tell_timeout_await': ('timeout', 2),
        'tell_try': ('try', None), 'tell_blocking': ('blocking', None)}
TELL.update({'r' + k: v for k, v in list(TELL.items())})
ASK = {'ask_send': ('async', None, None), 'ask_await': ('async', None, None), 'ask_mt': ('timeout', 2, None), 'ask_rt': ('async', None, 2),
       'ask_mt_rt': ('timeout', 2, 3), 'ask_rt_mt': ('timeout', 2, 3), 'ask_try': ('try', None, None), 'ask_try_rt': ('try', None, 2),
       'ask_blocking': ('blocking', None, None)}
ENQ = {'enq_send': ('async', None, None), 'enq_mt_rt': ('timeout', 2, 3), 'enq_mt': ('timeout', 2, None), 'enq_rt': ('async', None, 2),
       'enq_try': ('try', None, None), 'enq_try_rt': ('try', None, 2), 'enq_blocking': ('blocking', None, None)}
FWD = {'fwd_send': ('async', None), 'fwd_mt': ('timeout', 3), 'fwd_try': ('try', None), 'fwd_blocking': ('blocking', None)}
FAIL = {'closed': 'ActorNotRunning', 'full': 'MailboxFull', 'timeout': 'Timeout'}
TAGS = {'async': {'ok', 'closed'}, 'timeout': {'ok', 'closed', 'timeout'}, 'try': {'ok', 'closed', 'full'}, 'blocking': {'ok', 'closed'},
        'unbounded': {'ok', 'closed'}}


def delivered(ctx, r, name, how, mt, msg=arg(1), ref=0, reply='none', what=('delivery', 'timeout')):
    """the single mailbox send of each path: right queue, right signal, right waiting discipline; returns (outcome, tag, event)"""
    F = r.E.F
    res = []
    seen = {}
    dl = 'delivery' in what
    tm = 'timeout' in what
    for o in r.outs:
        if dl or 'panic' in what:
            ctx.need(o.kind == 'ret', 'never-panics', name, 'the request can panic', o, r.E)
        if o.kind != 'ret':
            continue
        ss = sends(o)
        if len(ss) != 1:
            if dl:
                ctx.need(False, 'one-send', name, 'the path performs %d mailbox sends instead of exactly one' % len(ss), o, r.E)
            continue
        s = ss[0]
        kind, tag = s[1], s[4]
        sn, fs = signal(F, s)
        bounded = 'bounded' if kind != 'unbounded' else 'unbounded'
        seen.setdefault(bounded, set()).add(tag)
        if dl:
            ctx.need(of_arg(s[2], ref), 'own-mailbox', name, 'the message is sent to a queue which is not the mailbox of the addressed actor: ' + names(F, s[2]), o, r.E)
            good = sn == 'Message' and same(strip(fs.get('message', UNIT)), msg)
            ctx.need(good, 'own-message', name, 'the signal sent is not the caller\'s message: ' + names(F, s[3]), o, r.E)
            if good:
                rep = fs.get('reply')
                if reply == 'none':
                    ctx.need(is_none(rep), 'reply-slot', name, 'a request without asker carries a reply channel', o, r.E)
                elif reply == 'fresh':
                    tx = some(rep)
                    made = [e for e in events(o, 'oneshot') if tx is not None and same(e[1], tx)]
                    ctx.need(bool(made), 'reply-slot', name, 'the request does not carry the asker\'s reply channel', o, r.E)
                else:
                    tx = some(rep)
                    ctx.need(tx is not None and of_arg(tx, reply), 'reply-slot', name, 'the forwarded request does not carry the asker\'s reply channel', o, r.E)
        if tm:
            want = 'unbounded' if kind == 'unbounded' else how
            if how == 'timeout' and kind == 'timeout':
                d = s[5] if len(s) > 5 else None
                ctx.need(d is not None and same(strip(d), arg(mt)), 'mailbox-timeout-duration', name, 'the wait for mailbox space is not bounded by the configured mailbox timeout', o, r.E)
            ctx.need(kind == want, 'mailbox-wait', name, 'on a bounded mailbox the %s variant sends with `%s` instead of `%s`' % (name, kind, want), o, r.E)
        res.append((o, tag, s))
    for b, tags in seen.items():
        exp = TAGS['unbounded'] if b == 'unbounded' else TAGS[how]
        if dl:
            ctx.need(tags >= exp, 'all-outcomes', name + ':' + b, 'expected delivery outcomes %s, the code only distinguishes %s' % (sorted(exp), sorted(tags)))
    if dl or tm:
        ctx.need(set(seen) == {'bounded', 'unbounded'}, 'both-mailboxes', name, 'expected one path per mailbox kind, found %s' % sorted(seen))
    if res:
        from kstatic import show
        ctx.sample('%s: %s' % (name, show.outcome(F, res[0][0])[:300]))
    return res


def failure(ctx, r, name, o, tag, val, payload, rule='error-names-cause-and-returns-message'):
    F = r.E.F
    e = err(val)
    ctx.need(e is not None and is_send_error(F, e, FAIL[tag], payload), rule, '%s:%s' % (name, tag),
             'a %s mailbox must give %s with the caller\'s message, the path returns %s' % (tag, FAIL[tag], names(F, val)), o, r.E)


def no_reply_wait(ctx, r, name, o):
    ctx.need(not events(o, 'orecv', 'elapsed', 'timeout'), 'no-wait-after-failed-send', name, 'waits for a reply although the message was not enqueued', o, r.E)


def reply(ctx, r, name, o, s, val, rt, what):
    """the asker's side after a successful delivery"""
    F = r.E.F
    tx = some(signal(F, s)[1].get('reply', UNIT))
    rxs = [e[2] for e in events(o, 'oneshot') if tx is not None and same(e[1], tx)]
    rx = rxs[0] if rxs else None
    ev = events(o, 'orecv', 'elapsed', 'timeout')
    waits = [e for e in ev if e[0] == 'orecv']
    limits = [e for e in ev if e[0] in ('elapsed', 'timeout')]
    if 'timeout' in what:
        if rt is None:
            ctx.need(not limits, 'no-other-deadline', name, 'a deadline is imposed on the reply although none was configured', o, r.E)
        else:
            ctx.need(len(limits) == 1 and same(strip(limits[0][1]), arg(rt)), 'reply-timeout-applied', name,
                     'the wait for the reply is not bounded by the configured reply timeout', o, r.E)
            ctx.need(len(limits) == 1 and rx is not None and (limits[0][2] == rx or contains(limits[0][2], rx)), 'reply-timeout-scope', name,
                     'the reply timeout does not bound the wait for this request\'s reply', o, r.E)
    if 'reply' in what:
        el = [e for e in limits if e[0] == 'elapsed']
        if el:
            t, n, fs = adt(F, err(val) or UNIT)
            ctx.need(t == SE and n == 'Timeout' and is_none(fs[0]), 'reply-timeout-error', name, 'an expired reply timeout must give Timeout(None), not ' + names(F, val), o, r.E)
            return
        if len(waits) != 1 or rx is None or waits[0][1] != rx:
            ctx.need(False, 'waits-for-own-reply', name, 'the delivered request does not wait for its own reply channel exactly once', o, r.E)
            return
        ctx.need(True, 'waits-for-own-reply', name, '')
        if waits[0][2] == 'closed':
            e = err(val)
            ctx.need(e is not None and is_send_error(F, e, 'ActorStopped'), 'dropped-request', name, 'a request dropped without reply must give ActorStopped, not ' + names(F, val), o, r.E)
            return
        aw = ('aw', rx[1])
        calls = [e for e in (o.mon or ()) if e[0] == 'call']
        v, e = ok(val), err(val)
        if v is not None:
            c = [x for x in calls if x[1].endswith('downcast_ok') and value_of(x, v)]
            good = len(c) == 1 and same(strip(c[0][2][0]), ('sym', ('fld', aw, 0, 0)))
            ctx.need(good, 'success-value', name, 'the value returned is not the handler\'s reply: ' + names(F, val), o, r.E)
        elif e is not None:
            c = [x for x in calls if x[1].endswith('downcast_err') and value_of(x, e)]
            good = len(c) == 1 and bases(c[0][2][0]) == {rx[1]} and same(strip_err(c[0][2][0]), ('sym', ('fld', aw, 1, 0)))
            ctx.need(good, 'handler-error', name, 'the error returned is not the handler\'s error: ' + names(F, val), o, r.E)
        else:
            ctx.need(False, 'success-value', name, 'the result is neither success nor error: ' + names(F, val), o, r.E)


def strip_err(v):
    return strip(v)


def value_of(ev, v):
    """is v the result of that call event"""
    v = collapse(v)
    if v == ('sym', ev[3][1]) or v == ev[3]:
        return True
    return v[0] == 'fut' and v[1] == ev[1] and v[3] == ev[3][1]
