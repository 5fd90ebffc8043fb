"""Attached streams.  The forwarding task is followed by an automaton over both mailbox kinds, any number of items, and every way the stream and
the actor can interleave (either branch of the select first, either future parking half way): the started notice precedes everything, each
item taken off the stream is sent on once, in a send that waits for room, before the next one is taken, the end of the stream is told once
with the given value, a refused delivery ends the task with that message, and at every moment the task waits for an item it also waits for
the actor to stop."""
from .life import *

SM = 'kameo::message::StreamMessage'
END = ('int', -1)
NO = ('int', -2)


def stream_msg(F, e):
    n, fs = signal(F, e)
    if n != 'Message':
        return None, None
    v = strip_box(fs.get('message', ('int', 0)))
    if v[0] != 'adt' or v[1] != SM:
        return None, None
    return F.variant(SM, v[2]), v[3][0] if v[3] else None


def is_payload(v, key):
    v = collapse(v)
    return v[0] == 'sym' and v[1][0] == 'fld' and v[1][1] == key


class Forward:
    """(kind, started, item in hand, items delivered (up to 2), how it ends, what was refused, what went wrong)"""
    init = ('?', False, NO, 0, None, None, None)

    def event(self, E, st, ev, loc):
        m = st.mon
        if m[6] is not None or ev[0] not in ('send', 'await'):
            return m
        F = E.F
        kind, started, item, k, end, refused, _ = m

        def bad(x):
            return (kind, started, item, k, end, refused, x)
        if ev[0] == 'await':
            if ev[1] == 'next' and bases(ev[2][0]) <= {('arg', 1)}:
                if not started:
                    return bad('an item is taken off the stream before the actor is told it started')
                if item == END:
                    return bad('the stream is polled after its end')
                if item != NO:
                    return bad('an item is taken off the stream while the one before it was not delivered')
                if end is not None:
                    return bad('the stream is polled after ' + end)
                return (kind, started, ('sym', ('aw', ev[3][1])), k, end, refused, None)
            if ev[1].endswith('closed') and ev[2] and chan_bases(ev[2][0]) <= {('arg', 0)} and end is None:
                return (kind, started, item, k, 'the actor has stopped', refused, None)
            return m
        if end is not None:
            return bad('something is sent after ' + end)
        n, v = stream_msg(F, ev)
        if n is None:
            return bad('something other than a stream message is sent: ' + names(F, ev[3]))
        if chan_bases(ev[2]) != {('arg', 0)}:
            return bad('a stream message goes to another mailbox')
        if ev[1] not in ('async', 'unbounded'):
            return bad('a stream message is given up when the mailbox is full')
        if kind == '?':
            kind = ev[1]
        if n == 'Started':
            if started or item != NO or k or not same(v, arg(2)):
                return bad('the started notice is sent twice, late, or with another value')
            started = True
        elif n == 'Next':
            if not started or item in (NO, END):
                return bad('an item is sent that was not just taken off the stream')
            if not is_payload(v, item[1]):
                return bad('something else than the item taken off the stream is sent: ' + names(F, v))
            item = NO
            k = min(k + 1, 2)
        elif n == 'Finished':
            over = item != NO and item != END and (st.facts.get(item[1]) or (0, 0, 1))[2] == 0
            if not started or not over or not same(v, arg(3)):
                return bad('the finished notice is sent before the stream has ended, or with another value')
            item = NO
            end = 'the finished notice'
        if ev[4] == 'closed':
            end = 'a refused delivery'
            refused = (n, collapse(v))
        return (kind, started, item, k, end, refused, None)


def check(ctx):
    # what is told apart is the automaton state; the failures list one path each
    r = ctx.run('at_stream', mon=Forward(), spawn='only', cancel=True)
    F = r.E.F
    stopped, fin, items = {}, set(), set()
    for o in r.outs:
        kind, started, item, k, end, refused, bad = o.mon
        name = 'attach_stream, %s mailbox' % ('unbounded' if kind == 'unbounded' else 'bounded')
        if 'task' not in o.st.flags:
            ctx.need(False, 'a-task-forwards', name, 'the stream is not forwarded by a task of its own', o, r.E)
            continue
        if not ctx.need(o.kind == 'ret', 'forwarding-does-not-panic', name, 'the forwarding task can panic', o, r.E):
            continue
        items.add((kind, k))
        if bad is None:
            back = ok(o.value) is not None and same(ok(o.value), arg(1))
            if end is None:
                bad = 'the task ends while the stream and the actor still run'
            elif end == 'the actor has stopped':
                stopped.setdefault(kind, set()).add(k)
                if not back:
                    bad = 'when the actor stops, the stream is not handed back'
            elif end == 'the finished notice':
                fin.add((kind, k))
                if not back:
                    bad = 'when the stream has ended, the task reports a failure or another stream'
            else:
                x = err(o.value)
                if x is None or not is_send_error(F, x, 'ActorNotRunning') or not told(F, x, refused):
                    bad = 'a refused delivery is not reported with its message: ' + names(F, o.value)
        ctx.need(bad is None, 'started-items-finished', name, bad or '', o, r.E)
    for kind in ('async', 'unbounded'):
        name = 'attach_stream, %s mailbox' % ('unbounded' if kind == 'unbounded' else 'bounded')
        ctx.need({0, 1, 2} <= stopped.get(kind, set()), 'task-ends-with-actor', name,
                 'waiting for an item does not also wait for the actor to stop (after %s items it does)' % sorted(stopped.get(kind, ())))
        ctx.need({(kind, 0), (kind, 1), (kind, 2)} <= items and {(kind, 0), (kind, 1), (kind, 2)} <= fin, 'followed', name,
                 'no path delivers the items and the finished notice')
    r = ctx.run('at_stream', keep=('spawn', 'send'), spawn='event')
    for o in r.outs:
        sp = events(o, 'spawn')
        ctx.need(o.kind == 'ret' and len(sp) == 1 and same(o.value, sp[0][3]) and not sends(o), 'a-task-forwards', 'attach_stream',
                 'attaching a stream does not hand back the one task that forwards it', o, r.E)
    ctx.sample('%d states in which the forwarding task ends' % len(r.outs))


def told(F, x, refused):
    fs = fields(F, collapse(x))
    m = strip_box(list(fs.values())[0]) if fs else ('int', 0)
    return m[0] == 'adt' and m[1] == SM and F.variant(SM, m[2]) == refused[0] and len(m[3]) == 1 and same(m[3][0], refused[1])
