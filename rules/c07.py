"""Mailbox operations.  Every public operation of the three mailbox handles, and the three internal signal senders, is run for a
bounded and an unbounded mailbox: each path performs exactly the operation of its name on the queue inside the handle it was called
on (kinds never mixed), passes its arguments on unchanged and gives back that operation's own result.  Downgrading, upgrading and
cloning stay on the same queue; the constructors build both ends of one new channel with the capacity asked for; the start-up
signal is sent without waiting, death and stop signals wait for room, and each reports exactly whether it was enqueued."""
from .life import *

MB = 'kameo::mailbox::'
# operation: (calls accepted, number of further arguments, gives back the result)
SENDER = {'closed': (('closed',), 0, True), 'is_closed': (('is_closed',), 0, True), 'same_channel': (('same_channel',), 1, True),
          'strong_count': (('strong_count',), 0, True), 'weak_count': (('weak_count',), 0, True)}
WEAK = {'strong_count': (('strong_count',), 0, True), 'weak_count': (('weak_count',), 0, True)}
RECV = {'recv_many': (('recv_many',), 2, True), 'try_recv': (('try_recv',), 0, True), 'blocking_recv': (('blocking_recv',), 0, True),
        'blocking_recv_many': (('blocking_recv_many',), 2, True), 'close': (('close',), 0, False), 'is_closed': (('is_closed',), 0, True),
        'is_empty': (('is_empty',), 0, True), 'len': (('len',), 0, True), 'poll_recv': (('poll_recv',), 1, True),
        'poll_recv_many': (('poll_recv_many',), 3, True), 'sender_strong_count': (('sender_strong_count',), 0, True),
        'sender_weak_count': (('sender_weak_count',), 0, True)}
KIND = {'MailboxSender': 'Sender', 'WeakMailboxSender': 'WeakSender', 'MailboxReceiver': 'Receiver'}

# what changes a buffer the caller gave, other than the queue's own operation on it
MEDDLE = {'clear', 'truncate', 'pop', 'remove', 'swap_remove', 'drain', 'push', 'insert', 'append', 'extend', 'retain', 'retain_mut', 'split_off',
          'deref_mut', 'as_mut_slice', 'iter_mut', 'dedup_by', 'dedup_by_key', 'resize_with', 'set_len', 'splice', 'extract_if', 'index_mut'}


def variant(F, o, ty, i=0):
    """the kind of mailbox argument i is on this path"""
    for k in (('deref', ('arg', i)), ('arg', i)):
        f = o.st.facts.get(k)
        if f is not None and f[0] == 'adt':
            return F.variant(f[1], f[2])
    return None


def queue(F, v, kind, ty, i=0):
    """v is (a reference to) the queue of that kind inside argument i"""
    vi = F.variant_idx(MB + ty, kind)
    return strip(v)[0] == 'sym' and strip(v)[1] in (('fld', ('deref', ('arg', i)), vi, 0), ('fld', ('arg', i), vi, 0))


def lib(ev):
    """(queue kind, operation) of a tokio channel call"""
    p = ev[1].split('::')
    if 'mpsc' not in p:
        return None
    return ('Unbounded' if 'unbounded' in p else 'Bounded'), p[-1]


def forwards(ctx, ty, table):
    F = ctx.facts()
    for m, (accept, nargs, gives) in table.items():
        r = ctx.run('kameo::mailbox::%s::%s' % (ty, m), keep=('call', 'panic', 'send', 'recv', 'await'))
        inst = '%s::%s' % (ty, m)
        kinds = set()
        for o in r.outs:
            if not ctx.need(o.kind == 'ret', 'same-meaning', inst, 'the operation can panic', o, r.E):
                continue
            k = variant(F, o, ty)
            cs = [e for e in events(o, 'call') if lib(e)]
            if m == 'same_channel':
                k2 = variant(F, o, ty, 1)
                if k != k2:
                    ctx.need(not cs and collapse(o.value) == ('int', 0), 'same-meaning', inst, 'mailboxes of different kinds are said to be the same', o, r.E)
                    continue
            kinds.add(k)
            if not ctx.need(len(cs) == 1 and not events(o, 'send', 'recv'), 'same-meaning', inst, 'the path performs %d queue operations' % len(cs), o, r.E):
                continue
            e = cs[0]
            lk, op = lib(e)
            ctx.need(op in accept and lk == k, 'same-meaning', inst, '%s performs `%s` of a %s queue on a %s mailbox' % (m, op, lk, k), o, r.E)
            ctx.need(queue(F, e[2][0], k, ty), 'own-queue', inst, 'the operation acts on another queue: ' + names(F, e[2][0]), o, r.E)
            for j in range(nargs):
                a = e[2][1 + j] if 1 + j < len(e[2]) else None
                good = a is not None and (queue(F, a, k, ty, 1) if m == 'same_channel' else same(strip(a), arg(1 + j)))
                ctx.need(good, 'arguments-unchanged', inst, 'an argument is changed on the way to the queue', o, r.E)
            meddled = sorted({x[1].rsplit('::', 1)[-1] for x in events(o, 'call') if x is not e and x[1].rsplit('::', 1)[-1] in MEDDLE
                              and x[2] and any(same(strip(x[2][0]), arg(1 + j)) for j in range(nargs))})
            ctx.need(not meddled, 'arguments-unchanged', inst, "besides the queue's operation the caller's buffer is changed: " + ', '.join(meddled), o, r.E)
            if gives:
                v = collapse(o.value)
                ctx.need(value_is(e, v) or v == ('sym', ('aw', e[3][1])) or v[0] == 'sym' and e[3][1] in bases(v) and v[1][0] in ('aw', 'out', 'app') and any(x[0] == 'await' for x in o.mon),
                         'own-result', inst, 'the queue\'s answer is not given back: ' + names(F, v), o, r.E)
        ctx.need(kinds == {'Bounded', 'Unbounded'}, 'both-kinds', inst, 'expected one path per mailbox kind, found %s' % sorted(map(str, kinds)))


def check(ctx):
    F = ctx.facts()
    forwards(ctx, 'MailboxSender', SENDER)
    forwards(ctx, 'WeakMailboxSender', WEAK)
    forwards(ctx, 'MailboxReceiver', RECV)
    # send
    r = ctx.run('kameo::mailbox::MailboxSender::send', keep=('send', 'panic'))
    got = set()
    for o in r.outs:
        if not ctx.need(o.kind == 'ret' and len(sends(o)) == 1, 'same-meaning', 'MailboxSender::send', 'not exactly one signal is enqueued', o, r.E):
            continue
        s = sends(o)[0]
        k = variant(F, o, 'MailboxSender')
        got.add((k, s[4]))
        ctx.need(queue(F, s[2], k, 'MailboxSender') and (s[1] == 'unbounded') == (k == 'Unbounded') and s[1] in ('unbounded', 'async'), 'own-queue', 'MailboxSender::send', 'the signal is sent with `%s` to another queue' % s[1], o, r.E)
        ctx.need(same(strip(s[3]), arg(1)), 'arguments-unchanged', 'MailboxSender::send', 'another signal is enqueued', o, r.E)
        if s[4] == 'ok':
            ctx.need(ok(o.value) is not None, 'own-result', 'MailboxSender::send', 'an enqueued signal is reported as failed', o, r.E)
        else:
            e = err(o.value)
            ctx.need(e is not None and of_arg(e, 1), 'own-result', 'MailboxSender::send', 'a failed send does not give the signal back', o, r.E)
    ctx.need({k for k, t in got} == {'Bounded', 'Unbounded'}, 'both-kinds', 'MailboxSender::send', 'found %s' % sorted(map(str, got)))
    # recv
    r = ctx.run('kameo::mailbox::MailboxReceiver::recv', keep=('recv', 'panic'))
    got = set()
    for o in r.outs:
        ev = events(o, 'recv')
        k = variant(F, o, 'MailboxReceiver')
        got.add(k)
        ctx.need(o.kind == 'ret' and len(ev) == 1 and queue(F, ev[0][1], k, 'MailboxReceiver') and same(o.value, ev[0][2]), 'same-meaning', 'MailboxReceiver::recv', 'not the next signal of the own queue is given', o, r.E)
    ctx.need(got == {'Bounded', 'Unbounded'}, 'both-kinds', 'MailboxReceiver::recv', 'found %s' % sorted(map(str, got)))
    # handles
    for name, ty in (('kameo::mailbox::MailboxSender::downgrade', 'MailboxSender'), ('mb_clone', 'MailboxSender'), ('mb_wclone', 'WeakMailboxSender'), ('kameo::mailbox::WeakMailboxSender::upgrade', 'WeakMailboxSender')):
        r = ctx.run(name, keep=('upgrade', 'panic', 'send'))
        got = set()
        for o in r.outs:
            inst = name.split('mailbox::')[-1]
            if not ctx.need(o.kind == 'ret', 'same-queue', inst, 'the operation can panic', o, r.E):
                continue
            k = variant(F, o, ty)
            v = o.value
            if name.endswith('upgrade'):
                up = events(o, 'upgrade')
                if not ctx.need(len(up) == 1 and queue(F, up[0][1], k, ty), 'same-queue', inst, 'another queue is upgraded', o, r.E):
                    continue
                if up[0][2] == 'none':
                    ctx.need(is_none(v), 'same-queue', inst, 'a handle is made up for a gone queue', o, r.E)
                    continue
                v = some(v)
                if not ctx.need(v is not None, 'same-queue', inst, 'a live queue is not upgraded', o, r.E):
                    continue
            got.add(k)
            out = 'WeakMailboxSender' if name.endswith(('downgrade', 'wclone')) else 'MailboxSender'
            if collapse(v) in (arg(0), ('sym', ('deref', ('arg', 0)))) and name.endswith('clone'):
                ctx.need(True, 'same-queue', inst, '')
                continue
            t, n, fs = adt(F, v)
            vi = F.variant_idx(MB + ty, k)
            ctx.need(t == MB + out and n == k and chan_bases(fs[0]) <= {('arg', 0)} and inner_queue(fs[0], vi), 'same-queue', inst, 'the new handle denotes another queue: ' + names(F, v), o, r.E)
        ctx.need(got == {'Bounded', 'Unbounded'}, 'both-kinds', name, 'found %s' % sorted(map(str, got)))
    # constructors
    for name, kind in (('mb_bounded', 'Bounded'), ('mb_unbounded', 'Unbounded')):
        r = ctx.run(name, keep=('channel', 'panic', 'call'))
        for o in r.outs:
            ch = events(o, 'channel')
            if not ctx.need(o.kind == 'ret' and len(ch) == 1, 'one-channel', name, 'not exactly one channel is made', o, r.E):
                continue
            v = o.value
            a, b = adt(F, v[1][0]), adt(F, v[1][1])
            ends = ch[0][3:5]
            ctx.need(a[1] == kind and b[1] == kind and any(same(a[2][0], x) for x in ends) and any(same(b[2][0], x) for x in ends), 'one-channel', name, 'the two ends are not those of one %s channel' % kind, o, r.E)
            ctx.need(ch[0][1] == kind.lower() and (kind == 'Unbounded' or same(ch[0][2][0], arg(0))), 'one-channel', name, 'the channel does not have the capacity asked for', o, r.E)
    # signals
    for name, want, hows in (('s_startup', 'StartupFinished', {'try', 'unbounded'}), ('s_startup_weak', 'StartupFinished', {'try', 'unbounded'}),
                             ('l_died', 'LinkDied', {'async', 'unbounded'}), ('l_died_weak', 'LinkDied', {'async', 'unbounded'}),
                             ('s_stop', 'Stop', {'async', 'unbounded'}), ('s_stop_weak', 'Stop', {'async', 'unbounded'})):
        r = ctx.run(name, keep=('send', 'upgrade', 'panic'))
        got = set()
        for o in r.outs:
            if not ctx.need(o.kind == 'ret', 'signals', name, 'signalling can panic', o, r.E):
                continue
            ss = sends(o)
            if not ss and any(e[2] == 'none' for e in events(o, 'upgrade')):
                e = err(o.value)
                ctx.need(e is not None and is_send_error(F, e, 'ActorNotRunning'), 'signals', name, 'a gone actor is reported as ' + names(F, o.value), o, r.E)
                continue
            if not ctx.need(len(ss) == 1 and signal(F, ss[0])[0] == want and chan_bases(ss[0][2]) <= {('arg', 0)}, 'signals', name, 'not exactly one %s signal is sent to the own queue' % want, o, r.E):
                continue
            s = ss[0]
            got.add(s[1])
            ctx.need(s[1] in hows, 'signals', name, 'the signal is sent with `%s`' % s[1], o, r.E)
            if s[4] == 'ok':
                ctx.need(ok(o.value) is not None, 'signals', name, 'an enqueued signal is reported as failed', o, r.E)
            else:
                e = err(o.value)
                ctx.need(e is not None and is_send_error(F, e, 'MailboxFull' if s[4] == 'full' else 'ActorNotRunning'), 'signals', name, 'a %s mailbox is reported as %s' % (s[4], names(F, o.value)), o, r.E)
        ctx.need(got == hows, 'both-kinds', name, 'found %s' % sorted(got))
    ctx.sample('MailboxReceiver::Bounded(rx).len() -> rx.len()')


def inner_queue(v, vi):
    """the one queue symbol inside a handle is the field of that variant"""
    v = collapse(v)
    while v[0] in ('&', 'box', 'dynv') or v[0] == 'sym' and v[1][0] == 'app':
        v = v[1] if v[0] != 'sym' else (v[1][2][0] if v[1][2] else UNIT)
    return v[0] == 'sym' and v[1][0] == 'fld' and v[1][2] == vi
