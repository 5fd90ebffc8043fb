"""Spawning.  Every spawn function starts exactly one task (or thread, for the threaded variants); the reference it returns has the given
mailbox (a bounded one of 64 when none is given), and the id, mailbox, links and state of the very reference the started actor gets; the task
runs the whole life of the given actor on the receiving end of that mailbox and ends with that actor.  The linked variants have put
both link entries in place before the task is started."""
from . import proto
from .life import *

LINKS = 'kameo::actor::actor_ref::Links'
DEFAULT = 64


def keep(E, st, ev, loc):
    if ev[0] in ('spawn', 'channel', 'panic', 'send', 'await', 'block_on', 'recv'):
        return ev
    if ev[0] == 'call' and 'HashMap::' in ev[1]:
        return ev
    return None


def mailbox_ok(F, name, v, o, side):
    """v is the sending (receiving) end of the mailbox the actor should have"""
    v = collapse(strip(v))
    if 'mailbox' in name or 'prepared' in name:
        return chan_bases(v) == {('arg', 1)} and '9%d' % side in str(v)
    if not is_adt(F, v, MBS if side == 0 else proto.RX, 'Bounded'):
        return False
    k = strip(v[3][0])
    return k[0] == 'sym' and k[1][0] == ('tx', 'rx')[side]


def check(ctx):
    F = ctx.facts()
    cell = proto.cells(ctx)
    for name in proto.SPAWNS:
        link = ('arg', 1 if name == 'sp_link' else 2) if 'link' in name else None
        refs = set()
        r = ctx.run(name, keep=keep, args=proto.spawn_args(ctx, name), spawn='event')
        n = 0
        for o in r.outs:
            sp = [i for i, e in enumerate(o.mon) if e[0] == 'spawn']
            if o.kind == 'panic':
                failed = len(sp) == 1 and (o.st.facts.get(o.mon[sp[0]][3][1]) or (0, 0, 0))[2] == 1
                ctx.need('thread' in name and (not sp or failed), 'starts-one-task', name, 'spawning can panic%s' % (' after the actor was started' if sp else ''), o, r.E)
                continue
            n += 1
            if not ctx.need(len(sp) == 1 and o.mon[sp[0]][1] == ('thread' if 'thread' in name else 'task'), 'starts-one-task', name,
                            'the actor is started as: %s' % [o.mon[i][1] for i in sp], o, r.E):
                continue
            ref = collapse(o.value)
            if not ctx.need(is_adt(F, ref, 'kameo::actor::actor_ref::ActorRef', 'ActorRef'), 'returns-own-reference', name, 'the value returned is not a reference of a new actor', o, r.E):
                continue
            refs.add(ref)
            ctx.need(all(mailbox_ok(F, name, x, o, 0) for x in parts(ref, MBS)) and parts(ref, MBS), 'given-mailbox', name, 'the returned reference sends to ' + names(F, ref), o, r.E)
            ch = [e for e in o.mon if e[0] == 'channel' and e[1] in ('bounded', 'unbounded')]
            if 'mailbox' in name or 'prepared' in name:
                ctx.need(not ch, 'given-mailbox', name, 'another mailbox is created', o, r.E)
            else:
                ctx.need(len(ch) == 1 and ch[0][1] == 'bounded' and ch[0][2] and ch[0][2][0] == ('int', DEFAULT), 'given-mailbox', name,
                         'the default mailbox is not a bounded one of capacity %d' % DEFAULT, o, r.E)
            ins = [(i, e) for i, e in enumerate(o.mon) if e[0] == 'call' and e[1].endswith('HashMap::insert')]
            other = [e for e in o.mon if e[0] == 'call' and 'HashMap::' in e[1] and not e[1].endswith(('insert', 'new'))]
            if link is None:
                ctx.need(not ins, 'linked-before-run', name, 'spawning without a link changes a link table', o, r.E)
                continue
            me = parts(ref, AID)[0]
            if equal_ids(o, me, link):
                continue
            early = [e for i, e in ins if i < sp[0]]
            peer = [e for e in early if bases(e[2][0]) == {link} and same(strip(e[2][1]), me)]
            mine = [e for e in early if same_table(e[2][0], ref) and bases(e[2][1]) == {link}]
            ctx.need(len(ins) == 2 and not other and len(peer) == 1 and len(mine) == 1, 'linked-before-run', name,
                     'when the actor is started, %d of the 2 link entries are in place' % (len(peer) + len(mine)), o, r.E)
        ctx.need(n > 0, 'starts-one-task', name, 'the actor is never started')
        # the started task
        r = outer(ctx, name=name, keep=proto.keep, spawn='only', nopanic=HOOKSET, args=proto.spawn_args(ctx, name))
        m = 0
        for o in r.outs:
            if 'task' not in o.st.flags:
                continue
            m += 1
            if o.kind != 'ret':
                ctx.need(False, 'runs-given-actor', name, 'the task ends in a panic', o, r.E)
                continue
            proto.walk(ctx, r, o, {'start-once', 'stop-once'}, cell, inst=name)
            rs = runs(o, r.E)
            v = collapse(o.value)
            ctx.need(v[0] == 'tup' and v[1] and same(v[1][0], arg(0)), 'runs-given-actor', name, 'the task ends with another actor value', o, r.E)
            if not rs:
                continue
            own = collapse(strip(rs[0].args[1]))
            ctx.need(any(same_ref(F, own, x) for x in refs), 'returns-own-reference', name, 'the started actor has another reference than the one returned', o, r.E)
            rx = [strip(e[1]) for e in o.mon if e[0] == 'drop_rx' and not proto.moved(e[1])]
            whole = [x for x in rx if x[0] == 'adt' and x[1] == proto.RX]
            ctx.need(bool(rx) and all(mailbox_ok(F, name, x, o, 1) for x in whole) and (whole or all('rx' in str(x) or '91' in str(x) for x in rx)), 'given-mailbox', name,
                     'the actor does not read from the given mailbox: %s' % [names(F, x) for x in rx], o, r.E)
        ctx.need(m > 0, 'runs-given-actor', name, 'no task running the actor is found')


def same_ref(F, a, b):
    if not is_adt(F, a, b[1], 'ActorRef') or len(a[3]) != len(b[3]):
        return False
    return all(same(x, y) for x, y in zip(a[3], b[3]))


def same_table(t, ref):
    """the table lies in the links of that reference"""
    for l in parts(ref, LINKS):
        k = strip(l[3][0])
        t = strip(t)
        while t[0] == 'sym' and t != k and t[1][0] in ('fld', 'deref'):
            t = strip(('sym', t[1][1]) if isinstance(t[1][1], tuple) else t)
        if t == k:
            return True
    return False


def equal_ids(o, me, link):
    for k, f in o.st.facts.items():
        if isinstance(k, tuple) and k[0] == 'app' and k[1] in ('eq', 'ne') and len(k[2]) == 2 and f[0] == 'int':
            x, y = strip(k[2][0]), strip(k[2][1])
            if (same(x, me) and bases(y) == {link}) or (same(y, me) and bases(x) == {link}):
                return (f[1] == 1) == (k[1] == 'eq')
    return False
