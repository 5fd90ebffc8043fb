"""Simulation of a publisher (broker, bus, pub-sub) against which its paths are compared.

The path gives the facts it assumed (which patterns match, which names and ids are equal, what each delivery came to) and the
deliveries it made; the simulation says which deliveries those facts allow.  Everything is read through the public API: messages are
handled, deliveries are observed, and who is still subscribed is seen from the next publish."""
from .lib import *

STRAT = 'kameo_actors::DeliveryStrategy'
DUR = ('sym', ('arg', 40))
# strategy -> (how it is sent, has a timeout, from a task of its own)
MODES = {'Guaranteed': ('send', False, False), 'BestEffort': ('try_send', False, False), 'TimedDelivery': ('send', True, False),
         'Spawned': ('send', False, True), 'SpawnedWithTimeout': ('send', True, True)}


def strategies(F):
    for i, v in enumerate(F.adts[STRAT]['v']):
        fs = tuple(DUR for _ in v['t'])

        def setup(st, i=i, fs=fs):
            st.facts[('arg', 0)] = ('adt', STRAT, i, fs)
        yield v['n'], setup


def copy_of(v):
    """the argument a value is (a clone of), else None"""
    v = strip(v)
    for _ in range(6):
        if v[0] == 'sym' and v[1][0] == 'app' and v[1][1] == 'clone':
            v = strip(v[1][2][0])
        elif v[0] == 'sym' and v[1][0] == 'deref':
            v = ('sym', v[1][1])
        else:
            break
    return v[1][1] if v[0] == 'sym' and v[1][0] == 'arg' else None


def eq(E, o, a, b):
    """whether two values are equal on this path, given every comparison it made (None: not decided there)"""
    a, b = collapse(strip(a)), collapse(strip(b))
    pos, neg = [], []
    for k, v in o.st.facts.items():
        if k[0] == 'app' and k[1] in ('eq', 'ne') and len(k[2]) == 2 and v[0] == 'int':
            x, y = plain(k[2][0]), plain(k[2][1])
            (pos if bool(v[1]) == (k[1] == 'eq') else neg).append((x, y))

    def cls(x):
        out = [plain(x)]
        for z in out:
            for u, w in pos:
                for g, h in ((u, w), (w, u)):
                    if g == z and h not in out:
                        out.append(h)
        return out
    A, B = cls(a), cls(b)
    if any(x in B for x in A):
        return True
    if any((x in A and y in B) or (x in B and y in A) for x, y in neg):
        return False
    for x, y in ((a, b), (b, a)):
        v = E.norm(o.st, E.binop(o.st, 'eq', x, y))
        if v[0] == 'int':
            return bool(v[1])
    return None


def plain(v):
    v = collapse(strip(v))
    while v[0] == 'sym' and v[1][0] == 'app' and v[1][1] == 'clone':
        v = collapse(strip(v[1][2][0]))
    return v


def ident(i):
    return ('sym', ('app', 'id', (arg(i),)))


def deliveries(o):
    """(event, spawning result it runs under or None)"""
    out, cur = [], None
    for e in o.mon or ():
        if e[0] == 'spawn':
            cur = e[3]
        elif e[0] == 'spawned':
            cur = None
        elif e[0] == 'deliver':
            out.append((e, cur))
    return out


class Pub:
    def __init__(self, ctx, E, o, inst, mode, self_arg=None):
        self.ctx, self.E, self.o, self.inst, self.mode = ctx, E, o, inst, mode
        self.subs = []          # [key, recipient arg, matches(pub) -> bool/None, state in/maybe/out]
        self.d = deliveries(o)
        self.used = 0
        self.self_arg = self_arg

    def need(self, c, rule, what):
        return self.ctx.need(c, rule, self.inst, what, self.o, self.E)

    def add(self, key, r):
        self.subs.append([key, r, 'in'])

    def publish(self, m, match, notice):
        """m: the message argument; match(key): whether a subscription takes it; notice(F, key, r, msg): is msg the removal notice"""
        E, o, F = self.E, self.o, self.E.F
        mine = [(e, sp) for e, sp in self.d if copy_of(e[4]) == m]
        dead = []
        for s in self.subs:
            key, r, state = s
            got = [(e, sp) for e, sp in mine if copy_of(e[3]) == r]
            k = match(key)
            if k is None:
                self.need(not got, 'decides-before-delivering', 'a message is delivered to a subscription without finding out whether it matches')
                self.need(state != 'in', 'decides-every-subscription', 'a publish does not find out whether a subscription matches')
                continue
            if not k or state == 'out':
                self.need(not got, 'only-matching' if not k else 'not-after-removal',
                          'a message reaches a recipient it should not' if not k else 'a message reaches a recipient that was removed')
                continue
            if state == 'in':
                self.need(len(got) == 1, 'delivered-once', 'a matching subscription gets the message %d times' % len(got))
            else:
                self.need(len(got) <= 1, 'delivered-once', 'a subscription gets the message more than once')
            for e, sp in got:
                how, timed, spawned = MODES[self.mode]
                self.need(e[1] == 'tell' and e[2] == how, 'delivery-mode', 'a message is delivered by %s/%s under %s' % (e[1], e[2], self.mode))
                mb = collapse(e[5])
                self.need(same(some(mb), DUR) if timed and some(mb) is not None else (not timed and is_none(mb)), 'delivery-timeout',
                          'the delivery timeout is not the configured one')
                self.need((sp is not None) == spawned, 'delivery-task', 'the message is not sent from where the strategy says')
                if e[7] == 'not_running':
                    if spawned:
                        ns = [x for x, sp2 in self.d if same(collapse(sp2), collapse(sp)) and x is not e] if sp is not None else []
                        ok_ = [x for x in ns if strip(x[3])[0] == 'sym' and strip(x[3])[1][:2] == ('app', 'self_ref') and notice(F, key, r, x[4])]
                        self.need(len(ok_) == 1, 'gone-is-reported', 'a recipient found gone by a delivery task is not reported to the publisher')
                        self.need(len(ns) == len(ok_), 'only-notices', 'a delivery task sends something else')
                    else:
                        dead.append((s, r))
                elif spawned and sp is not None:
                    ns = [x for x, sp2 in self.d if same(collapse(sp2), collapse(sp)) and x is not e]
                    self.need(not ns, 'only-notices', 'a delivery task reports a recipient that is not gone')
        extra = [e for e, sp in mine if copy_of(e[3]) not in [s[1] for s in self.subs]]
        self.need(not extra, 'only-subscribed', 'the message is sent to something that never subscribed')
        self.used += len(mine)
        for s, r in dead:
            s[2] = 'out'
        for s in self.subs:
            if s[2] == 'in' and any(eq(E, o, ident(s[1]), ident(r)) for _, r in dead):
                s[2] = 'maybe'
        return mine

    def remove(self, hit):
        """hit(key, recipient) -> bool/None"""
        for s in self.subs:
            h = hit(s[0], s[1])
            if h is None:
                s[2] = 'unknown'
            elif h:
                s[2] = 'out'

    def finish(self):
        """every delivery made is one the simulation accounted for"""
        notices = [e for e, sp in self.d if strip(e[3])[0] == 'sym' and strip(e[3])[1][:2] == ('app', 'self_ref')]
        self.need(self.used + len(notices) == len(self.d), 'nothing-else-sent', 'the publisher sends something that was not published')
        self.need(all(sp is not None for e, sp in self.d if e in notices), 'no-self-message', 'the publisher waits on a message to itself')
        self.need(not events(self.o, 'panic') and self.o.kind == 'ret', 'no-panic', 'the publisher panics')
        for e in events(self.o, 'spawned'):
            self.need(e[2] == 'ret', 'no-panic', 'a delivery task panics')
