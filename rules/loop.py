"""The message loop judged hook call by hook call: which signals it received, what each hook answered, and therefore what it
must do next.  One walk per path; rules pick the aspects they own."""
from .life import *


def walk(ctx, r, o, aspects, inst='message loop'):
    F, E = r.E.F, r.E

    def need(aspect, cond, what):
        if aspect in aspects:
            ctx.need(cond, aspect, inst, what, o, E)
        return cond

    rs = runs(o, E)
    if not need('start-first', bool(rs) and rs[0].name == 'on_start' and sum(x.name == 'on_start' for x in rs) == 1,
                'the start hook is not the first hook called, exactly once'):
        return
    start = rs[0]
    st_sends = [e for e in sends(o) if signal(F, e)[0] == 'StartupFinished']
    started = any(e[4] != 'ok' for e in st_sends) or not st_sends
    sigs = {p: s for *s, p in [(a, b, c) for a, b, c in signals(F, o)]}
    pending, expect, end, stopping = [], None, None, None
    for h in rs[1:]:
        if not need('one-at-a-time', end is None, 'the %s hook is called although the loop has to end' % h.name):
            return
        nm = h.name
        if expect and expect[0] == 'on_panic' and nm != 'on_panic':
            need('panic-to-hook', False, 'a failure of %s is followed by %s instead of the panic hook' % (expect[1].name, nm))
            return
        if expect and expect[0] == 'on_link_died' and nm != 'on_link_died':
            need('link-to-hook', False, 'a link-died notification is followed by %s instead of the link-died hook' % nm)
            return
        if nm != 'on_start':
            need('hook-args', same(strip(h.args[0]), strip(start.args[0])), '%s is not called on the actor itself' % nm)
        if nm == 'next':
            if started:
                if not need('order', not pending, 'the next message is fetched while %d earlier ones are unhandled' % len(pending)):
                    return
            if not need('stop', stopping is None, 'the loop goes on after a stop request'):
                return
            need('hook-args', own_ref(h.args[1], start) and chan_bases(strip(h.args[2])) <= {('arg', 1)}, 'the next-message hook is not given the actor\'s own reference and mailbox')
            k, s = sigs[h.i]
            s = s and tuple(s) + (k,)
            if k in ('out', 'in', 'msg'):
                pending.append(s)
            elif k == 'startup':
                started = True
            elif k in ('stop', 'none'):
                stopping = k
            elif k == 'link':
                expect = ('on_link_died', s)
        elif nm == 'on_message':
            hit = [i for i, s in enumerate(pending) if same(strip_box(h.args[1]), strip_box(sigfield(F, s, 'message'))) or same(h.args[1], sigfield(F, s, 'message'))]
            if not need('order', bool(hit), 'a message is handled that is not waiting: handled twice, or not the one received'):
                return
            i = hit[0]
            s = pending[i]
            if not need('order', i == 0 or (not started and s[3] == 'in'), 'a message is handled ahead of one that arrived earlier'):
                return
            need('hook-args', same(h.args[2], sigfield(F, s, 'actor_ref')) and same(h.args[3], sigfield(F, s, 'reply')),
                 'a message is handled with another reference or reply channel than it was sent with')
            if s[3] == 'out':
                need('startup-first', started or stopping is not None, 'a message is handled before start-up is finished')
            del pending[i]
            if h.how in ('panic', 'err'):
                expect = ('on_panic', h, None)
        elif nm == 'on_panic':
            if not need('panic-to-hook', expect is not None and expect[0] == 'on_panic', 'the panic hook is called without a failure'):
                return
            pe = h.args[2]
            good = perr_of(o, pe, expect[1]) if expect[2] is None else equal(o, pe, expect[2])
            need('panic-to-hook', good, 'the panic hook is given something else than the failure of %s' % expect[1].name)
            need('hook-args', own_ref(h.args[1], start), 'the panic hook is not given the actor\'s own reference')
            expect = None
            if h.how == 'ok':
                fl = h.flow(o)
                if fl == 'break':
                    end = ('reason', h.reason(), 'the panic hook')
                need('obeyed', fl != '?', 'the answer of the panic hook is ignored')
            else:
                end = ('fail', h, 'the panic hook\'s own failure')
        elif nm == 'on_link_died':
            if not need('link-to-hook', expect is not None and expect[0] == 'on_link_died', 'the link-died hook is called without a notification'):
                return
            s = expect[1]
            need('link-args', same(h.args[2], sigfield(F, s, 'id')) and same_reason(o, F, h.args[3], sigfield(F, s, 'reason')), 'the link-died hook is not given the id and reason of the notification')
            need('hook-args', own_ref(h.args[1], start), 'the link-died hook is not given the actor\'s own reference')
            nxt = [x.i for x in rs if x.i > h.i and x.name in ('next', 'on_message')]
            prev = [x.i for x in rs if x.i < h.i]
            seg = o.mon[prev[-1]:nxt[0] if nxt else len(o.mon)]
            rem = [e for e in seg if isinstance(e, tuple) and e[0] == 'call' and 'HashMap::remove' in e[1]]
            need('link-forgotten', any(same(strip(e[2][1]), sigfield(F, s, 'id')) and links_of(e[2][0]) for e in rem), 'the link to the dead actor is not removed')
            expect = None
            if h.how == 'ok':
                fl = h.flow(o)
                need('obeyed', fl != '?', 'the answer of the link-died hook is ignored')
                if fl == 'break':
                    pe = panicked(F, o, h.reason())
                    if pe is not None:
                        expect = ('on_panic', h, pe)
                    else:
                        end = ('reason', h.reason(), 'the link-died hook')
            else:
                expect = ('on_panic', h, None)
    if o.kind != 'ret':
        need('no-escape', False, 'a panic leaves the message loop')
        return
    if expect:
        need('panic-to-hook' if expect[0] == 'on_panic' else 'link-to-hook', False, 'the loop ends without calling %s' % expect[0])
        return
    if end is None:
        if not need('stop', stopping is not None, 'the loop ends with %s although nothing asked for it' % names(F, o.value)):
            return
        need('stop', not pending, 'the loop ends on %s with %d message(s) unhandled' % ('a stop request' if stopping == 'stop' else 'the last reference going away', len(pending)))
        need('true-reason', reason_kind(F, o, o.value) == 'Normal', 'a normal stop ends with the reason %s' % names(F, o.value))
    elif end[0] == 'reason':
        need('true-reason', same_reason(o, F, o.value, end[1]), 'the stop reason is not the one given by %s: %s' % (end[2], names(F, o.value)))
    else:
        pe = panicked(F, o, o.value)
        need('true-reason', pe is not None and perr_of(o, pe, end[1]), 'the stop reason is not %s: %s' % (end[2], names(F, o.value)))


def links_of(v):
    """the value is (inside) the actor's own link table"""
    return ('app', 'default', ()) in bases(v)


ONE = ('none', 'stop', 'startup', 'in', 'out', 'link')


def single(ctx, aspects):
    """every signal kind, every hook outcome, panics everywhere"""
    r = inner(ctx, 1, ONE)
    go(ctx, r, aspects)
    return r


def go(ctx, r, aspects):
    for o in r.outs:
        walk(ctx, r, o, aspects)
    ctx.need(len(r.outs) > 0, 'paths', 'message loop', 'no path through the loop was found')


CALM = ('on_start', 'on_message', 'on_link_died', 'on_panic', 'on_stop')


def several(ctx, aspects, kinds=('none', 'stop', 'startup', 'in', 'out'), n=None, nopanic=CALM, **kw):
    n = n or 3
    r = inner(ctx, n, kinds, nopanic=nopanic, **kw)
    go(ctx, r, aspects)
    return r
