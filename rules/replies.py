"""Obligations about replies: boxing, sending, reading back, and the handling of one message."""
from .lib import *


def keep(E, st, ev, loc):
    if ev[0] in ('osend', 'panic', 'downcast', 'reply_taken'):
        return ev
    if ev[0] == 'call' and ev[1].startswith(('kameo::reply::Reply::', 'kameo::message::Message::')):
        return ev
    return None


def roundtrips(ctx):
    for name in ('reply_rt_ok', 'reply_rt_plain', 'reply_rt_delegated', 'reply_rt_err', 'reply_rt_delegated_err', 'fwd_ok'):
        r = ctx.run(name, keep=keep)
        for o in r.outs:
            ctx.need(o.kind == 'ret', 'reply-types-agree', name, 'reading a reply back panics: boxed and expected type differ', o, r.E)
            if o.kind != 'ret':
                continue
            v = collapse(o.value)
            good = same(v, arg(0))
            if not good and v[0] == 'adt':
                # an error rebuilt variant by variant
                cur = o.st.facts.get(('arg', 0))
                good = cur is not None and cur[0] == 'adt' and cur[1] == v[1] and cur[2] == v[2] and same_parts(v, cur, o)
            ctx.need(good, 'reply-unchanged', name, 'the asker reads back something else than what was answered: ' + names(r.E.F, v), o, r.E)
        if name.endswith('err'):
            got = {r.E.F.variant(SE, o.st.facts[('arg', 0)][2]) for o in r.rets() if ('arg', 0) in o.st.facts and o.st.facts[('arg', 0)][0] == 'adt'}
            ctx.need(len(got) >= 5, 'all-failure-kinds', name, 'only the failure kinds %s are converted' % sorted(got))


def same_parts(v, cur, o):
    for a, b in zip(v[3], cur[3]):
        if same(a, b):
            continue
        f = o.st.facts.get(b[1]) if b[0] == 'sym' else b
        if f is None or f[0] != 'adt' or a[0] != 'adt' or f[2] != a[2] or not same_parts(a, f, o):
            return False
    return True


def handled(ctx, asker_only=False):
    """one message run through DynMessage::handle_dyn"""
    name = 'handle_msg'
    r = ctx.run(name, keep=keep, havoc=handler_takes_reply)
    F = r.E.F
    kinds = set()
    for o in r.outs:
        hs = callv(o, 'Message::handle')
        ctx.need(len(hs) == 1, 'handler-once', name, 'the handler is called %d times for one message' % len(hs), o, r.E)
        if len(hs) != 1:
            continue
        h = hs[0]
        ctx.need(same(strip(h[2][0]), ('sym', ('deref', ('arg', 0)))) or same(h[2][0], arg(0)), 'handler-args', name, 'the handler is not called on the actor\'s own state', o, r.E)
        ctx.need(same(h[2][1], arg(1)), 'handler-args', name, 'the handler does not receive the message itself: ' + names(F, h[2][1]), o, r.E)
        cx = fields(F, strip(h[2][2]))
        ctx.need('actor_ref' in cx and of_arg(cx['actor_ref'], 2), 'handler-args', name, 'the context handed to the handler does not refer to the handling actor', o, r.E)
        os_ = events(o, 'osend')
        tx = some(cx.get('reply', UNIT))
        had = tx is not None
        taken = bool(events(o, 'reply_taken'))
        if o.kind == 'panic':
            ctx.need(not os_, 'no-reply-after-panic', name, 'a reply is sent although the handler panicked', o, r.E)
            continue
        if had and not taken:
            kinds.add('asked')
            ctx.need(of_arg(tx, 3), 'reply-channel', name, 'the context carries another reply channel than the request\'s', o, r.E)
            ctx.need(len(os_) == 1 and of_arg(os_[0][1], 3), 'asker-answered-once', name, 'an asked message is answered %d times' % len(os_), o, r.E)
            if len(os_) == 1:
                iv = callv(o, 'Reply::into_value')
                ctx.need(len(iv) == 1 and iv[0][2][0] == ('sym', ('aw', h[3][1])), 'answer-is-the-handlers', name, 'the answer is not made from the handler\'s result', o, r.E)
                answered(ctx, r, name, o, os_[0], iv[0][3] if iv else None)
            ctx.need(ok(o.value) is not None, 'error-to-one-party', name, 'an asked message also reports an error to the actor', o, r.E)
        elif not asker_only:
            kinds.add('delegated' if had else 'told')
            ctx.need(not os_, 'no-second-answer', name, 'a message without asker, or answered by the handler itself, is answered by the framework', o, r.E)
            ie = callv(o, 'Reply::into_any_err')
            ctx.need(len(ie) == 1 and ie[0][2][0] == ('sym', ('aw', h[3][1])), 'told-error-reported', name, 'the outcome of a told message is not inspected for an error', o, r.E)
            if len(ie) == 1:
                k = ie[0][3][1]
                f = o.st.facts.get(k)
                if err(o.value) is not None or collapse(o.value) == ('sym', k):
                    ctx.need(bases(o.value) == {k}, 'told-error-reported', name, 'the error reported is not the handler\'s', o, r.E)
                    kinds.add('err')
                else:
                    ctx.need(f is not None and f[0] == 'adt' and f[2] == 0 and same(ok(o.value) or ('int', 0), UNIT), 'told-error-reported', name,
                             'an error of a told message is swallowed', o, r.E)
                    kinds.add('ok')
    want = {'asked'} if asker_only else {'asked', 'delegated', 'told', 'err', 'ok'}
    ctx.need(kinds >= want, 'all-outcomes', name, 'expected %s, found %s' % (sorted(want), sorted(kinds)))


def answered(ctx, r, name, o, send, src):
    """send delivers to_result(src) boxed at its own type"""
    F = r.E.F
    tr = callv(o, 'Reply::to_result')
    if len(tr) != 1:
        ctx.need(False, 'answer-is-the-handlers', name, 'the answer is converted %d times' % len(tr), o, r.E)
        return
    ctx.need(src is None or same(tr[0][2][0], src), 'answer-is-the-handlers', name, 'the value converted is not the one to send', o, r.E)
    k = tr[0][3]
    v, e = ok(send[2]), err(send[2])
    if v is not None:
        ctx.need(same(strip_box(v), fld(k, 0, 0)), 'answer-value', name, 'a success is answered with something else: ' + names(F, send[2]), o, r.E)
    else:
        ctx.need(e is not None and is_send_error(F, e, 'HandlerError', fld(k, 1, 0)), 'answer-value', name, 'a handler error is not answered as HandlerError of that error: ' + names(F, send[2]), o, r.E)
