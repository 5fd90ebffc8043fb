"""Every path of forward/try_forward/blocking_forward (both mailbox kinds) and of the three Context forwards, and the asker's
conversion of a forwarded (also twice forwarded) request's error.  Obligations: the target receives the message together with
the original asker's reply channel; a failed forward returns the message and that channel (within a handler: the channel is
back in the context and the error carries the message, so that handle_dyn answers the asker with it); after a successful
forward the context holds no reply channel, so the asker cannot be answered by the forwarder; no panic, and the error the
asker reads is the target's own error at the declared nesting."""
from .requests import *
from . import replies


def ctx_reply(r, o):
    ix = r.E.F.field('kameo::message::Context', 'reply')
    return collapse(r.E.read(o.st, ('P', arg(0)), (('f', 0, ix),)))


def check(ctx):
    for name, (how, mt) in FWD.items():
        r = ctx.run(name, keep=keep)
        F = r.E.F
        for o, tag, s in delivered(ctx, r, name, how, mt, reply=2, what=('delivery', 'timeout')):
            no_reply_wait(ctx, r, name, o)
            if tag == 'ok':
                ctx.need(same(ok(o.value) or ('int', 0), UNIT), 'forward-ok', name, 'a delivered forward must give Ok(())', o, r.E)
                continue
            t, n, fs = adt(F, err(o.value) or UNIT)
            p = fs[0] if fs else UNIT
            if n == 'Timeout':
                p = some(p) or UNIT
            good = t == SE and n == FAIL[tag] and p[0] == 'tup' and len(p[1]) == 2 and same(p[1][0], arg(1)) and of_arg(p[1][1], 2)
            ctx.need(good, 'failed-forward-returns-both', '%s:%s' % (name, tag), 'a forward to a %s mailbox must return %s with the message and the reply channel, not %s'
                     % (tag, FAIL[tag], names(F, o.value)), o, r.E)
    for name, how in (('ctx_fwd', 'async'), ('ctx_fwd_try', 'try'), ('ctx_fwd_blocking', 'blocking')):
        r = ctx.run(name, keep=lambda E, st, ev, loc: ev if ev[0] in KEEP + ('osend',) else None)
        F = r.E.F
        rx = F.field('kameo::message::Context', 'reply')
        for o, tag, s in delivered(ctx, r, name, how, None, msg=arg(2), ref=1, reply=None, what=('timeout', 'panic')):
            sn, fs = signal(F, s)
            ctx.need(sn == 'Message' and same(strip(fs['message']), arg(2)) and of_arg(s[2], 1), 'forwarded-message', name, 'the target does not receive the forwarded message', o, r.E)
            ctx.need(not events(o, 'osend', 'orecv'), 'forwarder-does-not-answer', name, 'forwarding touches the asker\'s reply channel', o, r.E)
            had = o.st.facts.get(('fld', ('deref', ('arg', 0)), 0, rx))
            rep = ctx_reply(r, o)
            tx = some(fs.get('reply', UNIT))
            if had is not None and had[0] == 'adt' and had[2] == 1:
                ctx.need(tx is not None and of_arg(tx, 0), 'reply-right-transferred', name, 'the target does not receive the asker\'s reply channel', o, r.E)
                if tag == 'ok':
                    ctx.need(is_none(rep), 'reply-right-transferred', name, 'the forwarder keeps a reply channel after forwarding', o, r.E)
                else:
                    back = some(rep)
                    ctx.need(back is not None and of_arg(back, 0), 'reply-right-returned', '%s:%s' % (name, tag), 'a failed forward loses the asker\'s reply channel', o, r.E)
            else:
                ctx.need(is_none(fs.get('reply', UNIT)), 'reply-right-transferred', name, 'a request without asker is forwarded with a reply channel', o, r.E)
            res = fields(F, o.value).get('res', o.value)
            if tag == 'ok':
                ctx.need(ok(res) is not None, 'forward-result', name, 'a delivered forward reports a failure', o, r.E)
            else:
                e = err(res)
                ctx.need(e is not None and is_send_error(F, e, FAIL[tag], arg(2)), 'forward-result', '%s:%s' % (name, tag),
                         'a failed forward must report %s with the message, not %s' % (FAIL[tag], names(F, res)), o, r.E)
    # the asker's reading of a forwarded request's failure
    for name, depth, inner in (('fwd_err_inner', 1, True), ('fwd_err_outer', 1, False), ('fwd_err_nested_inner', 2, True), ('fwd_err_nested_mid', 2, False), ('fwd_err_stopped', 1, None)):
        r = ctx.run(name, keep=replies.keep)
        F = r.E.F
        for o in r.outs:
            ctx.need(o.kind == 'ret', 'forwarded-error-readable', name, 'reading the error of a forwarded request panics', o, r.E)
            if o.kind != 'ret':
                continue
            c = callv(o, 'Reply::downcast_err')
            v = collapse(o.value)
            if inner is False:
                # the forwarder's own error, at its own level
                n = 1 if name == 'fwd_err_outer' else 2
                ctx.need(unwrap_he(F, v, n) is not None and same(unwrap_he(F, v, n), arg(0)), 'forwarded-error-kept', name, 'the forwarding error is not read back unchanged: ' + names(F, v), o, r.E)
                continue
            if not c:
                ctx.need(False, 'forwarded-error-kept', name, 'the target\'s error is not read at the target\'s reply type', o, r.E)
                continue
            a = c[0][2][0]
            if inner:
                ctx.need(is_send_error(F, a, 'HandlerError', arg(0)), 'forwarded-error-kept', name, 'the target\'s reply type does not see the target\'s error', o, r.E)
            else:
                ctx.need(is_send_error(F, a, 'ActorStopped'), 'forwarded-error-kept', name, 'the failure kind changes', o, r.E)
            k = c[0][3]
            f = o.st.facts.get(k[1])
            vn = F.variant(SE, f[2]) if f is not None and f[0] == 'adt' else None
            t, n, fs = adt(F, v)
            if vn == 'HandlerError':
                x = unwrap_he(F, v, depth)
                ctx.need(x is not None and same(x, k), 'forwarded-error-kept', name, 'the target\'s handler error is not nested at the declared level: ' + names(F, v), o, r.E)
            elif vn == 'ActorStopped':
                ctx.need(n == 'ActorStopped', 'forwarded-error-kept', name, 'the failure kind changes: ' + names(F, v), o, r.E)
            elif vn is not None:
                ctx.need(same(v, k) or n == vn, 'forwarded-error-kept', name, 'the failure kind changes: ' + names(F, v), o, r.E)
    replies.roundtrips(ctx)


def unwrap_he(F, v, n):
    for _ in range(n):
        t, name, fs = adt(F, v)
        if t != SE or name != 'HandlerError':
            return None
        v = collapse(fs[0])
        while v[0] in ('box', 'dynv'):
            v = v[1]
    return v
