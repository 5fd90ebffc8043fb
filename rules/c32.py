"""ReplySender::send (generic and for Result replies): consumes the sender (type-enforced), performs exactly one channel send, of
Ok(boxed success value) or Err(HandlerError(boxed error)) according to Reply::to_result of the value passed.  Context::reply
and reply_sender take the channel out of the context, so nothing else can answer.  Every implementation of Reply in the
crate, found in the type-checked program, is run: plain types give Ok(self)/None/self, results follow their variant, delegated
replies report no error, forwarded replies report exactly the forwarding failure."""
from .requests import *
from . import replies
import re


def check(ctx):
    F = ctx.facts()
    for name in ('sender_send', 'sender_send_result', 'ctx_reply'):
        r = ctx.run(name, keep=replies.keep)
        for o in r.outs:
            ctx.need(o.kind == 'ret', 'no-panic', name, 'sending a reply panics', o, r.E)
            os_ = events(o, 'osend')
            if name == 'ctx_reply':
                ix = F.field('kameo::message::Context', 'reply')
                had = o.st.facts.get(('fld', ('deref', ('arg', 0)), 0, ix))
                n = 1 if had is not None and had[0] == 'adt' and had[2] == 1 else 0
                now = collapse(r.E.read(o.st, ('P', arg(0)), (('f', 0, ix),)))
                ctx.need(is_none(now), 'channel-taken', name, 'the context keeps the reply channel after replying', o, r.E)
            else:
                n = 1
            ctx.need(len(os_) == n, 'one-send', name, '%d sends on the reply channel instead of %d' % (len(os_), n), o, r.E)
            if len(os_) == 1 and n == 1:
                ctx.need(of_arg(os_[0][1], 0), 'own-channel', name, 'the reply goes to another channel', o, r.E)
                if name == 'sender_send_result':
                    v, e = ok(os_[0][2]), err(os_[0][2])
                    good = (same(strip_box(v), ('sym', ('fld', ('arg', 1), 0, 0))) if v is not None else
                            e is not None and is_send_error(F, e, 'HandlerError', ('sym', ('fld', ('arg', 1), 1, 0))))
                    ctx.need(good, 'answer-value', name, 'the answer differs from the value passed: ' + names(F, os_[0][2]), o, r.E)
                else:
                    replies.answered(ctx, r, name, o, os_[0], arg(1))
    r = ctx.run('sender_boxed', keep=replies.keep)
    for o in r.outs:
        ctx.need(o.kind == 'ret' and of_arg(o.value, 0), 'own-channel', 'sender_boxed', 'boxing a reply sender changes its channel', o, r.E)
    r = ctx.run('ctx_reply_sender', keep=replies.keep)
    for o in r.outs:
        ix = F.field('kameo::message::Context', 'reply')
        now = collapse(r.E.read(o.st, ('P', arg(0)), (('f', 0, ix),)))
        ctx.need(o.kind == 'ret' and is_none(now) and (is_none(o.value) or of_arg(o.value, 0)), 'channel-taken', 'ctx_reply_sender', 'the reply channel is not moved out of the context', o, r.E)
    impls = [im for im in F.impls if im['tr'] == 'kameo::reply::Reply']
    fns = {}
    for f in F.fns:
        if f.get('tr') == 'kameo::reply::Reply' and f.get('impl') is not None:
            fns.setdefault(f['impl'], {})[f['item']] = f
    ctx.need(len(impls) >= 60, 'all-reply-impls', 'impls', 'only %d Reply implementations found' % len(impls))
    for im in impls:
        t = F.types[im['ty']]
        nm = F.ty_str(im['ty'])
        ms = fns.get(im['ty'], {})
        kind = 'plain'
        if t['k'] == 'adt':
            kind = {'kameo::reply::DelegatedReply': 'delegated', 'kameo::reply::ForwardedReply': 'forwarded', RES: 'result'}.get(t['n'], 'plain')
        for item in ('to_result', 'into_any_err', 'into_value'):
            inst = 'impl for %s: %s' % (nm, item)
            f = ms.get(item)
            if f is None or f['i'] not in F._lines:
                ctx.need(False, 'all-reply-impls', inst, 'method body not found')
                continue
            r = ctx.run(f, keep=replies.keep)
            for o in r.outs:
                v = collapse(o.value) if o.kind == 'ret' else None
                if kind == 'plain':
                    good = v is not None and (same(ok(v) or ('int', 9), arg(0)) if item == 'to_result' else is_none(v) if item == 'into_any_err' else same(v, arg(0)))
                elif kind == 'result':
                    fct = o.st.facts.get(('arg', 0))
                    if item == 'into_any_err':
                        good = v is not None and fct is not None and (is_none(v) if fct[2] == 0 else same(strip_box(some(v) or ('int', 9)), ('sym', ('fld', ('arg', 0), 1, 0))))
                    else:
                        good = v is not None and same(v, arg(0))
                elif kind == 'delegated':
                    # conversions are never called for a delegated reply (handle_dyn answers only when the channel is still there)
                    good = item != 'into_any_err' or (v is not None and is_none(v))
                else:
                    e = ('sym', ('fld', ('fld', ('arg', 0), 0, F.field('kameo::reply::ForwardedReply', 'res')), 1, 0))
                    fct = o.st.facts.get(e[1][1])
                    failed = fct is not None and fct[0] == 'adt' and fct[2] == 1
                    if item == 'into_any_err':
                        good = v is not None and (same(strip_box(some(v)), e) if failed and some(v) is not None else not failed and is_none(v))
                    else:
                        good = not failed or v is not None and (same(err(v) or ('int', 9), e) or collapse(v) == ('sym', e[1][1]))
                ctx.need(good, 'builtin-reply-' + kind, inst, 'gives %s' % (names(F, v) if v is not None else 'a panic'), o, r.E)
