"""Every conversion of SendError and RemoteSendError (map_msg, map_err, flatten, boxed + try_downcast / downcast at the right and
at the wrong types, unwrap_msg, unwrap_err, From for the channel errors and between the two error types) is run on an arbitrary
error.  On every path the error received, reconstructed from the path's case distinctions, is compared with the one returned:
same failure kind, same payload (or the callback's result on exactly that payload), the original error when a downcast does not
apply; no path panics except unwrap_* on errors without the thing asked for.  Every failure kind must be covered."""
from .conv import *

RSE = 'kameo::error::RemoteSendError'


def keep(E, st, ev, loc):
    return ev if ev[0] in ('call', 'panic') else None


def check(ctx):
    F = ctx.facts()
    allr = {v['n'] for v in F.adts[RSE]['v']}

    def seen(name, got, want, o=None):
        if 'Timeout' in got:
            got = got | {'Timeout(Some)', 'Timeout(None)'}
        ctx.need('?' in got or got >= want, 'all-failure-kinds', name, 'failure kinds not handled: %s' % sorted(want - got))

    # -- callbacks
    for name, kinds, allk in (('se_map_msg', MSG_SE, ALL_SE), ('se_map_err', {'HandlerError'}, ALL_SE), ('re_map_err', {'HandlerError'}, allr)):
        r = ctx.run(name, keep=keep)
        got = set()
        for o in r.outs:
            k = kind(o, F, arg(0))
            cb = callv(o, 'fnptr')
            if o.kind == 'panic':
                ctx.need(events(o, 'panic')[-1][1] == 'fnptr', 'no-panic', name, 'converting a %s error panics' % k, o, r.E)
                continue
            got.add(k)
            out = received(o, o.value)
            if k in kinds:
                good = len(cb) == 1 and same(cb[0][2][1], payload(o, F, arg(0))) and kind(o, F, out) == k and same(payload(o, F, out), cb[0][3])
                ctx.need(good, 'kind-and-payload', '%s/%s' % (name, k), 'gives %s' % names(F, out), o, r.E)
            else:
                ctx.need(not cb and equal(o, out, arg(0)), 'kind-and-payload', '%s/%s' % (name, k), 'gives %s' % names(F, out), o, r.E)
        seen(name, got, allk)

    # -- conversions that keep the error as it is
    def direct(name, expect, allk):
        r = ctx.run(name, keep=keep)
        got = set()
        for o in r.outs:
            k = kind(o, F, arg(0))
            got.add(k)
            want = expect(o, k)
            if want == 'panic':
                ctx.need(o.kind == 'panic', 'kind-and-payload', '%s/%s' % (name, k), 'returns %s for an error without it' % (names(F, o.value)), o, r.E)
            elif want is not None:
                ctx.need(o.kind == 'ret', 'no-panic', '%s/%s' % (name, k), 'converting this error panics', o, r.E)
                if o.kind == 'ret':
                    ctx.need(want(o.value) if callable(want) else equal(o, o.value, want), 'kind-and-payload', '%s/%s' % (name, k), 'gives %s' % names(F, o.value), o, r.E)
        seen(name, got, allk)

    direct('se_roundtrip_strict', lambda o, k: arg(0), ALL_SE)
    direct('se_roundtrip', lambda o, k: ('adt', RES, 0, (arg(0),)), ALL_SE)
    ix = lambda ty, n: [v['n'] for v in F.adts[ty]['v']].index(n)

    def wrong(o, k):
        if k in ('ActorStopped', 'Timeout(None)'):
            return lambda v: ok(v) is not None and equal(o, ok(v), arg(0)) or err(v) is not None and equal(o, err(v), arg(0))
        return lambda v: err(v) is not None and kind(o, F, err(v)) == k and payload(o, F, err(v)) is not None and same(strip_box(payload(o, F, err(v))), payload(o, F, arg(0)))
    direct('se_wrong_type', wrong, ALL_SE)
    direct('se_unwrap_msg', lambda o, k: payload(o, F, arg(0)) if k in MSG_SE else 'panic' if k != '?' or o.kind == 'panic' else arg(0), MSG_SE)
    direct('se_unwrap_err', lambda o, k: payload(o, F, arg(0)) if k == 'HandlerError' else 'panic' if k != '?' or o.kind == 'panic' else arg(0), {'HandlerError'})

    def inner(ty):
        def f(o, k):
            if k == 'HandlerError':
                return payload(o, F, arg(0))
            return arg(0)
        return f
    direct('se_flatten', inner(SE), ALL_SE)
    direct('re_flatten', inner(RSE), allr)
    table = {'ActorNotRunning': 'ActorNotRunning', 'ActorStopped': 'ActorStopped', 'MailboxFull': 'MailboxFull', 'HandlerError': 'HandlerError',
             'Timeout(Some)': 'ReplyTimeout', 'Timeout(None)': 'ReplyTimeout', 'Timeout': 'ReplyTimeout'}

    def remote(o, k):
        fs = (payload(o, F, arg(0)),) if k == 'HandlerError' else ()
        return ('adt', RSE, ix(RSE, table[k]), fs) if k in table else lambda v: False
    r = ctx.run('re_from', keep=keep)
    got = set()
    for o in r.outs:
        k = kind(o, F, arg(0))
        got |= {k} | ({'Timeout(Some)', 'Timeout(None)'} if k == 'Timeout' else set())
        w = remote(o, k)
        ctx.need(o.kind == 'ret' and not callable(w) and equal(o, o.value, w), 'counterpart', 're_from/' + k, 'becomes %s' % (names(F, o.value) if o.kind == 'ret' else 'a panic'), o, r.E)
    seen('re_from', got, ALL_SE)

    # -- channel errors
    for name, want in (('se_from_recv', 'ActorStopped'), ('se_from_elapsed', 'Timeout(None)')):
        r = ctx.run(name, keep=keep)
        for o in r.outs:
            ctx.need(o.kind == 'ret' and kind(o, F, o.value) == want, 'channel-error', name, 'becomes %s' % names(F, o.value), o, r.E)
    want = {0: 'ActorNotRunning', 1: 'MailboxFull', 2: 'ActorNotRunning', 3: 'Timeout(Some)', 4: 'ActorNotRunning'}
    for k, w in want.items():
        r = ctx.run('se_from_send', keep=keep, args=[arg(0), arg(1), ('int', k)])
        for o in r.outs:
            ctx.need(o.kind == 'ret' and kind(o, F, o.value) == w and same(payload(o, F, o.value), arg(0)), 'channel-error', 'se_from_send/%d' % k,
                     'becomes %s instead of %s with the message' % (names(F, o.value) if o.kind == 'ret' else 'a panic', w), o, r.E)
    ctx.sample('Timeout(Some(m)).map_msg(f) -> Timeout(Some(f(m)))')
    ctx.assume('callbacks passed to map_msg and map_err may panic; that panic is theirs')
