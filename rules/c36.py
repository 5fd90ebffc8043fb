"""What a caller of a remote operation gets is what became of its request.

The content of a network response or failure is followed to the pending caller it belongs to (two commands, two events, every kind),
through the handling function on the peer that made it, through its encoding, and through the public call that returns it: replies are
replies, every failure keeps its kind and content, and nothing that can arrive panics the caller."""
from .wire import *
from .conv import received, equal, kind
from .codec import codec
from .c34 import stopped
from .c35 import deref_bytes, INT

# how sending a message to an actor fails, and what the peer is told
SENT = {'not_running': 'ActorNotRunning', 'stopped': 'ActorStopped', 'full': 'MailboxFull', 'mailbox_timeout': 'ReplyTimeout', 'reply_timeout': 'ReplyTimeout'}


def check(ctx):
    F = ctx.facts('kameo')
    network(ctx, F)
    at_home(ctx, F)
    served(ctx, F)
    for n, resp in (('rk_ask', 'Ask'), ('rk_ask_rev', 'Ask'), ('rk_ask_plain', 'Ask'), ('rk_ask_into', 'Ask'), ('rk_try_ask', 'Ask'), ('rk_try_ask_plain', 'Ask'),
                    ('rk_tell', 'Tell'), ('rk_tell_plain', 'Tell'), ('rk_tell_into', 'Tell'), ('rk_try_tell', 'Tell')):
        caller(ctx, F, n, resp)
    for n, resp in (('lr_link', 'Link'), ('lr_unlink', 'Unlink'), ('lrr_link', 'Link'), ('lrr_unlink', 'Unlink'), ('ss_signal', 'SignalLinkDied')):
        caller(ctx, F, n, resp)
    queries(ctx, F)
    codec(ctx, F, RESP)
    codec(ctx, F, RSE, skipped=('Io',))
    ctx.sample('network event -> oneshot of the request with its id -> rk_ask returns its content, decoded')
    ctx.assume('the swarm handler runs until the process ends', 'libp2p gives every request and query an id of its own', 'a value decoded from what its type was encoded to is that value (serde, rmp, cbor)')


def walk(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from walk(x)


def part(o, v, i):
    """the content of an Ok (0) or Err (1), the two kept apart even where the content's own symbol suffices to name it"""
    x = v if v[0] == 'adt' else received(o, v)
    return x[3][0] if x[0] == 'adt' and x[1] == RES and x[2] == i else None


# ---- network -> pending caller

def network(ctx, F):
    n = 0
    for label, o, E, cmds, evs in answers(ctx):
        if o.kind != 'ret' or is_none(o.value):
            continue
        sent = [e for e in o.mon if e[0] == 'osend']
        want, left, prob = simulate(E, o, cmds, evs)
        if prob is not None:
            continue                    # C33
        for rep, what, content in want:
            n += 1
            by = [e for e in sent if same(strip(e[1]), rep)]
            if ctx.need(bool(by), 'resolved', label, 'the caller of a request whose answer arrived is not resolved', o, E):
                ctx.need(is_content(E, o, by[-1][2], what, content), 'true-content', label, 'the caller gets %s for %s' % (names(F, by[-1][2]), what), o, E)
        for e in sent:
            for i, rep in left.items():
                ctx.need(not same(strip(e[1]), rep[0]), 'own-answer', label, 'a caller is resolved whose answer did not arrive', o, E)
    ctx.need(n > 200, 'reached', 'sw_answers', 'no answer ever arrives')


def is_content(E, o, v, what, content):
    F = E.F
    v = collapse(v)
    if what == 'response' or what == 'put':
        return whole(E, v, content) or equal(o, v, ('sym', content))
    if what == 'get-ok':
        return whole(E, v, content[1]) or ok(v) is not None and whole(E, ok(v), content)
    if what == 'get-err':
        return same(v, ('sym', content[1])) or err(v) is not None and whole(E, err(v), content)
    t, n, fs = adt(F, v)
    if t != RESP or n != 'OutboundFailure':
        return False
    t, n, fs = adt(F, fs[0])
    f = o.st.facts.get(content)
    if t != RSE or f is None or f[0] != 'adt':
        return False
    src = F.variant(OUT, f[2])
    return n == FAIL.get(src) and (n != 'Io' or some(fs[0]) is not None and same(some(fs[0]), ('sym', ('fld', content, f[2], 0))))


# ---- a request that needs no network

def at_home(ctx, F):
    for n in REQUESTS:
        def setup(st):
            st.facts[('arg', 2)] = command(F, ('arg', 2), n)
        r = ctx.run('sw_cmd', keep=('netreq', 'osend', 'panic', 'call', 'await', 'spawn', 'spawned'), setup=setup, spawn='inline', cap=8, **HANDLE)
        seen = 0
        for o in r.outs:
            if is_none(o.value) or any(e[0] == 'netreq' for e in o.mon):
                continue
            ctx.need(o.kind == 'ret' and not any(e[0] == 'panic' or e[0] == 'spawned' and e[-1] == 'panic' for e in o.mon), 'no-panic', n, 'handling a request of this node panics', o, r.E)
            for e in o.mon:
                if e[0] != 'osend':
                    continue
                seen += 1
                t, k, fs = adt(F, e[2])
                if not ctx.need(t == RESP and k == n, 'own-kind', n, 'the caller is answered with %s' % names(F, e[2]), o, r.E):
                    continue
                ran = [x for x in o.mon if x[0] == 'await' and x[3][0] == 'sym']
                if any(x[0] == 'call' and x[1] == 'fnptr' for x in o.mon):
                    ctx.need(len(ran) == 1 and whole(r.E, fs[0], ('aw', ran[0][3][1])), 'true-content', n, 'the caller does not get the result of its request', o, r.E)
                else:
                    ctx.need(err(fs[0]) is not None, 'true-content', n, 'a request nothing handled is confirmed', o, r.E)
        ctx.need(seen > 1, 'reached', n, 'a request of this node is never answered')


# ---- the handling functions

def served(ctx, F):
    for fn in ('ask', 'try_ask', 'tell', 'try_tell'):
        inst = '_internal::' + fn
        r = ctx.run(INT + fn, keep=('deliver', 'call', 'panic'), kapi=True, **HANDLE)
        seen = set()
        for o in r.outs:
            ds = [e for e in o.mon if e[0] == 'deliver']
            if not ds or o.kind != 'ret':
                continue
            tag = ds[0][7]
            seen.add(tag)
            if len(ds) != 1:
                continue                # C35
            e = err(o.value)
            ek = kind(o, F, e) if e is not None else None
            enc = [x for x in o.mon if x[0] == 'call' and x[1] == 'rmp_serde::encode::to_vec_named']
            if tag == 'ok' and fn.endswith('tell'):
                ctx.need(same(o.value, ('adt', RES, 0, (UNIT,))), 'served', inst, 'a message that was sent is answered with %s' % names(F, o.value), o, r.E)
            elif tag in ('ok', 'handler_error'):
                what = 'reply' if tag == 'ok' else 'herr'
                if not ctx.need(len(enc) == 1 and any(b[0] == what for b in bases(enc[0][2][0])), 'served', inst, 'the %s of the handler is not what is encoded' % ('reply' if tag == 'ok' else 'error'), o, r.E):
                    continue
                c = enc[0][3][1]
                done = o.st.facts.get(c)
                good = ('sym', ('fld', c, 0, 0))
                if e is None:
                    ctx.need(tag == 'ok' and (same(o.value, ('sym', c)) or ok(o.value) is not None and same(ok(o.value), good)), 'served', inst, 'a %s is answered with %s' % (tag, names(F, o.value)), o, r.E)
                elif tag == 'handler_error' and ek == 'HandlerError':
                    ctx.need(same(adt(F, e)[2][0], good), 'served', inst, 'the error of the handler is answered with %s' % names(F, e), o, r.E)
                else:
                    ctx.need(ek == ('SerializeReply' if tag == 'ok' else 'SerializeHandlerError') and done is not None and done[0] == 'adt' and done[2] == 1, 'served', inst, 'a %s is answered with %s' % (tag, names(F, e)), o, r.E)
            else:
                ctx.need(ek == SENT.get(tag), 'served', inst, 'a message that was not handled (%s) is answered with %s' % (tag, names(F, o.value)), o, r.E)
        need = {'ok', 'not_running'} | ({'full'} if fn == 'try_tell' else set()) | ({'handler_error', 'stopped', 'reply_timeout'} if 'ask' in fn else set())
        ctx.need(seen >= need, 'reached', inst, 'results never seen: %s' % sorted(need - seen))


# ---- the public calls

def caller(ctx, F, name, resp):
    short = name.split('::')[-1]
    r = ctx.run(name, keep=('orecv', 'panic', 'call', 'once_get', 'send'), maps=True, net=True)
    E, seen, kinds = r.E, {}, set()
    for o in r.outs:
        rec = [e for e in o.mon if e[0] == 'orecv']
        if any(e[-1] == 'closed' for e in rec) or stopped(o):
            continue                    # the swarm task has ended
        if o.kind == 'panic':
            lost = any(e[0] == 'once_get' and e[-1] == 'none' for e in o.mon)
            ctx.need(lost or impossible(F, o), 'no-panic', short, 'what a peer answered panics its caller' if rec else 'a remote call panics', o, E)
            continue
        if not rec:
            bad = [e for e in o.mon if e[0] == 'call' and e[1].startswith('rmp_serde::encode::to_vec')]
            if resp in ('Link', 'Unlink') and part(o, o.value, 0) is not None and not bad:
                continue                # an actor linked to itself: C24
            v = kind(o, F, part(o, o.value, 1)) if part(o, o.value, 1) is not None else None
            ctx.need(v == ('SerializeMessage' if bad else 'SwarmNotBootstrapped'), 'true-content', short, 'a call that sends no request returns %s' % names(F, o.value), o, E)
            continue
        # each answer received, in order; the last one decides
        R = [('aw', strip(e[1])[1]) for e in rec]
        vs = [is_variant(E, o, k, RESP) for k in R]
        # a failed answer decides (which of several is up to the code), else the last one
        said = [o.st.facts.get(('fld', k, vidx(F, RESP, resp), 0)) for k in R]
        bad = [i for i in range(len(R)) if vs[i] != resp or said[i] is not None and said[i][0] == 'adt' and said[i][2] == 1]
        told = [i for i in range(len(R)) if R[i] in list(walk(o.value))]
        pick = [i for i in bad if i in told] or [i for i in bad if vs[i] not in (resp, 'OutboundFailure')] or bad or told
        i = pick[-1] if pick else len(R) - 1
        ctx.need(part(o, o.value, 1) is not None or all(j in bad or j == i or said[j] is not None for j in range(len(R))), 'true-content', short, 'the call ends without looking at one of its answers', o, E)
        k, v = R[i], vs[i]
        e = part(o, o.value, 1)
        seen[v] = seen.get(v, 0) + 1
        if v == 'OutboundFailure':
            c = ('fld', k, vidx(F, RESP, v), 0)
            ctx.need(e is not None and equal(o, e, ('sym', c)), 'true-content', short, 'a failure of the network is returned as %s' % names(F, o.value), o, E)
            if o.st.facts.get(c, ('',))[0] == 'adt':
                kinds.add(F.variant(RSE, o.st.facts[c][2]))
        elif v != resp:
            ctx.need(v is not None and e is not None and kind(o, F, e) == 'Io', 'unexpected', short, 'an answer of another kind is returned as %s' % names(F, o.value), o, E)
        else:
            content(ctx, E, o, short, resp, ('fld', k, vidx(F, RESP, v), 0))
    for v in F.adts[RESP]['v']:
        ctx.need(seen.get(v['n'], 0) > 0 or seen.get(None, 0) > 0, 'reached', short, 'the answer %s is never received' % v['n'])


def impossible(F, o):
    """the panicking path needs a value of a type without values"""
    for k, f in o.st.facts.items():
        if f[0] == 'adt' and f[1] == RSE and F.variant(RSE, f[2]) == 'HandlerError' and k[0] == 'fld' and k[2] == vidx(F, RESP, 'OutboundFailure'):
            t = F.ty_str(F.adts[RESP]['v'][k[2]]['t'][k[3]])
            return 'RemoteSendError' in t and t.endswith('Infallible>') and not F.adts['kameo::error::Infallible']['v']
    return False


def content(ctx, E, o, inst, resp, c):
    """the result of the request is that in the answer"""
    F = E.F
    f = o.st.facts.get(c)
    if resp != 'Ask':
        if f is None:
            ctx.need(whole(E, o.value, c), 'true-content', inst, 'the result returned is not that in the answer', o, E)
        else:
            good = part(o, o.value, 0) is not None if f[2] == 0 else part(o, o.value, 1) is not None and equal(o, part(o, o.value, 1), ('sym', ('fld', c, 1, 0)))
            ctx.need(good, 'true-content', inst, '%s is returned for %s' % (names(F, o.value), names(F, received(o, ('sym', c)))), o, E)
        return
    if not ctx.need(f is not None and f[0] == 'adt', 'true-content', inst, 'the answer is not looked at', o, E):
        return
    dec = [e for e in o.mon if e[0] == 'call' and e[1].startswith('rmp_serde::decode::from_')]
    of = lambda key: len(dec) == 1 and same(strip(deref_bytes(o, dec[0][2][0])), ('sym', key))
    e = part(o, o.value, 1)
    if f[2] == 0:
        if not ctx.need(of(('fld', c, 0, 0)), 'true-content', inst, 'what is decoded is not the reply in the answer', o, E):
            return
        d = o.st.facts.get(dec[0][3][1])
        if e is None:
            ctx.need(same(part(o, o.value, 0), ('sym', ('fld', dec[0][3][1], 0, 0))), 'true-content', inst, 'the reply returned is %s' % names(F, o.value), o, E)
        else:
            ctx.need(d is not None and d[0] == 'adt' and d[2] == 1 and kind(o, F, e).startswith('Deserialize'), 'true-content', inst, 'a reply is returned as %s' % names(F, e), o, E)
        return
    x = ('fld', c, 1, 0)
    g = o.st.facts.get(x)
    if g is not None and g[0] == 'adt' and F.variant(RSE, g[2]) == 'HandlerError':
        if not ctx.need(of(('fld', x, g[2], 0)) and e is not None, 'true-content', inst, 'what is decoded is not the handler error in the answer', o, E):
            return
        d = o.st.facts.get(dec[0][3][1])
        t, n, fs = adt(F, e)
        if n == 'HandlerError':
            ctx.need(same(fs[0], ('sym', ('fld', dec[0][3][1], 0, 0))), 'true-content', inst, 'the handler error returned is %s' % names(F, e), o, E)
        else:
            ctx.need(n == 'DeserializeHandlerError' and d is not None and d[0] == 'adt' and d[2] == 1, 'true-content', inst, 'a handler error is returned as %s' % names(F, e), o, E)
        return
    ctx.need(e is not None and equal(o, e, ('sym', x)) and not dec, 'true-content', inst, '%s is returned for %s' % (names(F, o.value), names(F, received(o, ('sym', x)))), o, E)


# ---- registrations and lookups: failures keep their kind

GRE, PRE, REG = 'libp2p_kad::behaviour::GetRecordError', 'libp2p_kad::behaviour::PutRecordError', 'kameo::error::RegistryError'


def queries(ctx, F):
    for name, ty in (('sa_lookup', GRE), ('sa_register', PRE), ('sa_unregister', PRE)):
        r = ctx.run(name, keep=('orecv', 'panic', 'once_get', 'send'), octets=name in ('sa_register', 'sa_lookup'), maps=True, net=True)
        seen = set()
        for o in r.outs:
            rec = [e for e in o.mon if e[0] == 'orecv']
            if any(e[-1] == 'closed' for e in rec) or stopped(o):
                continue
            if not ctx.need(o.kind == 'ret', 'no-panic', name, 'the call panics', o, r.E):
                continue
            if not rec:
                ctx.need(part(o, o.value, 1) is not None and kind(o, F, part(o, o.value, 1)) == 'SwarmNotBootstrapped', 'true-content', name, 'a call that sends nothing returns %s' % names(F, o.value), o, r.E)
                continue
            k = ('aw', strip(rec[0][1])[1])
            f = o.st.facts.get(k)
            if not ctx.need(f is not None and f[0] == 'adt', 'true-content', name, 'the answer is not looked at', o, r.E):
                continue
            e = part(o, o.value, 1)
            if f[2] == 0:
                if name != 'sa_lookup':
                    ctx.need(part(o, o.value, 0) is not None, 'true-content', name, 'a confirmed request is returned as %s' % names(F, o.value), o, r.E)
                continue                # C39
            x = ('fld', k, 1, 0)
            n = next(iter(possible(r.E, o, x, ty))) if len(possible(r.E, o, x, ty)) == 1 else '?'
            seen.add(n)
            if n == 'NotFound':
                good = part(o, o.value, 0) is not None and is_none(part(o, o.value, 0))
            elif n == 'QuorumFailed':
                q = F.adts[ty]['v'][vidx(F, ty, n)]['f'].index('quorum')
                good = e is not None and kind(o, F, e) == n and same(adt(F, e)[2][0], ('sym', ('fld', x, vidx(F, ty, n), q)))
            else:
                good = e is not None and kind(o, F, e) == n
            ctx.need(good, 'true-content', name, '%s is returned for %s' % (names(F, o.value), n), o, r.E)
        ctx.need(seen == {v['n'] for v in F.adts[ty]['v']}, 'reached', name, 'failures seen: %s' % sorted(seen))
