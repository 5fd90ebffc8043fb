"""Methods turned into messages by #[messages].

For every annotated method of the fixture (no, one, several parameters; parameter names out of alphabetical order; sync and async;
attributes, doc comments, visibilities; generics on the method, on the actor, with where clauses) the expansion is analysed from its
compiled form: the message struct must have exactly the method's parameters as fields, and handling a message must call that method once,
on the actor, with each parameter's own field, await it when it is async, and return its result."""
import re
from .lib import *

CR = 'kmacros'
M = CR + '::msgs::'
# method -> (the type it belongs to, its parameters in order, async?)
METHODS = {
    'zero': ('Plain', [], False), 'zero_get': ('Plain', [], False), 'one': ('Plain', ['a'], False), 'two': ('Plain', ['a', 'b'], False),
    'three': ('Plain', ['c', 'a', 'b'], True), 'four': ('Plain', ['d', 'a', 'c', 'b'], True),
    'many': ('Plain', ['p5', 'p3', 'p1', 'p6', 'p2', 'p4'], True), 'get_v2_item': ('Plain', ['item_id', 'name', 'data'], False),
    'nested': ('Plain', ['a', 'f', 'b'], True), 'later': ('Plain', [], True), 'generic': ('Plain', ['x', 'y'], False),
    'generic_where': ('Plain', ['x', 'y', 'z'], True),
    'put': ('Held', ['t', 'u'], False), 'swap': ('Held', ['second', 'first'], True), 'held_plain': ('Held', ['a', 'b'], False),
}


def camel(n):
    return ''.join(p[:1].upper() + p[1:] for p in n.split('_'))


def expands(ctx):
    """do the expansions of the fixture compile?"""
    import os
    p = os.path.join(ctx.dir, 'kmacros.err')
    if not os.path.exists(p):
        return ctx.need(True, 'expands', 'fixture_macros', '')
    import re
    t = open(p).read()
    m = re.search(r'^error.*?(?:\n.*?-->.*)', t, re.M | re.S)
    return ctx.need(False, 'expands', 'fixture_macros', 'what the macros expand to does not compile: ' + ' '.join((m.group(0) if m else t[-300:]).split())[:400])


def check(ctx):
    if not expands(ctx):
        return
    F = ctx.facts(CR)
    for n, (ty, params, asy) in METHODS.items():
        method(ctx, F, n, ty, params, asy)
    unannotated(ctx, F)
    ctx.sample('handle(actor, msg) = actor.method(msg.p1, msg.p2, ..) with pi the i-th parameter of the method, awaited if async, its value returned')
    ctx.assume('the shapes of methods in fixture_macros stand for all: %d annotated methods' % len(METHODS))


def method(ctx, F, n, ty, params, asy):
    st = M + camel(n)
    fn = [f for f in F.fns if f['n'] == '%s%s::%s' % (M, ty, n)]
    if not ctx.need(len(fn) == 1, 'kept', n, 'the annotated method is no longer there'):
        return
    a = F.adts.get(st)
    if not ctx.need(a is not None and len(a['v']) == 1, 'struct', n, 'there is no message %s' % st):
        return
    v = a['v'][0]
    ctx.need(sorted(v['f']) == sorted(params), 'fields', n, 'the fields %s are not the parameters %s' % (v['f'], params))
    sig = [F.ty_str(t) for t in fn[0]['in'][1:]]
    ctx.need(len(sig) == len(params), 'fields', n, 'the method takes %d parameters' % len(sig))
    for p, t in zip(params, sig):
        if p in v['f']:
            ft = F.ty_str(v['t'][v['f'].index(p)])
            ctx.need(generic(ft) == generic(t), 'types', n + '.' + p, 'the field is a %s, the parameter a %s' % (ft, t))
    if sorted(v['f']) != sorted(params):
        return
    called = '%s%s::%s' % (M, ty, n)
    r = ctx.run(M + 'h_' + n, crate=CR, keep=('call', 'panic'), opaque=lambda x: x.startswith(M + ty + '::'), hook_panics=False)
    E = r.E
    seen = 0
    for o in r.outs:
        if not ctx.need(o.kind == 'ret', 'returns', n, 'handling the message does not return', o, E):
            continue
        seen += 1
        cs = [e for e in o.mon if e[0] == 'call' and e[1].startswith(M + ty + '::')]
        ms = [e for e in cs if '{closure' not in e[1]]
        ws = [e for e in cs if '{closure' in e[1]]
        if not ctx.need(len(ms) == 1 and ms[0][1] == called, 'handled-by', n, 'what is called is %s, not the method once' % [e[1] for e in ms], o, E):
            continue
        for e in o.mon:
            ctx.need(e[0] != 'call' or e in cs or not e[1].startswith('kameo::'), 'nothing-else', n, 'handling the message also does %s' % e[1], o, E)
        args = ms[0][2]
        want = [('sym', ('arg', 0))] + [('sym', ('fld', ('arg', 1), 0, v['f'].index(p))) for p in params]
        ctx.need(self_of(args[0]) == ('arg', 0), 'self', n, 'the method is not called on the actor', o, E)
        for p, x, w in zip(params, args[1:], want[1:]):
            ctx.need(E.norm(o.st, x) == w, 'arguments', n + '.' + p, 'the parameter does not get the field of its name', o, E)
        ctx.need(len(args) == len(want), 'arguments', n, 'the method gets %d arguments' % len(args), o, E)
        val = E.norm(o.st, o.value)
        # h_x is an async fn: what it returns is what handle's future is ready with
        if asy:
            if ctx.need(len(ws) >= 1, 'awaited', n, 'the future of the method is not awaited', o, E):
                ctx.need(ready(val, ws[-1][3]), 'result', n, 'what is returned is not what the method returns', o, E)
        else:
            ctx.need(val == E.norm(o.st, ms[0][3]) or unit(F, fn[0]) and unitv(val), 'result', n, 'what is returned is not what the method returns', o, E)
    ctx.need(seen, 'reached', n, 'no path handles the message')


def generic(t):
    return re.sub(r"'[a-z_]+\b", "'_", re.sub(r'/#\d+', '', t))


def self_of(v):
    return v[1] if v[0] == 'sym' else v


def unit(F, fn):
    return F.ty_str(fn['out']) == '()'


def unitv(v):
    return v == ('tup', ()) or v[0] == 'unit' or v == UNIT


def ready(val, res):
    """val is the payload of the Poll::Ready that polling the method's future gave"""
    return val == ('sym', ('fld', res[1], 0, 0)) or unitv(val)


def unannotated(ctx, F):
    for n in ('New', 'TwoPlain'):
        ctx.need(M + n not in F.adts, 'annotated-only', n, 'a method without #[message] became a message')
    for n in ('new', 'two_plain'):
        ctx.need([f for f in F.fns if f['n'] == M + 'Plain::' + n], 'kept', n, 'a method without #[message] is gone')
