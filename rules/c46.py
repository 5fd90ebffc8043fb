"""Registrations made by #[derive(RemoteActor)] and #[remote_message].

Every static the fixture's macros submit to kameo's routing slices is evaluated from its compiled form: the slice it is submitted to, the
id(s) it is filed under, and for each function of the entry what calling it does: exactly one call of the routing function of that name,
for that actor (and message) type, with the arguments it got, in order, awaited, its result returned.  The ids must be the ones the
type's own trait constants give (what senders use), which must be the given ids or else the type's path."""
from .lib import *
from .c45 import expands, ready, CR

INT = 'kameo::remote::_internal::'
R = CR + '::regs::'
ACTORS = {R + 'Named': 'actor.named', R + 'deep::Defaulted': R + 'deep::Defaulted', R + 'OnlyRemote': R + 'OnlyRemote'}
MESSAGES = {(R + 'Named', R + 'M1'): 'named.m1', (R + 'Named', R + 'M2'): 'named.m2', (R + 'deep::Defaulted', R + 'M1'): 'defaulted.m1',
            (R + 'deep::Defaulted', R + 'Wrapped<%sM2>' % R): 'defaulted.wrapped'}
CONSTS = {'id_named': R + 'Named', 'id_defaulted': R + 'deep::Defaulted', 'id_only': R + 'OnlyRemote'}
MCONSTS = {'mid_named_m1': (R + 'Named', R + 'M1'), 'mid_named_m2': (R + 'Named', R + 'M2'), 'mid_defaulted_m1': (R + 'deep::Defaulted', R + 'M1'),
           'mid_defaulted_wrapped': (R + 'deep::Defaulted', R + 'Wrapped<%sM2>' % R)}


def check(ctx):
    if not expands(ctx):
        return
    F = ctx.facts(CR)
    consts(ctx, F)
    slices = registered(F)
    got = {}
    for f in F.fns:
        if not f.get('static') or not f['n'].startswith(R):
            continue
        entry(ctx, F, f, slices, got)
    want = {(INT + 'REMOTE_ACTORS', (a,)): (i,) for a, i in ACTORS.items()}
    want.update({(INT + 'REMOTE_MESSAGES', t): (ACTORS[t[0]], i) for t, i in MESSAGES.items()})
    for k, i in want.items():
        inst = ' for '.join(reversed([x.split('::')[-1] for x in k[1]]))
        if ctx.need(len(got.get(k, ())) == 1, 'registered', inst, 'submitted %d times to %s' % (len(got.get(k, ())), k[0])):
            ctx.need(got[k][0] == i, 'id', inst, 'filed under %s, not %s' % (got[k][0], i))
    for k in got:
        ctx.need(k in want, 'registered', str(k[1]), 'an entry nobody asked for')
    ctx.sample('static REG in %s: (ids of the types, {f: |args..| Box::pin(%sf::<Actor, Message>(args..))})' % (INT + 'REMOTE_MESSAGES', INT))
    ctx.assume('linkme collects every static submitted to a slice', 'the %d actors and %d handlers of fixture_macros stand for all' % (len(ACTORS), len(MESSAGES)))


def consts(ctx, F):
    for n, t in list(CONSTS.items()) + list(MCONSTS.items()):
        w = ACTORS[t] if n in CONSTS else MESSAGES[t]
        r = ctx.run(R + n, crate=CR)
        for o in r.outs:
            v = text(r.E, o, o.value)
            ctx.need(o.kind == 'ret' and v == w, 'constant', n, 'the id senders use is %s, not %s' % (v, w), o, r.E)


def registered(F):
    """static submitted -> the slice: linkme makes a function that checks the static against the slice's type, at the static's place"""
    res = {}
    for f in F.fns:
        if f['n'].endswith('::__typecheck'):
            b = F.body(f['i'])['b']
            ss = [s for s in statics(b)]
            res.setdefault((f['n'][:-len('::__typecheck')], f['loc']), []).extend(ss)
    return res


def statics(x):
    if isinstance(x, dict):
        if x.get('k') == 'static':
            yield x['n']
        for y in x.values():
            yield from statics(y)
    elif isinstance(x, list):
        for y in x:
            yield from statics(y)


def text(E, o, v):
    n = 0
    v = E.norm(o.st, v)
    while v[0] == 'ref' and n < 4:
        v = v[1][1] if v[1][0] == 'P' and not v[2] else E.norm(o.st, E.read(o.st, v[1], v[2]))
        n += 1
    return v[1] if v[0] == 'str' else str(v)


def entry(ctx, F, f, slices, got):
    inst = f['loc']
    r = ctx.run(f, crate=CR)
    E = r.E
    ss = [s for s in slices.get((f['n'], f['loc']), ()) if s.startswith(INT)]
    if len(r.outs) != 1 or r.outs[0].kind != 'ret':
        ctx.need(not ss, 'entry', inst, 'the entry is not a constant')
        return
    o = r.outs[0]
    v = o.value
    if v[0] != 'tup' or len(v[1]) != 2 or v[1][1][0] != 'adt' or not v[1][1][1].startswith(INT):
        ctx.need(not ss, 'entry', inst, 'the entry is not an id and its functions: %s' % str(v)[:80])
        return
    key, fns = v[1]
    if not ctx.need(len(ss) == 1, 'submitted', inst, 'the entry is not submitted to one routing slice: %s' % ss):
        return
    ids = tuple(text(E, o, x) for x in (named_fields(F, key) if key[0] == 'adt' else [key]))
    names = F.adts[fns[1]]['v'][0]['f']
    types = set()
    for n, c in zip(names, fns[3]):
        types.add(function(ctx, F, E, inst, n, c))
    if ctx.need(len(types) == 1, 'types', inst, 'the functions of one entry are for different types: %s' % types):
        t = types.pop()
        if t:
            got.setdefault((ss[0], t), []).append(ids)


def named_fields(F, key):
    f = F.adts[key[1]]['v'][0]['f']
    order = [x for x in ('actor_remote_id', 'message_remote_id') if x in f] or f
    return [key[3][f.index(x)] for x in order]


def function(ctx, F, E0, inst, n, c):
    """calling this entry function = the routing function of its name, for which types"""
    inst = '%s %s' % (inst, n)
    if c[0] == 'fn':        # the routing function itself
        cal = E0.callees[c[1]]
        ctx.need((cal.get('rn') or cal['n']) == INT + n, 'function', inst, 'is %s' % cal['n'])
        return tuple(F.ty_str(t) for t in cal.get('ra') or cal['a'])
    if not ctx.need(c[0] == 'clo', 'function', inst, 'not a function: %s' % (c,)):
        return None
    fn = dict(n=c[2], i=c[1])
    fn['async'] = True
    r = ctx.run(fn, crate=CR, keep=('call', 'await', 'spawn', 'panic'), opaque=lambda x: x.startswith('kameo::'), hook_panics=False)
    nargs = F.body(c[1])['argc'] - 1 if 'argc' in F.body(c[1]) else None
    types = None
    for o in r.outs:
        if not ctx.need(o.kind == 'ret', 'returns', inst, 'does not return', o, r.E):
            continue
        cs = [e for e in o.mon if e[0] == 'call' and e[1].startswith('kameo::')]
        ws = [e for e in o.mon if e[0] == 'await' and e[1].startswith('kameo::')]
        polls = [e for e in cs if '::{closure' in e[1]]     # awaited inside of the entry function
        cs = [e for e in cs if e not in polls]
        if not ctx.need(len(cs) == 1 and cs[0][1] == INT + n, 'function', inst, 'calls %s, not %s once' % ([e[1] for e in cs], n), o, r.E):
            continue
        args = [r.E.norm(o.st, x) for x in cs[0][2]]
        ctx.need(args == [('sym', ('arg', i + 1)) for i in range(len(args))] and nargs in (None, len(args)), 'arguments', inst, 'does not pass on its arguments as they are', o, r.E)
        val = r.E.norm(o.st, o.value)
        ctx.need(len(ws) == 1 and ws[0][1] == INT + n and val == ('sym', ('aw', cs[0][3][1])) or polls and not ws and ready(val, polls[-1][3]), 'result', inst,
                 'does not give back what the routing function gives', o, r.E)
        types = tuple(F.ty_str(t) for t in cs[0][4])
    return types
