"""What #[derive(Actor)] and #[derive(Reply)] make of a type.

Names: each derived actor's name() must be the given name, or else the type's own.  Hooks: calling any hook of a derived actor must do
what it does for an actor written by hand that defines no hook (the trait's defaults), compared as sets of outcomes.  Replies: to_result
is Ok(self), into_any_err None, into_value self.  Structs, unit structs, enums, generics, const generics, lifetimes and where clauses."""
from .lib import *
from .c45 import expands, CR
from kstatic import engine as EN

D = CR + '::derives::'
NAMES = {'n_bare': 'Bare', 'n_given': 'a given name', 'n_gen': 'Gen', 'n_choice': 'Choice'}
TYPES = ('bare', 'given', 'gen', 'choice')
HOOKS = ('on_start', 'on_panic', 'on_link_died', 'on_stop', 'next', 'on_message')
REPLIES = ('unit', 'fields', 'sum')


def check(ctx):
    if not expands(ctx):
        return
    F = ctx.facts(CR)
    for n, w in NAMES.items():
        r = ctx.run(D + n, crate=CR)
        for o in r.outs:
            ctx.need(o.kind == 'ret' and r.E.norm(o.st, o.value) == ('str', w), 'name', n, 'the name is %s, not %s' % (o.value, w), o, r.E)
    for h in HOOKS:
        ref = None
        for t in TYPES:
            a, b = outcomes(ctx, F, t, h, True), outcomes(ctx, F, 'hand', h, True)
            if a != b:      # not the same function: compare what they do
                a, b = outcomes(ctx, F, t, h, False), outcomes(ctx, F, None, h, False)
            ctx.need(a == b, 'hook', '%s of %s' % (h, t), 'does something other than the default: %s' % sorted(map(str, a ^ b))[:1])
    A = ('sym', ('arg', 0))
    for t in REPLIES:
        for f, w in (('to_result', EN.OK(A)), ('into_any_err', EN.NONE()), ('into_value', A)):
            r = ctx.run(D + t + '::' + f, crate=CR, keep=('call', 'panic'), hook_panics=False)
            for o in r.outs:
                ctx.need(o.kind == 'ret' and collapse(r.E.norm(o.st, o.value)) == w, 'reply', '%s of %s' % (f, t), 'gives %s' % (o.value,), o, r.E)
    ctx.sample('name() = the given name or the type\'s; every hook of a derived actor = the default hook; to_result(v) = Ok(v), into_any_err(v) = None, into_value(v) = v')
    ctx.assume('the shapes of types in fixture_macros stand for all: %d actors, %d replies' % (len(TYPES), len(REPLIES)))


def outcomes(ctx, F, t, h, shallow):
    opts = dict(opaque=lambda n: n.startswith('kameo::')) if shallow else dict(kapi=True)
    fn = D + t + '::' + h if t else default(ctx, h)
    if fn is None:
        return {'no default'}
    r = ctx.run(fn, crate=CR if t else 'kameo', keep=('call', 'await', 'panic', 'deliver', 'reply', 'enter'), hook_panics=False, **opts)
    res = set()
    for o in r.outs:
        ids = {}

        def canon(x):
            if isinstance(x, tuple) and x and x[0] in ('c', 'tx', 'rx', 'aw0', 'panic') and len(x) == 3:
                return (x[0], ids.setdefault(x, len(ids)))
            if isinstance(x, tuple):
                return tuple(canon(y) for y in x)
            return x
        evs = tuple(canon((e[0], e[1], plain(e[2]) if len(e) > 2 else None, e[3] if len(e) > 3 and e[0] == 'call' else None)) for e in o.mon)
        res.add((o.kind, evs, canon(r.E.norm(o.st, o.value))))
    return res


def default(ctx, h):
    """the trait's own body of the hook"""
    fs = [f for f in ctx.facts('kameo').fns if f['n'] == 'kameo::actor::Actor::' + h]
    return dict(fs[0], **{'async': True}) if len(fs) == 1 else None


def plain(args):
    """arguments, places on the stack left out"""
    if isinstance(args, tuple) and args and args[0] == 'ref':
        return ('ref',)
    if isinstance(args, tuple):
        return tuple(plain(a) for a in args)
    return args
