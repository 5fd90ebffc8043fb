"""Handles.  Cloning a reference or a weak reference gives an equal value, part for part (id, mailbox, abort right, links, start-up and
shutdown state); downgrading and upgrading again gives the original, part for part; upgrading and downgrading likewise, up to the
strength of the mailbox handle; an upgrade yields nothing exactly when the mailbox's strong count has reached zero.  Recipients and
their weak and cloned forms hold that same reference, and all of them report its id.  A remote reference's clone is equal too."""
from .lib import *
from .life import chan_bases
from .relate import canon_value

KEEP = ('upgrade', 'panic')


def strength(v):
    """look through weak and strong handles and boxes: the queue itself"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] in ('&', 'box', 'dynv'):
        return strength(v[1])
    if v and v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'app' and v[1][1] in ('weak', 'strong'):
        return strength(v[1][2][0])
    if len(v) > 2 and v[0] == 'fld' and isinstance(v[1], tuple) and v[1][0] == 'app' and v[1][1] in ('weak', 'strong'):
        return v
    return tuple(strength(x) for x in v)


def norm(F, v):
    """a handle with recipients' wrappers removed"""
    v = strip(v)
    while v[0] == 'adt' and len(v[3]) == 1 and v[1].endswith('Recipient'):
        v = strip(v[3][0])
    return v


def expanded(F, o, v, ty):
    """per field values of a handle"""
    v = norm(F, v)
    if v[0] == 'adt':
        return [collapse(x) for x in v[3]]
    n = len(F.adts[ty]['v'][0]['f'])
    return [('sym', ('fld', v[1], 0, i)) for i in range(n)]


def parts_equal(F, o, a, b, ty):
    """the same parts; a mailbox enum of known variant is compared by variant and queue"""
    pa, pb = expanded(F, o, a, ty), expanded(F, o, b, ty)
    if len(pa) != len(pb):
        return 'shape'
    names_ = F.adts[ty]['v'][0]['f']
    for n, t, x, y in zip(names_, F.adts[ty]['v'][0]['t'], pa, pb):
        if 'PhantomData' in str(F.types[t].get('n')):
            continue
        x, y = strength(spread(F, o, x)), strength(spread(F, o, y))
        if canon_value(x, {}) != canon_value(y, {}):
            return n
    return None


def spread(F, o, v):
    """a symbol refined to a variant on this path, written out"""
    v = collapse(v)
    if v[0] == 'sym':
        f = o.st.facts.get(v[1])
        if f is not None and f[0] == 'adt':
            if len(f[3]):
                return ('adt', '', f[2], tuple(spread(F, o, ('sym', ('fld', v[1], f[2], i))) for i in range(len(f[3]))))
    if v[0] == 'adt':
        a = F.adts.get(v[1])
        return ('adt', '', v[2], tuple(spread(F, o, x) for x in v[3]))
    return v


def check(ctx):
    F = ctx.facts()
    AR, WR, RR = ('kameo::actor::actor_ref::' + n for n in ('ActorRef', 'WeakActorRef', 'RemoteActorRef'))
    dz = ('sym', ('deref', ('arg', 0)))
    # (scenario, handle given, may be none, type, result)
    for name, base, opt, ty in (('ref_clone', dz, 0, AR), ('ref_wclone', dz, 0, WR), ('ref_down_up', dz, 1, AR), ('ref_up_down', dz, 2, WR),
                                ('rec_new', arg(0), 0, AR), ('rec_clone', arg(0), 0, AR), ('rec_wup', arg(0), 2, AR), ('rem_clone', dz, 0, RR)):
        r = ctx.run(name, keep=KEEP)
        seen = set()
        for o in r.outs:
            if not ctx.need(o.kind == 'ret', 'same-parts', name, 'the conversion can panic', o, r.E):
                continue
            ups = events(o, 'upgrade')
            v = o.value
            if opt:
                gone = any(e[2] == 'none' for e in ups)
                seen.add(gone)
                if not ctx.need(is_none(v) == gone and (opt != 1 or not gone), 'upgrade-iff-alive', name, 'the upgrade %s although strong references %s' % (('yields nothing', 'are left') if not gone else ('succeeds', 'are gone')), o, r.E):
                    continue
                if is_none(v):
                    continue
                v = some(v)
                if not ctx.need(v is not None, 'upgrade-iff-alive', name, 'the result of the upgrade is not decided', o, r.E):
                    continue
                ctx.need(len(ups) >= 1, 'upgrade-iff-alive', name, 'the handle is upgraded without asking the mailbox', o, r.E)
            bad = parts_equal(F, o, v, base, ty)
            ctx.need(bad is None, 'same-parts', name, 'the handle made differs from the original in: %s' % bad, o, r.E)
        ctx.need(bool(r.outs) and (opt != 2 or seen == {True, False}), 'same-parts', name, 'expected outcomes missing')
    # weak handles keep the mailbox weakly, strong ones strongly (an upgraded handle counts as a reference)
    for name, weak in (('ref_down', True), ('ref_up', False), ('rec_down', True)):
        r = ctx.run(name, keep=KEEP)
        for o in r.outs:
            if o.kind != 'ret' or name == 'ref_up' and is_none(o.value):
                continue
            v = o.value if name != 'ref_up' else some(o.value)
            ctx.need(('weak' in apps(norm(F, v))) == weak, 'strength', name, 'the handle made is %s' % ('strong' if weak else 'weak'), o, r.E)
    # ids
    ix = [F.field(t, 'id', 0) for t in (AR, WR, RR)]
    for name, want in (('ref_id', 'one'), ('ref_wid', 'one'), ('rem_id', 'one'), ('rec_id', 'two')):
        r = ctx.run(name, keep=KEEP)
        for o in r.outs:
            vs = [collapse(o.value)] if want == 'one' else list(o.value[1]) if o.value[0] == 'tup' else []
            b = dz if want == 'one' else arg(0)
            ty = {'ref_id': AR, 'ref_wid': WR, 'rem_id': RR, 'rec_id': AR}[name]
            i = idfield(F, ty)
            ctx.need(o.kind == 'ret' and vs and all(same(strip(x), ('sym', ('fld', b[1], 0, i))) for x in vs), 'true-id', name, 'the id reported is not the handle\'s actor id', o, r.E)
    ctx.sample('ref_down_up: downgrade().upgrade() == Some(original) in all 7 parts')


def apps(v):
    out = set()
    if isinstance(v, tuple):
        if v and v[0] == 'app':
            out.add(v[1])
        for x in v:
            out |= apps(x)
    return out


def idfield(F, ty):
    fs = F.adts[ty]['v'][0]
    for i, t in enumerate(fs.get('t', [])):
        x = F.types[t] if isinstance(t, int) else None
        if x and x.get('n') == 'kameo::actor::id::ActorID':
            return i
    return F.field(ty, 'id', 0)
