"""Links.  link / blocking_link insert, for two different actors, exactly each other's id with the other's own weak mailbox into the two
link tables; unlink / blocking_unlink remove exactly those two entries; both change both tables while holding both locks with no wait
in between, so no concurrent link or unlink can leave one side behind; with itself an actor changes nothing.  A remote link records
the peer's id with the peer type's remote id locally (on whichever node runs the actor) and asks the peer's node for the converse;
linking two remote actors asks both nodes; unlinking likewise."""
from .life import *

AR = 'kameo::actor::actor_ref::ActorRef'
CMD = 'kameo::remote::swarm::SwarmCommand'
LINK = 'kameo::actor::actor_ref::Link'


def keep(E, st, ev, loc):
    if ev[0] in ('lock', 'unlock', 'send', 'panic', 'once_get', 'orecv', 'trylock'):
        return ev
    if ev[0] == 'await':
        return ev
    if ev[0] == 'call' and '::Hash' in ev[1] or ev[0] == 'call' and 'HashMap' in ev[1]:
        return ev
    return None


def typed(F, ty, tyname):
    for i, t in enumerate(F.adts[ty]['v'][0]['t']):
        if F.types[t].get('n') == tyname:
            return i


def idv(F, base, ty=AR):
    return ('sym', ('fld', base, 0, typed(F, ty, AID)))


def changes(o):
    """(position, operation, table, args) of link table changes"""
    out = []
    for i, e in enumerate(o.mon):
        if e[0] == 'call' and 'HashMap::' in e[1]:
            op = e[1].split('::')[-1]
            if op not in ('get', 'contains_key', 'len', 'is_empty', 'iter', 'keys', 'values'):
                out.append((i, op, e[2][0], e[2][1:]))
    return out


def table_of(F, v, base, lix):
    """the table is inside the links part of that reference"""
    k = strip(v)
    k = k[1] if k[0] == 'sym' else None
    while isinstance(k, tuple):
        if k[0] == 'fld' and k[1] == base:
            return k[3] == lix
        k = k[1] if len(k) > 1 and isinstance(k[1], tuple) else None
    return False


def same_id_path(o, F, a, b):
    """are the ids known equal / different on this path"""
    for k, f in o.st.facts.items():
        if isinstance(k, tuple) and k[0] == 'app' and k[1] in ('eq', 'ne') and len(k[2]) == 2:
            x, y = strip(k[2][0]), strip(k[2][1])
            if (same(x, a) and same(y, b)) or (same(x, b) and same(y, a)):
                if f[0] == 'int':
                    return (f[1] == 1) == (k[1] == 'eq')
    return None


def remote_id(F, v, tname):
    """v is Borrowed(<T as RemoteActor>::REMOTE_ID) for the type parameter named"""
    v = textual(v)
    if v[0] != 'sym' or v[1][0] != 'const' or 'REMOTE_ID' not in str(v[1][1]):
        return False
    return len(v[1]) > 3 and F.types[v[1][3]].get('n') == tname


def held_at(o, i):
    out = []
    for e in o.mon[:i]:
        if e[0] == 'lock':
            out.append(strip(e[1]))
        elif e[0] == 'unlock':
            x = strip(e[1])
            for j in range(len(out) - 1, -1, -1):
                if same(out[j], x):
                    del out[j]
                    break
    return out


def check(ctx):
    F = ctx.facts()
    lix = typed(F, AR, 'kameo::actor::actor_ref::Links')
    b0, b1 = ('deref', ('arg', 0)), ('deref', ('arg', 1))
    for name, op in (('l_link', 'insert'), ('l_blink', 'insert'), ('l_unlink', 'remove'), ('l_bunlink', 'remove')):
        r = ctx.run(name, keep=keep)
        seen = set()
        for o in r.outs:
            if not ctx.need(o.kind == 'ret', 'symmetric', name, 'linking can panic', o, r.E):
                continue
            ch = changes(o)
            eq = same_id_path(o, F, idv(F, b0), idv(F, b1))
            seen.add(eq)
            if eq:
                ctx.need(not ch, 'self-link-changes-nothing', name, 'linking an actor with itself changes a link table', o, r.E)
                continue
            if not ctx.need(len(ch) == 2 and all(c[1] in ((op,) if op == 'insert' else ('remove', 'remove_entry')) for c in ch), 'symmetric', name, 'the tables are changed by: %s' % [c[1] for c in ch], o, r.E):
                continue
            for mine, other in ((b0, b1), (b1, b0)):
                c = [x for x in ch if table_of(F, x[2], mine, lix)]
                if not ctx.need(len(c) == 1, 'symmetric', name, 'the table of actor %d is changed %d times' % (mine[1][1], len(c)), o, r.E):
                    continue
                ctx.need(same(strip(c[0][3][0]), idv(F, other)), 'symmetric', name, 'the entry of actor %d is under another id: %s' % (mine[1][1], names(F, c[0][3][0])), o, r.E)
                if op == 'insert':
                    v = collapse(c[0][3][1])
                    g = is_adt(F, v, LINK, 'Local') and chan_bases(v[3][0]) and all(mailbox_of(k, other) for k in chan_bases_keys(v[3][0])) and 'weak' in apps(v)
                    ctx.need(bool(g), 'symmetric', name, 'the entry of actor %d does not hold the other actor\'s own mailbox, weakly: %s' % (mine[1][1], names(F, v)), o, r.E)
            lo, hi = min(c[0] for c in ch), max(c[0] for c in ch)
            hs = held_at(o, lo)
            both = all(any(table_of(F, h, b, lix) for h in hs) for b in (b0, b1))
            quiet = not any(e[0] in ('lock', 'unlock', 'await', 'recv') for e in o.mon[lo:hi])
            ctx.need(both and quiet, 'both-or-none', name, 'the two tables are not changed together under both locks', o, r.E)
        ctx.need({True, False} <= seen, 'self-link-changes-nothing', name, 'linking an actor with itself is not told apart: %s' % seen)
    # remote
    RR = 'kameo::actor::actor_ref::RemoteActorRef'
    for name, op, cmd, both in (('lr_link', 'insert', 'Link', False), ('lr_unlink', 'remove', 'Unlink', False), ('lrr_link', None, 'Link', True), ('lrr_unlink', None, 'Unlink', True)):
        r = ctx.run(name, keep=keep)
        seen = set()
        a, b = idv(F, b0, AR if not both else RR), idv(F, b1, RR)
        for o in r.outs:
            ch = [c for c in changes(o) if not any('REMOTE_REGISTRY' in str(k) for k in bases(c[2]))]
            ss = [fields(F, e[3]) for e in sends(o) if is_adt(F, e[3], CMD, cmd)]
            eq = same_id_path(o, F, a, b)
            if eq:
                seen.add('self')
                ctx.need(not ch and not sends(o), 'self-link-changes-nothing', name, 'linking an actor with itself does something', o, r.E)
                continue
            if o.kind != 'ret':
                continue
            noswarm = any(e[0] == 'once_get' and e[2] == 'none' and 'SWARM' in str(e[1]) for e in o.mon)
            if noswarm:
                seen.add('noswarm')
                ctx.need(err(o.value) is not None and (op != 'insert' or not ch), 'remote-link', name, 'without a swarm the call %s' % ('succeeds' if err(o.value) is None else 'leaves a link behind'), o, r.E)
                continue
            seen.add('ok')
            if op:
                ctx.need(len(ch) == 1 and ch[0][1].startswith(op) and table_of(F, ch[0][2], b0, lix) and same(strip(ch[0][3][0]), b), 'remote-link', name, 'the local table is changed by %s' % [(c[1], names(F, c[3][0])) for c in ch], o, r.E)
                if op == 'insert' and len(ch) == 1 and len(ch[0][3]) > 1:
                    v = collapse(ch[0][3][1])
                    ctx.need(is_adt(F, v, LINK, 'Remote') and remote_id(F, v[3][0], 'B'), 'remote-link', name, 'the link recorded is %s' % names(F, v), o, r.E)
            else:
                ctx.need(not ch, 'remote-link', name, 'a local table is changed for two remote actors', o, r.E)
            want = [(a, b, 'A', 'B')] + ([(b, a, 'B', 'A')] if both else [])
            ctx.need(len(ss) == len(want), 'remote-converse', name, '%d requests go to the peers' % len(ss), o, r.E)
            for x, y, tx, ty in want:
                m = [f for f in ss if same(strip(f['actor_id']), x) and same(strip(f['sibbling_id']), y) and remote_id(F, f['sibbling_remote_id'], ty) and
                     (cmd != 'Link' or remote_id(F, f['actor_remote_id'], tx))]
                ctx.need(len(m) == 1, 'remote-converse', name, 'the peer is not asked for the converse with the true ids and types: %s' % [{k: names(F, v) for k, v in f.items()} for f in ss], o, r.E)
        ctx.need({'self', 'noswarm', 'ok'} <= seen, 'remote-link', name, 'expected situations not found: %s' % seen)
    # the receiving side
    for name, op in (('kameo::remote::_internal::link', 'insert'), ('kameo::remote::_internal::unlink', 'remove')):
        r = ctx.run(name, keep=keep)
        good = 0
        for o in r.outs:
            ch = [c for c in changes(o) if not any('REMOTE_REGISTRY' in str(k) for k in bases(c[2]) if c[1] in ('insert', 'remove')) or True]
            ch = [c for c in ch if c[1] != 'get']
            if o.kind != 'ret':
                ctx.need(False, 'remote-received', name, 'a peer\'s request can panic', o, r.E)
                continue
            if err(o.value) is not None:
                ctx.need(not ch, 'remote-received', name, 'a refused request changes a table', o, r.E)
                continue
            good += 1
            ctx.need(len(ch) == 1 and ch[0][1].startswith(op) and same(strip(ch[0][3][0]), arg(1)), 'remote-received', name, 'the table is changed by %s' % [(c[1], names(F, c[3][0])) for c in ch], o, r.E)
            if op == 'insert' and ch:
                v = collapse(ch[0][3][1])
                ctx.need(is_adt(F, v, LINK, 'Remote') and same(strip(v[3][0]), arg(2)), 'remote-received', name, 'the link recorded is %s' % names(F, v), o, r.E)
        ctx.need(good > 0, 'remote-received', name, 'a request is never carried out')
    ctx.sample('l_link: A.links[B.id] = Local(weak B.mailbox), B.links[A.id] = Local(weak A.mailbox) under both locks')
    ctx.assume('whether the addressed actor of a peer\'s request is found and of the right type is decided under C37')


def apps(v):
    out = set()
    if isinstance(v, tuple):
        if v and v[0] == 'app':
            out.add(v[1])
        for x in v:
            out |= apps(x)
    return out


def chan_bases_keys(v):
    """symbol keys of the queue inside a (weak) mailbox handle"""
    out = set()
    if isinstance(v, tuple):
        if v and v[0] == 'app' and v[1] in ('weak', 'strong'):
            for x in v[2]:
                out |= chan_bases_keys(x)
            return out
        if v and v[0] == 'sym':
            return {v[1]} if not (v[1][0] == 'app' and v[1][1] in ('weak', 'strong')) else chan_bases_keys(v[1])
        for x in v:
            out |= chan_bases_keys(x)
    return out


def mailbox_of(k, base):
    while isinstance(k, tuple):
        if k == base:
            return True
        k = k[1] if len(k) > 1 and isinstance(k[1], tuple) else None
    return False
