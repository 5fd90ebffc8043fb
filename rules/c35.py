"""A remote request arrives at the addressed handler with every field as the caller gave it.

The values of a request are followed hop by hop: public call -> swarm command -> (at home) dispatch | (over the network) behaviour ->
wire request -> the peer's dispatch -> handling function -> the actor.  Each hop is decided symbolically and says which of its
inputs every one of its outputs is; the composition must be the identity on every role a request has, on both routes."""
from .wire import *
from .c34 import request, PROTO
from .codec import codec
from .c24 import remote_id, idv, table_of, typed, changes, same_id_path, LINK, AR

RR_REF = 'kameo::actor::actor_ref::RemoteActorRef'
IMPL = "<kameo::remote::swarm::behaviour::ActorSwarmBehaviour as kameo::remote::swarm::SwarmBehaviour>::"
INT = 'kameo::remote::_internal::'
AID, KIND_ = 'kameo::actor::id::ActorID', 'kameo::actor::id::PeerIdKind'
MAPS = {'kameo::remote::REMOTE_MESSAGES_MAP': INT + 'RemoteMessageFns', 'kameo::remote::REMOTE_ACTORS_MAP': INT + 'RemoteActorFns'}

# operation -> the roles of its values
ROLES = {'Ask': {'peer', 'to', 'to_rid', 'msg_rid', 'payload', 'mailbox_timeout', 'reply_timeout', 'immediate'},
         'Tell': {'peer', 'to', 'to_rid', 'msg_rid', 'payload', 'mailbox_timeout', 'immediate'},
         'Link': {'to', 'to_rid', 'who', 'who_rid'}, 'Unlink': {'to', 'to_rid', 'who'}, 'SignalLinkDied': {'to', 'to_rid', 'who', 'reason'}}


def fnames(F, n):
    return {'Ask': ('ask', 'try_ask'), 'Tell': ('tell', 'try_tell'), 'Link': ('link',), 'Unlink': ('unlink',), 'SignalLinkDied': ('signal_link_died',)}[n]


def kind_key(F, k):
    return ('fld', k, 0, F.field(AID, 'peer_id'))


def peer_of(E, o, v, k):
    """v is the peer of the actor id under the symbol k"""
    F = E.F
    v = strip(E.norm(o.st, v)) if v[0] != '&' else strip(v)
    kk = kind_key(F, k)
    if same(v, ('sym', ('fld', kk, vidx(F, KIND_, 'PeerId'), 0))):
        return True
    f = o.st.facts.get(kk)
    return f is not None and f[0] == 'adt' and f[2] == vidx(F, KIND_, 'Local') and any('ACTOR_SWARM' in str(b) for b in bases(v))


def roles_of(E, v, keyed):
    """the role of a value: which of the keyed symbols it is"""
    v = strip(v)
    for role, k in keyed.items():
        if whole(E, v, k):
            return role
    return None


def check(ctx):
    F = ctx.facts('kameo')
    start = api(ctx, F)
    for n, roles in ROLES.items():
        fr = start.get(n)
        if not ctx.need(fr is not None and set(fr.values()) >= roles, 'carried', n, 'the public call does not give the command: %s' % sorted(roles - set((fr or {}).values()))):
            continue
        keyed = {role: field(F, CMD, n, f, ('arg', 2))[1] for f, role in fr.items()}
        params, sent = commanded(ctx, F, n, keyed)
        if not params or sent is None:
            continue
        wire = behaviour(ctx, F, n, sent)
        if wire is None:
            continue
        received(ctx, F, n, wire, params)
        for fn, ps in params.items():
            handled(ctx, F, n, fn, ps)
    encoded(ctx, F)
    ctx.sample('RemoteAskRequest.send -> SwarmCommand::Ask -> SwarmBehaviour::ask -> SwarmRequest::Ask -> RemoteMessageFns::ask -> ActorRef<A>::ask')
    ctx.assume('a value decoded from what its type was encoded to is that value (serde, rmp, cbor)', 'C46 decides that the functions of a registration are the handling functions of the same name')


# ---- the public calls

def api(ctx, F):
    out = {}
    b0, b1 = ('deref', ('arg', 0)), ('deref', ('arg', 1))
    to = idv(F, b0, RR_REF)
    some_ = lambda i: ('adt', OPT, 1, (arg(i),))
    none = ('adt', OPT, 0, ())
    C = {'rk_ask': ('Ask', some_(2), some_(3), 0), 'rk_ask_rev': ('Ask', some_(2), some_(3), 0), 'rk_ask_into': ('Ask', some_(2), some_(3), 0), 'rk_ask_plain': ('Ask', none, none, 0),
         'rk_try_ask': ('Ask', none, some_(2), 1), 'rk_try_ask_plain': ('Ask', none, none, 1),
         'rk_tell': ('Tell', some_(2), None, 0), 'rk_tell_into': ('Tell', some_(2), None, 0), 'rk_tell_plain': ('Tell', none, None, 0), 'rk_try_tell': ('Tell', none, None, 1)}
    for name, (cmd, mt, rt, imm) in C.items():
        r = ctx.run(name, keep=('send', 'call', 'panic'), maps=True, net=True)
        n = 0
        for o in r.outs:
            ss = [e for e in o.mon if e[0] == 'send' and is_adt(F, e[3], CMD)]
            if not ss:
                continue
            n += 1
            if not ctx.need(len(ss) == 1 and is_adt(F, ss[0][3], CMD, cmd), 'carried', name, 'the call does not send its one command', o, r.E):
                continue
            g = fields(F, ss[0][3])
            want = {'to': lambda v: same(v, to), 'to_rid': lambda v: remote_id(F, v, 'A') and 'RemoteActor' in str(strip_box(v)), 'msg_rid': lambda v: message_id(F, v),
                    'payload': lambda v: encoded_of(o, v, 1), 'peer': lambda v: peer_of(r.E, o, v, to[1])}
            if name in ('rk_ask', 'rk_tell'):       # distinct values: find which field has which role
                fr = {}
                w = dict(want, mailbox_timeout=lambda v: same(v, mt), immediate=lambda v: v == ('int', imm))
                if rt is not None:
                    w['reply_timeout'] = lambda v: same(v, rt)
                for f, v in g.items():
                    m = [role for role, p in w.items() if p(strip(v))]
                    if len(m) == 1:
                        fr[f] = m[0]
                if not ctx.need(set(fr.values()) == ROLES[cmd], 'carried', name, 'the command lacks of what the caller gave: %s' % sorted(ROLES[cmd] - set(fr.values())), o, r.E):
                    continue
                ctx.need(out.setdefault(cmd, fr) == fr, 'carried', name, 'the fields of the command differ between the paths of the call', o, r.E)
                continue
            fr = out.get(cmd)
            if fr is None:
                continue
            w = dict(want, mailbox_timeout=lambda v: same(v, mt), immediate=lambda v: v == ('int', imm), reply_timeout=lambda v: same(v, rt))
            for f, role in fr.items():
                ctx.need(w[role](strip(g[f])), 'carried', name, 'the %s of the command is %s' % (role.replace('_', ' '), names(F, g[f])), o, r.E)
        ctx.need(n > 0, 'carried', name, 'no command is ever sent')
    # links
    for name, cmd, both in (('lr_link', 'Link', False), ('lr_unlink', 'Unlink', False), ('lrr_link', 'Link', True), ('lrr_unlink', 'Unlink', True)):
        r = ctx.run(name, keep=('send', 'panic', 'once_get'))
        a, b = idv(F, b0, RR_REF if both else AR), idv(F, b1, RR_REF)
        n = 0
        for o in r.outs:
            ss = [fields(F, e[3]) for e in sends(o) if is_adt(F, e[3], CMD, cmd)]
            if not ss or o.kind != 'ret' and len(ss) < 1 + both:
                continue
            n += 1
            want = [(a, b, 'A', 'B')] + ([(b, a, 'B', 'A')] if both else [])
            ctx.need(len(ss) == len(want), 'carried', name, '%d commands are sent for %d links' % (len(ss), len(want)), o, r.E)
            for x, y, tx, ty in want:
                w = {'who': lambda v: same(v, x), 'to': lambda v: same(v, y), 'who_rid': lambda v: remote_id(F, v, tx), 'to_rid': lambda v: remote_id(F, v, ty)}
                found = []
                for g in ss:
                    fr = {f: m[0] for f, v in g.items() for m in [[role for role, p in w.items() if p(strip(v))]] if len(m) == 1}
                    if set(fr.values()) >= ROLES[cmd] and fr == out.setdefault(cmd, fr):
                        found.append(fr)
                ctx.need(len(found) == 1, 'carried', name, 'no command carries both ids and both types as they are', o, r.E)
        ctx.need(n > 0, 'carried', name, 'no command is ever sent')
    # link died: who=1, to=2, to_rid=3, reason=4 (C23 decides what these are)
    r = ctx.run('kameo::remote::swarm::ActorSwarm::signal_link_died', keep=('send', 'panic'))
    for o in r.outs:
        ss = [fields(F, e[3]) for e in sends(o) if is_adt(F, e[3], CMD, 'SignalLinkDied')]
        if not ctx.need(len(ss) == 1 or o.kind == 'panic', 'carried', 'signal_link_died', 'a notification is not sent as one command', o, r.E) or not ss:
            continue
        keyed = {'who': ('arg', 1), 'to': ('arg', 2), 'to_rid': ('arg', 3), 'reason': ('arg', 4)}
        fr = {f: roles_of(r.E, v, keyed) for f, v in ss[0].items()}
        fr = {f: x for f, x in fr.items() if x}
        ctx.need(set(fr.values()) == ROLES['SignalLinkDied'] and out.setdefault('SignalLinkDied', fr) == fr, 'carried', 'signal_link_died', 'the command does not carry what was given', o, r.E)
    return out


def message_id(F, v):
    v = textual(v)
    if v[0] != 'sym' or v[1][0] != 'const' or 'RemoteMessage::REMOTE_ID' not in str(v[1][1]):
        return False
    return [F.types[i].get('n') for i in v[1][3:] if isinstance(i, int) and i < len(F.types)][-1:] == ['M'] or 'M' in [F.types[i].get('n') for i in v[1][2:] if isinstance(i, int) and i < len(F.types)]


def encoded_of(o, v, i):
    """v is the successful result of encoding exactly what argument i refers to, fields by name (by position, a field that its type leaves out shifts the rest)"""
    v = strip(v)
    for e in o.mon:
        if e[0] == 'call' and e[1] == 'rmp_serde::encode::to_vec_named' and same(v, ('sym', ('fld', e[3][1], 0, 0))):
            return same(strip(e[2][0]), ('sym', ('deref', ('arg', i)))) or same(strip(e[2][0]), arg(i))
    return False


# ---- the swarm

def dispatches(ctx, E, o, inst, keyed):
    """(function, roles of its arguments) for every dispatched handling function of this path; checks the key it was found under"""
    F, out = E.F, []
    looked = {}
    last = None
    for e in o.mon:
        if e[0] == 'lookup':
            last = (e[1], e[2])
        elif e[0] == 'call' and e[1].endswith('HashMap::get') and last:
            looked[e[3][1]] = last
        elif e[0] == 'call' and e[1] == 'fnptr':
            f = strip(e[2][0])
            src = [k for k in looked if k in bases(f)]
            if not ctx.need(len(src) == 1 and f[0] == 'sym' and f[1][0] == 'fld', 'dispatch', inst, 'a function is called which was not looked up', o, E):
                continue
            m, k = looked[src[0]]
            fns = MAPS.get(m)
            if not ctx.need(fns is not None, 'dispatch', inst, 'the handling function is looked up in another table', o, E):
                continue
            fn = F.adts[fns]['v'][0]['f'][f[1][3]]
            ks = fields(F, strip(k)) if fns.endswith('MessageFns') else {'actor_remote_id': k}
            kr = {n: roles_of(E, v, keyed) for n, v in ks.items()}
            want = {'actor_remote_id': 'to_rid', 'message_remote_id': 'msg_rid'} if fns.endswith('MessageFns') else {'actor_remote_id': 'to_rid'}
            ctx.need(kr == want, 'dispatch', inst, 'the handling function is looked up under other ids than those of the request: %s' % kr, o, E)
            ar = tuple(roles_of(E, v, keyed) for v in e[2][1:])
            ctx.need(None not in ar, 'dispatch', inst, 'an argument of the handling function is not of the request: %s' % (ar,), o, E)
            imm = o.st.facts.get(keyed.get('immediate'))
            if 'immediate' in keyed:
                ctx.need(imm is not None and imm[0] == 'int' and fn.startswith('try_') == (imm[1] == 1), 'dispatch', inst, 'a request is dispatched to %s whether or not it is immediate' % fn, o, E)
            out.append((fn, ar))
    return out


def commanded(ctx, F, n, keyed):
    def setup(st):
        st.facts[('arg', 2)] = command(F, ('arg', 2), n)
    r = ctx.run('sw_cmd', keep=('lookup', 'call', 'netreq', 'panic', 'spawn'), setup=setup, spawn='inline', cap=8, **HANDLE)
    params, sent = {}, None
    E = r.E
    for o in r.outs:
        if is_none(o.value):
            continue
        net = [e for e in o.mon if e[0] == 'netreq']
        at_home = home(E, o, n, keyed)
        if not net:
            ctx.need(at_home, 'route', n, 'a request to another peer is handled here', o, E)
        for fn, ar in dispatches(ctx, E, o, n + ' (at home)', keyed):
            ctx.need(fn in fnames(F, n), 'dispatch', n, 'the request is dispatched to %s' % fn, o, E)
            ctx.need(params.setdefault(fn, ar) == ar, 'dispatch', n, 'the arguments of %s differ between paths' % fn, o, E)
        if net:
            rs = [roles_of(E, v, keyed) for v in net[0][2]]
            ctx.need(not at_home, 'route', n, 'a request to an actor of this node is sent to a peer', o, E)
            ctx.need(None not in rs and (ROLES[n] - {'peer'} <= set(rs)), 'to-network', n, 'the request handed to the network lacks: %s' % sorted(ROLES[n] - set(rs)), o, E)
            if sent is not None:
                ctx.need(sent == rs, 'to-network', n, 'the request differs between paths', o, E)
            sent = rs
    ctx.need(set(params) == set(fnames(F, n)), 'dispatch', n, 'the request is dispatched to %s' % sorted(params))
    ctx.need(sent is not None, 'to-network', n, 'the request is never sent to a peer')
    return params, sent


def home(E, o, n, keyed):
    """does this path have no peers, or address this node"""
    if (peers(E, o) or (0, 1))[1] == 0:
        return True
    for k, f in o.st.facts.items():
        if f[0] == 'int' and k[0] == 'app' and k[1] == 'eq':
            loc = [e[3] for e in o.mon if e[0] == 'call' and e[1].endswith('::local_peer_id')]
            me = [x for x in k[2] if any(same(strip(x), strip(v)) or same(strip(x), ('sym', ('deref', v[1]))) for v in loc)]
            if me and f[1] == 1:
                other = [x for x in k[2] if x not in me]
                for x in other:
                    if 'peer' in keyed and roles_of(E, x, keyed) == 'peer' or 'peer' not in keyed and peer_of(E, o, x, keyed['to']):
                        return True
    return False


def behaviour(ctx, F, n, sent):
    r = ctx.run(IMPL + NETOP[n], keep=('call', 'panic', 'once_get'))
    E, wire = r.E, None
    keyed = {}
    for i, role in enumerate(sent):
        keyed[role] = ('arg', i + 1)
    if 'peer' in sent:
        keyed['peer'] = ('arg', sent.index('peer') + 1)
    inst = 'ActorSwarmBehaviour::' + NETOP[n]
    for o in r.outs:
        if o.kind == 'panic':
            ctx.need(any(e[0] == 'once_get' and e[-1] == 'none' for e in o.mon), 'on-the-wire', inst, 'sending a request panics', o, E)
            continue
        k = [e for e in o.mon if e[0] == 'call' and e[1].startswith(PROTO)]
        if not ctx.need(len(k) == 1 and k[0][1] == PROTO + 'send_request' and is_adt(F, strip(k[0][2][2]), REQ, n), 'on-the-wire', inst, 'not exactly one request of its kind is sent', o, E):
            continue
        peer = k[0][2][1]
        if 'peer' in keyed:
            ctx.need(roles_of(E, peer, {'peer': keyed['peer']}) == 'peer', 'right-peer', inst, 'the request does not go to the peer of the actor', o, E)
        else:
            ctx.need(peer_of(E, o, peer, keyed['to']), 'right-peer', inst, 'the request does not go to the peer of the addressed actor', o, E)
        ctx.need(same(k[0][3], o.value), 'on-the-wire', inst, 'the id returned is not that of the request', o, E)
        fr = {f: roles_of(E, v, keyed) for f, v in fields(F, strip(k[0][2][2])).items()}
        ctx.need(set(fr.values()) >= ROLES[n] - {'peer'} and None not in fr.values(), 'on-the-wire', inst, 'the request on the wire lacks: %s' % sorted(ROLES[n] - {'peer'} - set(fr.values())), o, E)
        if wire is not None:
            ctx.need(wire == fr, 'on-the-wire', inst, 'the request differs between paths', o, E)
        wire = fr
    ctx.need(wire is not None, 'on-the-wire', inst, 'no request is ever sent')
    return wire


def received(ctx, F, n, wire, params):
    setup0, req, chan = request(F)

    def setup(st):
        setup0(st)
        st.facts[req] = make(F, REQ, n, key=req)
    keyed = {role: field(F, REQ, n, f, req)[1] for f, role in wire.items()}
    r = ctx.run('sw_event', keep=('lookup', 'call', 'panic', 'spawn'), setup=setup, spawn='inline', cap=8, **HANDLE)
    seen = set()
    for o in r.outs:
        for fn, ar in dispatches(ctx, r.E, o, n + ' (from a peer)', keyed):
            seen.add(fn)
            ctx.need(params.get(fn) == ar, 'dispatch', n, 'a request of a peer is dispatched to %s with other arguments than one at home' % fn, o, r.E)
    ctx.need(seen == set(fnames(F, n)), 'dispatch', n, 'a request of a peer is dispatched to %s' % sorted(seen))


# ---- the handling functions

def handled(ctx, F, n, fn, ps):
    inst = '_internal::' + fn
    r = ctx.run(INT + fn, keep=('lookup', 'call', 'deliver', 'send', 'panic'), kapi=n in ('Ask', 'Tell'), **HANDLE)
    keyed = {role: ('arg', i) for i, role in enumerate(ps)}
    E, good = r.E, 0
    lix = typed(F, AR, 'kameo::actor::actor_ref::Links')
    for o in r.outs:
        if o.kind != 'ret':
            continue                # C37
        look = [e for e in o.mon if e[0] == 'lookup' and 'REMOTE_REGISTRY' in e[1]]
        got = [e[3][1] for e in o.mon if e[0] == 'call' and e[1].endswith('HashMap::get') and 'REMOTE_REGISTRY' in str(bases(e[2][0]))]
        mine = lambda v: len(got) == 1 and got[0] in bases(v)
        ctx.need(len(look) == 1 and roles_of(E, look[0][2], keyed) == 'to', 'addressed', inst, 'another actor is looked up than the addressed one', o, E)
        if n in ('Ask', 'Tell'):
            ds = [e for e in o.mon if e[0] == 'deliver']
            if not ds:
                continue
            good += 1
            dec = [e for e in o.mon if e[0] == 'call' and e[1].startswith('rmp_serde::decode::from_')]
            d = ds[0]
            ctx.need(len(ds) == 1 and mine(d[3]), 'handled', inst, 'the message is not sent once, to the actor looked up', o, E)
            imm = fn.startswith('try_')
            ctx.need(d[1] == n.lower() and d[2] == ('try_send' if imm else 'send'), 'handled', inst, 'the message is sent with %s.%s' % (d[1], d[2]), o, E)
            ctx.need(len(dec) == 1 and roles_of(E, deref_bytes(o, dec[0][2][0]), keyed) == 'payload' and same(strip(d[4]), ('sym', ('fld', dec[0][3][1], 0, 0))), 'handled', inst, 'the message is not what the payload decodes to', o, E)
            ctx.need(is_none(d[5]) if imm else roles_of(E, d[5], keyed) == 'mailbox_timeout', 'handled', inst, 'the mailbox timeout is %s' % names(F, d[5]), o, E)
            ctx.need(is_none(d[6]) if n == 'Tell' else roles_of(E, d[6], keyed) == 'reply_timeout', 'handled', inst, 'the reply timeout is %s' % names(F, d[6]), o, E)
        elif n in ('Link', 'Unlink'):
            ch = [c for c in changes(o) if c[1] != 'get']
            if not ch:
                ctx.need(err(o.value) is not None, 'handled', inst, 'a request is confirmed which did nothing', o, E)
                continue
            good += 1
            c = ch[0]
            ctx.need(len(ch) == 1 and c[1].startswith('insert' if n == 'Link' else 'remove') and mine(c[2]) and roles_of(E, c[3][0], keyed) == 'who', 'handled', inst, 'not the links of the addressed actor are changed, under the other actor', o, E)
            if n == 'Link':
                v = collapse(c[3][1]) if len(c[3]) > 1 else UNIT
                ctx.need(is_adt(F, v, LINK, 'Remote') and roles_of(E, v[3][0], keyed) == 'who_rid', 'handled', inst, 'the link recorded is %s' % names(F, v), o, E)
        else:
            ss = [e for e in sends(o) if signal(F, e)[0]]
            if not ss:
                ctx.need(err(o.value) is not None, 'handled', inst, 'a notification is confirmed which did nothing', o, E)
                continue
            good += 1
            sn, fs = signal(F, ss[0])
            ctx.need(len(ss) == 1 and sn == 'LinkDied' and mine(ss[0][2]) and roles_of(E, fs['id'], keyed) == 'who' and roles_of(E, fs['reason'], keyed) == 'reason', 'handled', inst, 'the addressed actor is not told which actor died, and why', o, E)
    ctx.need(good > 0, 'handled', inst, 'a request is never carried out')


def deref_bytes(o, v):
    """the vector a byte slice is of"""
    v = strip(v)
    for e in o.mon:
        if e[0] == 'call' and e[1].endswith('Deref>::deref') and same(strip(e[3]), v):
            return e[2][0]
    return v


# ---- the encoding of what goes over the network

def encoded(ctx, F):
    codec(ctx, F, REQ)
    codec(ctx, F, 'kameo::error::ActorStopReason')
