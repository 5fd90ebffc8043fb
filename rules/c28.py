"""Identifiers: encoding and decoding are run symbolically over byte strings of every length (segments with length bounds), so the
decoded value of an encoding, the verdict on any other byte string, and every slice operation's bounds are decided on each path.
Equality and hashing are compared with the pair (sequence id, peer id the public accessor reports)."""
from .lib import *

ERRTY = 'kameo::error::ActorIDFromBytesError'
KW = dict(octets=True, maps=True, pure=lambda n: False)


def tup(E, o, v):
    v = E.norm(o.st, v)
    return [deep(E, o, x) for x in v[1]] if v[0] == 'tup' else []


def deep(E, o, v, d=0):
    v = E.norm(o.st, v)
    if v[0] in ('adt',) and d < 4:
        return (v[0], v[1], v[2], tuple(deep(E, o, x, d + 1) for x in v[3]))
    return v


def result(E, o):
    """('ok', fields) / ('err', payload) / (None, value)"""
    v = E.norm(o.st, o.value)
    if v[0] == 'adt' and v[1] == RES:
        x = E.norm(o.st, v[3][0])
        if v[2] == 0:
            return 'ok', (tup(E, o, x) if x[0] == 'tup' else [x])
        return 'err', x
    return None, v


def steady(o):
    """paths on which the swarm is not bootstrapped half way"""
    return len({e[2] for e in o.mon or () if e[0] == 'once_get'}) <= 1


def peers(E, o, a, b):
    """whether two reported peers are equal on this path: 1, 0 or a term"""
    if a[0] != 'adt' or b[0] != 'adt' or a[1] != OPT or b[1] != OPT:
        return None
    if a[2] != b[2]:
        return ('int', 0)
    if a[2] == 0:
        return ('int', 1)
    return E.norm(o.st, E.binop(o.st, 'eq', a[3][0], b[3][0]))


def is_true(v):
    return v == ('int', 1)


def segs(v):
    return v[1] if isinstance(v, tuple) and v and v[0] == 'bytes' else None


def whole(term, src):
    """the segment is exactly the input from offset 8 on"""
    return term == ('sub', src, 8)


def first8(E, v, src):
    """a number decoded from exactly the first eight input bytes, in any byte order"""
    if v[0] != 'sym' or v[1][0] != 'app' or not str(v[1][1]).startswith('from_'):
        return None
    w, b = v[1][2]
    s = segs(b)
    if w == ('int', 8) and s is not None and len(s) == 1 and s[0][2] == ('part', src, 0, 8):
        return v[1][1]
    return None


def decoding(ctx, name, crate, src, r, wrap_err):
    """arbitrary bytes -> Ok only with all of them accounted for"""
    kinds = set()
    for o in r.outs:
        E = r.E
        if not ctx.need(o.kind == 'ret', 'decode-no-panic', name, 'decoding can panic on some bytes', o, E):
            continue
        k, x = result(E, o)
        if k == 'err' or k is None:
            kinds.add('err')
            continue
        if not steady(o):
            continue
        from kstatic import octets as OC
        lo, hi = OC.span(E, o.st, ('bytes', ((0, OC.BIG, src),)))
        if not ctx.need(lo >= 8, 'decode-rejects-short', name, 'an identifier is decoded from fewer than eight bytes', o, E):
            continue
        ctx.need(first8(E, x[0], src) is not None, 'decode-sequence', name, 'the sequence id is not the first eight bytes', o, E)
        kinds.add('short' if hi == 8 else 'long')
        if crate == 'kameo':
            p = x[1]
            if hi == 8:
                # no peer bytes: the peer is the local one (or none before bootstrap)
                once = [e for e in o.mon or () if e[0] == 'once_get']
                loc = p[0] == 'adt' and (p[2] == 0 or any('once' in str(b) for b in bases(p)))
                ctx.need(loc and bool(once), 'decode-local', name, 'an identifier without peer bytes is not given the local peer', o, E)
            else:
                good = p[0] == 'adt' and p[2] == 1 and p[3][0][0] == 'sym' and p[3][0][1][:2] == ('app', 'peer_from')
                if good:
                    s = segs(p[3][0][1][2][0])
                    good = s is not None and len(s) == 1 and whole(s[0][2], src)
                ctx.need(good, 'decode-peer', name, 'the peer is not parsed from all the remaining bytes', o, E)
    return kinds


def check(ctx):
    for crate in ('kameo', 'kameo_local'):
        remote = crate == 'kameo'
        P = 'kameo::kscen::'
        lbl = '' if remote else ' (no remote)'

        def run(n, keep=('panic', 'once_get'), **kw):
            return ctx.run(P + n, crate=crate, keep=keep, **dict(KW, **kw))
        # -- round trip
        r = run('id_round')
        n = 0
        for o in r.outs:
            E = r.E
            if not ctx.need(o.kind == 'ret', 'round-trip-no-panic', 'id_round' + lbl, 'encoding or decoding panics', o, E):
                continue
            k, x = result(E, o)
            if not steady(o):
                continue
            if not ctx.need(k == 'ok', 'round-trip', 'id_round' + lbl, 'an encoded identifier is not decoded', o, E):
                continue
            n += 1
            if remote:
                eq, s1, p1, s2, p2 = x
                ctx.need(is_true(peers(E, o, p1, p2) or ('int', 0)), 'round-trip-peer', 'id_round' + lbl, 'the decoded identifier names another peer', o, E)
            else:
                eq, s1, s2 = x
            ctx.need(same(s1, s2), 'round-trip-sequence', 'id_round' + lbl, 'the decoded identifier has another sequence id', o, E)
            ctx.need(is_true(eq), 'round-trip-equal', 'id_round' + lbl, 'the decoded identifier is not equal to the encoded one', o, E)
        ctx.need(n >= (3 if remote else 1), 'round-trip-cases', 'id_round' + lbl, 'not every kind of identifier was encoded')
        # -- any bytes
        src = ('raw', arg(0))
        ks = decoding(ctx, 'id_decode' + lbl, crate, src, run('id_decode'), False)
        ctx.need({'err', 'short', 'long'} <= ks if remote else 'err' in ks, 'decode-cases', 'id_decode' + lbl, 'malformed input is not rejected (outcomes: %s)' % sorted(ks))
        # -- through serde
        r = run('id_de', keep=('panic', 'once_get', 'call'))
        for o in r.outs:
            de = [e for e in o.mon or () if e[0] == 'call' and e[1].endswith('Deserialize>::deserialize')]
            ctx.need(len(de) == 1, 'serde-decodes', 'id_de' + lbl, 'deserialisation does not read one byte string', o, r.E)
        if len(r.outs):
            de = [e for e in r.outs[0].mon or () if e[0] == 'call' and e[1].endswith('Deserialize>::deserialize')]
            if de:
                src = ('raw', ('sym', ('fld', de[0][3][1], 0, 0)))
                ks = decoding(ctx, 'id_de' + lbl, crate, src, r, True)
                ctx.need('err' in ks, 'decode-cases', 'id_de' + lbl, 'malformed input is not rejected through serde')
        if remote:
            r = run('id_ser', keep=('panic', 'once_get', 'call'))
            n = 0
            for o in r.outs:
                E = r.E
                if not steady(o) or not ctx.need(o.kind == 'ret', 'serde-no-panic', 'id_ser', 'serialising panics', o, E):
                    continue
                sb = [e for e in o.mon or () if e[0] == 'call' and e[1].startswith('serde_core::ser::Serializer::')]
                v = E.norm(o.st, o.value)
                n += 1
                ctx.need(len(sb) == 1 and sb[0][1].endswith('serialize_bytes') and same(strip(sb[0][2][1]), E.norm(o.st, v[1][1])) and same(sb[0][3], v[1][0]),
                         'serde-encodes', 'id_ser', 'serialisation does not write exactly the encoded bytes', o, E)
                # the encoding is read on other nodes: it has to name the peer
                p = deep(E, o, v[1][2])
                named = [x[2][1] for x in (segs(E.norm(o.st, v[1][1])) or ()) if x[2][0] == 'peer']
                ctx.need(p[0] == 'adt' and p[1] == OPT and (not named if p[2] == 0 else len(named) == 1 and same(named[0], p[3][0])), 'encodes-peer', 'id_ser',
                         'the encoded identifier does not name its peer', o, E)
            ctx.need(n >= 3, 'serde-cases', 'id_ser', 'not every kind of identifier was serialised')
        # -- equality
        r = run('id_eq')
        n = 0
        for o in r.outs:
            E = r.E
            if not ctx.need(o.kind == 'ret', 'eq-no-panic', 'id_eq' + lbl, 'comparing panics', o, E) or not steady(o):
                continue
            x = tup(E, o, o.value)
            n += 1
            if remote:
                eq, s1, s2, p1, p2 = x
                p = peers(E, o, p1, p2)
            else:
                eq, s1, s2 = x
                p = ('int', 1)
            s = E.norm(o.st, E.binop(o.st, 'eq', s1, s2))
            ctx.need(p is not None and eq == conj(s, p), 'eq-by-identity', 'id_eq' + lbl, 'equality is not that of the sequence id and the peer', o, E)
        ctx.need(n >= (5 if remote else 1), 'eq-cases', 'id_eq' + lbl, 'not every pair of identifiers was compared')
        # -- hashing
        r = run('id_hash', keep=('panic', 'once_get', 'call'))
        seen = {}
        for o in r.outs:
            E = r.E
            if not ctx.need(o.kind == 'ret', 'hash-no-panic', 'id_hash' + lbl, 'hashing panics', o, E) or not steady(o):
                continue
            if remote:
                s, p = tup(E, o, o.value)
                pk = 'some' if p[2] == 1 else 'none'
                pv = p[3][0] if p[2] == 1 else None
            else:
                s, pk, pv = E.norm(o.st, o.value), 'local', None
            fed = []
            okk = True
            for e in o.mon or ():
                if e[0] != 'call':
                    continue
                t = abstract(e, collapse(s), collapse(pv) if pv is not None else None)
                okk = okk and t is not None
                fed.append(t)
            ctx.need(okk, 'hash-by-identity', 'id_hash' + lbl, 'the hash depends on something else than the sequence id and the peer', o, E)
            ctx.need(seen.setdefault(pk, fed) == fed, 'hash-agrees', 'id_hash' + lbl, 'equal identifiers are hashed differently', o, E)
        ctx.need(set(seen) == ({'some', 'none'} if remote else {'local'}), 'hash-cases', 'id_hash' + lbl, 'not every kind of identifier was hashed')
    # -- constructors
    for o in (r := ctx.run('id_new', keep=('panic', 'once_get'), **KW)).outs:
        x = tup(r.E, o, o.value)
        ctx.need(o.kind == 'ret' and same(x[0], arg(0)), 'new', 'id_new', 'new does not keep the sequence id', o, r.E)
    for o in (r := ctx.run('id_new_peer', keep=('panic', 'once_get'), **KW)).outs:
        x = tup(r.E, o, o.value)
        ctx.need(o.kind == 'ret' and same(x[0], arg(0)) and x[1][0] == 'adt' and x[1][2] == 1 and same(x[1][3][0], arg(1)), 'new', 'id_new_peer', 'new_with_peer_id does not keep its arguments', o, r.E)
    ctx.assume('PeerId::from_bytes(PeerId::to_bytes(p)) is Ok(p) and accepts only whole encodings; integer byte conversions invert each other',
               'the swarm is not bootstrapped between encoding and comparing one identifier')


def conj(a, b):
    if a == ('int', 0) or b == ('int', 0):
        return ('int', 0)
    if a == ('int', 1):
        return b
    if b == ('int', 1):
        return a
    return ('sym', ('app', 'and', (a, b)))


def abstract(e, s, p):
    """a hasher call with the sequence id and the peer replaced by names; None when anything else goes in"""
    out = [e[1]]
    for a in e[2]:
        a = collapse(a)
        while isinstance(a, tuple) and a and a[0] == '&':
            a = collapse(a[1])
        if same(a, s):
            out.append('SEQ')
        elif p is not None and same(a, p):
            out.append('PEER')
        elif same(a, arg(1)) or (a[0] == 'ref'):
            out.append('HASHER')
        elif a[0] == 'bytes':
            z = []
            for lo, hi, t in a[1]:
                if t[0] in ('le', 'be', 'ne') and same(t[1], s):
                    z.append(t[0] + 'SEQ')
                elif t[0] == 'peer' and p is not None and same(t[1], p):
                    z.append('peerPEER')
                else:
                    return None
            out.append(tuple(z))
        elif a[0] == 'int':
            out.append(a)
        else:
            return None
    return tuple(out)
