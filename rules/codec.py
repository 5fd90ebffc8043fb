"""The derived encoding of a type: what serialisation writes for each variant, reading makes the same variant from.

Serialize writes a variant's own name and every field of it, once, under its own name; Deserialize maps that name to the variant and
each of those names to the field (the map is explored in the order in which it is written)."""
from .wire import *

SER = 'serde_core::ser::Serializer::serialize_'
STRUCT = 'serde_core::ser::SerializeStructVariant::'
DE = 'serde_core::de::'


def lit(v):
    v = strip(v)
    if v[0] == 'str':
        return v[1]
    s = str(v)
    i = s.find('"')
    return s[i + 1:s.find('"', i + 1)] if i >= 0 else None


def text(v):
    v = strip(v)
    while v[0] in ('ref', '&', 'dref'):
        v = v[1]
    return v[1] if v[0] == 'str' else lit(v)


def codec(ctx, F, ty, skipped=()):
    short = ty.split('::')[-1]
    ser = '<%s as serde_core::ser::Serialize>::serialize' % ty
    de = '<%s as serde_core::de::Deserialize>::deserialize' % ty
    if not ctx.need(any(f['n'] == ser for f in F.fns) and any(f['n'] == de for f in F.fns), 'encoded', short, 'the type has no encoding'):
        return
    written = {}
    r = ctx.run(ser, keep=('call', 'panic'))
    for o in r.outs:
        v = is_variant(r.E, o, ('deref', ('arg', 0)), ty)
        ks = [e for e in o.mon if e[0] == 'call' and (e[1].startswith(SER) or e[1].startswith(STRUCT))]
        if v is None or not ks or o.kind != 'ret' or err(o.value) is not None:
            continue
        if not all(e[0] != 'panic' for e in o.mon):
            continue
        first = ks[0]
        n = [x for x in (text(a) for a in first[2][1:] if not isinstance(a, int)) if x]
        vi = vidx(F, ty, v)
        decl = F.adts[ty]['v'][vi]['f']
        got = {}
        if first[1].endswith('struct_variant'):
            for e in ks[1:]:
                if e[1].endswith('serialize_field'):
                    got[text(e[2][1])] = strip(e[2][2])
            if not any(e[1].endswith('::end') for e in ks):
                continue
        elif first[1].endswith('newtype_variant'):
            got['0'] = strip(first[2][-1])
        names_ = n[1] if len(n) > 1 else None
        base = ('deref', ('arg', 0))
        of = {}
        for f, x in got.items():
            m = [i for i in range(len(decl)) if whole(r.E, x, ('fld', base, vi, i)) or same(x, ('sym', ('deref', ('fld', base, vi, i))))]
            if len(m) == 1:
                of[f] = m[0]
        ctx.need(sorted(of.values()) == list(range(len(decl))) and len(of) == len(got), 'encoded', short + '::' + v, 'not every field of the variant is written once: %s of %s' % (sorted(of), decl), o, r.E)
        ctx.need(written.setdefault(v, (names_, tuple(of.items()))) == (names_, tuple(of.items())), 'encoded', short + '::' + v, 'the encoding of the variant differs between paths', o, r.E)
    for v in F.adts[ty]['v']:
        if v['n'] not in skipped:
            ctx.need(v['n'] in written, 'encoded', short + '::' + v['n'], 'the variant cannot be encoded')
    # reading
    head = '<' + de + '::__FieldVisitor as serde_core::de::Visitor>::visit_str'
    names_ = accepted(ctx, F, [f for f in F.fns if f['n'] == head])
    ven = [f for f in F.fns if f['n'] == '<' + de + '::__Visitor as serde_core::de::Visitor>::visit_enum']
    if not ctx.need(len(ven) == 1 and len(names_) == 1, 'encoded', short, 'the type cannot be read'):
        return
    made = {}
    r = ctx.run(ven[0], keep=('call', 'panic'))
    for o in r.outs:
        va = [e for e in o.mon if e[0] == 'call' and e[1].endswith('EnumAccess::variant')]
        if not va or err(o.value) is not None:
            continue
        f = o.st.facts.get(('fld', ('fld', va[0][3][1], 0, 0), 0, 0))
        if f is None or f[0] != 'adt':
            continue
        ks = [e for e in o.mon if e[0] == 'call' and e[1].startswith(DE + 'VariantAccess::')]
        if not ks:
            continue
        k = ks[0]
        how = k[1].split('::')[-1]
        if how == 'struct_variant' and same(o.value, k[3]):
            made[f[2]] = ('struct', None)
        else:
            # not collapsed: a variant is told apart from the symbol its only field comes from
            x = o.value[3][0] if o.value[0] == 'adt' and o.value[1] == RES and o.value[2] == 0 else ('sym', None)
            t, n, fs = (x[1], F.variant(x[1], x[2]), x[3]) if x[0] == 'adt' else (None, None, ())
            good = t == ty and (how == 'unit_variant' and not fs or how == 'newtype_variant' and len(fs) == 1 and same(fs[0], ('sym', ('fld', k[3][1], 0, 0))))
            made[f[2]] = (n if good else '?', how)
    structs = [v for v in F.adts[ty]['v'] if v['n'] in written and len(v['f']) and not (len(v['f']) == 1 and v['f'][0] == '0')]
    maps = [f for f in F.fns if de in f['n'] and f['n'].endswith('visit_enum::__Visitor as serde_core::de::Visitor>::visit_map')]
    strs = [f for f in F.fns if de in f['n'] and f['n'].endswith('visit_enum::__FieldVisitor as serde_core::de::Visitor>::visit_str')]
    inner = accepted(ctx, F, strs)
    if not ctx.need(len(maps) == len(strs) == len(structs), 'encoded', short, 'not every variant with fields can be read'):
        return
    for v, (name, got) in written.items():
        i = names_[0].get(name)
        m = made.get(i)
        inst = short + '::' + v
        vi = vidx(F, ty, v)
        decl = F.adts[ty]['v'][vi]
        if decl not in structs:
            ctx.need(m is not None and m[0] == v, 'encoded', inst, 'what is written for the variant is read as %s' % (m[0] if m else 'nothing'))
            continue
        j = structs.index(decl)
        if not ctx.need(m is not None and m[0] == 'struct', 'encoded', inst, 'what is written for the variant is not read as one with fields'):
            continue
        r = ctx.run(maps[j], keep=('call', 'panic'), net=('fields', len(got)), max_same=len(got) + 2)
        done = 0
        for o in r.outs:
            x = ok(o.value) if o.kind == 'ret' else None
            if x is None:
                continue
            done += 1
            t, n, fs = adt(F, x)
            vals = [e[3][1] for e in o.mon if e[0] == 'call' and e[1].endswith('MapAccess::next_value')]
            # position k of the map holds the field that is written k-th; the reader must know it under the index of its name
            good = t == ty and n == v and len(vals) == len(got)
            for k, (f, ix) in enumerate(got):
                good = good and inner[j].get(f) == k and same(fs[ix], ('sym', ('fld', vals[k], 0, 0)))
            ctx.need(good, 'encoded', inst, 'a field is not read from what was written for it', o, r.E)
        ctx.need(done > 0, 'encoded', inst, 'what is written for the variant cannot be read')


def accepted(ctx, F, fns):
    """for each name visitor: name -> index of the field it stands for"""
    out = []
    for f in fns:
        r = ctx.run(f, keep=())
        m = {}
        for o in r.outs:
            x = ok(o.value)
            if x is None:
                continue
            pos = [k for k, v in o.st.facts.items() if k[0] == 'app' and k[1] == 'eq' and v == ('int', 1)]
            if len(pos) == 1:
                for y in pos[0][2]:
                    s = text(y)
                    if s:
                        m[s] = collapse(x)[2]
        out.append(m)
    return out
