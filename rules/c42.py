"""The broker: up to three subscriptions under patterns in any relation, published to, unsubscribed from and published to again, under
each delivery strategy.  On every path the deliveries made must be those the facts of the path call for (see fanout)."""
from .lib import *
from .fanout import *

CR = 'kameo_actors'


def matches(E, o, p, t):
    """the one match decision of a pattern argument on a topic argument, with the options it was made under"""
    out = []
    for k, v in o.st.facts.items():
        if k[0] == 'app' and k[1].startswith('glob::Pattern::matches') and len(k[2]) >= 2 and v[0] == 'int':
            if copy_of(k[2][1]) == t:
                out.append((copy_of(k[2][0]), k, bool(v[1])))
    return out


def check(ctx):
    F = ctx.facts(CR)
    n = 0
    opts = dict(crate=CR, keep=('deliver', 'spawn', 'spawned', 'panic'), cap=9, maps=True, kapi=True, max_same=9, spawn='inline',
                pure=lambda x: x.startswith('glob::Pattern::matches'))
    scens = [('br_publish', 'two'), ('br_unsub', 'unsub'), ('br_publish3', 'three')]
    for mode, setup in strategies(F):
        for scen, kind in scens:
            r = ctx.run(scen, setup=setup, **opts)
            E = r.E
            for o in r.outs:
                n += 1
                inst = '%s-%s' % (mode, kind)
                p = Pub(ctx, E, o, inst, mode)

                def match(pat, t):
                    res = [(k, v) for a, k, v in matches(E, o, pat, t) if a == pat or eq(E, o, arg(a), arg(pat)) is True]
                    for k, _ in res:
                        fs = k[2][2:]
                        if k[1].endswith('matches_with'):
                            fs = strip(fs[0]) if fs else None
                            good = fs is not None and fs[0] == 'adt' and [x[1] for x in fs[3] if x[0] == 'int'] == [1, 1, 0]
                        else:
                            good = False
                        p.need(good, 'match-options', 'topics are not matched case-sensitively with * stopping at separators')
                    return res[0][1] if res else None

                def notice(F, pat, rec, msg):
                    msg = strip(msg)
                    if not is_adt(F, msg, 'kameo_actors::broker::Unsubscribe'):
                        return False
                    f = fields(F, msg)
                    t = collapse(f['topic'])
                    okt = is_none(t) or (some(t) is not None and (copy_of(some(t)) == pat or eq(E, o, arg(copy_of(some(t))), arg(pat)) is True))
                    return okt and same(collapse(f['actor_id']), ident(rec))

                def pub(m, t):
                    p.publish(m, lambda k: match(k, t), notice)
                p.add(2, 4)
                p.add(3, 5)
                if kind == 'two':
                    pub(7, 6)
                    pub(9, 8)
                elif kind == 'three':
                    p.add(8, 9)
                    pub(7, 6)
                else:
                    q = E.norm(o.st, arg(8))
                    if q[0] == 'adt' and q[2] == 1:
                        qv = q[3][0]
                        p.remove(lambda pat, rec: both(eq(E, o, arg(pat), qv), eq(E, o, ident(rec), arg(9))))
                    elif q[0] == 'adt':
                        p.remove(lambda pat, rec: eq(E, o, ident(rec), arg(9)))
                    else:
                        p.need(False, 'reads-scope', 'an unsubscription ignores its topic')
                    for s in p.subs:
                        if s[2] == 'unknown':
                            # presence may only depend on what was compared: seen or not, it must be seen as decided
                            seen = [e for e, sp in p.d if copy_of(e[4]) == 7 and copy_of(e[3]) == s[1]]
                            p.need(match(s[0], 6) is False, 'unsubscribe-compares', 'an unsubscription does not find out whether a subscription is meant')
                            s[2] = 'out' if not seen else 'in'
                    pub(7, 6)
                p.finish()
    ctx.sample('%d broker paths compared with the simulation' % n)


def both(a, b):
    if a is False or b is False:
        return False
    if a is None or b is None:
        return None
    return True
