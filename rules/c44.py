"""The pub-sub: a filtered and an unfiltered subscriber (in both orders, by call and by message, possibly the same actor twice),
published to twice.  On every path the deliveries made must be those the filters and the facts of the path call for (see fanout)."""
from .lib import *
from .fanout import *

CR = 'kameo_actors'


def check(ctx):
    F = ctx.facts(CR)
    n = 0
    opts = dict(crate=CR, keep=('deliver', 'spawn', 'spawned', 'panic', 'call'), cap=9, maps=True, kapi=True, max_same=9, hook_panics=False)
    for scen, order in (('ps_publish', (0, 1)), ('ps_default', (1, 0)), ('ps_messages', (0, 1))):
        r = ctx.run(scen, **opts)
        E = r.E
        for o in r.outs:
            n += 1
            p = Pub(ctx, E, o, scen[3:], 'Guaranteed')
            twice = eq(E, o, ident(0), ident(1))
            if not p.need(twice is not None, 'compares-subscribers', 'subscribing does not find out whether the actor is subscribed already'):
                continue
            for a in order:
                if twice:
                    for s in p.subs:
                        s[2] = 'out'        # subscribing again replaces the subscription
                p.add('filtered' if a == 0 else 'all', a)

            def accepted(m):
                res = []
                for e in events(o, 'call'):
                    if e[1] in ('fnptr', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call') and e[2] and copy_of(e[2][0]) == 2:
                        if any(copy_of(x) == m or (strip(x)[0] == 'tup' and any(copy_of(y) == m for y in strip(x)[1])) for x in e[2][1:]):
                            v = E.norm(o.st, e[3])
                            res.append(bool(v[1]) if v[0] == 'int' else None)
                return res
            for m in (3, 4):
                res = accepted(m)
                p.need(len(res) <= 1, 'filter-asked-once', 'a filter is asked more than once about one message')
                p.publish(m, lambda k: True if k == 'all' else (res[0] if res else None), lambda *a: False)
            p.finish()
    ctx.sample('%d pub-sub paths compared with the simulation' % n)
