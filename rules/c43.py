"""The message bus: registrations for two message types, published to, unregistered from and published to again, under each delivery
strategy.  On every path the deliveries made must be those the facts of the path call for (see fanout)."""
from .lib import *
from .fanout import *

CR = 'kameo_actors'


def check(ctx):
    F = ctx.facts(CR)
    n = 0
    opts = dict(crate=CR, keep=('deliver', 'spawn', 'spawned', 'panic'), cap=9, maps=True, kapi=True, max_same=9, spawn='inline')
    for mode, setup in strategies(F):
        for scen in ('mb_publish', 'mb_unreg'):
            r = ctx.run(scen, setup=setup, **opts)
            E = r.E
            for o in r.outs:
                n += 1
                p = Pub(ctx, E, o, '%s-%s' % (mode, scen[3:]), mode)

                def notice(F, key, rec, msg):
                    msg = strip(msg)
                    return is_adt(F, msg, 'kameo_actors::message_bus::Unregister') and any(same(collapse(x), ident(rec)) for x in msg[3])
                p.add('M', 2)
                p.add('M', 3)
                p.add('N', 4)
                if scen == 'mb_publish':
                    p.publish(5, lambda k: k == 'M', notice)
                    p.publish(7, lambda k: k == 'N', notice)
                    p.publish(6, lambda k: k == 'M', notice)
                else:
                    p.remove(lambda k, rec: False if k == 'N' else eq(E, o, ident(rec), arg(7)))
                    for s in p.subs:
                        p.need(s[2] != 'unknown', 'unregister-compares', 'an unregistration does not find out whether a registration is meant')
                    p.publish(5, lambda k: k == 'M', notice)
                    p.publish(6, lambda k: k == 'N', notice)
                p.finish()
    ctx.sample('%d bus paths compared with the simulation' % n)
