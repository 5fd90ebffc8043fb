"""Which waits are bounded by which deadline, over every path of all tell, ask, enqueue and forward variants.  Obligations:
a mailbox timeout is the duration of the bounded send (and of nothing else); without one the send waits without deadline;
immediate variants use the non-waiting send; a reply timeout bounds exactly the wait on this request's reply channel with the
configured duration, and no deadline is imposed on the reply without one; both builder orders behave alike."""
from .requests import *


def check(ctx):
    for tab in (TELL, ASK, ENQ, FWD):
        for name, spec in tab.items():
            how, mt = spec[0], spec[1]
            rt = spec[2] if len(spec) > 2 else None
            r = ctx.run(name, keep=keep)
            rep = {'tell': 'none', 'ask': 'fresh', 'enq': 'fresh', 'fwd': 2}[name.lstrip('r').split('_')[0]]
            for o, tag, s in delivered(ctx, r, name, how, mt, reply=rep, what=('timeout',)):
                if tag == 'ok' and len(spec) > 2:
                    reply(ctx, r, name, o, s, o.value, rt, ('timeout',))
                else:
                    ctx.need(not events(o, 'elapsed', 'timeout'), 'no-other-deadline', name, 'a further deadline is imposed', o, r.E)
