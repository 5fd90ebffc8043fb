"""Captured failures.  PanicError is built from a value of any type, read by text, by downcast at its own and at other types, cloned,
with the inner lock free or poisoned by an earlier reader: no reader ever panics by itself, text is found for str and String (panics
and errors), the own type is found and other types are not.  Over the whole lifecycle every failure of the start and stop hook is
recorded once for waiters and reported once to the error hook with that same failure; setting and invoking the error hook use the
same slot."""
from . import proto
from .life import *

# scenario -> is a value found
READ = {'pe_own_type': ('some', 0), 'pe_other_type': ('none', 0), 'pe_panic_str': ('some', 0), 'pe_panic_string': ('some', 0), 'pe_error_string': ('some', 0),
        'pe_other_str': ('none', 0)}


def check(ctx):
    F = ctx.facts()
    proto.lifecycle(ctx, {'reported-once', 'startup-result', 'shutdown-result'})
    poisoned = 0
    for name, (want, src) in READ.items():
        r = ctx.run(name, keep=('call', 'panic', 'poisoned'), poison=True)
        for o in r.outs:
            poisoned += bool(events(o, 'poisoned'))
            if o.kind == 'panic':
                p = events(o, 'panic')[-1]
                ctx.need(p[1] == 'fnptr', 'readers-never-panic', name, 'reading a captured failure panics' + (' after an earlier reader did' if events(o, 'poisoned') else ''), o, r.E)
                continue
            cb = callv(o, 'fnptr')
            if want == 'none':
                ctx.need(is_none(o.value) and not cb, 'found-iff-of-that-type', name, 'a failure is found at a type it does not have', o, r.E)
            else:
                v = some(o.value)
                ctx.need(v is not None and len(cb) == 1 and same(v, cb[0][3]) and from_arg(cb[0][2][1], 0), 'found-iff-of-that-type', name,
                         'the captured failure is not found' if v is None else 'the reader is given something else', o, r.E)
    ctx.need(poisoned > 0, 'readers-never-panic', 'poisoned lock', 'no path reads behind a poisoned lock (the lock is not there)')
    for name in ('pe_with', 'pe_downcast_ref', 'pe_panic_other', 'pe_clone_type', 'pe_clone'):
        r = ctx.run(name, keep=('call', 'panic', 'poisoned', 'clone'), poison=True)
        n = 0
        for o in r.outs:
            if o.kind == 'panic':
                p = events(o, 'panic')[-1]
                ctx.need(p[1] == 'fnptr' or 'Clone' in p[1], 'readers-never-panic', name, 'reading a captured failure panics', o, r.E)
                continue
            n += 1
            if name == 'pe_with':
                cb = callv(o, 'fnptr')
                ctx.need(len(cb) == 1 and same(o.value, cb[0][3]) and of_arg(cb[0][2][1], 0), 'reader-sees-the-failure', name, 'the reader is not called exactly once on the captured failure', o, r.E)
            elif name == 'pe_clone_type':
                ctx.need(some(o.value) is not None and of_clone(some(o.value)), 'reader-sees-the-failure', name, 'the own type is not found', o, r.E)
            elif name == 'pe_panic_other':
                cb = callv(o, 'fnptr')
                ctx.need(some(o.value) is not None and len(cb) == 1, 'reader-sees-the-failure', name, 'the payload of a panic is lost', o, r.E)
        ctx.need(n > 0, 'reader-sees-the-failure', name, 'no path returns')
    # the error hook
    slot = {}
    for name, op in (('hook_set', 'store'), ('hook_invoke', 'load')):
        r = ctx.run(name, keep=('call', 'panic'))
        for o in r.outs:
            for e in events(o, 'call'):
                if 'tomic' in e[1] and e[1].endswith(('::store', '::swap', '::load')) or 'OnceLock' in e[1] or 'RwLock' in e[1] or 'Mutex' in e[1]:
                    slot.setdefault(name, set()).update(b for b in bases(e[2][0]) if b[0] == 'static')
            if name == 'hook_invoke':
                cb = callv(o, 'fnptr')
                ctx.need(len(cb) == 1 and same(strip(cb[0][2][1]), strip(arg(0))) or len(cb) == 1 and of_arg(cb[0][2][1], 0), 'error-hook-called', name, 'the error hook is not called exactly once with the failure', o, r.E)
            else:
                st = [e for e in events(o, 'call') if any(of_arg(a, 0) for a in e[2][1:])]
                ctx.need(len(st) >= 1, 'error-hook-set', name, 'the hook given is not stored', o, r.E)
    ctx.need(bool(slot.get('hook_set')) and slot.get('hook_set') == slot.get('hook_invoke'), 'error-hook-set', 'slot', 'setting and invoking the error hook use different places: %s' % slot)
    ctx.assume('reader callbacks and user Clone impls may panic; that panic is theirs')


def of_clone(v):
    return all(b == ('arg', 0) or b[0] == 'app' for b in bases(v))


def from_arg(v, i):
    """the argument, or what a projection of it (a string's text) gives"""
    b = [x for x in bases(v) if x[0] != 'app']
    return bool(b) and all(x == ('arg', i) for x in b) or of_arg(v, i)
