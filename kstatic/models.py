"""Library contracts used by the abstract interpreter (std, tokio, futures): what each call may return and do."""
from . import engine as EN

OPT, RES, POLL, PIN = 'core::option::Option', 'core::result::Result', 'core::task::poll::Poll', 'core::pin::Pin'
ME = 'tokio::sync::mpsc::error::'
FN_CALLS = {'core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once'}
FUT_ADTS = ('tokio::time::timeout::Timeout', 'futures_util::', 'tokio::future::maybe_done::MaybeDone', 'core::future::ready::Ready',
            'tokio::task::task_local::TaskLocalFuture', 'tokio::time::sleep::Sleep')

MODELS = {}
AWAIT = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def awaits(*names):
    def d(f):
        for n in names:
            AWAIT[n] = f
        return f
    return d


def lookup(n, c):
    m = MODELS.get(n)
    if m is not None:
        return m
    if c['n'] in FN_CALLS:
        return fn_call
    if c['n'] == 'core::future::future::Future::poll':
        if 'i' in c:
            return None
        return m_poll
    if c['n'] == 'core::clone::Clone::clone' and 'i' not in c:
        return m_clone
    if c['n'] in ('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut') and 'i' not in c:
        return m_deref
    if c['n'] == 'core::cmp::PartialEq::eq' and 'i' not in c:
        return m_eq
    if c['n'] == 'core::cmp::PartialEq::ne' and 'i' not in c:
        return m_ne
    m = ITERS_LOOKUP(n, c)
    if m is not None:
        return m
    if c['n'] == 'core::iter::traits::iterator::Iterator::next' and 'i' not in c:
        return m_next
    if c['n'] == 'core::iter::traits::collect::IntoIterator::into_iter' and 'i' not in c:
        return m_into_iter
    if n.startswith('tracing'):
        return m_pure
    if n.startswith(PURE_PREFIX) or (n.endswith(PURE_SUFFIX) and 'i' not in c):
        return m_pure
    last = n.rsplit('::', 1)[-1]
    if last in ITERS and n.startswith(COLL_PREFIX):
        return m_iter
    return None


PURE_PREFIX = ('core::fmt::', 'alloc::fmt::', 'core::any::type_name', 'core::time::', 'core::panic::location', 'str::', 'u64::', 'u8::', 'u32::',
               'usize::', 'core::str::', 'core::any::TypeId', 'core::panicking::todo_default', 'core::panicking::unreachable_default',
               'core::mem::size_of', 'core::hint::', 'alloc::string::String::into_bytes', 'alloc::string::String::as_str', 'alloc::borrow::Cow::into_owned',
               'alloc::string::String::new', 'core::intrinsics::discriminant_value', '*const T::cast', 'core::fmt::rt', 'core::any::type_name_of_val',
               'core::num::', 'alloc::string::String::as_bytes', 'i64::', 'i32::', 'u16::', 'u128::', 'tokio::time::instant', 'std::time::Instant',
               'alloc::vec::Vec::as_slice', 'core::cmp::Ord::', 'core::cmp::PartialOrd::')
PURE_SUFFIX = ('alloc::string::ToString>::to_string', 'core::fmt::Display>::fmt', 'core::fmt::Debug>::fmt', 'core::hash::Hash>::hash',
               'alloc::borrow::ToOwned>::to_owned', 'core::convert::From>::from', 'core::default::Default>::default', 'core::convert::AsRef>::as_ref',
               'core::cmp::Ord>::cmp', 'core::cmp::PartialOrd>::partial_cmp', 'core::borrow::Borrow>::borrow')
ITERS = {'iter', 'iter_mut', 'drain', 'into_iter', 'values', 'values_mut', 'keys', 'into_values', 'into_keys'}
COLL_PREFIX = ('std::collections', 'alloc::collections', 'alloc::vec', '[T]', 'core::slice', 'linkme', '<linkme', 'hashbrown', 'core::option')
HOOKS = ('kameo::actor::Actor::on_', 'kameo::actor::Actor::next', 'kameo::message::Message::handle', 'kameo::message::DynMessage::handle_dyn',
         'core::ops::function::')


def is_user_hook(c):
    n = c['n']
    if c.get('rk') == 'virtual':
        return n.startswith(HOOKS)
    return 'rn' not in c and n.startswith(HOOKS)


def is_future_ty(E, ty):
    t = E.F.types[ty]
    if t['k'] in ('coroutine', 'opaque'):
        return True
    if t['k'] == 'alias':
        x = t.get('s') or ''
        return x.startswith('impl core::future') or x.endswith('::IntoFuture>::IntoFuture') or x == ''
    if t['k'] == 'adt' and t['n'].startswith(FUT_ADTS):
        return True
    return False


def dv(E, st, v):
    """value behind any number of references"""
    v = E.norm(st, v)
    n = 0
    while v[0] in ('ref', 'dref') and n < 6:
        v = E.read(st, v[1], v[2])
        n += 1
    return v


def deepdv(E, st, v, d=0):
    v = dv(E, st, v)
    if d < 4 and v[0] in ('adt',):
        return ('adt', v[1], v[2], tuple(deepdv(E, st, x, d + 1) for x in v[3]))
    if d < 4 and v[0] in ('tup', 'arr'):
        return (v[0], tuple(deepdv(E, st, x, d + 1) for x in v[1]))
    return v


def setref(E, st, r, v):
    r = E.norm(st, r)
    if r[0] == 'adt' and r[1] == PIN:
        r = r[3][0]
    root, path = E.deref(st, r)
    E.write(st, root, path, v)


# ---------------------------------------------------------------------- ops
def apply_op(E, st, op, v, ctx):
    k = op[0]
    if k == 'stop':
        return ('states', [EN.Outcome('ret', v, st)])
    if k == 'ready':
        return ('val', EN.READY(v))
    if k == 'ok':
        return ('val', EN.OK(v))
    if k == 'err':
        return ('val', EN.ERR(v))
    if k == 'some':
        return ('val', EN.SOME(v))
    if k == 'catch':
        return ('val', EN.OK(v))
    if k in ('abortable', 'timeout', 'pollfn'):
        return ('val', v)
    if k == 'const':
        return ('val', op[1])
    if k == 'killpend':
        if v[0] == 'adt' and v[1] == POLL and v[2] == 1:
            return ('states', [])
        return ('val', v)
    if k == 'unready':
        if v[0] == 'adt' and v[1] == POLL:
            if v[2] == 1:
                return ('states', [])
            return ('val', v[3][0])
        return ('val', ('sym', ('fld', ('val', v), 0, 0)))
    if k == 'put':
        E.write(st, op[1], op[2], v)
        return ('val', op[3])
    if k == 'ev':
        E.emit(st, op[1] + (v,), op[2])
        return ('val', v)
    if k == 'unscope':
        if op[2] is None:
            st.mem.pop(op[1], None)
        else:
            st.mem[op[1]] = op[2]
        return ('val', v)
    if k == 'mapcall':
        # op: ('mapcall', which, f)  which in 'all','ok','err'
        which, f = op[1], op[2]
        if which == 'all':
            return ('states', E.invoke(st, f, [v], ctx, None, None))
        v = E.norm(st, v)
        outs = []
        alts = [v]
        if v[0] == 'sym':
            alts = [E.expand(v[1], RES, 0), E.expand(v[1], RES, 1)]
        for a in alts:
            s = st.fork() if len(alts) > 1 else st
            if v[0] == 'sym' and not E.refine(s, v[1], a):
                continue
            hit = a[2] == (0 if which == 'ok' else 1)
            if hit:
                c2 = (ctx[0], ctx[1], ctx[2], ((which,),) + ctx[3])
                outs += E.invoke(s, f, [a[3][0]], c2, None, None)
            else:
                outs += E.finish(s, a, ctx)
        return ('states', outs)
    if k == 'thenpoll':
        return ('states', poll_val(E, st, v, ctx))
    if k == 'fupd':
        # the closure of fetch_update: Some(new) is stored if the variable still holds the value it was given
        cell, old, res, loc = op[1:]
        v = E.norm(st, v)
        outs = []
        alts = [v] if v[0] == 'adt' else [EN.NONE(), E.expand(v[1], OPT, 1)]
        for a in alts:
            s = st.fork() if len(alts) > 1 else st
            if v[0] == 'sym' and not E.refine(s, v[1], a):
                continue
            if a[2] == 1:
                E.emit(s, ('call', 'core::sync::atomic::Atomic::compare_exchange', (cell, old, a[3][0]), res, ()), loc)
                s.facts[res[1]] = EN.OK(old)
                outs += E.finish(s, EN.OK(old), ctx)
            else:
                outs += E.finish(s, EN.ERR(old), ctx)
        return ('states', outs)
    raise AssertionError(op)


def unwind_op(E, st, op, payload, ctx):
    if op[0] == 'stop':
        return [EN.Outcome('panic', payload, st)]
    if op[0] == 'spawned':
        E.emit(st, ('spawned', op[1], 'panic'), op[2])
        return E.finish(st, op[1], ctx)
    if op[0] == 'catch':
        E.emit(st, ('caught', payload), None)
        return E.finish(st, EN.ERR(payload), ctx)
    if op[0] == 'unscope':
        if op[2] is None:
            st.mem.pop(op[1], None)
        else:
            st.mem[op[1]] = op[2]
    return None


# ---------------------------------------------------------------------- opaque calls
def opaque(E, st, n, c, args, ctx, dty, loc, user=False):
    if n not in AWAIT:
        E.unknown[n] = E.unknown.get(n, 0) + 1
    evargs = tuple(E.ev_arg(st, a) for a in args)
    targs = tuple(x for x in c.get('a', []) if isinstance(x, int))
    if ctx[1] is None:
        E.emit(st, ('panic', n, evargs), loc)
        return E.unwind_to(st, ctx, E.fresh(st, 'panic'))
    r = E.fresh(st)
    outs = []
    if dty is not None:
        t = E.F.types[dty]
        if t['k'] == 'never':
            E.emit(st, ('panic', n, evargs), loc)
            return E.unwind_to(st, ctx, E.fresh(st, 'panic'))
        if t['k'] == 'tuple' and not t['a']:
            res = EN.UNIT
        elif is_future_ty(E, dty):
            res = ('fut', n, tuple(args), r[1])
        else:
            res = r
    else:
        res = r
    E.emit(st, ('call', n, evargs, r, targs), loc)
    if E.muts is not None and E.muts[0] is args:
        for a, mut in zip(args, E.muts[1]):
            if mut:
                forget(E, st, a, 'kameo' not in n and not n.endswith('Drop>::drop') and not user)
    if user and E.hook_panics and res[0] != 'fut' and not E.no_panic(n):
        s2 = st.fork()
        E.emit(s2, ('panic', n, evargs), loc)
        outs += E.unwind_to(s2, ctx, E.fresh(s2, 'panic'))
    if res[0] != 'fut':
        for s in havoc(E, st, n, args):
            outs += E.finish(s, res, ctx)
        return outs
    outs += E.finish(st, res, ctx)
    return outs


def forget(E, st, a, all_=False):
    """a collection (or, handed to a library, any known value) handed out by mutable reference to code that is not followed holds anything afterwards"""
    a = E.norm(st, a)
    if a[0] != 'ref':
        return
    r, p = a[1], a[2]
    for _ in range(4):
        v = E.read(st, r, p)
        if v[0] == 'box':
            p = p + (('b',),)
        elif v[0] in ('coll', 'map', 'iter', 'adapt') or all_ and v[0] in ('adt', 'tup', 'int', 'arr', 'str', 'upd'):
            E.write(st, r, p, E.fresh(st, 'any'))
            return
        else:
            return


# ---------------------------------------------------------------------- futures
def m_poll(E, st, n, c, args, ctx, dty, loc):
    return poll(E, st, args[0], ctx, 'Await' in (loc or ''))


MODELS['futures_util::future::future::FutureExt::poll_unpin'] = m_poll


def poll(E, st, pv, ctx, aw):
    v = E.norm(st, pv)
    while v[0] == 'adt' and v[1] == PIN:
        v = E.norm(st, v[3][0])
    if v[0] in ('ref', 'dref'):
        root, path = v[1], v[2]
    else:
        root = ('T', len(st.frames), 'poll')
        path = ()
        st.mem[root] = v
    n = 0
    while n < 12:
        n += 1
        x = E.read(st, root, path)
        if x[0] == 'adt' and x[1] == PIN:
            path = path + (('f', 0, 0),)
        elif x[0] in ('ref', 'dref'):
            root, path = x[1], x[2]
        elif x[0] == 'box':
            path = path + (('b',),)
        else:
            break
    x = E.read(st, root, path)
    while x[0] == 'dynv':
        x = E.norm(st, x[1])
        if x[0] in ('box',):
            x = E.norm(st, x[1])
    outs = []
    if not aw and pendable(x):
        s2 = st.fork()
        outs += E.finish(s2, EN.PENDING, ctx)
    if x[0] == 'moved':
        # polled again after completion: cannot happen in well-formed async code
        return outs
    ctx2 = (ctx[0], ctx[1], ctx[2], (('ready',),) + ctx[3])
    if E.cancel and not aw and x[0] == 'cor':
        ctx2 = (ctx[0], ctx[1], ctx[2], (('part',), ('ready',)) + ctx[3])
    if x[0] == 'fut' and x[1] == 'maybe_done':
        E.write(st, root, path, EN.MOVED)
        ctx2 = (ctx[0], ctx[1], ctx[2], (('put', root, path, EN.UNIT),) + (('ready',),) + ctx[3])
        inner = x[2][0]
        c3 = (ctx2[0], ctx2[1], ctx2[2], (('mkdone',),) + ctx2[3])
        return outs + poll_val(E, st, inner, c3)
    if x[0] == 'done':
        return outs + E.finish(st, EN.READY(EN.UNIT), ctx)
    if x[0] == 'adt' and x[1] == 'core::future::poll_fn::PollFn':
        ops = (('pollfn',),) + ((('killpend',),) if aw else ()) + ctx[3]
        f = ('ref', root, path + (('f', 0, 0),))
        return outs + E.invoke(st, f, [('sym', ('cx',))], (ctx[0], ctx[1], ctx[2], ops), None, None)
    if x[0] != 'sym' and x[0] != 'adt':
        E.write(st, root, path, EN.MOVED)
    return outs + poll_val(E, st, x, ctx2)


def pendable(x):
    return x[0] in ('cor', 'fut', 'sym')


_orig_apply = apply_op


def apply_op(E, st, op, v, ctx):   # noqa: F811
    h = IT.OPS.get(op[0])
    if h is not None:
        return ('states', h(E, st, op, v, ctx))
    if op[0] == 'mkdone':
        return ('val', ('done', v))
    if op[0] == 'spawned':
        E.emit(st, ('spawned', op[1], 'ret'), op[2])
        return ('val', op[1])
    if op[0] == 'part':
        return ('val', v)
    return _orig_apply(E, st, op, v, ctx)


def poll_val(E, st, x, ctx):
    """run a future value to completion; delivers the bare output"""
    x = E.norm(st, x)
    while x[0] in ('box', 'dynv') or (x[0] == 'adt' and x[1] in (PIN, 'core::panic::unwind_safe::AssertUnwindSafe')):
        x = E.norm(st, x[3][0] if x[0] == 'adt' else x[1])
    ops = ctx[3]

    def w(*o):
        return (ctx[0], ctx[1], ctx[2], tuple(o) + ops)
    if x[0] == 'cor':
        if x[1] is not None and x[1] in E.F._lines and E.depth_ok(st, x[1]):
            return [E.push(st, x[1], [x, EN.UNIT], *ctx)]
        return opaque(E, st, 'await:' + x[2], {'n': x[2], 'a': []}, [x], ctx, None, None)
    if x[0] in ('ref', 'dref'):
        c2 = (ctx[0], ctx[1], ctx[2], (('unready',),) + ops)
        return poll(E, st, x, c2, True)
    if x[0] == 'fut':
        n = x[1]
        a = x[2]
        if n == 'timeout':
            outs = []
            s2 = st.fork()
            E.emit(s2, ('elapsed', E.ev_arg(s2, a[0]), a[1]), None)
            E.drop_value(s2, a[1], None, 'cancel')
            outs += E.finish(s2, EN.ERR(('sym', ('const', 'elapsed'))), ctx)
            E.emit(st, ('timeout', E.ev_arg(st, a[0]), a[1]), None)
            return outs + poll_val(E, st, a[1], w(('timeout',), ('ok',)))
        if n == 'catch_unwind':
            return poll_val(E, st, a[0], w(('catch',)))
        if n == 'abortable':
            outs = []
            s2 = st.fork()
            E.emit(s2, ('aborted', E.ev_arg(s2, a[1])), None)
            E.drop_value(s2, a[0], None, 'cancel')
            E.emit(st, ('abortable', E.ev_arg(st, a[1])), None)
            if E.abortable == 'only':
                return poll_val(E, st, a[0], w(('stop',)))
            outs += E.finish(s2, EN.ERR(('adt', 'futures_util::abortable::Aborted', 0, ())), ctx)
            if E.abortable == 'opaque':
                r = E.loop_value or E.fresh(st, 'c')
                E.emit(st, ('loopres', r), None)
                return outs + E.finish(st, EN.OK(r), ctx)
            return outs + poll_val(E, st, a[0], w(('abortable',), ('ok',)))
        if n == 'map':
            return poll_val(E, st, a[0], w(('mapcall', 'all', a[1])))
        if n == 'map_err':
            return poll_val(E, st, a[0], w(('mapcall', 'err', a[1])))
        if n == 'map_ok':
            return poll_val(E, st, a[0], w(('mapcall', 'ok', a[1])))
        if n == 'then':
            return poll_val(E, st, a[0], w(('mapcall', 'all', a[1]), ('thenpoll',)))
        if n == 'ready':
            return E.finish(st, a[0], ctx)
        if n == 'scope':
            root = ('TL', a[0])
            old = st.mem.get(root)
            st.mem[root] = a[1]
            E.emit(st, ('scope', a[0], a[1]), None)
            return poll_val(E, st, a[2], w(('unscope', root, old)))
        if n == 'stream_all':
            return stream_all(E, st, a[0], a[1], (), a[2], a[3], ctx)
        if n == 'join_all':
            return IT.await_join_all(E, st, tuple(enumerate(a)), (), ctx)
        if n == 'joined':
            return IT.await_join_all(E, st, tuple(enumerate(a[1:])), (), ctx, a[0])
        if n in ('and_then', 'or_else', 'unwrap_or_else'):
            return poll_val(E, st, a[0], w(('onres', n, a[1])))
        if n == 'next':
            return stream_next(E, st, a[0], ctx, x[3])
        if n == 'maybe_done':
            return poll_val(E, st, a[0], w(('const', EN.UNIT)))
        m = AWAIT.get(n)
        if m is not None:
            return cancel_points(E, st) + m(E, st, n, a, ctx, x[3])
        return cancel_points(E, st) + await_opaque(E, st, n, a, x[3], ctx)
    if x[0] == 'sym':
        k = x[1]
        if k[0] == 'rx':
            return cancel_points(E, st) + oneshot_recv(E, st, x, ctx)
        # a oneshot receiver reached through unknown state is recognised by the type of the poll call only; treat as opaque
        return cancel_points(E, st) + await_opaque(E, st, 'sym', (x,), k, ctx)
    if x[0] == 'adt':
        for f in E.F.fns:
            if f.get('tr') == 'core::future::future::Future' and f.get('item') == 'poll' and f.get('impl') is not None:
                t = E.F.types[f['impl']]
                if t['k'] == 'adt' and t['n'] == x[1]:
                    root = ('T', len(st.frames), 'pa')
                    st.mem[root] = x
                    c2 = (ctx[0], ctx[1], ctx[2], (('unready',),) + ops)
                    return [E.push(st, f['i'], [('adt', PIN, 0, (('ref', root, ()),)), ('sym', ('cx',))], *c2)]
    if x[0] == 'moved':
        return []
    return cancel_points(E, st) + await_opaque(E, st, 'val', (x,), ('val', x), ctx)


def cancel_points(E, st):
    """an await under a timeout / abort handle may be its last: cancel there too"""
    if not E.cancel:
        return []
    outs = []
    for j in range(len(st.frames) - 1, -1, -1):
        f = st.frames[j]
        for oi, op in enumerate(f[5]):
            if op[0] == 'part':
                # a branch of a select parks half way and another one wins
                s2 = st.fork()
                E.emit(s2, ('cancelled', 'select'), None)
                E.abort_to(s2, j, None)
                outs += E.finish(s2, EN.PENDING, (f[2], f[3], f[4], f[5][oi + 2:]))
            if op[0] in ('abortable', 'timeout'):
                s2 = st.fork()
                E.emit(s2, ('cancelled', op[0]), None)
                last = E.abort_to(s2, j, None)
                # run scope restorers between
                rest = f[5][oi + 1:]
                if rest and rest[0] == ('ok',):
                    rest = rest[1:]
                err = ('adt', 'futures_util::abortable::Aborted', 0, ()) if op[0] == 'abortable' else ('sym', ('const', 'elapsed'))
                outs += E.finish(s2, EN.ERR(err), (f[2], f[3], f[4], rest))
    return outs


def await_opaque(E, st, n, a, sid, ctx):
    outs = []
    E.emit(st, ('await', n, tuple(E.ev_arg(st, v) for v in a), ('sym', sid)), None)
    if E.hook_panics and n.startswith(HOOKS) and not E.no_panic(n):
        s2 = st.fork()
        E.emit(s2, ('panic', n, ()), None)
        outs += E.unwind_to(s2, ctx, E.fresh(s2, 'panic'))
    for v in a:
        if v[0] not in ('ref', 'dref', 'int', 'str', 'sym'):
            pass
    for s in havoc(E, st, n, a):
        outs += E.finish(s, ('sym', ('aw', sid)), ctx)
    return outs


def havoc(E, st, n, args):
    """what user code may do to the references it was given (rule-supplied)"""
    if E.havoc is None:
        return [st]
    r = E.havoc(E, st, n, args)
    return [st] if r is None else r


def oneshot_recv(E, st, rx, ctx):
    outs = []
    s2 = st.fork()
    E.emit(s2, ('orecv', rx, 'closed'), None)
    outs += E.finish(s2, EN.ERR(('sym', ('const', 'RecvError'))), ctx)
    E.emit(st, ('orecv', rx, 'ok'), None)
    for s in havoc(E, st, 'orecv', [rx]):
        outs += E.finish(s, EN.OK(('sym', ('aw', rx[1]))), ctx)
    return outs


@model('<tokio::sync::oneshot::Receiver as core::future::future::Future>::poll')
def m_oneshot_poll(E, st, n, c, args, ctx, dty, loc):
    v = E.norm(st, args[0])
    while v[0] == 'adt' and v[1] == PIN:
        v = E.norm(st, v[3][0])
    x = dv(E, st, v)
    outs = []
    if 'Await' not in (loc or ''):
        s2 = st.fork()
        outs += E.finish(s2, EN.PENDING, ctx)
    if v[0] in ('ref',):
        E.write(st, v[1], v[2], EN.MOVED)
    for o in [1]:
        c2 = (ctx[0], ctx[1], ctx[2], (('ready',),) + ctx[3])
        outs += cancel_points(E, st) + oneshot_recv(E, st, x, c2)
    return outs


@model('tokio::sync::oneshot::Receiver::blocking_recv')
def m_oneshot_blocking(E, st, n, c, args, ctx, dty, loc):
    return oneshot_recv(E, st, E.norm(st, args[0]), ctx)


@model('tokio::sync::oneshot::channel')
def m_oneshot(E, st, n, c, args, ctx, dty, loc):
    r = E.fresh(st, 'tx')
    k = r[1]
    E.emit(st, ('oneshot', r, ('sym', ('rx',) + k[1:])), loc)
    return E.finish(st, ('tup', (r, ('sym', ('rx',) + k[1:]))), ctx)


@model('tokio::sync::mpsc::bounded::channel', 'tokio::sync::mpsc::unbounded::unbounded_channel')
def m_channel(E, st, n, c, args, ctx, dty, loc):
    r = E.fresh(st, 'tx')
    k = r[1]
    rx = ('sym', ('rx',) + k[1:])
    kind = 'unbounded' if 'unbounded' in n else 'bounded'
    E.emit(st, ('channel', kind, tuple(args), r, rx), loc)
    return E.finish(st, ('tup', (r, rx)), ctx)


@model('futures_util::abortable::AbortHandle::new_pair')
def m_abortpair(E, st, n, c, args, ctx, dty, loc):
    r = E.fresh(st, 'tx')
    return E.finish(st, ('tup', (r, ('sym', ('rx',) + r[1][1:]))), ctx)


@model('tokio::sync::oneshot::Sender::send')
def m_osend(E, st, n, c, args, ctx, dty, loc):
    outs = []
    s2 = st.fork()
    E.emit(s2, ('osend', E.ev_arg(s2, args[0]), args[1], 'closed'), loc)
    outs += E.finish(s2, EN.ERR(args[1]), ctx)
    E.emit(st, ('osend', E.ev_arg(st, args[0]), args[1], 'ok'), loc)
    outs += E.finish(st, EN.OK(EN.UNIT), ctx)
    return outs


def mpsc_outcomes(E, st, n, ch, v, how, errs, ctx, loc, extra=()):
    outs = []
    for tag, mk in errs:
        s2 = st.fork()
        E.emit(s2, ('send', how, E.ev_arg(s2, ch), v, tag) + extra, loc)
        outs += E.finish(s2, EN.ERR(mk(v)), ctx)
    E.emit(st, ('send', how, E.ev_arg(st, ch), v, 'ok') + extra, loc)
    outs += E.finish(st, EN.OK(EN.UNIT), ctx)
    return outs


SE = ('closed', lambda v: ('adt', ME + 'SendError', 0, (v,)))
TF = ('full', lambda v: ('adt', ME + 'TrySendError', 0, (v,)))
TC = ('closed', lambda v: ('adt', ME + 'TrySendError', 1, (v,)))
TT = ('timeout', lambda v: ('adt', ME + 'SendTimeoutError', 0, (v,)))
TTC = ('closed', lambda v: ('adt', ME + 'SendTimeoutError', 1, (v,)))


@model(ME + 'TrySendError::into_inner', ME + 'SendTimeoutError::into_inner')
def m_send_err_inner(E, st, n, c, args, ctx, dty, loc):
    v = E.norm(st, args[0])
    if v[0] == 'adt' and v[3]:
        return E.finish(st, v[3][0], ctx)
    return None


@awaits('tokio::sync::mpsc::bounded::Sender::send')
def a_send(E, st, n, a, ctx, sid):
    return mpsc_outcomes(E, st, n, a[0], a[1], 'async', [SE], ctx, None)


@awaits('tokio::sync::mpsc::bounded::Sender::send_timeout')
def a_send_timeout(E, st, n, a, ctx, sid):
    return mpsc_outcomes(E, st, n, a[0], a[1], 'timeout', [TT, TTC], ctx, None, (a[2],))


@model('tokio::sync::mpsc::bounded::Sender::try_send')
def m_try_send(E, st, n, c, args, ctx, dty, loc):
    return mpsc_outcomes(E, st, n, args[0], args[1], 'try', [TF, TC], ctx, loc)


@model('tokio::sync::mpsc::bounded::Sender::blocking_send')
def m_blocking_send(E, st, n, c, args, ctx, dty, loc):
    return mpsc_outcomes(E, st, n, args[0], args[1], 'blocking', [SE], ctx, loc)


@model('tokio::sync::mpsc::unbounded::UnboundedSender::send')
def m_unb_send(E, st, n, c, args, ctx, dty, loc):
    return mpsc_outcomes(E, st, n, args[0], args[1], 'unbounded', [SE], ctx, loc)


@model('tokio::sync::mpsc::bounded::Sender::downgrade', 'tokio::sync::mpsc::unbounded::UnboundedSender::downgrade', 'alloc::rcs::arc::Arc::downgrade')
def m_downgrade(E, st, n, c, args, ctx, dty, loc):
    v = dv(E, st, args[0])
    E.emit(st, ('call', n, (v,), ('sym', ('app', 'weak', (v,))), ()), loc)
    return E.finish(st, ('sym', ('app', 'weak', (v,))), ctx)


def holds(v, s, depth=0):
    if v == s:
        return True
    if not isinstance(v, tuple) or not v or depth > 40:
        return False
    if isinstance(v[0], str):
        if v[0] in ('int', 'str', 'moved', 'fn', 'ref', 'dref', 'guard'):
            return False
        if v[0] == 'sym':
            # a whole aggregate of which s is a part (not followed through calls: ('app', 'weak', ..) holds nothing)
            k = s[1] if s[0] == 'sym' else None
            while k is not None and k[0] in ('fld',):
                k = k[1]
                if v[1] == k:
                    return True
            return False
    return any(holds(x, s, depth + 1) for x in v if isinstance(x, tuple))


def held(st, s):
    """is a strong handle s (or an aggregate containing it) still owned by this path, or borrowed from its caller"""
    if s[0] in ('sym',):
        k = s[1]
        while k[0] == 'fld':
            k = k[1]
        if k[0] == 'deref' and k[1][0] == 'arg':
            return True
    for r, v in st.mem.items():
        if holds(v, s):
            return True
    return False


@model('tokio::sync::mpsc::bounded::WeakSender::upgrade', 'tokio::sync::mpsc::unbounded::WeakUnboundedSender::upgrade', 'alloc::rcs::arc::Weak::upgrade')
def m_upgrade(E, st, n, c, args, ctx, dty, loc):
    v = dv(E, st, args[0])
    if v[0] == 'sym' and v[1][0] == 'app' and v[1][1] == 'weak':
        s = v[1][2][0]
    else:
        s = ('sym', ('app', 'strong', (v,)))
    outs = []
    if not held(st, s):
        s2 = st.fork()
        E.emit(s2, ('upgrade', v, 'none'), loc)
        outs = E.finish(s2, EN.NONE(), ctx)
    E.emit(st, ('upgrade', v, 'some'), loc)
    return outs + E.finish(st, EN.SOME(s), ctx)


@awaits('tokio::sync::mpsc::bounded::Receiver::recv', 'tokio::sync::mpsc::unbounded::UnboundedReceiver::recv')
def a_recv(E, st, n, a, ctx, sid):
    r = E.fresh(st, 'aw0')
    E.emit(st, ('recv', E.ev_arg(st, a[0]), r), None)
    return E.finish(st, r, ctx)


@awaits('tokio::sync::semaphore::Semaphore::acquire', 'tokio::sync::semaphore::Semaphore::acquire_owned')
def a_acquire(E, st, n, a, ctx, sid):
    E.emit(st, ('await', n, (E.ev_arg(st, a[0]),), ('sym', sid)), None)
    return E.finish(st, EN.OK(('sym', ('aw', sid))), ctx)


# ---------------------------------------------------------------------- future combinators (constructors)
def ctor_fut(kind, *ix):
    def f(E, st, n, c, args, ctx, dty, loc):
        return E.finish(st, ('fut', kind, tuple(args), ('k', kind)), ctx)
    return f


MODELS['tokio::time::timeout::timeout'] = ctor_fut('timeout')
MODELS['futures_util::future::future::FutureExt::catch_unwind'] = ctor_fut('catch_unwind')
MODELS['futures_util::abortable::Abortable::new'] = ctor_fut('abortable')
MODELS['futures_util::future::future::FutureExt::map'] = ctor_fut('map')
MODELS['futures_util::future::future::FutureExt::then'] = ctor_fut('then')
for _x in ('and_then', 'or_else', 'unwrap_or_else'):
    MODELS['futures_util::future::try_future::TryFutureExt::' + _x] = ctor_fut(_x)


def joined(kind):
    def f(E, st, n, c, args, ctx, dty, loc):
        return E.finish(st, ('fut', 'joined', (kind,) + tuple(args), ('k', 'joined')), ctx)
    return f


for _x in ('join', 'join3', 'join4', 'join5'):
    MODELS['futures_util::future::join::' + _x] = joined('tup')
    MODELS['futures_util::future::try_join::try_' + _x] = joined('try_tup')
MODELS['futures_util::future::future::FutureExt::join'] = joined('tup')


def op_onres(E, st, op, v, ctx):
    """the closure given to and_then, or_else or unwrap_or_else of a future"""
    _, kind, f = op
    outs = []
    for s, a in IT.variants(E, st, v, RES, 2):
        if a[2] == (0 if kind == 'and_then' else 1):
            c2 = (ctx[0], ctx[1], ctx[2], ((('thenpoll',),) if kind != 'unwrap_or_else' else ()) + ctx[3])
            outs += E.invoke(s, f, [a[3][0]], c2, None, None)
        else:
            outs += E.finish(s, a[3][0] if kind == 'unwrap_or_else' else a, ctx)
    return outs
MODELS['futures_util::future::try_future::TryFutureExt::map_err'] = ctor_fut('map_err')
MODELS['futures_util::future::try_future::TryFutureExt::map_ok'] = ctor_fut('map_ok')
MODELS['core::future::ready::ready'] = ctor_fut('ready')
MODELS['futures_util::future::ready::ready'] = ctor_fut('ready')
MODELS['tokio::future::maybe_done::maybe_done'] = ctor_fut('maybe_done')


@model('futures_util::abortable::abortable')
def m_abortable(E, st, n, c, args, ctx, dty, loc):
    r = E.fresh(st, 'tx')
    reg = ('sym', ('rx',) + r[1][1:])
    return E.finish(st, ('tup', (('fut', 'abortable', (args[0], reg), ('k', 'abortable')), r)), ctx)


@model('tokio::task::task_local::LocalKey::scope')
def m_scope(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, ('fut', 'scope', (key_of(E, st, args[0]), args[1], args[2]), ('k', 'scope')), ctx)


@model('tokio::task::task_local::LocalKey::sync_scope')
def m_sync_scope(E, st, n, c, args, ctx, dty, loc):
    root = ('TL', key_of(E, st, args[0]))
    old = st.mem.get(root)
    st.mem[root] = args[1]
    return E.invoke(st, args[2], [], (ctx[0], ctx[1], ctx[2], (('unscope', root, old),) + ctx[3]), dty, loc)


def key_of(E, st, v):
    v = E.norm(st, v)
    if v[0] == 'ref':
        return v[1]
    return v


@model('tokio::task::task_local::LocalKey::try_with', 'tokio::task::task_local::LocalKey::with', 'std::thread::local::LocalKey::with',
       'std::thread::local::LocalKey::try_with')
def m_trywith(E, st, n, c, args, ctx, dty, loc):
    key = key_of(E, st, args[0])
    root = ('TL', key)
    outs = []
    trying = n.endswith('try_with')
    if st.mem.get(root) == ('notls',):
        return E.finish(st, EN.ERR(('sym', ('const', 'AccessError'))), ctx)
    if root not in st.mem:
        if trying:
            s2 = st.fork()
            s2.mem[root] = ('notls',)
            E.emit(s2, ('tls', key, 'none'), loc)
            outs += E.finish(s2, EN.ERR(('sym', ('const', 'AccessError'))), ctx)
        elif 'task_local' in n:
            s2 = st.fork()
            E.emit(s2, ('panic', n, ()), loc)
            outs += E.unwind_to(s2, ctx, E.fresh(s2, 'panic'))
        st.mem[root] = ('sym', ('tl', key))
        E.emit(st, ('tls', key, 'some'), loc)
    ops = (('ok',),) if trying else ()
    return outs + E.invoke(st, args[1], [('ref', root, ())], (ctx[0], ctx[1], ctx[2], ops + ctx[3]), None, loc)


@model('futures_util::future::future::FutureExt::boxed', 'futures_util::future::future::FutureExt::boxed_local')
def m_boxed(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, ('adt', PIN, 0, (('box', args[0]),)), ctx)


@model('alloc::boxed::Box::new', 'alloc::boxed::box_new')
def m_boxnew(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, ('box', args[0]), ctx)


@model('alloc::boxed::Box::pin')
def m_boxpin(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, ('adt', PIN, 0, (('box', args[0]),)), ctx)


@model('alloc::boxed::Box::into_pin')
def m_intopin(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, ('adt', PIN, 0, (args[0],)), ctx)


@model('alloc::boxed::Box::leak', 'alloc::boxed::Box::into_raw')
def m_leak(E, st, n, c, args, ctx, dty, loc):
    r = E.fresh(st, 'c')
    root = ('A',) + r[1][1:]
    v = E.norm(st, args[0])
    st.mem[root] = v[1] if v[0] == 'box' else v
    return E.finish(st, ('ref', root, ()), ctx)


@model('tokio::future::maybe_done::MaybeDone::take_output')
def m_take_output(E, st, n, c, args, ctx, dty, loc):
    v = E.norm(st, args[0])
    while v[0] == 'adt' and v[1] == PIN:
        v = E.norm(st, v[3][0])
    x = dv(E, st, v)
    if x[0] == 'done':
        setref(E, st, v, EN.MOVED)
        return E.finish(st, EN.SOME(x[1]), ctx)
    return E.finish(st, EN.NONE(), ctx)


@model('tokio::future::maybe_done::MaybeDone::output_mut')
def m_output_mut(E, st, n, c, args, ctx, dty, loc):
    v = E.norm(st, args[0])
    while v[0] == 'adt' and v[1] == PIN:
        v = E.norm(st, v[3][0])
    x = dv(E, st, v)
    if x[0] == 'done':
        root = ('T', len(st.frames), 'om')
        st.mem[root] = x[1]
        return E.finish(st, EN.SOME(('ref', root, ())), ctx)
    return E.finish(st, EN.NONE(), ctx)


@model('tokio::macros::join::Rotator::num_skip')
def m_zero(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, ('int', 0), ctx)


@model(*['<%s as core::default::Default>::default' % t for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')])
def m_default_int(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, ('int', 0), ctx)


@model('tokio::macros::support::thread_rng_n')
def m_rng(E, st, n, c, args, ctx, dty, loc):
    k = E.norm(st, args[0])
    if k[0] != 'int':
        return None
    outs = []
    for i in range(k[1]):
        outs += E.finish(st.fork(), ('int', i), ctx)
    return outs


@model('tokio::macros::support::poll_budget_available', 'tokio::task::coop::poll_budget_available')
def m_budget(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, EN.READY(EN.UNIT), ctx)


# ---------------------------------------------------------------------- tasks
@model('tokio::task::spawn::spawn', 'tokio::task::local::spawn_local', 'tokio::runtime::handle::Handle::spawn', 'tokio::runtime::runtime::Runtime::spawn')
def m_spawn(E, st, n, c, args, ctx, dty, loc):
    fut = args[-1]
    r = E.fresh(st)
    E.emit(st, ('spawn', 'task', fut, r), loc)
    outs = []
    if E.spawn == 'inline':
        # the task runs to its end right here (for tasks that share nothing with their spawner)
        tl = tuple((k, v) for k, v in st.mem.items() if k[0] == 'TL')       # a new task has no task-locals
        for k, _ in tl:
            st.mem.pop(k)
        return poll_val(E, st, fut, (ctx[0], ctx[1], ctx[2], (('spawned', r, loc),) + tuple(('unscope', k, v) for k, v in tl) + ctx[3]))
    if E.spawn in ('follow', 'only'):
        s2 = st.fork()
        s2.frames = []
        s2.flags = s2.flags + ('task',)
        s2.mem = {k: v for k, v in s2.mem.items() if not isinstance(k[0], int) and k[0] != 'TL'}
        outs += poll_val(E, s2, fut, (None, None, None, ()))
    if E.spawn != 'only':
        outs += E.finish(st, r, ctx)
    return outs


@model('std::thread::builder::Builder::spawn', 'std::thread::functions::spawn', 'std::thread::spawn', 'tokio::task::blocking::spawn_blocking')
def m_spawn_thread(E, st, n, c, args, ctx, dty, loc):
    clo = args[-1]
    r = E.fresh(st)
    E.emit(st, ('spawn', 'thread', clo, r), loc)
    outs = []
    if E.spawn in ('follow', 'only'):
        s2 = st.fork()
        s2.frames = []
        s2.flags = s2.flags + ('task',)
        s2.mem = {k: v for k, v in s2.mem.items() if not isinstance(k[0], int) and k[0] != 'TL'}
        outs += E.invoke(s2, clo, [], (None, None, None, ()), None, loc)
    if E.spawn != 'only':
        res = r
        t = E.F.types[dty] if dty is not None else {}
        outs += E.finish(st, res, ctx)
    return outs


@model('tokio::runtime::handle::Handle::block_on', 'tokio::runtime::runtime::Runtime::block_on', 'futures_executor::local_pool::block_on')
def m_block_on(E, st, n, c, args, ctx, dty, loc):
    E.emit(st, ('block_on', args[-1]), loc)
    return poll_val(E, st, args[-1], ctx)


# ---------------------------------------------------------------------- locks, arcs
@model('alloc::rcs::arc::Arc::new', 'alloc::rcs::rc::Rc::new')
def m_arc_new(E, st, n, c, args, ctx, dty, loc):
    r = E.fresh(st, 'c')
    root = ('A', r)
    st.mem[root] = args[0]
    return E.finish(st, ('arc', root), ctx)


@model('tokio::sync::mutex::Mutex::new', 'std::sync::poison::mutex::Mutex::new', 'tokio::sync::rwlock::RwLock::new', 'core::cell::RefCell::new',
       'core::cell::Cell::new')
def m_mutex_new(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, ('adt', 'Mutex', 0, (args[0],)), ctx)


def mk_guard(E, st, ref, loc, how, c=None):
    root, path = E.deref(st, ref)
    g = ('guard', root, path)
    E.emit(st, ('lock', E.lock_ident(st, g), how) + ((next((x for x in c['a'] if isinstance(x, int)), None),) if c else ()), loc)
    return g


@awaits('tokio::sync::mutex::Mutex::lock', 'tokio::sync::rwlock::RwLock::read', 'tokio::sync::rwlock::RwLock::write')
def a_lock(E, st, n, a, ctx, sid):
    return E.finish(st, mk_guard(E, st, a[0], None, 'async'), ctx)


@model('tokio::sync::mutex::Mutex::blocking_lock')
def m_blocking_lock(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, mk_guard(E, st, args[0], loc, 'blocking', c), ctx)


@model('std::sync::poison::mutex::Mutex::lock')
def m_std_lock(E, st, n, c, args, ctx, dty, loc):
    outs = []
    if E.poison:
        s2 = st.fork()
        E.emit(s2, ('poisoned',), loc)
        outs = E.finish(s2, EN.ERR(('adt', 'std::sync::poison::PoisonError', 0, (mk_guard(E, s2, args[0], loc, 'std', c), ('int', 0)))), ctx)
    return outs + E.finish(st, EN.OK(mk_guard(E, st, args[0], loc, 'std', c)), ctx)


@model('std::sync::poison::PoisonError::get_ref', 'std::sync::poison::PoisonError::get_mut')
def m_poison_ref(E, st, n, c, args, ctx, dty, loc):
    root, path = E.deref(st, args[0])
    return E.finish(st, ('ref', root, path + (('f', 0, 0),)), ctx)


@model('std::sync::poison::PoisonError::into_inner')
def m_poison_into(E, st, n, c, args, ctx, dty, loc):
    v = E.norm(st, args[0])
    return E.finish(st, v[3][0], ctx) if v[0] == 'adt' else None


@model('core::intrinsics::transmute')
def m_transmute(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, args[0], ctx)


@model('downcast_rs::Downcast::as_any', 'downcast_rs::Downcast::as_any_mut', 'downcast_rs::Downcast::into_any', 'downcast_rs::DowncastSync::into_any_arc')
def m_as_any(E, st, n, c, args, ctx, dty, loc):
    # the reference (or box) itself, now to dyn Any: the concrete type behind it is unchanged
    v = E.norm(st, args[0])
    if n.endswith(('into_any', 'into_any_arc')):
        return E.finish(st, v, ctx)
    if v[0] == 'dref':
        return E.finish(st, v, ctx)
    self_ty = next((a for a in c['a'] if isinstance(a, int)), None)
    if self_ty is None:
        return None
    if v[0] == 'ref' and E.F.types[self_ty]['k'] == 'dyn':
        x = E.read(st, v[1], v[2])
        if x[0] == 'dynv':
            return E.finish(st, ('dref', v[1], v[2], x[2], x[3]), ctx)
        return E.finish(st, v, ctx)
    if v[0] == 'ref' and E.F.types[self_ty]['k'] != 'dyn':
        return E.finish(st, ('dref', v[1], v[2], self_ty, None), ctx)
    return E.finish(st, v, ctx)


@model('tokio::sync::mutex::Mutex::try_lock')
def m_try_lock(E, st, n, c, args, ctx, dty, loc):
    s2 = st.fork()
    E.emit(s2, ('trylock', 'fail'), loc)
    outs = E.finish(s2, EN.ERR(('sym', ('const', 'TryLockError'))), ctx)
    return outs + E.finish(st, EN.OK(mk_guard(E, st, args[0], loc, 'try')), ctx)


# ---------------------------------------------------------------------- values
def m_clone(E, st, n, c, args, ctx, dty, loc):
    v = dv1(E, st, args[0])
    if 'rn' not in c:
        E.emit(st, ('clone', v), loc)
        return E.finish(st, ('sym', ('app', 'clone', (v,))), ctx)
    if n.startswith(('<alloc::rcs::arc::Arc', '<tokio::sync::mpsc')):
        E.emit(st, ('dup', n, v), loc)
    if v[0] == 'moved':
        return []
    return E.finish(st, v, ctx)


def dv1(E, st, v):
    v = E.norm(st, v)
    if v[0] in ('ref', 'dref'):
        return E.read(st, v[1], v[2])
    if v[0] == 'sym':
        r, p = E.deref(st, v)
        return E.read(st, r, p)
    return v


@model(*['<%s as core::%s' % (t, m) for t in ('alloc::borrow::Cow', 'alloc::string::String', 'str', '&T') for m in ('convert::AsRef>::as_ref', 'borrow::Borrow>::borrow')],
       'core::borrow::Borrow::borrow', 'alloc::string::String::as_ref')
def m_as_ref(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, E.norm(st, args[0]), ctx)


@model('<alloc::borrow::Cow as core::convert::From>::from')
def m_cow_from(E, st, n, c, args, ctx, dty, loc):
    ts = [E.F.types[x] for x in c.get('a') or () if isinstance(x, int)]
    if len(ts) != 2:
        return None
    t = ts[1]
    if t['k'] == 'ref':
        return E.finish(st, ('adt', 'alloc::borrow::Cow', 0, (args[0],)), ctx)
    if t['k'] == 'adt' and t['n'] in ('alloc::string::String', 'alloc::vec::Vec'):
        return E.finish(st, ('adt', 'alloc::borrow::Cow', 1, (args[0],)), ctx)
    return None


@model('<alloc::borrow::Cow as core::ops::deref::Deref>::deref', '<alloc::borrow::Cow as core::convert::AsRef>::as_ref', '<alloc::borrow::Cow as core::borrow::Borrow>::borrow')
def m_cow(E, st, n, c, args, ctx, dty, loc):
    """what is borrowed or owned, when that is known"""
    a = E.norm(st, args[0])
    r, p = (a[1], a[2]) if a[0] == 'ref' else E.deref(st, a)
    v = E.norm(st, E.read(st, r, p))
    if v[0] == 'adt' and v[1] == 'alloc::borrow::Cow' and len(v[3]) == 1:
        if v[2] == 1:
            return E.finish(st, ('ref', r, p + (('f', 1, 0),)), ctx)
        return E.finish(st, v[3][0], ctx)
    return E.finish(st, a, ctx)


MODELS['dyn_clone::clone_box'] = None
del MODELS['dyn_clone::clone_box']


@model('dyn_clone::clone_box')
def m_clone_box(E, st, n, c, args, ctx, dty, loc):
    v = E.norm(st, args[0])
    if v[0] == 'dref':
        return E.finish(st, ('box', ('dynv', E.read(st, v[1], v[2]), v[3], v[4])), ctx)
    x = dv1(E, st, v)
    if x[0] == 'dynv':
        return E.finish(st, ('box', x), ctx)
    if x[0] == 'sym' and x[1][0] == 'deref':
        return E.finish(st, ('sym', x[1][1]), ctx)
    return E.finish(st, ('box', x), ctx)


PTRS = ('<alloc::rcs::arc::Arc', '<alloc::rcs::rc::Rc', '<tokio::sync::mutex::MutexGuard', '<std::sync::poison::mutex::MutexGuard', '<alloc::boxed::Box',
        '<tokio::sync::mutex::OwnedMutexGuard', '<&mut T', '<&T', '<tokio::sync::rwlock', '<dashmap', '<core::cell')


def m_deref(E, st, n, c, args, ctx, dty, loc):
    v = E.norm(st, args[0])
    if n.startswith(PTRS):
        x = dv1(E, st, v)
        if x[0] in ('ref', 'dref'):
            return E.finish(st, x, ctx)
        if x[0] == 'box':
            r, p = E.deref(st, v)
            return E.finish(st, ('ref', r, p + (('b',),)), ctx)
        if x[0] == 'arc' and len(x) > 3:
            return E.finish(st, ('dref', x[1], (), x[2], x[3]), ctx)
        r, p = E.deref(st, x)
        return E.finish(st, ('ref', r, p), ctx)
    return E.finish(st, v, ctx)


def m_eq(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, eq_term(E, st, args[0], args[1]), ctx)


def m_ne(E, st, n, c, args, ctx, dty, loc):
    t = eq_term(E, st, args[0], args[1])
    return E.finish(st, ('int', 1 - t[1]) if t[0] == 'int' else ('sym', ('app', 'not', (t,))), ctx)


def uncow(v):
    """what a clone-on-write value shows"""
    while True:
        if v[0] == 'adt' and v[1] == 'alloc::borrow::Cow' and len(v[3]) == 1:
            v = v[3][0]
        elif v[0] == 'sym' and v[1][0] == 'deref' and v[1][1][0] == 'val' and v[1][1][1][0] == 'adt' and v[1][1][1][1] == 'alloc::borrow::Cow':
            v = v[1][1][1]
        else:
            return v


def eq_term(E, st, a, b):
    """equality of two options or results is that of what they hold"""
    a, b = uncow(deepdv(E, st, a)), uncow(deepdv(E, st, b))
    while a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1] and a[1] in ('core::option::Option', 'core::result::Result'):
        if a[2] != b[2]:
            return EN.FALSE
        if not a[3]:
            return EN.TRUE
        a, b = deepdv(E, st, a[3][0]), deepdv(E, st, b[3][0])
    a, b = EN.collapse(a), EN.collapse(b)
    if a[0] == 'str' and b[0] == 'str':
        return ('int', int(a[1] == b[1]))
    if a == b:
        return EN.TRUE
    return E.binop(st, 'eq', a, b)


@model('<tracing_core::metadata::Level as core::cmp::PartialOrd>::le')
def m_false(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, EN.FALSE, ctx)


def m_pure(E, st, n, c, args, ctx, dty, loc):
    if E.octets and n.endswith('core::hash::Hash>::hash'):
        return None
    if ctx[1] is None and st.frames:
        return None
    if dty is not None:
        t = E.F.types[dty]
        if t['k'] == 'tuple' and not t['a']:
            return E.finish(st, EN.UNIT, ctx)
    return E.finish(st, ('sym', ('app', n.split('>::')[-1] if n.startswith('<') else n, tuple(EN.collapse(deepdv(E, st, a)) for a in args))), ctx)


@model('core::any::TypeId::of')
def m_typeid(E, st, n, c, args, ctx, dty, loc):
    t = [x for x in c.get('a', []) if isinstance(x, int)]
    if len(t) != 1:
        return None
    return E.finish(st, ('int', 0x7E0000 + t[0]), ctx)


@model('bool::then_some', 'core::bool::then_some')
def m_then_some(E, st, n, c, args, ctx, dty, loc):
    outs = []
    for s, b in IT.truth(E, st, args[0]):
        if not b:
            E.drop_value(s, args[1], None, 'drop')
        outs += E.finish(s, EN.SOME(args[1]) if b else EN.NONE(), ctx)
    return outs


@model('bool::then', 'core::bool::then')
def m_then(E, st, n, c, args, ctx, dty, loc):
    outs = []
    for s, b in IT.truth(E, st, args[0]):
        if b:
            outs += E.invoke(s, args[1], [], (ctx[0], ctx[1], ctx[2], (('some',),) + ctx[3]), None, loc)
        else:
            outs += E.finish(s, EN.NONE(), ctx)
    return outs


@model('core::mem::replace')
def m_replace(E, st, n, c, args, ctx, dty, loc):
    r, p = E.deref(st, args[0])
    old = E.read(st, r, p)
    E.write(st, r, p, args[1])
    return E.finish(st, old, ctx)


@model('core::mem::swap')
def m_swap(E, st, n, c, args, ctx, dty, loc):
    r, p = E.deref(st, args[0])
    r2, p2 = E.deref(st, args[1])
    a, b = E.read(st, r, p), E.read(st, r2, p2)
    E.write(st, r, p, b)
    E.write(st, r2, p2, a)
    return E.finish(st, EN.UNIT, ctx)


@model('core::mem::take')
def m_take(E, st, n, c, args, ctx, dty, loc):
    r, p = E.deref(st, args[0])
    old = E.read(st, r, p)
    t = E.F.types[dty] if dty is not None else {'k': '?'}
    if t['k'] == 'adt' and t['n'] == OPT:
        new = EN.NONE()
    elif old[0] == 'coll' or (t['k'] == 'adt' and t['n'] in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque')):
        new = ('coll', ())
    else:
        k = E.fresh(st)
        new = ('sym', ('app', 'default', (k,)))
    E.emit(st, ('take', old), loc)
    E.write(st, r, p, new)
    return E.finish(st, old, ctx)


@model('core::mem::drop')
def m_drop(E, st, n, c, args, ctx, dty, loc):
    v = args[0]
    if v[0] != 'moved':
        E.drop_value(st, v, None, 'drop', loc)
    return E.finish(st, EN.UNIT, ctx)


@model('core::mem::forget')
def m_forget(E, st, n, c, args, ctx, dty, loc):
    E.emit(st, ('call', n, tuple(args), None, ()), loc)
    return E.finish(st, EN.UNIT, ctx)


def fn_call(E, st, n, c, args, ctx, dty, loc):
    f = E.norm(st, args[0])
    sref = None
    k = 0
    while f[0] in ('ref', 'dref', 'box', 'dynv') and k < 6:
        k += 1
        if f[0] in ('ref', 'dref'):
            sref = ('ref', f[1], f[2])
            f = E.read(st, f[1], f[2])
        else:
            if sref is not None and f[0] == 'box':
                sref = ('ref', sref[1], sref[2] + (('b',),))
            f = E.norm(st, f[1])
    if f[0] not in ('fn', 'clo'):
        if 'i' in c:
            return None
        # unknown callable
        t = E.norm(st, args[1]) if len(args) > 1 else EN.UNIT
        tup = list(t[1]) if t[0] == 'tup' else [t]
        return opaque(E, st, 'fnptr', {'n': 'fnptr', 'a': []}, [f] + tup, ctx, dty, loc, user=True)
    t = E.norm(st, args[1])
    tup = list(t[1]) if t[0] == 'tup' else [t]
    if f[0] == 'clo':
        return E.call_closure(st, f, tup, ctx, dty, loc, sref)
    return E.invoke(st, f, tup, ctx, dty, loc)


# ---------------------------------------------------------------------- dynamic typing
@model('alloc::boxed::Box::downcast')
def m_downcast(E, st, n, c, args, ctx, dty, loc):
    # the target type: first type argument that is not the dyn type; take it from the result type
    t = E.F.types[dty]
    target = None
    if t['k'] == 'adt' and t['n'] == RES:
        b = E.F.types[t['a'][0]]
        if b['k'] == 'adt':
            target = b['a'][0]
    v = E.norm(st, args[0])
    if v[0] == 'box':
        x = E.norm(st, v[1])
        if x[0] == 'dynv':
            if x[2] == target:
                E.emit(st, ('downcast', 'ok', v, target), loc)
                return E.finish(st, EN.OK(('box', x[1])), ctx)
            E.emit(st, ('downcast', 'mismatch', v, (x[2], target)), loc)
            return E.finish(st, EN.ERR(v), ctx)
    s = EN.collapse(v)
    E.emit(st, ('downcast', 'assumed', s, target), loc)
    return E.finish(st, EN.OK(('box', ('sym', ('app', 'downcast', (s, ('int', target if target is not None else -1)))))), ctx)


@model('dyn core::any::Any::downcast_ref', 'dyn core::any::Any::downcast_mut')
def m_downcast_ref(E, st, n, c, args, ctx, dty, loc):
    t = E.F.types[dty]
    target = None
    if t['k'] == 'adt' and t['n'] == OPT:
        b = E.F.types[t['a'][0]]
        if b['k'] == 'ref':
            target = b['t']
    v = E.norm(st, args[0])
    src = None
    if v[0] == 'dref':
        src = v[3]
        ref = ('ref', v[1], v[2])
    elif v[0] == 'ref':
        x = E.read(st, v[1], v[2])
        if x[0] == 'dynv':
            src = x[2]
            ref = ('ref', v[1], v[2])
    if src is not None:
        if src == target:
            return E.finish(st, EN.SOME(ref), ctx)
        return E.finish(st, EN.NONE(), ctx)
    x = dv1(E, st, v)
    s2 = st.fork()
    E.emit(s2, ('downref', 'no', x, target), loc)
    outs = E.finish(s2, EN.NONE(), ctx)
    E.emit(st, ('downref', 'ok', x, target), loc)
    root = ('P', ('sym', ('app', 'downcast', (x, ('int', target if target is not None else -1)))))
    return outs + E.finish(st, EN.SOME(('ref', root, ())), ctx)


@model('dyn core::any::Any::is')
def m_is(E, st, n, c, args, ctx, dty, loc):
    v = E.norm(st, args[0])
    src = None
    if v[0] == 'dref':
        src = v[3]
    elif v[0] == 'ref':
        x = E.read(st, v[1], v[2])
        if x[0] == 'dynv':
            src = x[2]
    target = [a for a in c['a'] if isinstance(a, int)]
    if src is not None and target:
        return E.finish(st, ('int', int(src == target[0])), ctx)
    return None


# ---------------------------------------------------------------------- once cells
@model('std::sync::once_lock::OnceLock::new', 'once_cell::sync::OnceCell::new', '<std::sync::once_lock::OnceLock as core::default::Default>::default',
       'tokio::sync::once_cell::OnceCell::new')
def m_once_new(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, ('adt', 'OnceLock', 0, (EN.NONE(), E.fresh(st))), ctx)


def once_ident(E, st, a):
    v = dv1(E, st, a)
    if v[0] == 'adt' and v[1] == 'OnceLock':
        return v[3][1]
    return E.ev_arg(st, a)


@model('std::sync::once_lock::OnceLock::set', 'once_cell::sync::OnceCell::set')
def m_once_set(E, st, n, c, args, ctx, dty, loc):
    ident = once_ident(E, st, args[0])
    r, p = E.deref(st, args[0])
    v = E.read(st, r, p)
    if v[0] == 'adt' and v[1] == 'OnceLock':
        if v[3][0][2] == 0:
            E.write(st, r, p, ('adt', 'OnceLock', 0, (EN.SOME(args[1]), v[3][1])))
            E.emit(st, ('once_set', ident, args[1], 'ok'), loc)
            return E.finish(st, EN.OK(EN.UNIT), ctx)
        E.emit(st, ('once_set', ident, args[1], 'already'), loc)
        return E.finish(st, EN.ERR(args[1]), ctx)
    s2 = st.fork()
    E.emit(s2, ('once_set', ident, args[1], 'already'), loc)
    outs = E.finish(s2, EN.ERR(args[1]), ctx)
    E.emit(st, ('once_set', ident, args[1], 'ok'), loc)
    return outs + E.finish(st, EN.OK(EN.UNIT), ctx)


@model('std::sync::once_lock::OnceLock::get', 'once_cell::sync::OnceCell::get')
def m_once_get(E, st, n, c, args, ctx, dty, loc):
    ident = once_ident(E, st, args[0])
    r, p = E.deref(st, args[0])
    v = E.read(st, r, p)
    if v[0] == 'adt' and v[1] == 'OnceLock' and v[3][0][0] == 'adt':
        if v[3][0][2] == 0:
            E.emit(st, ('once_get', ident, 'none'), loc)
            return E.finish(st, EN.NONE(), ctx)
        E.emit(st, ('once_get', ident, 'some'), loc)
        return E.finish(st, EN.SOME(('ref', r, p + (('f', 0, 0), ('f', 1, 0)))), ctx)
    was = ('app', 'once_is', (v,))
    outs = []
    if was not in st.facts:         # once set it stays set
        s2 = st.fork()
        E.emit(s2, ('once_get', ident, 'none'), loc)
        outs = E.finish(s2, EN.NONE(), ctx)
        st.facts[was] = ('int', 1)
    E.emit(st, ('once_get', ident, 'some'), loc)
    return outs + E.finish(st, EN.SOME(('ref', ('P', ('sym', ('app', 'once', (v,)))), ())), ctx)


@model('<u64 as core::convert::TryFrom>::try_from', '<usize as core::convert::TryFrom>::try_from')
def m_widen(E, st, n, c, args, ctx, dty, loc):
    # usize and u64 have the same width on the targets analysed
    t = [E.F.types[a] for a in c.get('a', []) if isinstance(a, int)]
    if all(x['k'] == 'prim' and x['n'] in ('usize', 'u64') for x in t) and t:
        return E.finish(st, EN.OK(args[0]), ctx)
    return None


ORD = 'core::cmp::Ordering'


@model(*['<%s as core::cmp::%s' % (t, m) for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize') for m in ('Ord>::cmp', 'PartialOrd>::partial_cmp')],
       'core::cmp::Ord::cmp')
def m_cmp(E, st, n, c, args, ctx, dty, loc):
    if n == 'core::cmp::Ord::cmp':
        t = E.F.types[c['a'][0]] if c.get('a') and isinstance(c['a'][0], int) else {'k': '?'}
        if t['k'] != 'prim' or not str(t.get('n')).startswith('u'):
            return m_pure(E, st, n, c, args, ctx, dty, loc)
    a, b = (EN.collapse(dv1(E, st, x)) for x in args)
    outs = []
    for s, lt in IT.truth(E, st, E.binop(st, 'lt', a, b)):
        for s2, eq in [(s, False)] if lt else IT.truth(E, s, E.binop(s, 'eq', a, b)):
            v = ('adt', ORD, 0 if lt else 1 if eq else 2, ())
            outs += E.finish(s2, EN.SOME(v) if n.endswith('partial_cmp') else v, ctx)
    return outs


@model('core::sync::atomic::Atomic::fetch_update', 'core::sync::atomic::Atomic::try_update')
def m_fetch_update(E, st, n, c, args, ctx, dty, loc):
    old = E.fresh(st)
    res = ('sym', ('app', 'cas', (old,)))
    c2 = (ctx[0], ctx[1], ctx[2], (('fupd', E.ev_arg(st, args[0]), old, res, loc),) + ctx[3])
    return E.invoke(st, E.norm(st, args[3]), [old], c2, None, None)


# ---------------------------------------------------------------------- collections


@model('alloc::vec::Vec::new', 'alloc::collections::vec_deque::VecDeque::new', 'futures_util::stream::futures_unordered::FuturesUnordered::new',
       'alloc::vec::Vec::with_capacity', 'alloc::collections::vec_deque::VecDeque::with_capacity',
       '<alloc::vec::Vec as core::default::Default>::default', '<alloc::collections::vec_deque::VecDeque as core::default::Default>::default',
       '<futures_util::stream::futures_unordered::FuturesUnordered as core::default::Default>::default')
def m_coll_new(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, ('coll', ()), ctx)


@model('alloc::vec::Vec::push', 'alloc::collections::vec_deque::VecDeque::push_back', 'futures_util::stream::futures_unordered::FuturesUnordered::push',
       'futures_util::stream::futures_ordered::FuturesOrdered::push_back')
def m_push(E, st, n, c, args, ctx, dty, loc):
    r, p = E.deref(st, args[0])
    v = E.read(st, r, p)
    E.emit(st, ('push', n.split('::')[-2], v, args[1]), loc)
    if v[0] == 'coll':
        if len(v[1]) >= E.max_coll:
            return []          # bound: at most max_coll elements are tracked per collection
        E.write(st, r, p, ('coll', v[1] + (args[1],)))
    return E.finish(st, EN.UNIT, ctx)


@model('alloc::collections::vec_deque::VecDeque::push_front')
def m_push_front(E, st, n, c, args, ctx, dty, loc):
    r, p = E.deref(st, args[0])
    v = E.read(st, r, p)
    E.emit(st, ('push_front', n.split('::')[-2], v, args[1]), loc)
    if v[0] == 'coll':
        if len(v[1]) >= E.max_coll:
            return []
        E.write(st, r, p, ('coll', (args[1],) + v[1]))
    return E.finish(st, EN.UNIT, ctx)


def m_pop(front):
    def f(E, st, n, c, args, ctx, dty, loc):
        r, p = E.deref(st, args[0])
        v = E.read(st, r, p)
        if v[0] != 'coll':
            return None
        if not v[1]:
            return E.finish(st, EN.NONE(), ctx)
        x = v[1][0] if front else v[1][-1]
        E.write(st, r, p, ('coll', v[1][1:] if front else v[1][:-1]))
        E.emit(st, ('pop', 'front' if front else 'back', x), loc)
        return E.finish(st, EN.SOME(x), ctx)
    return f


MODELS['alloc::collections::vec_deque::VecDeque::pop_front'] = m_pop(True)
MODELS['alloc::collections::vec_deque::VecDeque::pop_back'] = m_pop(False)
MODELS['alloc::vec::Vec::pop'] = m_pop(False)


@model('alloc::vec::Vec::is_empty', 'alloc::collections::vec_deque::VecDeque::is_empty', 'alloc::vec::Vec::len', 'alloc::collections::vec_deque::VecDeque::len',
       'futures_util::stream::futures_unordered::FuturesUnordered::is_empty', 'futures_util::stream::futures_unordered::FuturesUnordered::len')
def m_len(E, st, n, c, args, ctx, dty, loc):
    v = dv(E, st, args[0])
    if v[0] != 'coll':
        return None
    return E.finish(st, ('int', int(not v[1]) if n.endswith('is_empty') else len(v[1])), ctx)


@model('alloc::vec::Vec::clear', 'alloc::collections::vec_deque::VecDeque::clear')
def m_clear(E, st, n, c, args, ctx, dty, loc):
    r, p = E.deref(st, args[0])
    v = E.read(st, r, p)
    if v[0] != 'coll':
        return None
    for x in v[1]:
        E.drop_value(st, x, None, 'drop', loc)
    E.write(st, r, p, ('coll', ()))
    return E.finish(st, EN.UNIT, ctx)


def span(E, st, v, n):
    """the bounds a range value gives in a collection of n (None: not known)"""
    if v is None:
        return 0, n
    v = E.norm(st, v)
    k = v[1].rsplit('::', 1)[-1] if v[0] == 'adt' else ''
    xs = [E.norm(st, x) for x in v[3]] if k else []
    if k == 'RangeFull':
        return 0, n
    if k in ('Range', 'RangeFrom', 'RangeTo', 'RangeToInclusive') and all(x[0] == 'int' for x in xs):
        a = 0 if k.startswith('RangeTo') else xs[0][1]
        b = n if k == 'RangeFrom' else xs[-1][1] + (k == 'RangeToInclusive')
        if a <= b <= n:
            return a, b
    return None, None


def m_iter(E, st, n, c, args, ctx, dty, loc):
    last = n.rsplit('::', 1)[-1]
    v = E.norm(st, args[0])
    if v[0] in ('ref', 'dref'):
        r, p = v[1], v[2]
        x = E.read(st, r, p)
        if x[0] == 'coll':
            if last == 'drain':
                a, b = span(E, st, args[1] if len(args) > 1 else None, len(x[1]))
                if a is None:
                    return None
                E.write(st, r, p, ('coll', x[1][:a] + x[1][b:]))
                return E.finish(st, ('iter', x[1][a:b]), ctx)
            if last in ('iter', 'iter_mut'):
                return E.finish(st, IT.refs(x, r, p), ctx)
        src = x
    else:
        src = v
        if v[0] == 'coll':
            return E.finish(st, ('iter', v[1]), ctx)
    if last == 'drain':
        E.emit(st, ('drain', src), loc)
    return E.finish(st, ('sym', ('app', 'iter:' + last, (EN.collapse(src),))), ctx)


def m_into_iter(E, st, n, c, args, ctx, dty, loc):
    v = E.norm(st, args[0])
    if v[0] in ('coll', 'map'):
        return E.finish(st, IT.as_native(E, st, v), ctx)
    if v[0] in ('iter', 'adt', 'adapt'):
        return E.finish(st, v, ctx)
    if v[0] == 'sym' and v[1][0] == 'app' and v[1][1].startswith('iter:'):
        return E.finish(st, v, ctx)
    if v[0] in ('ref', 'dref'):
        x = E.read(st, v[1], v[2])
        if x[0] in ('coll', 'map'):
            return E.finish(st, IT.refs(x, v[1], v[2]), ctx)
        if IT.native(x):
            return E.finish(st, v, ctx)
        if n.startswith('<I as'):
            return E.finish(st, v, ctx)
        return E.finish(st, ('sym', ('app', 'iter:into_iter_ref', (EN.collapse(x),))), ctx)
    return E.finish(st, ('sym', ('app', 'iter:into_iter', (EN.collapse(v),))), ctx)


def m_next(E, st, n, c, args, ctx, dty, loc):
    r, p = E.deref(st, args[0])
    v = E.read(st, r, p)
    if v[0] == 'iter':
        if not v[1]:
            return E.finish(st, EN.NONE(), ctx)
        E.write(st, r, p, ('iter', v[1][1:]))
        return E.finish(st, EN.SOME(v[1][0]), ctx)
    if v[0] == 'adt' and v[1] == 'core::ops::range::Range' and len(v[3]) == 2:
        a, b = E.norm(st, v[3][0]), E.norm(st, v[3][1])
        if a[0] == 'int' and b[0] == 'int':
            if a[1] >= b[1]:
                return E.finish(st, EN.NONE(), ctx)
            E.write(st, r, p, ('adt', v[1], 0, (('int', a[1] + 1), b)))
            return E.finish(st, EN.SOME(a), ctx)
    k = 0
    if v[0] == 'adt' and v[1] == 'IterU':
        k = v[2]
        src = v[3][0]
    else:
        src = EN.collapse(v)
    s2 = st.fork()
    E.emit(s2, ('next', src, 'none'), loc)
    outs = E.finish(s2, EN.NONE(), ctx)
    if k >= E.max_elems:
        return outs            # bound: at most max_elems elements of an unknown collection are followed
    el = ('sym', ('app', 'elem', (src, ('int', k))))
    E.write(st, r, p, ('adt', 'IterU', k + 1, (src,)))
    E.emit(st, ('next', src, el), loc)
    return outs + E.finish(st, EN.SOME(el), ctx)


@model('futures_util::stream::stream::StreamExt::next')
def m_stream_next(E, st, n, c, args, ctx, dty, loc):
    return E.finish(st, ('fut', 'next', (args[0],), E.fresh(st)[1]), ctx)


@model('futures_util::stream::stream::StreamExt::collect', 'futures_util::stream::stream::StreamExt::for_each', 'futures_util::stream::stream::StreamExt::count')
def m_stream_all(E, st, n, c, args, ctx, dty, loc):
    v = E.norm(st, args[0])
    if v[0] != 'coll':
        return None
    kind = n.split('::')[-1]
    ty = None
    if kind == 'collect' and dty is not None:
        a = E.F.types[dty].get('a', ())
        ty = a[1] if len(a) > 1 and isinstance(a[1], int) else None
    return E.finish(st, ('fut', 'stream_all', (kind, v[1], args[1] if len(args) > 1 else None, (ty, loc)), E.fresh(st)[1]), ctx)


def stream_all(E, st, kind, todo, got, f, info, ctx):
    """drive a stream of futures to its end; they complete in any order"""
    if not todo:
        if kind == 'collect':
            return IT.gather(E, st, got, info, ctx)
        return E.finish(st, ('int', len(got)) if kind == 'count' else EN.UNIT, ctx)
    outs = []
    for i, x in enumerate(todo):
        s2 = st.fork() if len(todo) > 1 else st
        outs += poll_val(E, s2, x, (ctx[0], ctx[1], ctx[2], (('stream_all', kind, todo[:i] + todo[i + 1:], got, f, info),) + ctx[3]))
    return outs


def op_stream_all(E, st, op, v, ctx):
    _, kind, todo, got, f, info = op
    if kind == 'for_each':
        return E.invoke(st, f, [v], (ctx[0], ctx[1], ctx[2], (('thenpoll',), ('stream_each', kind, todo, got, f, info)) + ctx[3]), None, None)
    return stream_all(E, st, kind, todo, got + (v,), f, info, ctx)


def stream_next(E, st, ref, ctx, sid):
    r, p = E.deref(st, ref)
    v = E.read(st, r, p)
    while v[0] == 'adt' and v[1] == PIN or v[0] in ('ref',):
        if v[0] == 'ref':
            r, p = v[1], v[2]
        else:
            p = p + (('f', 0, 0),)
        v = E.read(st, r, p)
    if v[0] == 'coll':
        if not v[1]:
            return E.finish(st, EN.NONE(), ctx)
        outs = []
        for i, x in enumerate(v[1]):
            s2 = st.fork()
            E.write(s2, r, p, ('coll', v[1][:i] + v[1][i + 1:]))
            outs += poll_val(E, s2, x, (ctx[0], ctx[1], ctx[2], (('some',),) + ctx[3]))
        return outs
    E.emit(st, ('await', 'next', (EN.collapse(v),), ('sym', sid)), None)
    return cancel_points(E, st) + E.finish(st, ('sym', ('aw', sid)), ctx)


from . import iters as IT   # noqa: E402
IT.OPS['stream_all'] = op_stream_all
IT.OPS['onres'] = op_onres
IT.OPS['stream_each'] = lambda E, st, op, v, ctx: stream_all(E, st, op[1], op[2], op[3], op[4], op[5], ctx)
ITERS_LOOKUP = IT.lookup
from . import octets as OC   # noqa: E402
from . import kapi as KA   # noqa: E402
from . import net as NET   # noqa: E402
OCTETS_DECIDE = OC.decide
OCTETS_LEN = OC.meta_len
