"""Which worker of a pool gets a message.

Every path of a dispatch over two and over three workers: between two deliveries the pool must have found each other worker gone, or
know from its comparisons that the chosen worker's count of outstanding messages is not above that worker's.  A count is the number of
handles on the worker's own counter; what is sent to a worker must hold such a handle (dispatches and broadcasts alike), and the worker's
handler must let go of it once its actor has answered, not before and not never."""
from .lib import *
from .c41 import Workers, carries, raw, plain, CR, OPTS
from kstatic import engine as EN

O = dict(OPTS, keep=OPTS['keep'] + ('drop', 'extreme', 'await'))
COUNT = {'weak_count': 'weak', 'strong_count': 'strong'}


def check(ctx):
    tokens = {}        # (worker number) -> its counter, as tokens of deliveries show
    wrappers = set()
    n = dispatch(ctx, 'pl_dispatch', 2, tokens, wrappers)
    before = len(ctx.exhausted)
    n += dispatch(ctx, 'pl_dispatch3', 3, {}, wrappers)
    # if there are more ways to choose among three workers than fit, what is decided for two, and for the ways found, stands
    ctx.sample('pools of two workers' if ctx.exhausted[before:] else 'pools of two and of three workers')
    del ctx.exhausted[before:]
    broadcast(ctx, wrappers)
    for w in sorted(wrappers):
        handler(ctx, *w)
    ctx.sample('%d dispatch paths: load(chosen) <= load(w) for every w not found gone' % n)
    ctx.assume('counts taken while other tasks finish messages are those of the moment they are taken')


def arcs(v):
    """counters a value holds a handle on: [(kind, counter, path)]"""
    res = []

    def go(x, path):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == 'sym' and x[1][:2] == ('app', 'weak') and x[1][2][0][0] == 'arc':
            res.append(('weak', x[1][2][0], path))
        elif x[0] == 'arc':
            res.append(('strong', x, path))
        elif x[0] == 'adt':
            for i, y in enumerate(x[3]):
                go(y, path + (i,))
        elif x[0] == 'tup':
            for i, y in enumerate(x[1]):
                go(y, path + (i,))
        elif x[0] in ('box', 'dynv'):
            go(x[1], path)
    go(v, ())
    return res


def counted(o):
    """result of counting -> (kind, counter)"""
    res = {}
    for e in events(o, 'call'):
        k = e[1].split('::')[-1]
        if k in COUNT and e[2]:
            a = e[2][0]
            while a[0] in ('&', 'ref') and a[0] == '&':
                a = a[1]
            res[e[3]] = (COUNT[k], a)
    return res


def key_of(k):
    """the count a sort key starts with, and whether larger keys mean smaller counts"""
    down = False
    while True:
        if k[0] == 'adt' and k[1] == 'core::cmp::Reverse':
            k, down = k[3][0], not down
        elif k[0] == 'tup' and k[1]:
            k = k[1][0]
        else:
            return k, down


def below(o, loads):
    """pairs (a, b) of counts the path knows a <= b of"""
    res = set()
    for k, v in o.st.facts.items():
        zero = ('sym', k) if v == ('int', 0) else None
        if k[0] == 'app' and k[1] == 'eq' and v == ('int', 1) and ('int', 0) in k[2]:
            zero = [x for x in k[2] if x != ('int', 0)][0]
        if zero in loads:
            res |= {(zero, x) for x in loads}
        if k[0] == 'app' and k[1] in ('lt', 'le', 'gt', 'ge') and v[0] == 'int':
            a, b = k[2]
            up = k[1] in ('lt', 'le')
            res.add((a, b) if up == bool(v[1]) else (b, a))
        if k[0] == 'app' and k[1] == 'eq' and v == ('int', 1):
            a, b = k[2]
            res |= {(a, b), (b, a)}
    for e in events(o, 'extreme'):
        if not e[1].endswith('key'):
            pairs = [(x, x) for x in e[3]]
        else:
            pairs = list(e[3])
        mine = [k for x, k in pairs if x == e[2]]
        for m in mine[:1]:
            a, down = key_of(m)
            least = e[1].startswith('min') != down
            for x, k in pairs:
                b, _ = key_of(k)
                res.add((a, b) if least else (b, a))
    return res


def zero(o, x):
    key = ('app', 'eq', (('int', 0), x))
    return x == ('int', 0) or o.st.facts.get(x[1]) == ('int', 0) or any(o.st.facts.get(k) == ('int', 1) for k in (key, ('app', 'eq', key[2][::-1])))


def again(o, loads):
    """between two deliveries handles on a counter only go away (the pool alone makes them): a later count is not above an earlier one"""
    res, last = set(), {}
    for e in o.mon:
        if e[0] == 'deliver':
            last = {}
        if e[0] == 'call' and e[3] in loads:
            c = loads[e[3]]
            if c in last:
                res.add((e[3], last[c]))
            last[c] = e[3]
    return res


def closure(p):
    p = set(p)
    while True:
        new = {(a, d) for a, b in p for c, d in p if b == c} - p
        if not new:
            return p
        p |= new


def dispatch(ctx, scen, size, tokens, wrappers):
    r = ctx.run(scen, **O)
    E, F = r.E, r.E.F
    todo = []
    for o in r.outs:
        need = lambda c, rule, what: ctx.need(c, rule, scen, what, o, E)
        ws = Workers(need, o, size)
        if o.kind != 'ret' or not ws.good:
            continue
        for e in events(o, 'deliver'):
            token(need, e, ws, tokens, wrappers)
        todo.append((o, ws))
    if not ctx.need(set(tokens) == set(range(size)) and len(set(tokens.values())) == size, 'own-counter', scen, 'the workers do not each have a counter of their own'):
        return 0
    compared = 0
    for o, ws in todo:
        need = lambda c, rule, what: ctx.need(c, rule, scen, what, o, E)
        loads = counted(o)
        le = closure(below(o, loads) | again(o, loads))
        gone, now = set(), {}
        for e in o.mon:
            if e[0] == 'alive' and raw(E, o, e[2])[-1] == 0:
                gone.add(collapse(strip(e[1])))
            if e[0] == 'call' and e[3] in loads:
                kc = loads[e[3]]
                for i, t in tokens.items():
                    if t == kc:
                        now[i] = e[3]
            if e[0] != 'deliver':
                continue
            w = collapse(strip(e[3]))
            if w not in ws.refs:
                continue
            i = ws.refs.index(w)
            need(w not in gone, 'to-a-running-worker', 'a message is sent to a worker just found gone')
            for j in range(size):
                if j != i and ws.refs[j] not in gone:
                    compared += 1
                    good = i in now and (zero(o, now[i]) or (j in now and (now[i], now[j]) in le))
                    need(good, 'least-busy', 'worker %d gets the message though worker %d may be running and less busy' % (i + 1, j + 1))
            now = {}
            if e[7] == 'not_running':
                gone.add(w)
    ctx.need(compared, 'compares', scen, 'the pool never chooses between workers')
    return len(todo)


def token(need, e, ws, tokens, wrappers):
    w = collapse(strip(e[3]))
    if w not in ws.refs:
        return
    v = strip(e[4])
    ts = arcs(v)
    if not need(len(ts) == 1 and v[0] == 'adt', 'counts-message', 'what is sent to a worker holds %d handles on a counter' % len(ts)):
        return
    i = ws.refs.index(w)
    need(tokens.setdefault(i, ts[0][:2]) == ts[0][:2], 'own-counter', 'a message to worker %d is counted for another one' % (i + 1))
    wrappers.add((v[1], ts[0][2], ws.at[0], carries(e[4], 2)))


def broadcast(ctx, wrappers):
    tokens = {}
    r = ctx.run('pl_broadcast', **O)
    for o in r.outs:
        need = lambda c, rule, what: ctx.need(c, rule, 'pl_broadcast', what, o, r.E)
        ws = Workers(need, o)
        if o.kind != 'ret' or not ws.good:
            continue
        for e in events(o, 'deliver'):
            token(need, e, ws, tokens, wrappers)
    ctx.need(len(tokens) == 2 and len(set(tokens.values())) == 2, 'own-counter', 'pl_broadcast', 'the workers do not each have a counter of their own')


def handler(ctx, wrapper, path, worker, mi):
    F = ctx.facts(CR)
    fs = [f for f in F.fns if f.get('item') == 'handle' and f.get('tr') == 'kameo::message::Message'
          and F.types[f['impl']].get('n') == worker and F.types[f['in'][1]].get('n') == wrapper]
    if not ctx.need(len(fs) == 1, 'handled', wrapper, 'the handler of what is sent to a worker is not found'):
        return
    r = ctx.run(fs[0], **O)
    key = ('arg', 1)
    for i in path:
        key = ('fld', key, 0, i)
    for o in r.outs:
        if o.kind != 'ret':
            continue
        ds = [i for i, e in enumerate(o.mon) if e[0] == 'deliver']
        # let go: dropped on its own, or as a part of what it came in, still there
        end = [i for i, e in enumerate(o.mon) if e[0] == 'drop' and inside(raw(r.E, o, e[2]), key)]
        if not ds:
            continue
        ctx.need(end and min(end) > max(ds), 'counts-until-answered', 'worker',
                 'a message stops counting before its handling is over' if end else 'a message counts for ever', o, r.E)


def inside(v, key):
    """does the dropped value hold the symbol (parts taken out of it do not count)"""
    if v == ('sym', key):
        return True
    if v[0] == 'upd':
        base = v[1]
        while base[0] == 'upd':
            base = base[1]
        if base[0] != 'sym':
            return False
        rel, k = [], key
        while k != base[1]:
            if k[0] != 'fld':
                return False
            rel.append(('f', k[2], k[3]))
            k = k[1]
        gone = [p for p, x in v[2] if x == ('moved',)]
        return not any(tuple(rel[::-1])[:len(p)] == tuple(p) for p in gone)
    if v[0] == 'sym':
        k = key
        while k and k[0] == 'fld':
            k = k[1]
            if k == v[1]:
                return True
        return False
    if v[0] in ('adt', 'tup', 'cor', 'clo'):
        return any(inside(x, key) for x in v[-1] if isinstance(x, tuple) and x)
    return v[0] in ('box', 'dynv') and inside(v[1], key)
