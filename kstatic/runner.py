"""Runs the rules of one property over the facts of the current tree, prints verdicts, writes the evidence file."""
import importlib, json, os, shutil, sys, threading, time, traceback
from . import build
from .facts import Facts
from .engine import Engine, Budget, collapse, same, contains
from .mon import Trace
from . import show

VERIF = build.VERIF


class Run:
    def __init__(self, ctx, name, eng, outs):
        self.ctx, self.name, self.E, self.outs = ctx, name, eng, outs

    def rets(self):
        return [o for o in self.outs if o.kind == 'ret']

    def panics(self):
        return [o for o in self.outs if o.kind == 'panic']


class Ctx:
    def __init__(self, prop, tier, facts_dir):
        self.prop, self.tier, self.dir = prop, tier, facts_dir
        self.quick = tier != 'thorough'
        self._facts = {}
        self.fails = []
        self.obl = 0
        self.rules = {}
        self.analysed = set()
        self.blocks = 0
        self.paths = 0
        self.samples = []
        self.scens = []
        self.assumptions = set()
        self.opaque = {}
        self.exhausted = []

    def facts(self, crate='kameo'):
        if crate not in self._facts:
            self._facts[crate] = Facts(self.dir, crate)
        return self._facts[crate]

    # -- running
    def run(self, name, crate='kameo', keep=None, args=None, mon=None, cap=2, setup=None, **kw):
        """explore a scenario function; keep: event kinds (tuple) or filter function"""
        F = self.facts(crate)
        fn = name if isinstance(name, dict) else F.fn(name)
        if isinstance(name, dict):
            name = fn['n']
        if fn is None:
            fn = F.fn(crate + '::kscen::' + name)
        if fn is None:
            fn = F.fn(crate + '::' + name)
        if fn is None:
            raise RuntimeError('scenario %s missing from the facts of %s' % (name, crate))
        if mon is None:
            if keep is None:
                keep = DEFAULT_KEEP
            if not callable(keep):
                ks = frozenset(keep)
                keep = lambda E, st, ev, loc: ev if ev[0] in ks else None
            mon = Trace(keep, cap=cap)
        E = Engine(F, mon, **kw)
        outs = E.run_async(fn['i'], args, setup) if fn.get('async') else E.run(fn['i'], args, setup)
        if E.exhausted:
            self.exhausted.append('%s: %s' % (name, E.exhausted))
        self.analysed |= E.covered
        self.blocks += len(E.blocks)
        self.paths += len(outs)
        self.scens.append({'scenario': name, 'crate': crate, 'paths': len(outs), 'blocks': len(E.blocks), 'functions': len(E.covered)})
        for n, k in E.unknown.items():
            self.opaque[n] = self.opaque.get(n, 0) + k
        return Run(self, name, E, outs)

    # -- obligations
    def need(self, cond, rule, instance, what, o=None, E=None):
        """one obligation: rule applied to an instance (scenario / site / path)"""
        self.obl += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if cond:
            return True
        key = '%s:%s:%s' % (self.prop, rule, instance)
        for f in self.fails:
            if f['key'] == key:
                return False
        f = {'key': key, 'rule': rule, 'instance': instance, 'what': what}
        if o is not None:
            f['path'] = show.path(o)
            f['outcome'] = show.outcome(E.F if E else None, o)
        self.fails.append(f)
        return False

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def assume(self, *a):
        self.assumptions.update(a)


DEFAULT_KEEP = ('send', 'osend', 'orecv', 'panic', 'elapsed', 'spawn')


def known():
    p = os.path.join(VERIF, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main(argv):
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    res = [2]

    def body():
        res[0] = _main(argv)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    return res[0]


def _main(argv):
    t0 = time.time()
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        d = build.ensure()
    except build.BuildError as e:
        print('ERROR: cannot build facts:', e)
        return 2
    tb = time.time()
    try:
        mod = importlib.import_module('rules.' + prop.lower())
        ctx = Ctx(prop, tier, d)
        ctx.undecided = None
        mod.check(ctx)
    except Exception:
        traceback.print_exc()
        print('ERROR: the rules of %s could not be decided' % prop)
        # what was found before that stands
        if 'ctx' not in locals() or not ctx.fails:
            return 2
        ctx.undecided = True
    if ctx.exhausted and not ctx.undecided:
        print('ERROR: the rules of %s could not be decided: %s' % (prop, '; '.join(ctx.exhausted)))
        ctx.undecided = True
    if ctx.exhausted:
        # only what a finished path shows stands; nothing follows from what was not found
        ctx.fails = [f for f in ctx.fails if f.get('path')]
    kn = [k for k in known() if k['property'] == prop and k.get('status') == 'known']
    kkeys = {k['key']: k for k in kn}
    new = [f for f in ctx.fails if f['key'] not in kkeys]
    hit = [f for f in ctx.fails if f['key'] in kkeys]
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    nl = len(ctx.analysed)
    cov = {
        'explanation': (mod.__doc__ or '').strip(),
        'obligations': ctx.obl,
        'discharged': ctx.obl - len(ctx.fails),
        'rules': ctx.rules,
        'scenarios': ctx.scens,
        'functions_analysed': nl,
        'blocks_analysed': ctx.blocks,
        'paths': ctx.paths,
        'samples': ctx.samples,
        'opaque_calls': dict(sorted(ctx.opaque.items(), key=lambda x: -x[1])[:40]),
        'analysed_sample': sorted(ctx.analysed)[:80],
    }
    json.dump({'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
               'coverage': cov, 'assumptions': sorted(ctx.assumptions | BASE_ASSUME), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)},
              open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    for f in hit:
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, kkeys[f['key']]['what'], f['key']))
    print('%s: %d obligations over %d scenarios / %d functions / %d paths, %d undischarged (facts %.1fs, rules %.1fs)' % (
        prop, ctx.obl, len(ctx.scens), nl, ctx.paths, len(ctx.fails), tb - t0, time.time() - tb))
    if not ctx.obl:
        print('ERROR: no obligation was generated')
        return 2
    for i, f in enumerate(new):
        rp = os.path.join(ev, 'replay', '%s-%d.json' % (prop, i))
        json.dump(f, open(rp, 'w'), indent=1)
        print('  %s [%s] %s' % (f['rule'], f['instance'], f['what']))
        if f.get('path'):
            print('    path: ' + ' -> '.join(f['path'][-12:]))
        if f.get('outcome'):
            print('    outcome: ' + f['outcome'][:400])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    return 1 if new else 2 if ctx.undecided else 0


BASE_ASSUME = {
    'library calls (std, tokio, futures, libp2p) behave as their documented contracts in kstatic/models.py',
    'collections are tracked precisely up to two elements; a call site in a loop keeps three distinguishable results',
    'facts come from the debug profile with features macros, remote and tracing enabled',
}
