"""Build the facts (resolved MIR of kameo, kameo_actors and the fixture crate) from /repo's current working tree."""
import concurrent.futures, fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
B = os.path.join(VERIF, '.build')
DRIVER = os.path.join(VERIF, 'driver')
KDRIVER = os.path.join(B, 'driver', 'release', 'kdriver')
INLINE = ("core::option::,core::result::,core::ops::control_flow::,core::ops::try_trait::,<core::option::,<core::result::,"
          "<core::ops::control_flow,core::convert::,core::pin::,<core::pin::,core::task::poll,<core::task::poll,core::future::,"
          "core::bool,<core::panic::unwind_safe,<F as core::future::into_future,<T as core::convert::,kameo::error::,<kameo::error::")


class BuildError(Exception):
    pass


def _files():
    out = []
    for base in ('src', 'actors', 'macros', 'Cargo.toml', 'Cargo.lock'):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x != 'target' and not x.startswith('.'))
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(('.rs', '.toml', '.lock', '.md'))]
    for base in ('driver/src', 'driver/Cargo.toml', 'fixture/src', 'fixture/Cargo.toml', 'fixture/Cargo.lock', 'fixture_local/src', 'fixture_local/Cargo.toml', 'fixture_local/Cargo.lock', 'fixture_macros/src', 'fixture_macros/Cargo.toml', 'fixture_macros/Cargo.lock', 'scen', 'scen_local', 'kstatic/build.py'):
        p = os.path.join(VERIF, base)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds.sort()
            out += [os.path.join(d, f) for f in sorted(fs) if not f.endswith('.pyc')]
    return out


def source_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for f in _files():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('%s failed in %s:\n%s' % (' '.join(cmd), cwd, p.stdout[-6000:]))
    return p.stdout


def _env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTDOCFLAGS'):
            del env[k]
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_INCREMENTAL'] = '0'
    return env


def build_driver():
    env = _env()
    env['CARGO_TARGET_DIR'] = os.path.join(B, 'driver')
    _run(['cargo', '+nightly', 'build', '--release', '--offline', '-q'], DRIVER, env)


def ensure(log=None):
    """returns the directory holding the facts of the current tree"""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = source_hash()
        d = os.path.join(B, 'facts', h)
        if os.path.exists(os.path.join(d, 'DONE')):
            os.utime(d)
            return d
        t0 = time.time()
        build_driver()
        env = _env()
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, env=env).stdout.strip()
        env['LD_LIBRARY_PATH'] = sysroot + '/lib' + (':' + env['LD_LIBRARY_PATH'] if env.get('LD_LIBRARY_PATH') else '')
        tgt = os.path.join(B, 'target')
        tmp = d + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        def one(cfg):
            fixture, target, out, scen = cfg
            # cargo's freshness test would skip the wrapper: forget the crates under analysis
            for sub in ('debug/build', 'debug/deps', 'debug/.fingerprint', 'debug/incremental'):
                p = os.path.join(target, sub)
                if os.path.isdir(p):
                    for n in os.listdir(p):
                        s = n[3:] if n.startswith('lib') else n
                        if s.split('-')[0].split('.')[0] in ('kameo', 'kameo_actors', 'kameo_macros', 'kfixture', 'kfixture_local', 'kmacros'):
                            q = os.path.join(p, n)
                            if os.path.isdir(q):
                                shutil.rmtree(q)
                            else:
                                os.remove(q)
            e = dict(env, CARGO_TARGET_DIR=target, RUSTC_WRAPPER=KDRIVER, KFACTS_CRATES='kameo,kameo_actors,kfixture', KFACTS_OUT=out,
                     KFACTS_INLINE=INLINE, KFACTS_SCEN=os.path.join(VERIF, scen))
            cmd = ['cargo', '+nightly', 'check', '--offline', '--locked']
            res = _run(cmd, os.path.join(VERIF, fixture), e)
            if fixture == 'fixture':
                # what kameo's macros expand to; that it does not compile is for the rules about the macros to report
                try:
                    _run(cmd, os.path.join(VERIF, 'fixture_macros'), dict(e, KFACTS_CRATES='kmacros'))
                except BuildError as x:
                    for y in ('.json', '.bodies'):
                        if os.path.exists(os.path.join(out, 'kmacros' + y)):
                            os.remove(os.path.join(out, 'kmacros' + y))
                    open(os.path.join(out, 'kmacros.err'), 'w').write(str(x))
            return res

        loc = os.path.join(tmp, 'local')
        os.makedirs(loc)
        cfgs = [('fixture', tgt, tmp, 'scen'), ('fixture_local', tgt + '_local', loc, 'scen_local')]
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            out = '\n'.join(ex.map(one, cfgs))
        for x in ('.json', '.bodies'):
            if os.path.exists(os.path.join(loc, 'kameo' + x)):
                os.rename(os.path.join(loc, 'kameo' + x), os.path.join(tmp, 'kameo_local' + x))
        for c in ('kameo', 'kameo_actors', 'kfixture', 'kameo_local'):
            if not os.path.exists(os.path.join(tmp, c + '.json')):
                raise BuildError('no facts for %s:\n%s' % (c, out[-4000:]))
        open(os.path.join(tmp, 'DONE'), 'w').write('%.1f' % (time.time() - t0))
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        root = os.path.join(B, 'facts')
        old = sorted((n for n in os.listdir(root)), key=lambda n: os.path.getmtime(os.path.join(root, n)))
        for n in old[:-4]:
            shutil.rmtree(os.path.join(root, n), ignore_errors=True)
        return d


if __name__ == '__main__':
    t = time.time()
    print(ensure(), '%.1fs' % (time.time() - t))
