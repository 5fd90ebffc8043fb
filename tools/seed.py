#!/usr/bin/env python3
"""seed.py new ID PROPERTY edits.py main.rs needs breaks [features]   create /verif/seeded/ID from edits (list E of (file, old, new)) made in the
scratch copy /tmp/sr; seed.py try ID...  validate in the scratch copy and run the property's check against it (in a private copy mounted over /repo)."""
import json, os, re, shutil, subprocess, sys, tempfile
SR = '/tmp/sr'
S = '/verif/seeded'
DEMO = r'''#!/bin/bash
# Run with cwd = the repository: builds the small program beside this file against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
kameo = { path = "$repo"FEATURES }
DEPStokio = { version = "1", features = ["macros", "rt", "rt-multi-thread", "sync", "time"] }
[workspace]
T
CARGO_INCREMENTAL=0 cargo build -q --offline --manifest-path "$w/Cargo.toml" --target-dir "$w/target" 2> "$w/log" || { cat "$w/log"; exit 90; }
timeout 60 "$w/target/debug/demo"
'''


def sh(c, cwd=SR, **k):
    return subprocess.run(c, shell=True, cwd=cwd, text=True, capture_output=True, **k)


def clean():
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')


def new(id, prop, edits, main, needs, breaks, features='', deps=''):
    clean()
    ns = {}
    exec(open(edits).read() if os.path.exists(edits) else edits, ns)
    for f, old, nw in ns['E']:
        s = open(SR + '/' + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(SR + '/' + f, 'w').write(s.replace(old, nw))
    d = sh('git diff').stdout
    # removed lines must be of the original repository
    base = sh('git rev-list --max-parents=0 HEAD').stdout.split()[0]
    for f, old, nw in ns['E']:
        orig = set(sh('git show %s:%s' % (base, f)).stdout.split('\n'))
        for l in d.split('\n'):
            if l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
                print('WARNING: not an original line:', l)
    o = os.path.join(S, id)
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    open(o + '/main.rs', 'w').write(open(main).read() if os.path.exists(main) else main)
    open(o + '/demo.sh', 'w').write(DEMO.replace('FEATURES', features).replace('DEPS', deps))
    os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
    clean()


def demo(id):
    r = sh('bash %s/%s/demo.sh' % (S, id))
    return r.returncode, (r.stdout + r.stderr)[-400:]


def check(id):
    prop = json.load(open('%s/%s/meta.json' % (S, id)))['property']
    d = tempfile.mkdtemp(prefix='mrepo')
    try:
        sh('git ls-files -z | xargs -0 cp --parents -pt ' + d, '/repo')
        r = sh('patch -p1 < %s/%s/patch.diff' % (S, id), d)
        if r.returncode:
            return 'does not apply: ' + r.stdout
        r = sh("unshare -m sh -c 'mount --bind %s /repo && exec python3 /verif/check.py %s'" % (d, prop), '/verif')
        v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
        extra = [l for l in r.stdout.split('\n') if l.strip()][:4]
        return '%s exit %d %s' % (prop, r.returncode, v[:1] or (r.stdout + r.stderr)[-300:]) + '\n      ' + '\n      '.join(x[:220] for x in extra)
    finally:
        shutil.rmtree(d)


def tr(id, tests=True):
    clean()
    out = []
    c, t = demo(id)
    out.append('demo clean: %d%s' % (c, '' if c == 0 else ' !!! ' + t))
    r = sh('git apply %s/%s/patch.diff' % (S, id))
    out.append('apply: %d %s' % (r.returncode, r.stderr[:200]))
    c, t = demo(id)
    out.append('demo patched: %d %s%s' % (c, '!!! ' if c in (0, 90) else '', t[-150:].strip()))
    if tests:
        r = sh('. /opt/vp/env.sh; cargo test --workspace --all-features --offline --lib 2>&1 | grep -E "^test result|FAILED|error|panicked" | head')
        out.append('tests: ' + r.stdout.strip().replace('\n', ' | '))
    clean()
    return '\n   '.join(out)


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        new(*sys.argv[2:])
    elif sys.argv[1] == 'try':
        for i in sys.argv[2:]:
            print(i, '\n  ', tr(i), '\n  ', check(i), flush=True)
    elif sys.argv[1] == 'demo':
        for i in sys.argv[2:]:
            print(i, '\n  ', tr(i, False), flush=True)
    elif sys.argv[1] == 'check':
        for i in sys.argv[2:] or sorted(os.listdir(S)):
            print(i, '\n  ', check(i), flush=True)
