#!/usr/bin/env python3
"""Development aid: creates and validates a planted bug in a scratch copy.

seed.py new <id> <property> <spec.json>   spec: {"edits": [[file, old, new]...], "demo": rust main body, "needs":, "breaks":}
seed.py check <id>
"""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/seedscratch'
DEMO = '''#!/bin/bash
# exit 0: behaviour as required; non-zero: broken.  Runs in the repository's directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)" || exit 1
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
scarlet = { path = "$repo" }
[workspace]
EOT
cd "$t" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo run --offline --quiet
'''


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)


def scratch():
    if not os.path.exists(SCR):
        subprocess.check_call(['cp', '-a', '/repo', SCR])
    sh('git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=SCR)


def tests():
    r = sh(['cargo', '+stable', 'test', '--workspace', '--no-fail-fast', '--offline', '--', '--test-threads', '8'], cwd=SCR)
    out = r.stdout
    ok = {l.split()[1] for l in out.split('\n') if l.startswith('test ') and l.endswith('... ok')}
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('pass') or base.get('passed') or base.get('stable') or base
    s = json.dumps(base)
    return ok, s, r


def check(i):
    d = os.path.join(HERE, 'seeded', i)
    scratch()
    r0 = sh(['bash', os.path.join(d, 'demo.sh')], cwd=SCR)
    r = sh(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=SCR)
    if r.returncode:
        print(i, 'patch does not apply', r.stderr)
        return False
    ok, base, t = tests()
    r1 = sh(['bash', os.path.join(d, 'demo.sh')], cwd=SCR)
    n = sum(1 for x in ok if x in base)
    good = r0.returncode == 0 and r1.returncode != 0 and n >= 20 and 'panicked' in (r1.stderr + r1.stdout)
    print(i, 'unchanged', r0.returncode, 'changed', r1.returncode, 'tests passing', n, 'GOOD' if good else 'BAD')
    if not good:
        print(r0.stderr[-1200:], r1.stderr[-800:], t.stdout[-600:] if n < 20 else '', t.stderr[-800:] if n < 20 else '')
    scratch()
    return good


def new(i, prop, spec):
    s = json.load(open(spec)) if isinstance(spec, str) else spec
    scratch()
    for f, a, b in s['edits']:
        p = os.path.join(SCR, f)
        x = open(p).read()
        if x.count(a) != 1:
            raise SystemExit('%s: %d occurrences of %r' % (f, x.count(a), a))
        open(p, 'w').write(x.replace(a, b))
    d = os.path.join(HERE, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(sh(['git', 'diff'], cwd=SCR).stdout)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.rs'), 'w').write(s['demo'])
    json.dump({'property': prop, 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return check(i)


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        new(*sys.argv[2:5])
    else:
        for i in sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, 'seeded'))):
            check(i)
