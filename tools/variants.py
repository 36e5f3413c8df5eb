#!/usr/bin/env python3
"""Development aid: a list of changes (refactorings that keep the behaviour, and bugs), each analysed by all checks.

variants.py <list.py> [name-prefix]      list.py defines V = [(name, kind, property, [(file, old, new), ...]), ...]
kind R: every check must stay quiet;  kind B: the named property's check must fire.
"""
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import dump

M, G = 'src/math/', 'src/geometry/'


def claimed():
    ps = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props')) if f[0] == 'c' and f.endswith('.py'))
    first = ['C28', 'C18', 'C02', 'C21', 'C20', 'C19', 'C17']
    return first + [p for p in ps if p not in first]


def tests(R, scratch='/tmp/vartarget' + os.environ.get('VAR', '')):
    r = subprocess.run(['cargo', '+stable', 'test', '--offline', '--target-dir', scratch], cwd=R, capture_output=True, text=True)
    return 'test result: ok. 20 passed' in r.stdout, r.stdout[-600:] + r.stderr[-300:]


def one(name, kind, prop, edits, props=None):
    S = tempfile.mkdtemp(prefix='mut')
    R = os.path.join(S, 'repo')
    out = tempfile.mktemp(suffix='.json', dir=os.path.join(HERE, 'build'))
    try:
        shutil.copytree('/repo', R, ignore=shutil.ignore_patterns('target', '.git'))
        shutil.copytree(os.path.join(HERE, 'harness'), os.path.join(S, 'harness'), ignore=shutil.ignore_patterns('target'))
        ct = os.path.join(S, 'harness', 'Cargo.toml')
        t = open(ct).read().replace('"/repo"', '"%s"' % R)
        open(ct, 'w').write(t)
        for f, a, b in edits:
            f = f if f.startswith('src') else ('src/' + f)
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(a) < 1:
                print(name, 'TEXT NOT FOUND in', f, repr(a[:60]))
                return
            n = 1
            if b.startswith('@all'):
                n, b = -1, b[4:]
            open(p, 'w').write(s.replace(a, b, n))
        ok, log = tests(R)
        if not ok:
            print(name, kind, 'TESTS FAIL' , log[-500:] if kind == 'R' or 'error' in log else '')
            if kind == 'R' or 'error' in log:
                return
        try:
            dump.dump(['all'], out, 'mut' + os.environ.get('VAR', ''), os.path.join(S, 'harness'))
        except dump.BuildError as e:
            print(name, kind, 'BUILD', str(e)[-1200:])
            return
        props = props or claimed()
        e = dict(os.environ, EVIDENCE=os.path.join(HERE, 'build', 'ev'), VERIF_HARNESS=os.path.join(S, 'harness'))
        todo, run, fired = list(props), [], []
        while todo or run:
            while todo and len(run) < 8:
                p = todo.pop(0)
                run.append((p, subprocess.Popen([sys.executable, os.path.join(HERE, 'check.py'), p, out], stdout=open(S + '/' + p, 'w'),
                                                stderr=subprocess.STDOUT, env=e)))
            p, q = run.pop(0)
            q.wait()
            o = open(S + '/' + p).read()
            l = o.split('\n') + ['', '', '']
            if q.returncode == 1 and 'VIOLATION' in o:
                fired.append((p, l[1].strip()[:200], l[2].strip()[:400]))
            elif q.returncode != 0:
                fired.append((p, 'ERROR', o[-600:]))
        bad = kind == 'R' and fired or kind == 'B' and prop not in [f[0] for f in fired]
        print('%-34s %s %s %s fired: %s' % (name, kind, prop or '', 'BAD' if bad else 'ok', ' '.join(f[0] for f in fired)), flush=True)
        if kind == 'R':
            for f in fired[:5]:
                print('     ', *f)
    finally:
        shutil.rmtree(S)
        if os.path.exists(out):
            os.remove(out)
        sys.stdout.flush()


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    pre = sys.argv[2] if len(sys.argv) > 2 else ''
    for v in g['V']:
        if v[0].startswith(pre):
            one(*v, props=[v[2]] if sys.argv[3:] == ['only'] else sys.argv[3:] or None)


main()
