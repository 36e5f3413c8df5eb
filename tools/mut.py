#!/usr/bin/env python3
"""Development aid: analyse /repo with a change applied.

mut.py <file> <old> <new> [property...]     one textual replacement
mut.py <patch.diff> [property...]           a patch
The change is applied for the time of the MIR dump only.
"""
import os
import subprocess
import sys
import shutil
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import dump


def claimed():
    return sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props')) if f[0] == 'c' and f.endswith('.py'))


def main(a):
    S = tempfile.mkdtemp(prefix='mut')
    R = os.path.join(S, 'repo')
    shutil.copytree('/repo', R, ignore=shutil.ignore_patterns('target', '.git'))
    shutil.copytree(os.path.join(HERE, 'harness'), os.path.join(S, 'harness'), ignore=shutil.ignore_patterns('target'))
    ct = os.path.join(S, 'harness', 'Cargo.toml')
    t = open(ct).read().replace('"/repo"', '"%s"' % R).replace('"../../repo"', '"%s"' % R)
    open(ct, 'w').write(t)
    try:
        go(a, S, R)
    finally:
        shutil.rmtree(S)


def go(a, S, R):
    if a[0].endswith('.diff'):
        props = a[1:]
        subprocess.check_call(['git', 'apply', '--unsafe-paths', '--directory=' + R, os.path.abspath(a[0])], cwd='/')
    else:
        f = os.path.join(R, a[0])
        s = open(f).read()
        old, new = a[1].encode().decode('unicode_escape'), a[2].encode().decode('unicode_escape')
        if s.count(old) < 1:
            raise SystemExit('text not found')
        if s.count(old) > 1:
            print('(first of %d occurrences)' % s.count(old))
        open(f, 'w').write(s.replace(old, new, 1))
        props = a[3:]
    out = tempfile.mktemp(suffix='.json', dir=os.path.join(HERE, 'build'))
    try:
        dump.dump(['all'], out, 'mut', os.path.join(S, 'harness'))
    except dump.BuildError as e:
        print('BUILD', str(e)[-1500:])
        return
    props = props or claimed()
    ps = []
    e = dict(os.environ, EVIDENCE=os.path.join(HERE, 'build', 'ev'), VERIF_HARNESS=os.path.join(S, 'harness'))
    for i in range(0, len(props), 8):
        ps = [(p, subprocess.Popen([sys.executable, os.path.join(HERE, 'check.py'), p, out], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, env=e)) for p in props[i:i + 8]]
        for p, q in ps:
            o = q.communicate()[0]
            if q.returncode == 1 and 'VIOLATION' in o:
                l = o.split('\n')
                print(p, 'FIRES', l[0], '|', l[1].strip()[:150], '|', l[2].strip()[:250] if len(l) > 2 else '')
            elif q.returncode == 0:
                print(p, 'quiet')
            else:
                print(p, 'ERROR', q.returncode, o[-800:])
    os.remove(out)


main(sys.argv[1:])
