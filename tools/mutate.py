#!/usr/bin/env python3
"""Development aid: systematic mutation of scarlet's source; which mutants does no check report?

mutate.py <out file> [file-substring] [workers]
Each mutant is one token-level change outside tests.  The checks are run in an order that depends on the file and stop at
the first that reports; mutants whose MIR does not differ are skipped.  C14 and C29 are left out (they
share a build directory and such mutants are not about them).  Mutants that no check reports are printed with
the result of the repository's tests.
"""
import hashlib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import dump

SWAP = [(r' \+ ', [' - ', ' * ']), (r' - ', [' + ']), (r' \* ', [' / ', ' + ']), (r' / ', [' * ']), (r' \+= ', [' -= ']), (r' -= ', [' += ']),
        (r' \*= ', [' /= ']), (r' /= ', [' *= ']),
        (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
        (r' && ', [' || ']), (r' \|\| ', [' && ']),
        (r'\binf\b', ['sup']), (r'\bsup\b', ['inf']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
        (r'\.x\(\)', ['.y()', '.z()']), (r'\.y\(\)', ['.x()', '.z()']), (r'\.z\(\)', ['.y()', '.x()']),
        (r'\bzero\(\)', ['one()']), (r'\bone\(\)', ['zero()']), (r'\bhalf\(\)', ['one()']), (r'\btwo\(\)', ['one()']),
        (r'next_up\(\)', ['next_down()']), (r'next_down\(\)', ['next_up()']), (r'\.next_(?:up|down)\(\)', ['']),
        (r'\.abs\(\)', ['']), (r'\.normalize\(\)', ['']), (r'\.sqrt\(\)', ['']), (r'\.square\(\)', ['']),
        (r'([=(,\[] ?|return |\n\s+)-(?=[\w(])', [r'\1']), (r'!(?=[\w(])(?<!\w!)', ['']),
        (r'(?<=\[)0(?=\])', ['1']), (r'(?<=\[)1(?=\])', ['2', '0']), (r'(?<=\[)2(?=\])', ['1', '0']), (r'(?<=\[)3(?=\])', ['2']),
        (r'(?<=[( ])0(?=[,)])', ['1']), (r'(?<=[( ])1(?=[,)])', ['2']), (r'(?<=[( ])2(?=[,)])', ['1']), (r'(?<=[( ])3(?=[,)])', ['2']),
        (r'\bpmin\b', ['pmax']), (r'\bpmax\b', ['pmin']), (r'\b([xyz])min\(\)', [r'\1max()']), (r'\b([xyz])max\(\)', [r'\1min()']),
        (r'\bxm(in|ax)\(\)', [r'ym\1()']), (r'\bym(in|ax)\(\)', [r'zm\1()']), (r'\bzm(in|ax)\(\)', [r'xm\1()']),
        (r'_lower\b', ['_upper']), (r'_upper\b', ['_lower']), (r'\.sin\(\)', ['.cos()']), (r'\.cos\(\)', ['.sin()']),
        (r'\b(s|c)\b(?=[,\]])', ['-\\1']), (r'\bm\b(?=[,.\[])', ['minv']), (r'\bminv\b(?=[,.\[\]])', ['m']),
        (r'\brhs\.(?=inf|sup|vec|x|y|z)', ['self.']), (r'\bother\.(?=inf|sup)', ['self.']), (r'\bself\.(?=inf|sup)', ['other.', 'rhs.']),
        (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'0\.\.N\b', ['1..N', '0..N - 1']), (r'\b0\.\.([34])\b', [r'1..\1', r'0..\1 - 1']),
        (r'is_nonnegative\(\)', ['is_positive()', 'is_nonpositive()']), (r'is_nonpositive\(\)', ['is_negative()', 'is_nonnegative()']),
        (r'is_positive\(\)', ['is_nonnegative()']), (r'is_negative\(\)', ['is_nonpositive()']),
        (r'is_positive\(\)', ['is_negative()']), (r'is_negative\(\)', ['is_positive()']),
        (r'frac_pi_2\b', ['frac_pi_4', 'pi']), (r'frac_pi_4\b', ['frac_pi_2']), (r'\bpi\(\)', ['frac_pi_2()', 'tau()']),
        (r'\bdpdu\b(?=[,)])', ['dpdv']), (r'\bdpdv\b(?=[,)])', ['dpdu']), (r'\bray\.tmax\b', ['Float::highest()']),
        (r'\bray_mut\b(?=\))', ['ray']), (r'transformed_ray\b(?=\))', ['ray']), (r'\bt0\b', ['t1']), (r'\bt1\b', ['t0']),
        (r'object_to_world\(', ['world_to_object(']), (r'world_to_object\(', ['object_to_world(']), (r'map_inverse\(', ['map(']),
        (r'\.cross\((\w+)\)', [r'.dot(\1)']), (r'\b(\w+)\.cross\((\w+)\)', [r'\2.cross(\1)']), (r'\b(\d+)\.0\b', ['3.0']),
        (r'\bbits \+ 1', ['bits + 2']), (r'\bbits - 1', ['bits - 2']), (r'\b(-?\d{3,})\b', [r'\g<1>1', '77']), (r'1e-6_', ['1e-5_']), (r'1e-4_', ['1e-3_']),
        (r'from_i64\((\d)\)', ['from_i64(3)']), (r'\btheta_min\b', ['theta_max']), (r'\btheta_max\b', ['theta_min']), (r'\bz_min\b', ['z_max']),
        (r'\bz_max\b', ['z_min']), (r'\bwidth\b', ['height']), (r'film_width', ['film_height']), (r'film_height', ['film_width']),
        (r'\bself\.radius\b', ['Float::one()']), (r'\bsome_placeholder\b', [''])]

ORD = {'interval.rs': ['C01', 'C03', 'C04', 'C05', 'C27', 'C26'], 'interval_as_gfloat.rs': ['C02', 'C03', 'C04', 'C05', 'C01'],
       'scalar.rs': ['C07', 'C06', 'C26', 'C02', 'C03'], 'vector.rs': ['C13', 'C26'], 'vector_traits.rs': ['C13'],
       'vectori.rs': ['C27', 'C04'], 'transform.rs': ['C10', 'C08', 'C09', 'C11', 'C12', 'C26'], 'transform_inverse_impl.rs': ['C09', 'C08'],
       'bbox.rs': ['C15', 'C17', 'C16', 'C20', 'C19'], 'primitive.rs': ['C23', 'C22', 'C20', 'C21', 'C19'], 'ray.rs': ['C10', 'C27'],
       'sphere.rs': ['C18', 'C20', 'C21', 'C19'], 'camera.rs': ['C25', 'C24'], 'thin_lens.rs': ['C24']}


def sites(sub):
    out = []
    for d, _, fs in os.walk('/repo/src'):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if sub not in p or not f.endswith('.rs'):
                continue
            s = open(p).read()
            end = s.find('#[cfg(test)]')
            body = s if end < 0 else s[:end]
            dead = [(m.start(), m.end()) for m in re.finditer(r'//[^\n]*', body)]
            seen = set()
            for pat, reps in SWAP:
                for m in re.finditer(pat, body):
                    if any(a <= m.start() < b for a, b in dead) or body[body.rfind('\n', 0, m.start()) + 1:].lstrip().startswith(('use ', 'impl', 'where', 'pub type')):
                        continue
                    for r in reps:
                        t = m.expand(r) if '\\' in r else r
                        k = (m.start(), m.end(), t)
                        if k not in seen and t != m.group(0):
                            seen.add(k)
                            out.append((os.path.relpath(p, '/repo'), m.start(), m.end(), t))
            # deleted statements
            for m in re.finditer(r'\n +(?!let|return|use|pub|fn|const|//|\}|assert)[^\n;{}]*;(?=\n)', body):
                if not any(a <= m.start() + 2 < b for a, b in dead):
                    out.append((os.path.relpath(p, '/repo'), m.start(), m.end(), ''))
    return out


def canon(p):
    d = json.load(open(p))
    for f in d['fns']:
        f.pop('line', None)
    return hashlib.sha1(re.sub(r'mut\w{8}', '', json.dumps(d)).encode()).hexdigest()


def one(job):
    i, (f, a, b, t), base = job
    w = multiprocessing.current_process()._identity[0]
    S = tempfile.mkdtemp(prefix='mut', dir='/tmp/mt')
    R = os.path.join(S, 'repo')
    out = os.path.join(S, 'all.json')
    try:
        shutil.copytree('/repo', R, ignore=shutil.ignore_patterns('target', '.git'))
        shutil.copytree(os.path.join(HERE, 'harness'), os.path.join(S, 'harness'), ignore=shutil.ignore_patterns('target'))
        ct = os.path.join(S, 'harness', 'Cargo.toml')
        c = open(ct).read().replace('"/repo"', '"%s"' % R)
        open(ct, 'w').write(c)
        p = os.path.join(R, f)
        s = open(p).read()
        ln = s.count('\n', 0, a) + 1
        name = '%s:%d %r -> %r  | %s' % (f, ln, s[a:b], t, s[s.rfind('\n', 0, a) + 1:s.find('\n', b)].strip()[:90])
        name = name.replace('\n', ' ')
        if name in DONE:
            return name, None
        open(p, 'w').write(s[:a] + t + s[b:])
        r = subprocess.run(['cargo', '+stable', 'check', '--offline', '--target-dir', '/tmp/mt/check%d' % w], cwd=R, capture_output=True, text=True)
        if r.returncode:
            return name, 'nocompile'
        try:
            dump.dump(['all'], out, 'mutw%d' % w, os.path.join(S, 'harness'))
        except dump.BuildError as e:
            return name, 'harness'
        if canon(out) == base:
            return name, 'same'
        first = ORD.get(os.path.basename(f), [])
        rest = ['C%02d' % k for k in [*range(1, 28), 32, 33] if 'C%02d' % k not in first and k != 14] + ['C28']
        e = dict(os.environ, EVIDENCE=os.path.join(S, 'ev'), VERIF_HARNESS=os.path.join(S, 'harness'))
        for q in first + rest:
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), q, out], capture_output=True, text=True, env=e)
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                why = 'cannot follow' if 'cannot follow' in r.stdout else ''
                return name, 'killed %s %s' % (q, why)
            if r.returncode:
                return name, 'ERROR %s %s' % (q, (r.stdout + r.stderr)[-500:])
        r = subprocess.run(['cargo', '+stable', 'test', '--offline', '--target-dir', '/tmp/mt/test%d' % w], cwd=R, capture_output=True, text=True)
        return name, 'SURVIVES %s' % ('tests pass' if 'test result: ok. 20 passed' in r.stdout else 'tests FAIL')
    finally:
        shutil.rmtree(S)


DONE = set()


def main():
    res = open(sys.argv[1], 'a')
    sub = sys.argv[2] if len(sys.argv) > 2 else ''
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 6
    DONE.update(l.rsplit(' => ', 1)[0] for l in open(sys.argv[1]))
    os.makedirs('/tmp/mt', exist_ok=True)
    js = sites(sub)
    print(len(js), 'mutants')
    if n == 0:
        return
    S = tempfile.mkdtemp(prefix='mut', dir='/tmp/mt')
    shutil.copytree('/repo', S + '/repo', ignore=shutil.ignore_patterns('target', '.git'))
    shutil.copytree(os.path.join(HERE, 'harness'), S + '/harness', ignore=shutil.ignore_patterns('target'))
    c = open(S + '/harness/Cargo.toml').read().replace('"/repo"', '"%s/repo"' % S)
    open(S + '/harness/Cargo.toml', 'w').write(c)
    dump.dump(['all'], S + '/all.json', 'mutw0', S + '/harness')
    base = canon(S + '/all.json')
    shutil.rmtree(S)
    import random
    random.seed(1)
    random.shuffle(js)
    with multiprocessing.Pool(n) as pool:
        for name, r in pool.imap_unordered(one, [(i, j, base) for i, j in enumerate(js)]):
            if r is None:
                continue
            res.write('%s => %s\n' % (name, r.replace('\n', ' / ')))
            res.flush()


main()
