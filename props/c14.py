import json
import os
import re
import shutil
import subprocess

RULE = ('Compile-fail witnesses with compiling twins: one function per forbidden combination (kind x kind x operator, '
        'for each scalar type and dimension; arguments of the wrong kind, dimension or scalar; wrong result kinds) is '
        'type-checked against the current scarlet and must be rejected on its own line; the functions for the '
        'meaningful combinations, with their result types written out and generic over scalar and dimension, must be '
        'accepted. Trait coherence makes the rejection final: a program cannot add the missing implementation itself.')
ASSUMES = ['rustc implements Rust\'s trait selection and orphan rule']
FLOOR = 600
NEEDS_MIR = False
TECHNIQUE = 'type-level: compile-fail witness programs with compiling twins, decided by the type checker'

SCALARS = ['f32', 'f64', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'Interval<f32>', 'Interval<f64>']
KINDS = {'v': 'Vector', 'p': 'Point', 'n': 'Normal'}
HEAD = '''#![allow(unused, dead_code)]
use scarlet::geometry::ray::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::*;
use scarlet::math::transform::*;
use scarlet::math::vector::*;
use scarlet::math::vector_traits::*;
fn ord<T>(_: T) {}
'''


def kind(k, t, n):
    return '%s<%s, %s>' % (KINDS[k], t, n)


def programs():
    """(name, must compile, body line)"""
    G = 'T: Scalar, const N: usize'
    for a, op, b, r in [('p', '-', 'p', 'v'), ('p', '+', 'v', 'p'), ('v', '+', 'p', 'p'), ('p', '-', 'v', 'p'),
                        ('v', '+', 'v', 'v'), ('v', '-', 'v', 'v'), ('n', '+', 'n', 'n')]:
        yield ('%s %s %s is a %s for every scalar and dimension' % (KINDS[a], op, KINDS[b], KINDS[r]), True,
               '<%s>(a: %s, b: %s) -> %s { a %s b }' % (G, kind(a, 'T', 'N'), kind(b, 'T', 'N'), kind(r, 'T', 'N'), op))
        for w in KINDS:
            if w != r:
                for n in (2, 3, 4):
                    yield ('%s %s %s is not a %s (%d)' % (KINDS[a], op, KINDS[b], KINDS[w], n), False,
                           '(a: %s, b: %s) -> %s { a %s b }' % (kind(a, 'f32', n), kind(b, 'f32', n), kind(w, 'f32', n), op))
    for k in KINDS:
        yield ('%s += itself' % KINDS[k], True, '<%s>(mut a: %s, b: %s) { a += b; }' % (G, kind(k, 'T', 'N'), kind(k, 'T', 'N')))
        yield ('%s == itself' % KINDS[k], True, '<%s>(a: %s, b: %s) -> bool { a == b }' % (G, kind(k, 'T', 'N'), kind(k, 'T', 'N')))
        yield ('%s scaled keeps its kind' % KINDS[k], True, '<%s>(a: %s, s: T) -> %s { a * s / s }' % (G, kind(k, 'T', 'N'), kind(k, 'T', 'N')))
        yield ('%s min/max keeps its kind' % KINDS[k], True, '<%s>(a: %s, b: %s) -> %s { a.min(b).max(b) }' % ((G,) + (kind(k, 'T', 'N'),) * 3))
    yield ('Vector -= itself', True, '<%s>(mut a: %s, b: %s) { a -= b; }' % (G, kind('v', 'T', 'N'), kind('v', 'T', 'N')))
    for k in ('v',):
        yield ('distance between %ss' % KINDS[k], True, '(a: %s, b: %s) -> f32 { a.distance(b) + a.square_distance(b) }' % (kind(k, 'f32', 3), kind(k, 'f32', 3)))
        yield ('trait distance between %ss' % KINDS[k], True, '(a: %s, b: %s) -> f64 { Norm::distance(a, b) + Norm::square_distance(a, b) }' % (kind(k, 'f64', 2), kind(k, 'f64', 2)))
    for t in SCALARS:
        for n in (2, 3, 4):
            for a, b in [('n', 'n'), ('v', 'p'), ('v', 'n'), ('n', 'v'), ('p', 'n'), ('n', 'p')]:
                yield ('%s - %s (%s, %d)' % (KINDS[a], KINDS[b], t, n), False,
                       '(a: %s, b: %s) { a - b; }' % (kind(a, t, n), kind(b, t, n)))
            for a, b in [('n', 'p'), ('p', 'n'), ('n', 'v'), ('v', 'n')]:
                yield ('%s + %s (%s, %d)' % (KINDS[a], KINDS[b], t, n), False,
                       '(a: %s, b: %s) { a + b; }' % (kind(a, t, n), kind(b, t, n)))
            for a, b in [('n', 'n'), ('p', 'p'), ('v', 'p'), ('v', 'n'), ('n', 'v'), ('p', 'n'), ('n', 'p')]:
                yield ('%s -= %s (%s, %d)' % (KINDS[a], KINDS[b], t, n), False,
                       '(mut a: %s, b: %s) { a -= b; }' % (kind(a, t, n), kind(b, t, n)))
            for a, b in [('v', 'p'), ('v', 'n'), ('n', 'v'), ('p', 'n'), ('n', 'p')]:
                yield ('%s += %s (%s, %d)' % (KINDS[a], KINDS[b], t, n), False,
                       '(mut a: %s, b: %s) { a += b; }' % (kind(a, t, n), kind(b, t, n)))
            for a in KINDS:
                for b in KINDS:
                    if a == b:
                        continue
                    ab = (kind(a, t, n), kind(b, t, n))
                    yield ('%s == %s (%s, %d)' % (KINDS[a], KINDS[b], t, n), False, '(a: %s, b: %s) { a == b; }' % ab)
                    yield ('%s used as %s (%s, %d)' % (KINDS[a], KINDS[b], t, n), False, '(a: %s) -> %s { a }' % ab)
                    yield ('%s min %s (%s, %d)' % (KINDS[a], KINDS[b], t, n), False, '(a: %s, b: %s) { a.min(b); }' % ab)
                    if n == 3:
                        yield ('%s cross %s (%s)' % (KINDS[a], KINDS[b], t), False, '(a: %s, b: %s) { a.cross(b); }' % ab)
    for t in ('f32', 'f64'):
        for n in (2, 3, 4):
            N = kind('n', t, n)
            yield ('distance between normals (%s, %d)' % (t, n), False, '(a: %s, b: %s) { a.distance(b); }' % (N, N))
            yield ('square distance between normals (%s, %d)' % (t, n), False, '(a: %s, b: %s) { a.square_distance(b); }' % (N, N))
            yield ('trait distance between normals (%s, %d)' % (t, n), False, '(a: %s, b: %s) { Norm::distance(a, b); }' % (N, N))
            yield ('trait square distance between normals (%s, %d)' % (t, n), False, '(a: %s, b: %s) { Norm::square_distance(a, b); }' % (N, N))
            for a in KINDS:
                for b in KINDS:
                    if a != b:
                        yield ('distance from %s to %s (%s, %d)' % (KINDS[a], KINDS[b], t, n), False,
                               '(a: %s, b: %s) { a.distance(b); }' % (kind(a, t, n), kind(b, t, n)))
    for k in KINDS:
        for n, m in [(2, 3), (3, 2), (3, 4), (4, 3), (2, 4), (4, 2)]:
            ab = (kind(k, 'f32', n), kind(k, 'f32', m))
            for op in '+-*/':
                yield ('%s%d %s %s%d' % (KINDS[k], n, op, KINDS[k], m), False, '(a: %s, b: %s) { a %s b; }' % (ab + (op,)))
            yield ('%s%d == %s%d' % (KINDS[k], n, KINDS[k], m), False, '(a: %s, b: %s) { a == b; }' % ab)
            yield ('%s%d as %s%d' % (KINDS[k], n, KINDS[k], m), False, '(a: %s) -> %s { a }' % ab)
            yield ('%s%d dot %s%d' % (KINDS[k], n, KINDS[k], m), False, '(a: %s, b: %s) { a.dot(b); }' % ab)
        for t, u in [('f32', 'f64'), ('f64', 'f32'), ('f32', 'i32'), ('i32', 'u32'), ('i32', 'f32'), ('f32', 'Interval<f32>'),
                     ('Interval<f64>', 'f32'), ('f32', 'Interval<f64>')]:
            ab = (kind(k, t, 3), kind(k, u, 3))
            for op in '+-':
                yield ('%s<%s> %s %s<%s>' % (KINDS[k], t, op, KINDS[k], u), False, '(a: %s, b: %s) { a %s b; }' % (ab + (op,)))
            yield ('%s<%s> as %s<%s>' % (KINDS[k], t, KINDS[k], u), False, '(a: %s) -> %s { a }' % ab)
            yield ('%s<%s> == %s<%s>' % (KINDS[k], t, KINDS[k], u), False, '(a: %s, b: %s) { a == b; }' % ab)
            yield ('%s<%s> dot %s<%s>' % (KINDS[k], t, KINDS[k], u), False, '(a: %s, b: %s) { a.dot(b); }' % ab)
            yield ('%s<%s> * %s' % (KINDS[k], t, u), False, '(a: %s, b: %s) { a * b; }' % (kind(k, t, 3), u))
        yield ('%s2 has no cross product' % KINDS[k], False, '(a: %s, b: %s) { a.cross(b); }' % ((kind(k, 'f32', 2),) * 2))
        yield ('%s4 has no cross product' % KINDS[k], False, '(a: %s, b: %s) { a.cross(b); }' % ((kind(k, 'f32', 4),) * 2))
        yield ('%s3 has a cross product' % KINDS[k], True, '(a: %s, b: %s) -> %s { a.cross(b) }' % ((kind(k, 'f32', 3),) * 3))
    A = {k: kind(k, 'f32', 3) for k in KINDS}
    yield ('ray from point and vector', True, '(a: %s, b: %s) -> Ray<f32> { Ray::new(a, b, 1.0) }' % (A['p'], A['v']))
    yield ('ray evaluates to a point', True, '(r: Ray<f32>) -> %s { r.eval(1.0) }' % A['p'])
    for k in ('v', 'n'):
        yield ('ray with a %s as origin' % KINDS[k], False, '(a: %s, b: %s) { Ray::new(a, b, 1.0); }' % (A[k], A['v']))
        yield ('ray evaluates to a %s' % KINDS[k], False, '(r: Ray<f32>) -> %s { r.eval(1.0) }' % A[k])
    for k in ('p', 'n'):
        yield ('ray with a %s as direction' % KINDS[k], False, '(a: %s, b: %s) { Ray::new(a, b, 1.0); }' % (A['p'], A[k]))
    for f, twin in [('translate(a)', 'v'), ('scale(a)', 'v'), ('rotate(a, 1.0)', 'v')]:
        for k in KINDS:
            yield ('Transform::%s of a %s' % (f, KINDS[k]), k == twin, '(a: %s) -> Transform<f32> { Transform::<f32>::%s }' % (A[k], f))
    for i, ok in enumerate('ppv'):
        for k in KINDS:
            ts = [A['p'], A['p'], A['v']]
            ts[i] = A[k]
            yield ('look_at with a %s as argument %d' % (KINDS[k], i + 1), k == ok,
                   '(a: %s, b: %s, c: %s) -> Transform<f32> { Transform::<f32>::look_at(a, b, c) }' % tuple(ts))
    for a in KINDS:
        for b in KINDS:
            for m in ('map', 'map_inverse'):
                yield ('%s of a %s is a %s' % (m, KINDS[a], KINDS[b]), a == b,
                       '(t: Transform<f32>, a: %s) -> %s { t.%s(a) }' % (A[a], A[b], m))
    for m in ('map', 'map_inverse'):
        yield ('%s of a ray is a ray' % m, True, '(t: Transform<f32>, a: Ray<f32>) -> Ray<f32> { t.%s(a) }' % m)
        for k in KINDS:
            yield ('%s of a ray is a %s' % (m, KINDS[k]), False, '(t: Transform<f32>, a: Ray<f32>) -> %s { t.%s(a) }' % (A[k], m))
    for a, b in [('v', 'p'), ('p', 'v'), ('v', 'n'), ('n', 'v')]:
        yield ('%s converts to %s explicitly' % (KINDS[a], KINDS[b]), True, '<%s>(a: %s) -> %s { a.into() }' % (G, kind(a, 'T', 'N'), kind(b, 'T', 'N')))


def check(rep):
    import dump
    hs = os.environ.get('VERIF_HARNESS') or os.path.join(dump.VERIF, 'harness')
    repo = re.search(r'scarlet = \{ path = "([^"]+)"', open(os.path.join(hs, 'Cargo.toml')).read()).group(1)
    w = os.path.join(dump.BUILD, dump.tag('witness'))
    os.makedirs(os.path.join(w, 'src'), exist_ok=True)
    open(os.path.join(w, 'Cargo.toml'), 'w').write(
        '[package]\nname = "harness"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n'
        'scarlet = { path = "%s" }\n[profile.dev]\ndebug = false\nincremental = false\n[workspace]\n' % repo)
    lock = os.path.join(hs, 'Cargo.lock')
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(w, 'Cargo.lock'))
    ps = list(programs())

    def typecheck(sel):
        src = HEAD
        line = src.count('\n') + 1
        at = {}
        for i in sel:
            src += 'pub fn w%d%s\n' % (i, ps[i][2])
            at[line] = i
            line += 1
        open(os.path.join(w, 'src', 'lib.rs'), 'w').write(src)
        tgt = os.path.join(dump.BUILD, dump.tag('t-C14'))
        dump.fresh(tgt)
        e = dump.env()
        e['CARGO_TARGET_DIR'] = tgt
        e['RUSTFLAGS'] = '-Awarnings'
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--message-format=json'], cwd=w, env=e,
                           capture_output=True, text=True)
        errs, lost = {}, []
        ours = False
        for l in r.stdout.splitlines():
            m = json.loads(l)
            if m.get('reason') == 'compiler-message' and m['message']['level'].startswith('error'):
                if m['target']['name'] != 'harness':
                    raise dump.BuildError(m['message'].get('rendered') or r.stderr)
                ours = True
                sp = [s for s in m['message']['spans'] if s['is_primary']]
                hit = [at[s['line_start']] for s in sp if s['file_name'].endswith('lib.rs') and s['line_start'] in at]
                for i in hit:
                    errs.setdefault(i, m['message']['message'])
                if not hit and m['message']['spans']:
                    lost.append(m['message'].get('rendered') or '')
        if r.returncode and not ours:
            raise dump.BuildError(r.stderr[-3000:])
        return errs, lost
    # the twins first, on their own: nothing may be wrong with them
    good = [i for i, p in enumerate(ps) if p[1]]
    errs, lost = typecheck(good)
    for i in good:
        rep.add('accepted: ' + ps[i][0], i not in errs, 'rejected (%s): fn%s' % (errs.get(i), ps[i][2]))
    for x in lost:
        rep.add('witness environment', False, x[-1500:])
    bad = [i for i, p in enumerate(ps) if not p[1]]
    errs, lost = typecheck(bad)
    for i in bad:
        rep.add('rejected: ' + ps[i][0], i in errs, 'type-checks: fn%s' % ps[i][2])
    rep.extra = {'witness_programs': len(ps), 'must_compile': len(good), 'must_fail': len(bad)}
    rep.note('rejected: fn' + ps[bad[0]][2])
