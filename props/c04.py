"""Interval set operations and accessors."""
from props.ival import *

RULE = ('Set operations, membership and tests are value-numbered for symbolic bounds and must equal the defining condition or '
        'bound in every cell (every relative position of the bounds). Widening, mapping and the representative number are '
        'interpreted over IEEE terms: widening must return exactly the adjacent floats, a mapped interval must enclose both '
        'images within a step, and the representative must be the midpoint in exact arithmetic and lie between the bounds '
        'by monotonicity of rounding.')
ASSUMES = ['bounds are finite with lower <= upper; intersected intervals overlap; the sum of the bounds does not overflow',
           'the function mapped over an interval is monotone as computed']
FLOOR = 70


def order(rep, bits):
    L = 'Interval<f%d> ' % bits

    def run(f, body, what=None, pre=None):
        def go():
            cs = Case(rep, 'c04::f%d_::%s' % (bits, f), bits=bits, label=L + (what or f))
            args, vs = [], []
            for i in range(cs.f['argc']):
                v = cs.sym(i, 'abc'[i])
                args.append(v)
                x = cs.fl(v)
                if len(x) == 2:
                    cs.assume(x[1] - x[0], '>=')
                vs.append(x if len(x) > 1 else x[0])
            if pre:
                pre(cs, *vs)
            cs.run(args)
            cs.no_panic()
            body(cs, cs.fl(cs.val), *vs)
        guarded(rep, L + (what or f), go)
    run('union', lambda cs, r, a, b: cs.eqs('smallest interval containing both', r,
                                            [cs.fn('min', a[0], b[0]), cs.fn('max', a[1], b[1])]))

    def overlap(cs, a, b):
        cs.assume(a[1] - b[0], '>=')
        cs.assume(b[1] - a[0], '>=')
    run('intersect', lambda cs, r, a, b: cs.eqs('common members', r, [cs.fn('max', a[0], b[0]), cs.fn('min', a[1], b[1])]),
        pre=overlap)
    run('contains', lambda cs, r, a, b: cs.eq('between the bounds', r[0], (a[0] <= b) & (b <= a[1])))
    run('in_range', lambda cs, r, a, b, c: cs.eq('both bounds in range', r[0], (a[0] >= b) & (a[1] <= c)))
    run('is_same', lambda cs, r, a, b: cs.eq('equal bounds', r[0], a[0].eq(b[0]) & a[1].eq(b[1])))
    run('is_exact', lambda cs, r, a: cs.eq('one member', r[0], a[0].eq(a[1])))
    for f in ('approx', 'convert', 'to_f32', 'to_f64'):
        run(f, lambda cs, r, a: cs.eq('midpoint', r[0], (a[0] + a[1]) * Fraction(1, 2)))
    for f in ('convert_v2', 'convert_v3', 'convert_v4', 'convert_p3', 'convert_n3'):
        def pre(cs, a):
            for l, u in zip(a[::2], a[1::2]):
                cs.assume(u - l, '>=')
        run(f, lambda cs, r, a: cs.eqs('midpoint of each component', r, [(l + u) * Fraction(1, 2) for l, u in zip(a[::2], a[1::2])]), pre=pre)
    run('to_i64', lambda cs, r, a: cs.eq('midpoint, truncated', r[0], cs.fn('trunc', (a[0] + a[1]) * Fraction(1, 2))))
    run('from_t', lambda cs, r, a: cs.eqs('bounds are the number', r, [a, a]))
    run('from_f32', lambda cs, r, a: cs.eqs('bounds are the number', r, [a, a]))
    lim = lambda cs, a, b: cs.assume(b - a, '>=')
    run('from_pair', lambda cs, r, a, b: cs.eqs('bounds are the numbers', r, [a, b]), pre=lim)
    run('new', lambda cs, r, a, b: cs.eqs('bounds are the numbers', r, [a, b]), pre=lim)


def floats(rep, bits):
    def op(f, name):
        return Op(f, name, lambda s, a: ([a[0]], [a[1]]), False)
    ex = lambda q: ('ex', q)

    def bounds(lo, hi, exact):
        def judge(cs, cell, l, u, corners):
            a, b = lo(ex(corners[0][0]), ex(corners[1][0])), hi(ex(corners[0][0]), ex(corners[1][0]))
            if not cell.le(l, a) or not cell.le(('nd', a) if not exact else a, l):
                return 'the lower bound may differ from the one required'
            if not cell.le(b, u) or not cell.le(u, ('nu', b) if not exact else b):
                return 'the upper bound may differ from the one required'
            return None
        return judge
    e = lambda t: ('fn', 'exp', t)
    for f, name, j in (
            ('extend', 'widening by a step', bounds(lambda a, b: ('nd', a), lambda a, b: ('nu', b), True)),
            ('next_up', 'step up', bounds(lambda a, b: ('nu', a), lambda a, b: ('nu', b), True)),
            ('next_down', 'step down', bounds(lambda a, b: ('nd', a), lambda a, b: ('nd', b), True)),
            ('map_inc', 'map by an increasing function', bounds(lambda a, b: e(a), lambda a, b: e(b), False)),
            ('map_dec', 'map by a decreasing function', bounds(lambda a, b: neg(e(b)), lambda a, b: neg(e(a)), False))):
        guarded(rep, 'Interval<f%d> %s' % (bits, name), lambda: check_op(rep, 'c04', bits, op(f, name), j))

    def inside(f):
        cs, kinds, names, rs = ival_run(rep, 'c04', bits, op(f, f))
        T = Terms()
        cell = start(T, kinds, names, None)
        err = None
        for g, loc, msg in cs.it.panics:
            if any(v for _, v in walk(cs.c, g, cell)):
                err = 'may panic: %s' % msg
        for cl, v in walk(cs.c, cs.val, cell):
            t = T.term(v)
            if not cl.le(ex(rs[0][0]), t) or not cl.le(t, ex(rs[0][1])):
                err = '%r may lie outside; when %s' % (v, show_cell(cs, cl))
        cs.ob('lies inside the interval', err is None, err or '')
    for f in ('approx', 'convert'):
        guarded(rep, 'Interval<f%d> %s' % (bits, f), lambda: inside(f))


def check(rep):
    for bits in (32, 64):
        order(rep, bits)
        floats(rep, bits)
