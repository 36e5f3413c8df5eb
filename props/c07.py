import itertools
from props.lib import *
from spec import *
import mir

RULE = ('Each constant is folded from MIR and compared with the number it names (pi and its fractions: the float '
        'nearest to the exact number). Each function is value-numbered for symbolic arguments (integers with their '
        'range, overflow checked; floats as reals, and again with every combination of +-infinity, NaN and -0 as '
        'constants) and must equal the defining expression in every cell of its decision diagram.')
ASSUMES = ['square, absolute value and the negation in signum may overflow for integers as the operators do',
           'std float functions compute the functions they are named after']
FLOOR = 350
INTS = [(k, n) for k in 'ui' for n in (8, 16, 32, 64)]


def tyname(k, n):
    return '%s%d_' % (k, n)


def consts(rep):
    for k, n in INTS:
        lo, hi = (0, 2 ** n - 1) if k == 'u' else (-2 ** (n - 1), 2 ** (n - 1) - 1)
        for f, want in (('zero', 0), ('one', 1), ('two', 2), ('lowest', lo), ('highest', hi)):
            def go():
                cs = Case(rep, 'c07::%s::%s' % (tyname(k, n), f), label='%s%d::%s' % (k, n, f))
                v = cs.run([])
                cs.no_panic()
                got = v.v if isinstance(v, Leaf) else None
                if isinstance(got, E):
                    got = got.const()
                cs.ob('is %d' % want, got == want, 'is %r' % (got,))
            guarded(rep, '%s%d::%s' % (k, n, f), go)
    for bits in (32, 64):
        p, emax, emin = (24, 127, -126) if bits == 32 else (53, 1023, -1022)
        big = (2 - Fraction(1, 2 ** (p - 1))) * Fraction(2) ** emax
        small = Fraction(2) ** emin
        sub = Fraction(2) ** (emin - p + 1)
        pi = round_to(PI_LO, bits)
        ex = lambda v: (lambda x: x == v, 'is %s' % v)
        near = lambda q: (lambda x: x == round_to(q * PI_LO, bits), 'is the float nearest to %s pi' % q)
        pos = (lambda x: isinstance(x, Fraction) and 0 < x < Fraction(1, 100), 'is positive and small')
        base = {'zero': (lambda x: x == 0, 'is 0'), 'one': ex(1), 'two': ex(2), 'lowest': ex(-big), 'highest': ex(big)}
        fl = {'nan': ex(NAN), 'infinity': ex(INF), 'neg_infinity': ex(NINF), 'neg_zero': ex(NZ),
              'min_positive_value': (lambda x: x in (small, sub), 'is the smallest positive number'), 'half': ex(Fraction(1, 2)),
              'pi': near(1), 'tau': near(2), 'frac_pi_2': near(Fraction(1, 2)), 'frac_pi_4': near(Fraction(1, 4)),
              'abs_epsilon': pos, 'rel_epsilon': pos}
        for mod, fs in (('f%d_' % bits, base), ('gf%d' % bits, fl)):
            for f, (ok, what) in fs.items():
                def go():
                    cs = Case(rep, 'c07::%s::%s' % (mod, f), mode='fp', bits=bits, label='f%d::%s' % (bits, f))
                    v = cs.run([])
                    cs.no_panic()
                    x = v.v.const() if isinstance(v, Leaf) else None
                    cs.ob(what, x is not None and ok(x), 'is %r' % (x,))
                guarded(rep, 'f%d::%s' % (bits, f), go)
        fs = dict(base)
        fs.update({k: v for k, v in fl.items() if 'pi' not in k and k != 'tau'})
        for f, (ok, what) in fs.items():
            def go():
                cs = Case(rep, 'c07::if%d::%s' % (bits, f), mode='fp', bits=bits, label='Interval<f%d>::%s' % (bits, f))
                v = cs.run([])
                cs.no_panic()
                x = [y.v.const() if isinstance(y, Leaf) else None for y in v.f]
                if f == 'two':
                    cs.ob('encloses 2 within a step', x[0] <= 2 <= x[1] and
                          x[0] >= next_const(Fraction(2), bits, False) and x[1] <= next_const(Fraction(2), bits, True), repr(x))
                else:
                    cs.ob('both bounds: ' + what, all(y is not None and ok(y) for y in x), repr(x))
            guarded(rep, 'Interval<f%d>::%s' % (bits, f), go)


def fns(rep, mod, bits, label, rng):
    """ordering functions of one type"""
    def case(f):
        cs = Case(rep, 'c07::%s::%s' % (mod, f), bits=bits or 32, label='%s::%s' % (label, f))
        n = cs.f['argc']
        if rng:
            cs.c.int_range = rng
            for i in range(n):
                x = cs.v('abc'[i])
                cs.assume(x - rng[0], '>=')
                cs.assume(cs.v(rng[1]) - x, '>=')
        return cs

    def each(f, g):
        def go():
            cs = case(f)
            if f == 'square' and rng:
                cs.c.int_range = None
            if f == 'clamp':
                cs.assume(cs.v('c') - cs.v('b'), '>=')
            cs.run(cs.args())
            cs.no_panic(overflow=f != 'square')
            xs = [cs.v(x) for x in 'abc'[:cs.f['argc']]]
            w = g(cs, *xs)
            if isinstance(w, tuple):
                cs.eqs('value', cs.fl(cs.val), list(w))
            else:
                cs.eq('value', cs.fl(cs.val)[0], w)
        guarded(rep, '%s::%s' % (label, f), go)
    each('is_zero', lambda cs, a: a.eq(0))
    each('is_one', lambda cs, a: a.eq(1))
    each('min', lambda cs, a, b: cs.fn('min', a, b))
    each('max', lambda cs, a, b: cs.fn('max', a, b))
    each('min_max', lambda cs, a, b: (cs.fn('min', a, b), cs.fn('max', a, b)))
    each('clamp', lambda cs, a, b, c: cs.fn('min', cs.fn('max', a, b), c))
    each('in_range', lambda cs, a, b, c: (a >= b) & (a <= c))
    each('square', lambda cs, a: a * a)


def signed(rep, mod, bits, label, rng):
    def each(f, g):
        def go():
            cs = Case(rep, 'c07::%s::%s' % (mod, f), bits=bits or 32, label='%s::%s' % (label, f))
            a = cs.v('a')
            if rng:
                cs.assume(a - rng[0], '>')
                cs.assume(cs.v(rng[1]) - a, '>=')
            cs.run(cs.args())
            cs.no_panic(overflow=False)
            cs.eq('value', cs.fl(cs.val)[0], g(cs, a))
        guarded(rep, '%s::%s' % (label, f), go)
    each('is_positive', lambda cs, a: a > 0)
    each('is_negative', lambda cs, a: a < 0)
    each('is_nonpositive', lambda cs, a: a <= 0)
    each('is_nonnegative', lambda cs, a: a >= 0)
    each('signum', lambda cs, a: cs.ite(a > 0, 1, cs.ite(a < 0, -1, 0)))
    each('abs', lambda cs, a: cs.ite(a < 0, -a, a))


def floats(rep, bits):
    m = 'gf%d' % bits
    L = 'f%d::' % bits

    def each(f, g, pre=lambda cs: None, n=1):
        def go():
            cs = Case(rep, 'c07::%s::%s' % (m, f), bits=bits, label=L + f)
            pre(cs)
            cs.run(cs.args())
            cs.no_panic()
            w = g(cs, *[cs.v(x) for x in 'ab'[:cs.f['argc']]])
            cs.eqs('value', cs.fl(cs.val), list(w) if isinstance(w, tuple) else [w])
        guarded(rep, L + f, go)
    nz = lambda cs: cs.assume(cs.v('a'), '!=')
    each('recip', lambda cs, a: 1 / a, nz)
    each('sqrt', lambda cs, a: cs.fn('sqrt', a), lambda cs: cs.assume(cs.v('a'), '>='))
    for f in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan'):
        each(f, lambda cs, a: cs.fn(f, a))
    each('sin_cos', lambda cs, a: (cs.fn('sin', a), cs.fn('cos', a)))
    each('atan2', lambda cs, a, b: cs.fn('atan2', a, b))

    def cast(f, want):
        def go():
            cs = Case(rep, 'c07::%s::%s' % (m, f), mode='fp', bits=bits, label=L + f)
            cs.c.finite_hint = lambda e: True
            cs.run(cs.args())
            cs.no_panic()
            a = cs.c.var('a')
            w = a if want is None else cs.c.fn(want, a)
            v = cs.val
            cs.ob('is the nearest representable number' if want != 'trunc64' else 'truncates',
                  isinstance(v, Leaf) and v.v is w, 'computes %r, expected %r' % (v, w))
        guarded(rep, L + f, go)
    cast('to_i64', 'trunc64')
    cast('to_f32', 'fl32' if bits == 64 else None)
    cast('to_f64', None)
    cast('from_f32', None)
    cast('from_f64', 'fl32' if bits == 32 else None)
    cast('from_i64', 'fl%d' % bits)
    # special values
    vals = [INF, NINF, NAN, NZ, Fraction(0), Fraction(3), Fraction(-3), None]

    def num(x):
        return {INF: 10 ** 400, NINF: -10 ** 400, NZ: Fraction(0)}.get(x, x) if isinstance(x, str) else x
    preds = {('gf%d' % bits, 'is_nan'): lambda x: x == NAN, ('gf%d' % bits, 'is_finite'): lambda x: x not in (NAN, INF, NINF),
             ('gf%d' % bits, 'is_infinite'): lambda x: x in (INF, NINF),
             ('f%d_' % bits, 'is_zero'): lambda x: x in (NZ, 0), ('f%d_' % bits, 'is_one'): lambda x: x == 1,
             ('sf%d' % bits, 'is_positive'): lambda x: x != NAN and num(x) > 0,
             ('sf%d' % bits, 'is_negative'): lambda x: x != NAN and num(x) < 0,
             ('sf%d' % bits, 'is_nonpositive'): lambda x: x != NAN and num(x) <= 0,
             ('sf%d' % bits, 'is_nonnegative'): lambda x: x != NAN and num(x) >= 0}
    for (mod, f), g in preds.items():
        for x in vals:
            if x is None and 'gf' not in mod:
                continue

            def go():
                cs = Case(rep, 'c07::%s::%s' % (mod, f), mode='fp', bits=bits, label='%s%s(%s)' % (L, f, 'finite' if x is None else x))
                cs.c.finite_hint = lambda e: True
                cs.run([cs.c.leaf(cs.c.c(x) if x is not None else cs.c.var('a'))])
                cs.no_panic()
                w = g(Fraction(5) if x is None else x)
                cs.ob('is %s' % w, isinstance(cs.val, Leaf) and cs.val.v == w, repr(cs.val))
            guarded(rep, L + f, go)
    # ordering functions at the infinities
    pts = [INF, NINF, Fraction(-2), Fraction(0), Fraction(7)]
    for f, g in (('min', min), ('max', max)):
        for x, y in itertools.product(pts, pts):
            if x not in SPECIAL and y not in SPECIAL:
                continue

            def go():
                cs = Case(rep, 'c07::f%d_::%s' % (bits, f), mode='fp', bits=bits, label='%s%s(%s, %s)' % (L, f, x, y))
                cs.run([cs.c.leaf(cs.c.c(x)), cs.c.leaf(cs.c.c(y))])
                w = g((num(x), str(x), x), (num(y), str(y), y))[2]
                cs.ob('is %s' % w, isinstance(cs.val, Leaf) and cs.val.v.const() == w, repr(cs.val))
            guarded(rep, L + f, go)
    for f, t in (('abs', {INF: INF, NINF: INF}), ('signum', {INF: 1, NINF: -1})):
        for x, w in t.items():
            def go():
                cs = Case(rep, 'c07::sf%d::%s' % (bits, f), mode='fp', bits=bits, label='%s%s(%s)' % (L, f, x))
                cs.run([cs.c.leaf(cs.c.c(x))])
                cs.ob('is %s' % w, isinstance(cs.val, Leaf) and cs.val.v.const() == w, repr(cs.val))
            guarded(rep, L + f, go)


def interval_classes(rep, bits):
    pts = [INF, NINF, NAN, None]
    for f in ('is_nan', 'is_finite', 'is_infinite'):
        for x, y in itertools.product(pts, pts):
            if NAN not in (x, y) and (x == INF and y != INF or y == NINF and x != NINF):
                continue        # not an interval

            def go():
                cs = Case(rep, 'c07::if%d::%s' % (bits, f), mode='fp', bits=bits,
                          label='Interval<f%d>::%s([%s, %s])' % (bits, f, x or 'finite', y or 'finite'))
                cs.c.finite_hint = lambda e: True
                mk = lambda v, n: cs.c.leaf(cs.c.c(v) if v else cs.c.var(n))
                v = cs.sym(0, 'a')
                cs.run([Agg(v.k, [mk(x, 'p'), mk(y, 'q')])])
                cs.no_panic()
                w = {'is_nan': NAN in (x, y), 'is_finite': x is None and y is None,
                     'is_infinite': x == y and x in (INF, NINF)}[f]
                cs.holds('is %s' % w, V(cs, cs.val) if w else ~V(cs, cs.val))
            guarded(rep, 'Interval<f%d>::%s' % (bits, f), go)


def check(rep):
    consts(rep)
    for k, n in INTS:
        rng = (0, 2 ** n - 1) if k == 'u' else (-2 ** (n - 1), 2 ** (n - 1) - 1)
        fns(rep, tyname(k, n), 0, '%s%d' % (k, n), rng)
        if k == 'i':
            signed(rep, 'si%d' % n, 0, 'i%d' % n, rng)
    for bits in (32, 64):
        fns(rep, 'f%d_' % bits, bits, 'f%d' % bits, None)
        signed(rep, 'sf%d' % bits, bits, 'f%d' % bits, None)
        floats(rep, bits)
        interval_classes(rep, bits)
