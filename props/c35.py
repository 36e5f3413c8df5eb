"""Rounding in the building blocks stays within a fixed multiple of the precision."""
from fractions import Fraction
from props.ival import *
from props.lib import *

RULE = ('The functions are interpreted over IEEE float terms, kept as written. A rounding-count domain is evaluated on every result: '
        'a value has bounded relative error when it is built from inputs and differences of inputs by products, quotients, '
        'square roots and sums of terms of equal sign, and the count of roundings bounds the error. Sums of products are expanded; every '
        'product must be one of those the operation is defined by, none may enter with both signs, and each may pass through '
        'at most 16 roundings.')
ASSUMES = ['no intermediate result overflows or becomes subnormal', 'IEEE operations are rounded correctly, so a value '
           'through k of them is off by a factor within (1 + u)^k of one, u half a unit in the last place',
           'the quotient by the homogeneous coordinate of a mapped point: relative to the coordinate as computed']
FLOOR = 120
TECHNIQUE = 'static analysis: abstract interpretation of MIR in a rounding-count domain'
NOTE = ('Abstract interpretation of the MIR of the current tree over float terms in a rounding-count domain (standard forward error analysis): '
        'decides the bound for all inputs that cause no overflow or subnormal intermediate result. Trusts rustc\'s MIR, the models of core/std '
        'functions and correct rounding of + - * / sqrt.')
K = 16


BITS = [32]


class Loss(Exception):
    pass


def narrowed(op):
    if op != 'fl%d' % BITS[0] and BITS[0] == 64:
        raise Loss('a double is rounded to single precision')


def exact(e):
    if e.op in ('v', 'c'):
        return True
    if e.op in ('neg', 'abs', 'max', 'min'):
        return all(exact(x) for x in e.args)
    if e.op in ('mul', 'div'):
        a, b = e.args
        if e.op == 'mul' and a.op == 'c':
            a, b = b, a
        n = b.const() if b.op == 'c' else None
        return isinstance(n, Fraction) and n != 0 and exact(a) and bin(abs(n.numerator)).count('1') == 1 and \
            bin(n.denominator).count('1') == 1
    return False


def relative(e, memo):
    """(number of roundings, sign or None); raises Loss where the relative error has no bound"""
    if e.id in memo:
        return memo[e.id]
    memo[e.id] = r = _relative(e, memo)
    return r


def _sum(e, a, b):
    (n, s), (m, t) = a, b
    if s is None or s != t:
        raise Loss('terms of either sign are added after rounding: %s' % repr(e)[:200])
    return max(n, m) + 1, s


def flip(r):
    return r[0], None if r[1] is None else -r[1]


def _relative(e, memo):
    op, a = e.op, e.args
    if op == 'c':
        n = e.const()
        if isinstance(n, Fraction):
            return 0, (1 if n >= 0 else -1)
        return 0, None
    if op == 'v':
        return 0, None
    if exact(e):
        return 0, (1 if op == 'abs' else None)
    if op in ('add', 'sub'):
        if exact(a[0]) and exact(a[1]):
            return 1, None
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            if y.op == 'c' and y.const() in (0, NZ):
                return relative(x, memo) if op == 'add' or y is a[1] else flip(relative(x, memo))
        r, s = relative(a[0], memo), relative(a[1], memo)
        return _sum(e, r, flip(s) if op == 'sub' else s)
    if op == 'fma':
        n, s = prod(relative(a[0], memo), relative(a[1], memo), a[0] is a[1])
        if a[2].op == 'c' and a[2].const() in (0, NZ):
            return n, s
        return _sum(e, (n - 1, s), relative(a[2], memo))
    if op == 'neg':
        return flip(relative(a[0], memo))
    if op in ('mul', 'div'):
        return prod(relative(a[0], memo), relative(a[1], memo), a[0] is a[1])
    if op == 'hypot':
        return max(relative(x, memo)[0] for x in a) + 2, 1
    if op == 'sqrt':
        return (relative(a[0], memo)[0] + 1) // 2 + 1, 1
    if op == 'abs':
        return relative(a[0], memo)[0], 1
    if op in ('max', 'min'):
        r = [relative(x, memo) for x in a]
        return max(x[0] for x in r), (r[0][1] if len({x[1] for x in r}) == 1 else None)
    if op in ('fl32', 'fl64'):
        narrowed(op)
        n, s = relative(a[0], memo)
        return n + 1, s
    raise Loss('the relative error of %s is not bounded' % op)


def prod(x, y, same):
    (n, s), (m, t) = x, y
    return n + m + 1, 1 if same else None if s is None or t is None else s * t


def mono(*xs):
    d = {}
    for k, n in xs:
        d[k] = d.get(k, 0) + n
    return frozenset((k, n) for k, n in d.items() if n)


def poly_key(t):
    """a sum up to sign"""
    s = frozenset((m, c[0]) for m, c in t.items())
    n = frozenset((m, -c[0]) for m, c in t.items())
    x = min((s, n), key=lambda f: sorted(map(repr, f)))
    return ('sum', x), (1 if x == s else -1)


def sound(t):
    for m, (net, tot, n) in t.items():
        if abs(net) != tot:
            raise Loss('%s enters with both signs' % name(m))
        if n > K:
            raise Loss('%s passes through %d roundings' % (name(m), n))


def name(m):
    return '*'.join('%s%s' % (k if isinstance(k, str) else k[0], '' if n == 1 else '^%d' % n) for k, n in sorted(m, key=repr)) or 'a constant'


def terms(e, memo):
    if e.id in memo:
        return memo[e.id]
    memo[e.id] = r = _terms(e, memo)
    if len(r) > 64:
        raise Loss('too many terms')
    return r


def plus(x, y, k=1):
    out = {}
    for t in (x, y):
        for m, (net, tot, n) in t.items():
            a = out.get(m, (0, 0, 0))
            out[m] = (a[0] + net, a[1] + tot, max(a[2], n + k))
    return out


def times(x, y, k=1):
    out = {}
    for m, (a, b, n) in x.items():
        for q, (c, d, p) in y.items():
            z = mono(*m, *q)
            o = out.get(z, (0, 0, 0))
            out[z] = (o[0] + a * c, o[1] + b * d, max(o[2], n + p + k))
    return out


def minus(x):
    return {m: (-a, b, n) for m, (a, b, n) in x.items()}


def _terms(e, memo):
    op, a = e.op, e.args
    if op == 'c':
        n = e.const()
        if n == NZ or n == 0:
            return {}
        if isinstance(n, Fraction):
            return {mono(): (n, abs(n), 0)}
        raise Loss('a constant that is no number')
    if op == 'v':
        return {mono((a, 1)): (Fraction(1), Fraction(1), 0)}
    if op == 'neg':
        return minus(terms(a[0], memo))
    if op in ('add', 'sub'):
        x, y = terms(a[0], memo), terms(a[1], memo)
        return plus(x, minus(y) if op == 'sub' else y, 1 if x and y else 0)
    if op == 'mul':
        return times(terms(a[0], memo), terms(a[1], memo))
    if op == 'fma':
        return plus(times(terms(a[0], memo), terms(a[1], memo), 0), terms(a[2], memo))
    if op == 'div':
        d = terms(a[1], memo)
        if len(d) == 1:
            (m, (net, tot, n)), = d.items()
            if abs(net) != tot:
                raise Loss('%s enters with both signs' % name(m))
            return times(terms(a[0], memo), {mono(*((k, -p) for k, p in m)): (1 / net, 1 / tot, n)})
        sound(d)
        if not d:
            raise Loss('division by zero')
        k, s = poly_key(d)
        return times(terms(a[0], memo), {mono((k, -1)): (Fraction(s), Fraction(1), 0)})
    if op in ('fl32', 'fl64'):
        narrowed(op)
        return {m: (x, y, n + 1) for m, (x, y, n) in terms(a[0], memo).items()}
    raise Loss('%s is not a sum of products' % op)


def leaves(cs, v):
    for l in cs.c.leaves_of(v.d).values() if isinstance(cs.c.leaves_of(v.d), dict) else cs.c.leaves_of(v.d):
        yield l.v if isinstance(l, Leaf) else l


def rel_ok(cs, v):
    memo = {}
    for e in leaves(cs, v):
        try:
            n, _ = relative(e, memo)
            if n > K:
                return 'passes through %d roundings' % n
        except Loss as x:
            return str(x)


def sum_ok(cs, v, want):
    memo = {}
    for e in leaves(cs, v):
        if e.op == 'c':
            continue        # a special case: its value is the business of other properties
        try:
            t = terms(e, memo)
            sound(t)
            for m, (net, tot, n) in t.items():
                if m not in want:
                    return 'the term %s is not among those of the operation' % name(m)
                if tot > 2:
                    return 'the term %s enters with weight %s' % (name(m), tot)
        except Loss as x:
            return str(x)


def nm(v):
    return v.d.v.args


def check(rep):
    def case(root, what, bits=32):
        cs = Case(rep, 'c35::' + root, mode='fp', bits=bits, label=what, fold=False)
        BITS[0] = bits
        args = cs.args()
        cs.run(args)
        return cs, [[nm(v) for v in cs.fl(x)] for x in args]

    def ob(cs, what, err):
        cs.ob(what, err is None, err or '')

    def rel(root, what, bits):
        cs, _ = case(root, what, bits)
        for i, v in enumerate(cs.fl(cs.val)):
            ob(cs, 'relative error, component %d' % i, rel_ok(cs, v))

    def sums(root, what, bits, want):
        cs, a = case(root, what, bits)
        out = cs.fl(cs.val)
        w = want(*a)
        if len(w) != len(out):
            raise Unsupported('%d components instead of %d' % (len(out), len(w)))
        for i, (v, m) in enumerate(zip(out, w)):
            ob(cs, 'error relative to the sum of the sizes of the products, component %d' % i, sum_ok(cs, v, set(m)))

    def P(*xs):
        return mono(*((x, 1) for x in xs))

    def go(f, root, what, bits, *x):
        guarded(rep, what, lambda: f(root, what, bits, *x))

    for m, t, bits in (('v2f', 'Vector2<f32>', 32), ('v3f', 'Vector3<f32>', 32), ('v4f', 'Vector4<f32>', 32), ('v3d', 'Vector3<f64>', 64)):
        for f in ('add', 'sub', 'scale', 'unscale', 'square_norm', 'norm', 'normalize'):
            go(rel, '%s::%s' % (m, f), '%s %s' % (t, f), bits)
        go(sums, m + '::dot', t + ' dot', bits, lambda a, b: [[P(x, y) for x, y in zip(a, b)]])
    for m, t, bits in (('d3f', 'Point3<f32>', 32), ('d3d', 'Point3<f64>', 64)):
        go(rel, m + '::sub', t + ' sub', bits)
    for m, t, bits in (('t2f', 'Vector2<f32>', 32), ('t3f', 'Vector3<f32>', 32), ('t3d', 'Vector3<f64>', 64)):
        for f in ('square_distance', 'distance'):
            go(rel, '%s::%s' % (m, f), '%s %s' % (t, f), bits)
    R = range(4)

    def mul(a, b):
        return [[P(a[4 * i + k], b[4 * k + j]) for k in R] for i in R for j in R]

    def point(a, i, p):
        out = []
        for m in (a, i):
            w = {P(p[k], m[12 + k]): (Fraction(1),) for k in range(3)}
            w[P(m[15])] = (Fraction(1),)
            key, _ = poly_key(w)
            # where the coordinate is one the quotient may be left out
            out += [[mono((p[k], 1), (m[4 * r + k], 1), *z) for k in range(3) for z in (((key, -1),), ())] +
                    [mono((m[4 * r + 3], 1), *z) for z in (((key, -1),), ())] for r in range(3)]
        return out

    for m, t, bits in (('mf', 'f32', 32), ('md', 'f64', 64)):
        go(sums, m + '::cross', t + ' cross product', bits,
           lambda a, b: [[P(a[(i + 1) % 3], b[(i + 2) % 3]), P(a[(i + 2) % 3], b[(i + 1) % 3])] for i in range(3)])
        go(sums, m + '::product', t + ' matrix product', bits, mul)
        go(rel, m + '::times', t + ' matrix times scalar', bits)
        go(sums, m + '::vector', t + ' mapped vector', bits,
           lambda a, i, p: [[P(x[4 * r + k], p[k]) for k in range(3)] for x in (a, i) for r in range(3)])
        go(sums, m + '::normal', t + ' mapped normal', bits,
           lambda a, i, p: [[P(x[4 * k + r], p[k]) for k in range(3)] for x in (i, a) for r in range(3)])
        go(sums, m + '::point', t + ' mapped point', bits, point)
        go(sums, m + '::compose', t + ' composed transforms', bits, lambda a, ai, b, bi: mul(a, b) + mul(bi, ai))
        go(sums, m + '::eval', t + ' point on a ray', bits, lambda r, t: [[P(r[i]), P(r[3 + i], t[0])] for i in range(3)])
    go(rel, 'b::diagonal', 'box diagonal', 32)

    def rng():
        cs, _ = case('b::range', 'range of a ray in a box')
        some, pay = cs.some()
        for what, v in zip(('entered', 'left'), cs.fl(pay)):
            ob(cs, 'relative error of the parameter where it is ' + what, rel_ok(cs, v))
    guarded(rep, 'range of a ray in a box', rng)
