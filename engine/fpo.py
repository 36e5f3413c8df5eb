"""Order domain for IEEE arithmetic.

A float expression is a term
    ex(q)      an input, a constant or an exact (negated) one: the real number q
    fl(q)      the real number q, rounded to nearest (overflow to infinity included)
    nd(t) nu(t)  the adjacent float below / above
    re(q)      a real number that need not be a float
    cn(q)      the constant q, or NaN
    sc(k, t)   the float t times k = 1/2, 1/4, .., rounded
    fn(f, t)   a library function of a float, within one step of the exact value
and q is a ratio of polynomials in the inputs.  Rounding is monotone, fixes
floats, and  nd(fl(q)) <= q <= nu(fl(q));  everything the analysis concludes
about floats follows from these laws and from polynomial inequalities, which
are entailed by the outcomes of a cell as non-negative combinations of the
facts and their pairwise products (the polyhedral cone of `core.cone_member`).
"""
from fractions import Fraction
from core import *

ONE = ((), )


class Poly:
    __slots__ = ('m', 'k')

    def __init__(self, m):
        self.m = {x: c for x, c in m.items() if c}
        self.k = tuple(sorted(self.m.items()))

    def __add__(self, o):
        r = dict(self.m)
        for x, c in o.m.items():
            r[x] = r.get(x, 0) + c
        return Poly(r)

    def __neg__(self):
        return Poly({x: -c for x, c in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for x, c in self.m.items():
            for y, d in o.m.items():
                z = tuple(sorted(x + y))
                r[z] = r.get(z, 0) + c * d
        return Poly(r)

    def sub0(self, zeros):
        return Poly({x: c for x, c in self.m.items() if not any(v in zeros for v in x)})

    def deg(self):
        return max((len(x) for x in self.m), default=0)

    def const(self):
        return self.m.get((), Fraction(0)) if all(not x for x in self.m) else None

    def vars(self):
        return {v for x in self.m for v in x}

    def __repr__(self):
        return ' + '.join('%s%s' % (c, ''.join('*%s' % (v,) for v in x)) for x, c in self.k) or '0'


def pc(v):
    return Poly({(): Fraction(v)})


def pv(name):
    return Poly({(name,): Fraction(1)})


class Q:
    """ratio of polynomials"""
    __slots__ = ('n', 'd', 'k')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else pc(1)
        self.k = (self.n.k, self.d.k)

    def __add__(self, o): return Q(self.n * o.d + o.n * self.d, self.d * o.d) if self.d.k != o.d.k else Q(self.n + o.n, self.d)
    def __neg__(self): return Q(-self.n, self.d)
    def __sub__(self, o): return self + (-o)
    def __mul__(self, o): return Q(self.n * o.n, self.d * o.d)
    def __truediv__(self, o): return Q(self.n * o.d, self.d * o.n)

    def __repr__(self):
        return '%r' % self.n if self.d.const() == 1 else '(%r)/(%r)' % (self.n, self.d)


def qc(v):
    return Q(pc(v))


def qv(n):
    return Q(pv(n))


_cone = {}
PI_FACTS = [(pv('PI') - pc(PI_LO), True), (pc(PI_HI) - pv('PI'), True)]


class Facts2:
    """polynomial facts p >= 0 / p > 0, with variables known to be zero"""

    def __init__(self, facts=(), zeros=()):
        self.zeros = frozenset(zeros)
        s = {}
        for p, strict in facts:
            p = p.sub0(self.zeros)
            c = p.const()
            if c is not None and (c > 0 or c == 0 and not strict):
                continue
            s[p.k] = (p, strict or s.get(p.k, (0, False))[1])
        self.f = [s[k] for k in sorted(s)]
        self.key = tuple((p.k, st) for p, st in self.f)
        self.memo = {}

    def plus(self, p, strict):
        return Facts2(self.f + [(p, strict)], self.zeros)

    def plus_zero(self, v):
        return Facts2(self.f, self.zeros | {v})

    def gens(self, deg, vs):
        f = self.f + PI_FACTS if 'PI' in vs else self.f
        out = [(pc(1), True)] + list(f)
        if deg >= 2:
            base = [(p, s) for p, s in f if p.deg() <= 1]
            for i, (p, s) in enumerate(base):
                for q, t in base[i:]:
                    out.append((p * q, s and t))
        if deg >= 3:
            # cubes only where one factor is a single variable
            lin = [(p, s) for p, s in f if len(p.m) == 1 and p.deg() == 1]
            sq = [(p, s) for p, s in out if p.deg() == 2]
            for p, s in lin:
                for q, t in sq:
                    out.append((p * q, s and t))
        return out

    def entails(self, p):
        """0: no; 1: p >= 0; 2: p > 0"""
        p = p.sub0(self.zeros)
        c = p.const()
        if c is not None and c >= 0:
            return 2 if c > 0 else 1
        key = (p.k,)
        r = self.memo.get(key)
        if r is None:
            gk = (self.key, p.k)
            r = _cone.get(gk)
            if r is None:
                r = self._member(p)
                _cone[gk] = r
            self.memo[key] = r
        return r

    def _member(self, p):
        tick()
        degs = [p.deg()]
        if degs[0] <= 1 and any(q.deg() > 1 for q, _ in self.f):
            degs = [1, 2]
        elif degs[0] == 2 and any(q.deg() > 2 for q, _ in self.f):
            degs = [2, 3]
        for d in degs:
            g = self.gens(d, p.vars())
            # drop generators with monomials nothing can cancel
            while True:
                cnt = {}
                for q, _ in g:
                    for x in q.m:
                        cnt.setdefault(x, [False, False])
                        cnt[x][q.m[x] > 0] = True
                h = [(q, s) for q, s in g if all(x in p.m or all(cnt[x]) for x in q.m)]
                if len(h) == len(g):
                    break
                g = h
            mons = sorted({x for q, _ in g for x in q.m} | set(p.m))
            t = [p.m.get(x, Fraction(0)) for x in mons]
            r = cone_member(t, [([q.m.get(x, Fraction(0)) for x in mons], s) for q, s in g])
            if r:
                return r
        return 0

    def bad(self):
        """the facts contradict each other"""
        for p, s in self.f:
            c = p.const()
            if c is not None and (c < 0 or c == 0 and s):
                return True
        if self.entails(pc(-1)):
            return True
        for p, s in self.f:
            r = self.entails(-p)
            if r == 2 or r == 1 and s:
                return True
        return False

    def sign(self, p):
        """sign of p if known, else None"""
        p = p.sub0(self.zeros)
        if not p.m:
            return 0
        if len(p.m) == 1 and len(next(iter(p.m))) > 1:
            (x, c), = p.m.items()
            r = 1 if c > 0 else -1
            for v in x:
                s = self.sign(pv(v))
                if s is None:
                    return None
                r *= s
            return r
        if self.entails(p) == 2:
            return 1
        if self.entails(-p) == 2:
            return -1
        return None

    def le(self, a, b, strict=False):
        """a <= b for ratios"""
        if a.k == b.k:
            return not strict
        d = b - a
        s = self.sign(d.d)
        if not s:
            return False
        n = d.n if s > 0 else -d.n
        r = self.entails(n)
        return r == 2 or r == 1 and not strict


# ---------------------------------------------------------------------- terms
def neg(t):
    k = t[0]
    if k in ('ex', 'fl', 're', 'cn'):
        return (k, -t[1])
    if k == 'nd':
        return ('nu', neg(t[1]))
    if k == 'nu':
        return ('nd', neg(t[1]))
    if k == 'inf':
        return ('inf', -t[1])
    if k == 'neg':
        return t[1]
    if k == 'sc':
        return ('sc', t[1], neg(t[2]))
    if k == 'fn' and t[1] in ('add', 'sub'):
        return ('fn', t[1], neg(t[2]), neg(t[3]))
    if k == 'fn' and t[1] in ('sin', 'tan', 'asin', 'atan'):
        return ('fn', t[1], neg(t[2]))
    return ('neg', t)


def tkey(t):
    if t[0] in ('ex', 'fl', 're', 'cn'):
        return (t[0], t[1].k)
    return tuple(tkey(x) if isinstance(x, tuple) else x for x in t)


class Terms:
    """terms of the float expressions of a context"""

    def __init__(self, wide=()):
        self.memo = {}
        self.wide = frozenset(wide)      # inputs that need not be floats of the width at hand

    def term(self, e):
        t = self.memo.get(e.id)
        if t is None:
            t = self.make(e)
            self.memo[e.id] = t
        return t

    def make(self, e):
        op, a = e.op, e.args
        if op == 'c':
            if a == NAN:
                return ('nan',)
            if a in (INF, NINF):
                return ('inf', 1 if a == INF else -1)
            return ('ex', qc(0 if a == NZ else a))
        if op == 'v':
            return ('re' if a in self.wide else 'ex', qv(a))
        if op == 'neg':
            return neg(self.term(a[0]))
        xs = [self.term(x) for x in a]
        if op in ('nd', 'nu'):
            return (op, xs[0])
        if op in ('fl32', 'fl64') and xs[0][0] in ('re', 'ex'):
            return ('fl', xs[0][1])
        if op == 'trunc' and a[0].op in ('fl32', 'fl64') and a[0].args[0].op == 'v' and a[0].args[0].args.startswith('int'):
            return xs[0]                 # an integer rounds to an integer
        r = self.const(op, xs)
        if r is not None:
            return r
        if all(x[0] == 'ex' for x in xs):
            q = [x[1] for x in xs]
            if op == 'add':
                return ('fl', q[0] + q[1])
            if op == 'sub':
                return ('fl', q[0] - q[1])
            if op == 'mul':
                return ('fl', q[0] * q[1])
            if op == 'div':
                return ('fl', q[0] / q[1])
            if op == 'fma':
                return ('fl', q[0] * q[1] + q[2])
        if op == 'div' and xs[1][0] == 'ex':
            k = xs[1][1].n.const() if xs[1][1].d.const() == 1 else None
            if k is not None and k > 0 and k.denominator == 1 and k.numerator & (k.numerator - 1) == 0:
                return ('sc', 1 / k, xs[0])
        if op == 'mul':
            for x, y in (xs, xs[::-1]):
                k = x[1].n.const() if x[0] == 'ex' and x[1].d.const() == 1 else None
                if k is not None and 0 < k < 1 and k.numerator == 1 and k.denominator & (k.denominator - 1) == 0:
                    return ('sc', k, y)
        return ('fn', op) + tuple(xs)

    def const(self, op, xs):
        """sums and products that are a small constant: exactly (ex), or unless they are NaN (cn)"""
        if op not in ('add', 'sub', 'mul'):
            return None

        def val(x):
            return x[1].n.const() if x[0] in ('ex', 'cn') and x[1].d.const() == 1 else None
        k = [val(x) for x in xs]
        if op == 'mul' and 0 in k:
            o = xs[1 - k.index(0)]
            return ('ex' if o[0] == 'ex' else 'cn', qc(0))
        if None in k:
            return None
        v = {'add': k[0] + k[1], 'sub': k[0] - k[1], 'mul': k[0] * k[1]}[op]
        if v.denominator != 1 or abs(v.numerator) >= 2 ** 20:
            return None
        return ('cn' if 'cn' in (xs[0][0], xs[1][0]) else 'ex', qc(v))


PI2 = Q(Poly({('PI',): Fraction(1, 2)}))


class Cell:
    """outcomes of the comparisons, as facts"""

    def __init__(self, terms, facts, edges=(), asg=(), known=None):
        self.T = terms
        self.known = known or {}    # signs of library functions of the inputs
        self.f = facts
        self.edges = edges          # (key, term, key, term): first <= second
        self.asg = dict(asg)
        self.other = None

    # -- what the laws give
    def fn_le(self, x, y, d):
        """library functions of the terms"""
        if x[1] == y[1] and len(x) == len(y) == 3:
            if x[1] in ('sqrt', 'exp', 'atan', 'asin', 'ln', 'cbrt'):
                return self.le(x[2], y[2], d + 1)
            if x[1] in ('acos',):
                return self.le(y[2], x[2], d + 1)
        if x[1] == y[1] == 'add':
            return any(self.le(x[2], p, d + 1) and self.le(x[3], q, d + 1) for p, q in (y[2:], y[:1:-1]))
        if x[1] == y[1] == 'sub':
            return self.le(x[2], y[2], d + 1) and self.le(y[3], x[3], d + 1)
        return False

    def le(self, x, y, d=0):
        """x <= y as floats"""
        if tkey(x) == tkey(y):
            return x[0] != 'nan'
        if d > 6:
            return False
        if x[0] == 'nan' or y[0] == 'nan':
            return False
        if x == ('inf', -1) or y == ('inf', 1):
            return True
        kx, ky = x[0], y[0]
        if kx == 'neg' and ky == 'neg':
            return self.le(y[1], x[1], d + 1)
        if kx in ('ex', 'fl') and ky in ('ex', 'fl') and self.f.le(x[1], y[1]):
            return True
        if kx == 'fn' and ky == 'fn' and self.fn_le(x, y, d):
            return True
        if kx in ('nd', 'nu') and kx == ky and self.le(x[1], y[1], d + 1):
            return True
        if kx == 'nd' and self.le(x[1], y, d + 1):
            return True
        if ky == 'nu' and self.le(x, y[1], d + 1):
            return True
        if kx == 'sc' and ky == 'sc' and x[1] == y[1] and self.le(x[2], y[2], d + 1):
            return True
        # a float divided by k is a float (barring overflow)
        if kx == 'sc' and ky == 'ex' and self.is_float(y[1]) and self.le(x[2], ('ex', y[1] * qc(1 / x[1])), d + 1):
            return True
        if ky == 'sc' and kx == 'ex' and self.is_float(x[1]) and self.le(('ex', x[1] * qc(1 / y[1])), y[2], d + 1):
            return True
        if kx == 'fn' and x[1] in ('add', 'sub'):
            if any(not at and self.le(('fl', u), y, d + 1) for u, at in self.sum_ups(x)):
                return True
        if ky == 'fn' and y[1] in ('add', 'sub'):
            if any(not at and self.le(x, ('fl', -u), d + 1) for u, at in self.sum_ups(neg(y))):
                return True
        us = self.ups(x)
        if us:
            ls = self.lows(y)
            if any(self.cand_le(u, l) for u in us for l in ls):
                return True
        if d <= 3:
            for ka, a, kb, b in self.edges:
                for w in (lambda t: t, lambda t: ('nd', t), lambda t: ('nu', t)):
                    if tkey(x) == tkey(w(a)) and self.le(w(b), y, d + 2):
                        return True
        return False

    # Upper bounds of a float are pairs (q, args): the real number q + sum of atan(args).
    def ups(self, x):
        k = x[0]
        if k in ('ex', 're'):
            return [(x[1], ())]
        if k == 'nd':
            y = x[1]
            if y[0] == 'fl':
                return [(t[1], ()) for t in self.above(y)]
            if y[0] == 'fn':
                f = y[1]
                if f in ('add', 'sub'):
                    return self.sum_ups(y)
                if f == 'atan':
                    r = [(PI2, ())]
                    if y[2] == ('inf', -1):
                        r.append((-PI2, ()))
                    r += [(qc(0), (q,)) for q, at in self.ups(y[2]) if not at]
                    return r
                if f == 'asin':
                    return [(PI2, ())]
                if f == 'acos':
                    return [(PI2 + PI2, ())]
            return self.ups(y)
        if k == 'sc' and x[2][0] == 'fl':
            q = x[2][1]
            if self.f.le(q, qc(0)):
                return [(qc(0), ())]
            if self.f.le(qc(0), q) and self.differ(q):
                return [(q, ())]
            return []
        if k == 'fn':
            f = x[1]
            r = []
            if f in ('sin', 'cos'):
                r.append((qc(1), ()))
            if f in ('atan', 'asin'):
                r.append((PI2 * qc(1 + Fraction(1, 2 ** 20)), ()))
            s = self.ksign(x)
            if s is not None and s <= 0:
                r.append((qc(0), ()))
            if f in ('sin', 'atan', 'asin') and f != 'sin' and self.le(x[2], ('ex', qc(0)), 4):
                r.append((qc(0), ()))
            return r
        if k == 'neg' and x[1][0] == 'fn':
            f = x[1][1]
            r = []
            if f == 'cos':
                r.append((qc(1), ()))
            if f in ('acos', 'exp', 'sqrt'):
                r.append((qc(0), ()))
            s = self.ksign(x[1])
            if s is not None and s >= 0:
                r.append((qc(0), ()))
            return r
        return []

    def above(self, x):
        """x and the rounded numbers that the outcomes place at or above it"""
        out = {tkey(x): x}
        todo = [x]
        while todo and len(out) < 8:
            k = tkey(todo.pop())
            for ka, a, kb, b in self.edges:
                if ka == k and kb not in out and b[0] in ('fl', 'ex'):
                    out[kb] = b
                    todo.append(b)
        return list(out.values())

    def ksign(self, x):
        """sign of a library function of an input, where known"""
        if x[0] == 'neg':
            s = self.ksign(x[1])
            return None if s is None else -s
        s = self.known.get(tkey(x))
        if s is None and x[0] == 'fn' and x[1] == 'sin':
            s = self.known.get(tkey(neg(x)))
            s = None if s is None else -s
        return s

    def lows(self, x):
        return [(-q, tuple(-a for a in at)) for q, at in self.flip().ups(neg(x))]

    def sum_ups(self, x):
        """upper bounds of the exact sum or difference that x rounds"""
        return [(p + q, a + b) for p, a in self.ups(x[2])
                for q, b in self.ups(x[3] if x[1] == 'add' else neg(x[3]))]

    def cand_le(self, u, l):
        """p + sum atan(a) <= q + sum atan(b)"""
        (p, a), (q, b) = u, l
        if not a and not b:
            return self.f.le(p, q)
        if len(a) == len(b) == 1 and self.f.le(a[0], b[0]) and self.f.le(p, q):
            return True
        for x in a:
            p = p + (qc(0) if self.f.le(x, qc(0)) else PI2)
        for x in b:
            q = q - (qc(0) if self.f.le(qc(0), x) else PI2)
        return self.f.le(p, q)

    def differ(self, q):
        """sum or difference of two inputs: a multiple of the smallest positive float"""
        return q.d.const() == 1 and len(q.n.m) <= 2 and all(len(x) == 1 and abs(v) == 1 and x[0] not in self.T.wide and x[0] != 'PI'
                                                           for x, v in q.n.m.items())

    def is_float(self, q):
        """the real number is a float: an input, its negative, or a small constant"""
        if q.d.const() != 1:
            return False
        c = q.n.const()
        if c is not None:
            return c.denominator & (c.denominator - 1) == 0 and abs(c.numerator) < 2 ** 24 and c.denominator < 2 ** 100
        return len(q.n.m) == 1 and all(len(x) == 1 and abs(v) == 1 and x[0] not in self.T.wide and x[0] != 'PI' for x, v in q.n.m.items())

    def le_real(self, x, q, d=0):
        """float x <= real number q"""
        if d > 6 or x[0] == 'nan':
            return False
        if x == ('inf', -1):
            return True
        goal = q if isinstance(q, tuple) else (q, ())
        if any(self.cand_le(u, goal) for u in self.ups(x)):
            return True
        if x[0] == 'fl' and not isinstance(q, tuple) and self.is_float(q) and self.f.le(x[1], q):
            return True
        if x[0] == 'nd' and self.le_real(x[1], q, d + 1):
            return True
        for ka, a, kb, b in self.edges:
            for w in (lambda t: t, lambda t: ('nd', t), lambda t: ('nu', t)):
                if tkey(x) == tkey(w(a)) and self.le_real(w(b), q, d + 2):
                    return True
        return False

    def ge_real(self, x, q):
        return self.flip().le_real(neg(x), (-q[0], tuple(-a for a in q[1])) if isinstance(q, tuple) else -q)

    def notnan(self, x):
        k = x[0]
        if k in ('ex', 'inf', 're'):
            return True
        if k == 'fl':
            return bool(self.f.sign(x[1].d))
        if k in ('nd', 'nu', 'neg'):
            return self.notnan(x[1])
        if k == 'sc':
            return self.notnan(x[2])
        if k == 'fn':
            if x[1] == 'sqrt' and len(x) == 3:
                return self.notnan(x[2]) and self.le(('ex', qc(0)), x[2])
            if x[1] in ('exp', 'atan') or x[1] in ('sin', 'cos') and x[2][0] == 'ex':
                return self.notnan(x[2])
            if x[1] in ('asin', 'acos'):
                return self.le(('ex', qc(-1)), x[2]) and self.le(x[2], ('ex', qc(1)))
            if x[1] == 'atan2':
                return self.notnan(x[2]) and self.notnan(x[3])
            if x[1] in ('add', 'sub'):
                return all(self.bounded(t) for t in x[2:])
        return False

    def bounded(self, x):
        """not NaN and not infinite"""
        k = x[0]
        if k in ('ex', 're'):
            return True
        if k in ('nd', 'nu') and x[1][0] == 'fn' or k == 'neg':
            return self.bounded(x[1])
        return k == 'fn' and x[1] in ('sin', 'cos', 'asin', 'acos', 'atan', 'atan2') and self.notnan(x)

    # -- outcomes
    def extend(self, c, i, o):
        """the cell with one more outcome; None if it cannot occur"""
        if i in self.asg:
            return self if self.asg[i] == o else None
        at = c.atoms[i]
        asg = dict(self.asg)
        asg[i] = o
        if at.kind == 'cls':
            t = self.T.term(at.a)
            if o == CNAN:
                return None if self.notnan(t) else Cell(self.T, self.f, self.edges, asg, self.known)
            if t[0] == 'ex' and o != FIN:
                return None
            return Cell(self.T, self.f, self.edges, asg, self.known)
        if at.kind != 'cmp':
            return Cell(self.T, self.f, self.edges, asg, self.known)
        x, y = self.T.term(at.a), self.T.term(at.b)
        if o == UN:
            if self.notnan(x) and self.notnan(y):
                return None
            return Cell(self.T, self.f, self.edges, asg, self.known)
        x, y = [('ex', t[1]) if t[0] == 'cn' else t for t in (x, y)]     # ordered, so not NaN
        if o == GT:
            x, y, o = y, x, LT
        if o == LT:
            if self.le(y, x):
                return None
        if x[0] in ('ex', 're') and y[0] in ('ex', 're'):
            d = (y[1] - x[1])
            s = self.f.sign(d.d)
            f = self.f
            if s:
                n = d.n if s > 0 else -d.n
                if o == LT:
                    f = f.plus(n, True)
                else:
                    vs = [v for v in n.m]
                    if len(vs) == 1 and len(vs[0]) == 1:
                        f = f.plus_zero(vs[0][0])
                    else:
                        f = f.plus(n, False).plus(-n, False)
            if f.bad():
                return None
            return Cell(self.T, f, self.edges, asg, self.known)
        e = self.edges + ((tkey(x), x, tkey(y), y),)
        # a step outwards only widens an order
        sx, sy = x, y
        while sx[0] == 'nu':
            sx = sx[1]
        while sy[0] == 'nd':
            sy = sy[1]
        e += tuple((tkey(a), a, tkey(b), b) for a, b in ((sx, y), (x, sy), (sx, sy)) if a is not x or b is not y)
        f = self.f
        if o == LT:
            x, y = sx, sy
        if o == EQ:
            e += ((tkey(y), y, tkey(x), x),)
            lt = self.strict(x, y) or self.strict(y, x)
            if lt:
                return None
        elif x[0] in ('ex', 'fl') and y[0] in ('ex', 'fl'):
            # rounding is monotone: an order of the rounded numbers is one of the exact ones
            d = y[1] - x[1]
            s = f.sign(d.d)
            if s:
                f = f.plus(d.n if s > 0 else -d.n, True)
                if f.bad():
                    return None
        return Cell(self.T, f, e, asg, self.known)

    def strict(self, x, y):
        if x[0] == 'ex' and y[0] == 'ex':
            return self.f.le(x[1], y[1], True)
        if x[0] == 'inf' and y[0] == 'inf':
            return x[1] < y[1]
        # rounded to a float not above one below the other
        if x[0] == 'fl' and y[0] == 'ex':
            k = ratio_const(y[1])
            if k and self.f.le(x[1], qc(short_below(k))):
                return True
        if x[0] == 'ex' and y[0] == 'fl':
            k = ratio_const(x[1])
            if k and self.f.le(qc(-short_below(-k)), y[1]):
                return True
        s, t = self.ksign(x), self.ksign(y)
        if x[0] == 'ex' and x[1].n.const() == 0:
            s = 0
        if y[0] == 'ex' and y[1].n.const() == 0:
            t = 0
        if s is not None and t is not None and s < t:
            return True
        if x[0] == 'nd' and y[0] == 'nu':
            # nd(a) = a only at -inf, nu(b) = b only at +inf
            return self.notnan(x) and self.notnan(y) and self.le(x[1], y[1])
        return False

    def alts(self, x):
        """x and the terms not below it by a single outcome"""
        yield x
        for ka, a, kb, b in self.edges:
            for w in (lambda t: t, lambda t: ('nd', t), lambda t: ('nu', t)):
                if tkey(x) == tkey(w(a)):
                    yield w(b)

    def flip(self):
        if self.other is None:
            self.other = Cell(self.T, self.f, tuple((tkey(neg(b)), neg(b), tkey(neg(a)), neg(a)) for ka, a, kb, b in self.edges),
                              known=self.known)
            self.other.other = self
        return self.other


def ratio_const(q):
    a, b = q.n.const(), q.d.const()
    return None if a is None or not b else Fraction(a) / b


def short_below(k):
    """a number of few digits, so a float of every width, a little below k"""
    e = 0
    while abs(k) >= Fraction(2) ** (e + 1):
        e += 1
    while abs(k) < Fraction(2) ** e:
        e -= 1
    u = Fraction(2) ** (e - 11)
    return (k // u - 1) * u


def walk(c, d, cell):
    """(cell, leaf value) of a diagram, cells that cannot occur left out"""
    st = [(d, cell)]
    while st:
        d, cell = st.pop()
        tick()
        if isinstance(d, Leaf):
            yield cell, d.v
            continue
        for j, k in enumerate(d.kids):
            n = cell.extend(c, d.var, c.atoms[d.var].outs[j])
            if n is not None:
                st.append((k, n))


def walks(c, ds, cell):
    """(cell, leaf values) of several diagrams"""
    if not ds:
        yield cell, ()
        return
    for cl, v in walk(c, ds[0], cell):
        for cl2, vs in walks(c, ds[1:], cl):
            yield cl2, (v,) + vs
