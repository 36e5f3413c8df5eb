"""Value domain of the analysis.

Scalars are multi-way decision diagrams (MDDs).  Inner nodes test *atoms*
(comparison outcomes of float expressions, or outcomes of opaque calls);
leaves hold hash-consed expressions, integers, booleans or references.

Two readings of float expressions exist:
  real : exact real arithmetic.  Expressions are value-numbered by random
         interpretation over GF(2^224-857) (Gulwani & Necula, POPL'04): an
         expression is represented by its image at L pseudo-random points,
         so two expressions equal over the reals get the same number.
  fp   : IEEE arithmetic.  No algebraic law except commutativity is used;
         constants are folded with correct rounding.
"""
import hashlib
import time
from fractions import Fraction

P = (1 << 224) - 857      # prime, 7 mod 8: exactly one of x, -x is a square, 2 is a square
LANES = 24
INF, NINF, NAN, NZ = 'inf', '-inf', 'nan', '-0'
SPECIAL = (INF, NINF, NAN, NZ)


class Unsupported(Exception):
    pass


T0 = time.time()
LIMIT = 500


def tick():
    if time.time() - T0 > LIMIT:
        raise Unsupported('time limit')


def _prf(key, lane):
    d = hashlib.blake2b(repr((key, lane)).encode(), digest_size=32).digest()
    return int.from_bytes(d, 'big') % P


_inv_memo = {}


def inv(x):
    r = _inv_memo.get(x)
    if r is None:
        r = pow(x, -1, P)
        _inv_memo[x] = r
    return r


def chi(x):
    if x == 0:
        return 0
    return 1 if pow(x, (P - 1) // 2, P) == 1 else -1


class E:
    __slots__ = ('op', 'args', 'id', '_h', '_k', 'ctx')

    def __repr__(self):
        return show(self)

    @property
    def h(self):
        if self._h is None:
            self._h = self.ctx.lanes(self)
        return self._h

    @property
    def nk(self):
        """ratio of the images at the first two usable points"""
        k = self._k
        if k is None:
            u = [i for i, x in enumerate(self.h) if x][:2]
            k = (u[0], u[1], self.h[u[1]] * inv(self.h[u[0]]) % P) if len(u) == 2 else (0, 0, 0)
            self._k = k
        return k

    def const(self):
        """Fraction if a finite constant, special string, or None"""
        return self.args if self.op == 'c' else None


def show(e, depth=0):
    if not isinstance(e, E):
        return repr(e)
    if e.op == 'c':
        v = e.args
        return str(v) if not isinstance(v, Fraction) or v.denominator < 10 ** 6 else '%.9g' % float(v)
    if e.op == 'v':
        return e.args
    if depth > 6:
        return '..'
    a = [show(x, depth + 1) for x in e.args]
    s = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}.get(e.op)
    if s:
        return '(%s %s %s)' % (a[0], s, a[1])
    if e.op == 'neg':
        return '-%s' % a[0]
    return '%s(%s)' % (e.op, ', '.join(a))


def round_to(fr, bits):
    """round a rational to nearest-even f32/f64; returns Fraction or INF/NINF/NZ"""
    if fr == 0:
        return Fraction(0)
    p, emin, emax = (24, -149, 128) if bits == 32 else (53, -1074, 1024)
    neg = fr < 0
    a = -fr if neg else fr
    # exponent e with 2^e <= a < 2^(e+1)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    elif Fraction(2) ** (e + 1) <= a:
        e += 1
    q = max(e - p + 1, emin)
    ulp = Fraction(2) ** q
    n = a / ulp
    fl = n.numerator // n.denominator
    rem = n - fl
    if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and fl & 1):
        fl += 1
    r = fl * ulp
    if r >= Fraction(2) ** emax:
        return NINF if neg else INF
    if r == 0:
        return NZ if neg else Fraction(0)
    return -r if neg else r


def bits_to_const(b, bits):
    if bits == 32:
        s, e, m, bias, mb = b >> 31, (b >> 23) & 0xff, b & 0x7fffff, 127, 23
        emax = 0xff
    else:
        s, e, m, bias, mb = b >> 63, (b >> 52) & 0x7ff, b & ((1 << 52) - 1), 1023, 52
        emax = 0x7ff
    if e == emax:
        return NAN if m else (NINF if s else INF)
    if e == 0:
        if m == 0:
            return NZ if s else Fraction(0)
        v = Fraction(m) * Fraction(2) ** (1 - bias - mb)
    else:
        v = Fraction(m + (1 << mb)) * Fraction(2) ** (e - bias - mb)
    return -v if s else v


def const_to_bits(c, bits):
    top = 1 << (bits - 1)
    mb, bias, emax = (23, 127, 0xff) if bits == 32 else (52, 1023, 0x7ff)
    if c == NAN:
        return (emax << mb) | (1 << (mb - 1))
    if c == INF:
        return emax << mb
    if c == NINF:
        return top | (emax << mb)
    if c == NZ:
        return top
    if c == 0:
        return 0
    s = top if c < 0 else 0
    a = abs(c)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    elif Fraction(2) ** (e + 1) <= a:
        e += 1
    if e < 1 - bias:
        return s | int(a / Fraction(2) ** (1 - bias - mb))
    m = a / Fraction(2) ** (e - mb)
    return s | ((e + bias) << mb) | (int(m) - (1 << mb))


def next_const(c, bits, up):
    """adjacent representable number of a constant"""
    if c == NAN:
        return NAN
    top = 1 << (bits - 1)
    b = const_to_bits(c, bits)
    if up:
        if c == INF:
            return INF
        if b & (top - 1) == 0:
            b = 1
        elif b < top:
            b += 1
        else:
            b -= 1
    else:
        if c == NINF:
            return NINF
        if b & (top - 1) == 0:
            b = top | 1
        elif b < top:
            b -= 1
        else:
            b += 1
    return bits_to_const(b, bits)


PI_LO = Fraction(31415926535897932384626433832795028841, 10 ** 37)
PI_HI = PI_LO + Fraction(1, 10 ** 37)
PI_MULTS = sorted({Fraction(n, d) for d in (1, 2, 3, 4, 6, 8, 180) for n in (1, 2, 3, 4, 5, 7)} |
                  {Fraction(360), Fraction(180)}, key=lambda q: (q.denominator, q.numerator))
PI_INV = [Fraction(1), Fraction(2), Fraction(1, 2), Fraction(1, 4), Fraction(180)]


class Node:
    __slots__ = ('var', 'kids', 'id')


class Leaf:
    __slots__ = ('v', 'id')
    var = 1 << 60

    def __repr__(self):
        return 'Leaf(%r)' % (self.v,)


class Atom:
    __slots__ = ('kind', 'a', 'b', 'e', 'n', 'name', 'outs', 'pairs')

    def __init__(self):
        self.pairs = ()

    def __repr__(self):
        if self.kind == 'opq':
            return '?%s' % (self.name,)
        if self.kind == 'cls':
            return 'class(%r)' % (self.a,)
        return 'cmp(%r, %r)' % (self.a, self.b)


# outcome indices for comparison atoms
LT, EQ, GT, UN = 0, 1, 2, 3
# outcomes of class atoms
FIN, PINF, MINF, CNAN = 0, 1, 2, 3


class Facts(list):
    """sign facts with the signs already derived from them"""

    def __init__(self, *a):
        super().__init__(*a)
        self.memo = {}


class Ctx:
    """All state of one analysis (one mode, one set of assumptions)."""

    def __init__(self, mode='real', fold=True, seed=1):
        self.mode = mode
        self.fold = fold and mode == 'real'
        self.seed = seed
        self.exprs = {}
        self.vn = {}
        self.n_expr = 0
        self.nodes = {}
        self.leaves = {}
        self.n_node = 0
        self.atoms = []
        self.atom_ix = {}
        self.atom_keys = {}
        self.facts = []          # (E, frozenset of signs)  real mode
        self.fact_ids = {}
        self.memo = {}
        self.smemo = {}
        self.lmemo = {}
        self.vmemo = {}
        self.omemo = {}
        self.T = self.leaf(True)
        self.F = self.leaf(False)
        self.ZERO = self.c(0)
        self.ONE = self.c(1)
        self.PI = self.var('pi')
        if mode == 'real':
            self.assume(self.PI, '>')

    # ------------------------------------------------------------ expressions
    def _mk(self, op, args):
        if op in ('c', 'v'):
            key = (op, args)
        else:
            key = (op,) + tuple(x.id for x in args)
        e = self.exprs.get(key)
        if e is not None:
            return e
        e = E()
        e.op, e.args, e._h, e._k, e.ctx = op, args, None, None, self
        e.id = self.n_expr
        self.n_expr += 1
        if self.mode == 'real' and not (op == 'c' and args in SPECIAL):
            h = e.h
            if h is not None and all(x is not None for x in h):
                r = self.vn.get(h)
                if r is not None:
                    self.exprs[key] = r
                    return r
                self.vn[h] = e
        self.exprs[key] = e
        return e

    def lanes(self, e):
        op, a = e.op, e.args
        if op == 'c':
            if a in SPECIAL:
                return None
            v = a.numerator % P * inv(a.denominator % P) % P
            return (v,) * LANES
        if op == 'v':
            # variables named "...+" are positive: their images are squares, so that sqrt(x*x) = x there
            p = 2 if a.endswith('+') else 1
            return tuple(pow(_prf(('v', a, self.seed), i), p, P) for i in range(LANES))
        hs = [x.h for x in a]
        if any(h is None for h in hs):
            return tuple(_prf((op, tuple(show(x) for x in a)), i) for i in range(LANES))
        out = []
        for i in range(LANES):
            xs = [h[i] for h in hs]
            out.append(None if any(x is None for x in xs) else self._lane(e, op, xs, i))
        return tuple(out)

    def _lane(self, e, op, xs, i):
        if op == 'add':
            return (xs[0] + xs[1]) % P
        if op == 'sub':
            return (xs[0] - xs[1]) % P
        if op == 'mul':
            return xs[0] * xs[1] % P
        if op == 'neg':
            return -xs[0] % P
        if op == 'div':
            return None if xs[1] == 0 else xs[0] * inv(xs[1]) % P
        if op == 'sqrt':
            c = chi(xs[0])
            return None if c < 0 else pow(xs[0], (P + 1) // 4, P)
        if op == 'abs':
            return xs[0] * chi(xs[0]) % P
        if op == 'signum':
            return chi(xs[0]) % P
        if op in ('sin', 'cos'):
            s = chi(xs[0])
            t = _prf(('ang', xs[0] * s % P), 0) if s else 0
            d = inv((1 + t * t) % P)
            return (s * 2 * t * d if op == 'sin' else (1 - t * t) * d) % P
        if op in ('max',):
            return _prf((op, tuple(sorted(set(xs)))), i)
        return _prf((op, tuple(xs)), 0)

    def c(self, v):
        if isinstance(v, int):
            v = Fraction(v)
        if v == NZ and self.mode == 'real':
            v = Fraction(0)
        return self._mk('c', v)

    def var(self, name):
        return self._mk('v', name)

    def fconst(self, v, bits):
        """a float literal from the program"""
        if self.mode == 'real' and isinstance(v, Fraction) and v != 0:
            a = abs(v)
            rel = Fraction(1, 1 << (23 if bits == 32 else 52))
            if a.denominator > 64:
                for q in PI_MULTS:
                    if abs(a - q * PI_LO) <= q * PI_LO * rel:
                        e = self.mul(self.c(q if v > 0 else -q), self.PI, bits)
                        return e
                for q in PI_INV:
                    if abs(a * PI_LO - q) <= q * rel:
                        return self.div(self.c(q if v > 0 else -q), self.PI, bits)
        return self.c(v)

    def rebuild(self, e, sub, known=()):
        """the expression (of any context) with variables replaced, in this context;
        known: pairs of an expression of this context and what it equals"""
        memo = {}

        def go(x):
            r = memo.get(x.id)
            if r is None:
                for a, b in known if x.op != 'c' else ():
                    if x is a or x.h == a.h:
                        memo[x.id] = b
                        return b
                if x.op == 'c':
                    r = self.c(x.args)
                elif x.op == 'v':
                    r = sub.get(x.args)
                    if r is None:
                        r = self.var(x.args)
                else:
                    a = [go(y) for y in x.args]
                    if x.op in ('add', 'sub', 'mul', 'div'):
                        r = getattr(self, x.op)(*a)
                    elif x.op == 'neg':
                        r = self.neg(a[0])
                    elif x.op == 'max':
                        r = self.emax(a)
                    else:
                        r = self.fn(x.op, *a)
                if r is None:
                    raise Unsupported('substitution in %r' % (x,))
                memo[x.id] = r
            return r
        return go(e)

    def deriv(self, e, var):
        """partial derivative with respect to a variable"""
        memo = {}
        m, a, s, d = self.mul, self.add, self.sub, self.div

        def go(x):
            r = memo.get(x.id)
            if r is None:
                r = self._deriv(x, var, go)
                memo[x.id] = r
            return r
        return go(e)

    def _deriv(self, x, var, go):
        op, a = x.op, x.args
        mul = self.mul
        if var not in self.vars_of(x):
            return self.ZERO
        if op == 'v':
            return self.ONE
        if op in ('add', 'sub'):
            return getattr(self, op)(go(a[0]), go(a[1]))
        if op == 'neg':
            return self.neg(go(a[0]))
        if op == 'mul':
            return self.add(mul(go(a[0]), a[1]), mul(a[0], go(a[1])))
        if op == 'div':
            return self.div(self.sub(mul(go(a[0]), a[1]), mul(a[0], go(a[1]))), mul(a[1], a[1]))
        if op == 'sqrt':
            return self.div(go(a[0]), mul(self.c(2), x))
        if op == 'sin':
            return mul(self.fn('cos', a[0]), go(a[0]))
        if op == 'cos':
            return self.neg(mul(self.fn('sin', a[0]), go(a[0])))
        raise Unsupported('derivative of %r' % (x,))

    def _fold(self, fr, bits):
        if self.mode == 'fp' and bits:
            return self.c(round_to(fr, bits))
        return self.c(fr)

    def _num(self, e):
        """numeric constant value (NZ counts as 0) or None"""
        v = e.const()
        if v is None or v in (INF, NINF, NAN):
            return None
        return Fraction(0) if v == NZ else v

    def _isinf(self, e):
        v = e.const()
        return v if v in (INF, NINF) else None

    def _isnan(self, e):
        return e.op == 'c' and e.args == NAN

    def add(self, a, b, bits=0):
        if self._isnan(a) or self._isnan(b):
            return self.c(NAN)
        x, y = self._num(a), self._num(b)
        ia, ib = self._isinf(a), self._isinf(b)
        if ia or ib:
            if ia and ib and ia != ib:
                return self.c(NAN)
            return self.c(ia or ib)
        if x is not None and y is not None:
            return self._fold(x + y, bits)
        if x == 0:
            return b
        if y == 0:
            return a
        if self.mode == 'real' and b.op == 'neg':
            return self.sub(a, b.args[0], bits)
        if b.id < a.id:
            a, b = b, a
        return self._mk('add', (a, b))

    def sub(self, a, b, bits=0):
        if self._isnan(a) or self._isnan(b):
            return self.c(NAN)
        ia, ib = self._isinf(a), self._isinf(b)
        if ia or ib:
            if ia and ib:
                return self.c(NAN) if ia == ib else a
            return a if ia else self.neg(b)
        x, y = self._num(a), self._num(b)
        if x is not None and y is not None:
            return self._fold(x - y, bits)
        if y == 0:
            return a
        if x == 0:
            return self.neg(b)
        if a is b:
            return self.c(0)
        return self._mk('sub', (a, b))

    def neg(self, a):
        if a.op == 'c':
            v = a.args
            t = {INF: NINF, NINF: INF, NAN: NAN, NZ: Fraction(0)}.get(v) if isinstance(v, str) else None
            if t is None:
                t = NZ if v == 0 else -v
            return self.c(t)
        if a.op == 'neg':
            return a.args[0]
        if a.op == 'sub' and self.mode == 'real':
            return self._mk('sub', (a.args[1], a.args[0]))
        return self._mk('neg', (a,))

    def mul(self, a, b, bits=0):
        if self._isnan(a) or self._isnan(b):
            return self.c(NAN)
        ia, ib = self._isinf(a), self._isinf(b)
        x, y = self._num(a), self._num(b)
        if ia or ib:
            o, i = (b, ia) if ia else (a, ib)
            s = self.const_sign(o)
            if s is None:
                return None  # caller splits on the sign
            if s == 0:
                return self.c(NAN)
            return self.c(i if s > 0 else (NINF if i == INF else INF))
        if x is not None and y is not None:
            return self._fold(x * y, bits)
        if (x == 0 or y == 0) and self.finite(b if x == 0 else a):
            return self.c(0)
        if x == 1:
            return b
        if y == 1:
            return a
        if x == -1:
            return self.neg(b)
        if y == -1:
            return self.neg(a)
        if b.id < a.id:
            a, b = b, a
        return self._mk('mul', (a, b))

    def div(self, a, b, bits=0):
        if self._isnan(a) or self._isnan(b):
            return self.c(NAN)
        ia, ib = self._isinf(a), self._isinf(b)
        x, y = self._num(a), self._num(b)
        if ib:
            return self.c(NAN) if ia else self.c(0)
        if y == 0:
            s = self.const_sign(a)
            if s is None:
                return None
            if s == 0:
                return self.c(NAN)
            if b.args == NZ:
                s = -s
            return self.c(INF if s > 0 else NINF)
        if ia:
            s = self.const_sign(b)
            if s is None:
                return None
            return self.c(ia if s > 0 else (NINF if ia == INF else INF))
        if x is not None and y is not None:
            return self._fold(x / y, bits)
        if x == 0 and self.mode == 'real':
            return self.c(0)
        if y == 1:
            return a
        if y == -1:
            return self.neg(a)
        if self.mode == 'real' and y is not None:
            return self.mul(a, self.c(1 / y))
        return self._mk('div', (a, b))

    def const_sign(self, e):
        v = e.const()
        if v is not None:
            if v == INF:
                return 1
            if v == NINF:
                return -1
            if v == NAN:
                return None
            if v == NZ:
                return 0
            return (v > 0) - (v < 0)
        if self.mode == 'real':
            s = self.signs(e)
            if len(s) == 1:
                return next(iter(s))
        return None

    def fn(self, name, *args, bits=0):
        """unary/n-ary math functions"""
        a = args[0]
        if any(self._isnan(x) for x in args) and name not in ('max',):
            return self.c(NAN)
        v = self._num(a)
        if name == 'sqrt':
            if a.op == 'c' and a.args == INF:
                return a
            if v is not None and v >= 0:
                n, d = _isqrt(v.numerator), _isqrt(v.denominator)
                if n is not None and d is not None:
                    return self.c(Fraction(n, d))
            if v is not None and v < 0:
                return self.c(NAN)
            if self.mode == 'real':
                sq = self._square_root(a)
                if sq is not None:
                    return sq
        elif name == 'abs':
            if v is not None:
                return self.c(abs(v))
            if self._isinf(a):
                return self.c(INF)
            if self.mode == 'real':
                s = self.signs(a)
                if s <= {0, 1}:
                    return a
                if s <= {0, -1}:
                    return self.neg(a)
        elif name in ('nu', 'nd') and a.op == 'c' and bits:
            return self.c(next_const(a.args, bits, name == 'nu'))
        elif name == 'sin':
            if v == 0:
                return self.c(0)
            if self.mode == 'real':
                r = self._trig('sin', a)
                if r is not None:
                    return r
        elif name == 'cos':
            if v == 0:
                return self.c(1)
            if self.mode == 'real':
                r = self._trig('cos', a)
                if r is not None:
                    return r
        elif name == 'tan' and self.mode == 'real':
            return self.div(self.fn('sin', a), self.fn('cos', a))
        elif name == 'atan' and self.mode == 'real':
            return self._mk('atan', (a,))
        elif name == 'asin' and self.mode == 'real':
            return self.sub(self.mul(self.c(Fraction(1, 2)), self.PI), self._mk('acos', (a,)))
        return self._mk(name, tuple(args))

    def _square_root(self, a):
        if a.op == 'mul' and a.args[0] is a.args[1]:
            return self.fn('abs', a.args[0])
        return None

    def pi_split(self, e):
        """e = q*pi + rest with rational q"""
        terms = []

        def go(x, k):
            if x.op == 'add':
                go(x.args[0], k)
                go(x.args[1], k)
            elif x.op == 'sub':
                go(x.args[0], k)
                go(x.args[1], -k)
            elif x.op == 'neg':
                go(x.args[0], -k)
            elif x.op == 'mul' and x.args[0].op == 'c' and isinstance(x.args[0].args, Fraction):
                go(x.args[1], k * x.args[0].args)
            elif x.op == 'mul' and x.args[1].op == 'c' and isinstance(x.args[1].args, Fraction):
                go(x.args[0], k * x.args[1].args)
            else:
                terms.append((k, x))
        go(e, Fraction(1))
        q = sum((k for k, x in terms if x is self.PI), Fraction(0))
        return q

    def _trig(self, name, a):
        q = self.pi_split(a)
        if a.h is not None and a.op not in ('c', 'v'):
            k = self.ratio(a, self.PI)
            if k is not None:
                q = k
        elif a is self.PI:
            q = Fraction(1)
        if q.denominator == 4 and self.ratio(a, self.PI) == q:
            # an odd multiple of pi/4
            k = (int(q * 4) - 1) // 2 % 4
            neg = k in ((2, 3) if name == 'sin' else (1, 2))
            r = self.fn('sqrt', self.c(Fraction(1, 2)))
            return self.neg(r) if neg else r
        if q != 0 and (q * 2).denominator == 1:
            rest = self.sub(a, self.mul(self.c(q), self.PI))
            s, c = self.fn('sin', rest), self.fn('cos', rest)
            k = int(q * 2) % 4
            if name == 'sin':
                return [s, c, self.neg(s), self.neg(c)][k]
            return [c, self.neg(s), self.neg(c), s][k]
        if a.op == 'neg':
            r = self.fn(name, a.args[0])
            return self.neg(r) if name == 'sin' else r
        if a.op == 'acos':
            z = a.args[0]
            if name == 'cos':
                return z
            return self.fn('sqrt', self.sub(self.ONE, self.mul(z, z)))
        if a.op == 'atan2':
            y, x = a.args
            n = self.fn('sqrt', self.add(self.mul(x, x), self.mul(y, y)))
            return self.div(y if name == 'sin' else x, n)
        if a.op == 'atan':
            t = a.args[0]
            n = self.fn('sqrt', self.add(self.ONE, self.mul(t, t)))
            return self.div(t if name == 'sin' else self.ONE, n)
        return None

    def emax(self, items):
        s = {}
        for x in items:
            for y in (x.args if x.op == 'max' else (x,)):
                if y.op == 'c' and y.args == NINF:
                    continue
                s[y.id] = y
        ys = [s[k] for k in sorted(s)]
        if any(y.op == 'c' and y.args == INF for y in ys):
            return self.c(INF)
        cs = [y for y in ys if y.op == 'c']
        if len(cs) > 1:
            m = max(cs, key=lambda y: y.args)
            ys = [y for y in ys if y.op != 'c' or y is m]
        # drop dominated elements
        keep = []
        for y in ys:
            if not any(z is not y and self.le_now(y, z) and not (self.le_now(z, y) and z.id > y.id) for z in ys):
                keep.append(y)
        ys = keep or ys[:1]
        if len(ys) == 1:
            return ys[0]
        if len(ys) == 2 and self.same(ys[0], self.neg(ys[1])):
            return self.fn('abs', ys[0])
        if not ys:
            return self.c(NINF)
        return self._mk('max', tuple(ys))

    def emin(self, items):
        return self.neg(self.emax([self.neg(x) for x in items]))

    def le_now(self, a, b):
        d = self.signs(self.sub(a, b))
        return d <= {-1, 0}

    # -------------------------------------------------------- real: equality
    def same(self, a, b):
        if a is b:
            return True
        if a.op == 'c' and a.args in SPECIAL or b.op == 'c' and b.args in SPECIAL:
            return a.const() == b.const()
        n = 0
        for x, y in zip(a.h, b.h):
            if x is None or y is None:
                continue
            if x != y:
                return False
            n += 1
        if n == 0:
            raise Unsupported('no common evaluation lane for %r and %r' % (a, b))
        return True

    def is_zero(self, e):
        return self.same(e, self.ZERO)

    def ratio(self, a, b):
        """rational k with a = k*b, or None"""
        u, v = a._k or a.nk, b._k or b.nk
        if u[2] != v[2] and u[0] == v[0] and u[1] == v[1]:
            return None
        r = None
        n = 0
        for x, y in zip(a.h, b.h):
            if x is None or y is None:
                continue
            if y == 0 or x == 0:
                return None
            q = x * inv(y) % P
            if r is None:
                r = q
            elif r != q:
                return None
            n += 1
        if n < 2:
            return None
        return _ratrec(r)

    # ------------------------------------------------------------ real: signs
    def assume(self, e, rel):
        s = {'>': {1}, '<': {-1}, '>=': {0, 1}, '<=': {-1, 0}, '==': {0}, '!=': {-1, 1}}[rel]
        self.facts.append((e, frozenset(s)))
        self.smemo.clear()
        self.memo.clear()

    def signs(self, e, facts=None, depth=0):
        """possible signs of e (subset of {-1,0,1}) under the assumptions"""
        if facts is None:
            k = e.id
            r = self.smemo.get(k)
            if r is None:
                self.smemo[k] = frozenset((-1, 0, 1))
                r = self._signs(e, self.facts, depth)
                self.smemo[k] = r
            return r
        return self._signs(e, facts, depth)

    def _signs(self, e, facts, depth):
        if isinstance(facts, Facts):
            k = (e.id, depth <= 1)
            r = facts.memo.get(k)
            if r is None:
                r = self._signs1(e, facts, depth)
                facts.memo[k] = r
            return r
        return self._signs1(e, facts, depth)

    def _signs1(self, e, facts, depth):
        v = e.const()
        if v is not None:
            if v == INF:
                return frozenset((1,))
            if v == NINF:
                return frozenset((-1,))
            if v == NAN:
                return frozenset((-1, 0, 1))
            if v == NZ:
                return frozenset((0,))
            return frozenset(((v > 0) - (v < 0),))
        out = {-1, 0, 1}
        for f, s in facts:
            k = 1 if f is e else self.ratio(e, f)
            if k is not None:
                out &= s if k > 0 else {-x for x in s}
        if len(out) == 1:
            return frozenset(out)
        if self.is_zero(e):
            return frozenset((0,))
        if depth < 12:
            out &= self._struct(e, facts, depth + 1)
        if len(out) > 1 and depth <= 1:
            out &= self._linear(e, facts)
        return frozenset(out)

    def vars_of(self, e):
        r = self.vmemo.get(e.id)
        if r is None:
            if e.op == 'v':
                r = frozenset((e.args,))
            elif e.op == 'c':
                r = frozenset()
            else:
                r = frozenset().union(*[self.vars_of(x) for x in e.args])
            self.vmemo[e.id] = r
        return r

    def _linear(self, e, facts):
        """sign of e if it is a one-signed rational combination of facts"""
        allv = {-1, 0, 1}
        if self.mode != 'real' or e.h is None:
            return allv
        ve = self.vars_of(e)
        cols = []
        for f, s in facts:
            if f.h is None or s >= {-1, 1} or not (self.vars_of(f) & ve):
                continue
            cols.append((f, s))
        if not cols or len(cols) > 18:
            return allv
        cols = cols + [(self.ONE, frozenset((1,)))]
        n = len(cols)
        key = ('lin', e.id, tuple([(f.id, s) for f, s in cols]))
        r = self.lmemo.get(key)
        if r is None:
            lanes = [i for i in range(LANES) if e.h[i] is not None and all(f.h[i] is not None for f, _ in cols)]
            r = allv if len(lanes) < n + 2 else self._conic(e, cols, lanes)
            self.lmemo[key] = r
        return r

    def cleared(self, e):
        """(e*y, y) with one denominator y of the sum e cleared, or None"""
        k = ('clr', e.id)
        if k in self.lmemo:
            return self.lmemo[k]
        y = None
        st = [e]
        while st and y is None:
            x = st.pop()
            if x.op in ('add', 'sub', 'neg'):
                st.extend(x.args)
            elif x.op == 'mul':
                st.extend(a for a in x.args if a.op in ('div', 'mul', 'add', 'sub', 'neg'))
            elif x.op == 'div' and x.args[1].op != 'c':
                y = x.args[1]
        r = None
        if y is not None:
            def go(x):
                if x.op in ('add', 'sub'):
                    return getattr(self, x.op)(go(x.args[0]), go(x.args[1]))
                if x.op == 'neg':
                    return self.neg(go(x.args[0]))
                if x.op == 'div' and x.args[1] is y:
                    return x.args[0]
                if x.op == 'mul':
                    for a, b in (x.args, x.args[::-1]):
                        if a.op == 'div' and a.args[1] is y:
                            return self.mul(a.args[0], b)
                return self.mul(x, y)
            f = go(e)
            if f.h is not None:
                r = (f, y)
        self.lmemo[k] = r
        return r

    def _conic(self, e, cols, lanes):
        """signs of e left by the facts, e and the facts being linear in a common rational basis"""
        allv = {-1, 0, 1}
        n = len(cols)
        rows = [[f.h[i] for f, _ in cols] + [e.h[i]] for i in lanes]
        piv = []
        r = 0
        for c in range(n):
            k = next((i for i in range(r, len(rows)) if rows[i][c]), None)
            if k is None:
                continue
            rows[r], rows[k] = rows[k], rows[r]
            q = inv(rows[r][c])
            rows[r] = [x * q % P for x in rows[r]]
            for i in range(len(rows)):
                if i != r and rows[i][c]:
                    m = rows[i][c]
                    rows[i] = [(x - m * y) % P for x, y in zip(rows[i], rows[r])]
            piv.append(c)
            r += 1
        if any(row[n] for row in rows[r:]) or len(rows) - r < 2:
            return allv
        def rat(v):
            if v == 0:
                return Fraction(0)
            return _ratrec(v)
        target = [rat(rows[i][n]) for i in range(r)]
        if any(x is None for x in target):
            return allv
        res = {0}
        for k, c in zip(target, piv):
            if k == 0:
                continue
            s = cols[c][1] if k > 0 else {-x for x in cols[c][1]}
            t = set()
            for p in res:
                for q in s:
                    if p == 0 or p == q:
                        t.add(q)
                    elif q == 0:
                        t.add(p)
                    else:
                        t |= allv
            res = t
        if len(res) < 3 or len(piv) == n:
            return res
        # dependent facts: search the cone they span
        gens = []
        for c in range(n):
            if c in piv:
                v = [Fraction(int(p == c)) for p in piv]
            else:
                v = [rat(rows[i][c]) for i in range(r)]
                if any(x is None for x in v):
                    continue
            s = cols[c][1]
            if s <= {0, 1}:
                gens.append((v, 0 not in s))
            if s <= {-1, 0}:
                gens.append(([-x for x in v], 0 not in s))
        res = set(allv)
        for sg in (1, -1):
            m = cone_member([x * sg for x in target], gens)
            if m:
                # sg*e >= 0, strictly if m == 2
                res.discard(-sg)
                if m == 2:
                    res.discard(0)
        return res or allv

    def _struct(self, e, facts, depth):
        op, a = e.op, e.args
        allv = {-1, 0, 1}
        sub = lambda x: self.signs(x, None if facts is self.facts else facts, depth)
        if op == 'v':
            return allv
        if op == 'neg':
            return {-x for x in sub(a[0])}
        if op == 'mul':
            if a[0] is a[1]:
                s = sub(a[0])
                return {x * x for x in s}
            return {x * y for x in sub(a[0]) for y in sub(a[1])}
        if op == 'div':
            return {x * y for x in sub(a[0]) for y in sub(a[1]) if y} or allv
        if op == 'sqrt':
            s = sub(a[0])
            return {1} if s == {1} else ({0} if s == {0} else {0, 1})
        if op == 'abs':
            return {x * x for x in sub(a[0])}
        if op in ('add', 'sub'):
            x = sub(a[0])
            y = sub(a[1]) if op == 'add' else {-t for t in sub(a[1])}
            r = set()
            for p in x:
                for q in y:
                    if p == 0 or p == q:
                        r.add(q)
                    elif q == 0:
                        r.add(p)
                    else:
                        r |= allv
            if len(r) == 3:
                return self._cancelled(e, sub)
            return r
        if op == 'max':
            ss = [sub(x) for x in a]
            r = set()
            lo = max(min(s) for s in ss)
            hi = max(max(s) for s in ss)
            return {x for x in allv if lo <= x <= hi}
        if op == 'acos':
            return {0, 1}
        return allv

    def _cancelled(self, e, sub):
        """signs of a sum after equal terms have cancelled"""
        terms, n, st = {}, 0, [(e, 1)]
        while st:
            x, k = st.pop()
            if x.op in ('add', 'sub'):
                st.append((x.args[0], k))
                st.append((x.args[1], k if x.op == 'add' else -k))
            elif x.op == 'neg':
                st.append((x.args[0], -k))
            else:
                n += 1
                if n > 24:
                    return {-1, 0, 1}
                q = terms.get(x.id)
                terms[x.id] = (x, k + (q[1] if q else 0))
        left = [(x, k) for x, k in terms.values() if k]
        if len(left) == n:
            return {-1, 0, 1}
        lo, hi = 0, 0
        zero = True
        for x, k in left:
            s = sub(x)
            if k < 0:
                s = {-t for t in s}
            lo, hi = min(lo, min(s)), max(hi, max(s))
            zero = zero and 0 in s
        return {t for t in (-1, 0, 1) if lo <= t <= hi and (t or zero or lo < 0 < hi)}

    # ------------------------------------------------------- decision diagrams
    def leaf(self, v):
        k = (type(v).__name__, v.id if isinstance(v, E) else v)
        l = self.leaves.get(k)
        if l is None:
            l = Leaf()
            l.v = v
            l.id = self.n_node
            self.n_node += 1
            self.leaves[k] = l
        return l

    def mk(self, var, kids):
        kids = tuple(kids)
        k0 = kids[0]
        if all(k is k0 for k in kids):
            return k0
        at = self.atoms[var]
        if self.fold and at.kind == 'cmp':
            f = self._fold_minmax(at, kids)
            if f is not None:
                return f
        key = (var,) + tuple(k.id for k in kids)
        n = self.nodes.get(key)
        if n is None:
            if self.n_node & 1023 == 0:
                tick()
            n = Node()
            n.var, n.kids = var, kids
            n.id = self.n_node
            self.n_node += 1
            self.nodes[key] = n
        return n

    def _fold_minmax(self, at, kids):
        lt, eq, gt = kids[0], kids[1], kids[2]
        if not (isinstance(lt, Leaf) and isinstance(gt, Leaf) and isinstance(eq, Leaf)):
            return None
        X, Z, Y = lt.v, gt.v, eq.v
        if not (isinstance(X, E) and isinstance(Z, E) and isinstance(Y, E)) or X is Z:
            return None
        if any(x.op == 'c' and x.args in SPECIAL for x in (X, Y, Z)):
            return None
        if not (Y is X or Y is Z):
            return None
        k = self.ratio(self.sub(X, Z), at.e)
        if k is None:
            return None
        if self.split_abs and not any(self.same(X, u) and self.same(Z, v) for a, b in at.pairs for u, v in (
                (a, b), (b, a), (self.neg(a), self.neg(b)), (self.neg(b), self.neg(a)))):
            # not the maximum of what is compared: kept as two cases
            return None
        return self.leaf(self.emin([X, Z]) if k > 0 else self.emax([X, Z]))

    def cof(self, d, var, i):
        return d.kids[i] if d.var == var else d

    def case(self, var, kids):
        key = ('case', var) + tuple(k.id for k in kids)
        r = self.memo.get(key)
        if r is not None:
            return r
        u = min(k.var for k in kids)
        if u > var:
            r = self.mk(var, kids)
        elif u == var:
            r = self.mk(var, [self.cof(k, var, i) for i, k in enumerate(kids)])
        else:
            n = len(self.atoms[u].outs)
            r = self.mk(u, [self.case(var, [self.cof(k, u, j) for k in kids]) for j in range(n)])
        self.memo[key] = r
        return r

    def ite(self, g, a, b):
        if g is self.T or a is b:
            return a
        if g is self.F:
            return b
        key = ('ite', g.id, a.id, b.id)
        r = self.memo.get(key)
        if r is not None:
            return r
        u = min(g.var, a.var, b.var)
        n = len(self.atoms[u].outs)
        r = self.mk(u, [self.ite(self.cof(g, u, j), self.cof(a, u, j), self.cof(b, u, j)) for j in range(n)])
        self.memo[key] = r
        return r

    def and_(self, a, b):
        return self.ite(a, b, self.F)

    def or_(self, a, b):
        return self.ite(a, self.T, b)

    def not_(self, a):
        return self.ite(a, self.F, self.T)

    def restrict(self, d, care):
        """simplify d using care as don't-care complement"""
        if care is self.T or isinstance(d, Leaf):
            return d
        if care is self.F:
            return d
        key = ('res', d.id, care.id)
        r = self.memo.get(key)
        if r is not None:
            return r
        if care.var < d.var:
            u = care.var
            alive = [k for k in care.kids if k is not self.F]
            c = alive[0]
            for k in alive[1:]:
                c = self.or_(c, k)
            r = self.restrict(d, c)
        else:
            u = d.var
            n = len(d.kids)
            ks = []
            for j in range(n):
                cj = self.cof(care, u, j)
                ks.append(None if cj is self.F else self.restrict(d.kids[j], cj))
            fill = next(k for k in ks if k is not None)
            alive = [k for k in ks if k is not None]
            if all(k is alive[0] for k in alive):
                r = alive[0]
            else:
                r = self.mk(u, [k if k is not None else fill for k in ks])
        self.memo[key] = r
        return r

    def apply(self, f, fname, *ds):
        """f maps leaf values to a diagram"""
        if all(isinstance(d, Leaf) for d in ds):
            key = (fname,) + tuple(d.id for d in ds)
            r = self.memo.get(key)
            if r is None:
                r = f(*[d.v for d in ds])
                self.memo[key] = r
            return r
        key = (fname,) + tuple(d.id for d in ds)
        r = self.memo.get(key)
        if r is not None:
            return r
        u = min(d.var for d in ds)
        n = len(self.atoms[u].outs)
        r = self.case(u, [self.apply(f, fname, *[self.cof(d, u, j) for d in ds]) for j in range(n)])
        self.memo[key] = r
        return r

    def leaves_of(self, d, seen=None):
        if seen is None:
            seen = {}
            st = [d]
            vis = set()
            while st:
                x = st.pop()
                if x.id in vis:
                    continue
                vis.add(x.id)
                if isinstance(x, Leaf):
                    seen[x.id] = x
                else:
                    st.extend(x.kids)
            return list(seen.values())

    def cells(self, d, asg=()):
        """(assignment tuple of (atom index, outcome), leaf value)"""
        if isinstance(d, Leaf):
            yield asg, d.v
            return
        seen = {}
        for j, k in enumerate(d.kids):
            if not self.outcome_possible(d.var, j):
                continue
            yield from self.cells(k, asg + ((d.var, self.atoms[d.var].outs[j]),))

    def outcome_possible(self, var, j):
        return True

    # ------------------------------------------------------------------ atoms
    def opq(self, name, n):
        key = ('opq', name)
        i = self.atom_ix.get(key)
        if i is None:
            a = Atom()
            a.kind, a.name, a.n, a.a, a.b, a.e = 'opq', name, n, None, None, None
            a.outs = tuple(range(n))
            i = len(self.atoms)
            self.atoms.append(a)
            self.atom_ix[key] = i
        return i

    def opq_bool(self, name):
        i = self.opq(name, 2)
        return self.case(i, (self.F, self.T))

    def _cls_atom(self, x):
        key = ('cls', x.id)
        i = self.atom_ix.get(key)
        if i is None:
            a = Atom()
            a.kind, a.a, a.b, a.e, a.name = 'cls', x, None, None, None
            a.outs = (FIN, PINF, MINF, CNAN)
            i = len(self.atoms)
            self.atoms.append(a)
            self.atom_ix[key] = i
        return i

    finite_hint = None
    widen = 0               # floats of more cases than this are replaced by any float
    split_abs = False       # absolute values as case distinctions

    def finite(self, x):
        return self.mode == 'real' or bool(self.finite_hint and self.finite_hint(x))
    int_range = None         # set: symbolic integers may overflow

    def classify(self, x):
        """diagram with leaves 0..3 (FIN, PINF, MINF, CNAN)"""
        v = x.const()
        if v is not None:
            return self.leaf({INF: PINF, NINF: MINF, NAN: CNAN}.get(v, FIN) if isinstance(v, str) else FIN)
        if self.mode == 'real' or (self.finite_hint and self.finite_hint(x)):
            return self.leaf(FIN)
        i = self._cls_atom(x)
        return self.case(i, tuple(self.leaf(k) for k in (FIN, PINF, MINF, CNAN)))

    def cmp(self, a, b):
        """diagram with leaves LT/EQ/GT/UN"""
        L = [self.leaf(k) for k in (LT, EQ, GT, UN)]
        va, vb = a.const(), b.const()
        if va == NAN or vb == NAN:
            return L[UN]
        if va is not None and vb is not None:
            num = lambda v: (0, Fraction(0)) if v == NZ else ((1, 0) if v == INF else ((-1, 0) if v == NINF else (0, v)))
            x, y = num(va), num(vb)
            return L[LT if x < y else (GT if x > y else EQ)]
        if va in (INF, NINF) or vb in (INF, NINF):
            flip = va in (INF, NINF)
            x, k = (b, va) if flip else (a, vb)
            m = self.classify(x)
            t = {INF: {FIN: LT, PINF: EQ, MINF: LT, CNAN: UN}, NINF: {FIN: GT, PINF: GT, MINF: EQ, CNAN: UN}}[k]

            def g(c):
                o = t[c]
                if flip and o in (LT, GT):
                    o = GT if o == LT else LT
                return L[o]
            return self.apply(g, ('clscmp', k, flip), m)
        if self.mode == 'real':
            e = self.sub(a, b)
            s = self.signs(e)
            if len(s) == 1:
                return L[next(iter(s)) + 1]
            i, k = self._sign_atom(e, a, b)
            if self.split_abs and (a, b) not in self.atoms[i].pairs:
                self.atoms[i].pairs += ((a, b),)
            ks = [L[LT], L[EQ], L[GT]]
            if k < 0:
                ks = [L[GT], L[EQ], L[LT]]
            # outcomes excluded by assumptions are merged into a neighbour
            at = self.atoms[i]
            es = self.signs(at.e)
            alive = [j for j in range(3) if (j - 1) in es]
            if len(alive) < 3:
                fill = ks[alive[0]]
                ks = [ks[j] if j in alive else None for j in range(3)]
                for j in range(3):
                    if ks[j] is None:
                        # prefer merging EQ into a strict neighbour
                        ks[j] = fill
            return self.case(i, tuple(ks))
        if a is b:
            if self.finite_hint and self.finite_hint(a):
                return L[EQ]
            i = self._cls_atom(a)
            return self.case(i, (L[EQ], L[EQ], L[EQ], L[UN]))
        flip = b.id < a.id and not (b.op == 'c') or a.op == 'c'
        x, y = (b, a) if flip else (a, b)
        key = ('cmp', x.id, y.id)
        i = self.atom_ix.get(key)
        if i is None:
            at = Atom()
            at.kind, at.a, at.b, at.e, at.name = 'cmp', x, y, None, None
            at.outs = (LT, EQ, GT, UN)
            i = len(self.atoms)
            self.atoms.append(at)
            self.atom_ix[key] = i
        ks = (L[GT], L[EQ], L[LT], L[UN]) if flip else (L[LT], L[EQ], L[GT], L[UN])
        return self.case(i, ks)

    def _sign_atom(self, e, a, b):
        i = self.atom_ix.get(('sgn', e.id))
        if i is not None:
            return i
        for j, at in enumerate(self.atoms):
            if at.kind == 'cmp':
                k = self.ratio(e, at.e)
                if k is not None:
                    r = (j, 1 if k > 0 else -1)
                    self.atom_ix[('sgn', e.id)] = r
                    return r
        at = Atom()
        at.kind, at.a, at.b, at.e, at.name = 'cmp', a, b, e, None
        at.outs = (LT, EQ, GT)
        j = len(self.atoms)
        self.atoms.append(at)
        self.atom_ix[('sgn', e.id)] = (j, 1)
        return (j, 1)

    # ------------------------------------------------------------ conveniences
    def rel(self, op, a, b):
        """boolean diagram of a comparison between two expressions"""
        sel = {'Lt': (LT,), 'Le': (LT, EQ), 'Gt': (GT,), 'Ge': (GT, EQ), 'Eq': (EQ,), 'Ne': (LT, GT, UN)}[op]
        c = self.cmp(a, b)
        return self.apply(lambda k: self.T if k in sel else self.F, ('rel', sel), c)


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def _ratrec(r):
    """rational reconstruction modulo P"""
    bound = 1 << 80
    a0, a1 = P, r
    s0, s1 = 0, 1
    while a1 > bound:
        q = a0 // a1
        a0, a1 = a1, a0 - q * a1
        s0, s1 = s1, s0 - q * s1
    if s1 == 0 or abs(s1) > bound:
        return None
    f = Fraction(a1, s1)
    return f if f != 0 else None


def cone_member(t, gens):
    """0: t is not a non-negative combination of the generators; 1: it is; 2: with a strict generator taking part"""
    d, m = len(t), len(gens)
    T = []
    for i in range(d):
        row = [g[i] for g, _ in gens] + [Fraction(0)] * d + [t[i]]
        if t[i] < 0:
            row = [-x for x in row]
        row[m + i] = Fraction(1)
        T.append(row)
    basis = [m + i for i in range(d)]

    def pivot(i, j):
        q = T[i][j]
        T[i] = [x / q for x in T[i]]
        for k in range(len(T)):
            if k != i and T[k][j]:
                f = T[k][j]
                T[k] = [x - f * y for x, y in zip(T[k], T[i])]
        basis[i] = j

    def solve(cost, ncol):
        """minimise cost over columns < ncol; returns 'unbounded' or the value"""
        while True:
            red = None
            for j in range(ncol):
                if j in basis:
                    continue
                c = cost[j] - sum(cost[basis[i]] * T[i][j] for i in range(d))
                if c < 0:
                    red = j
                    break
            if red is None:
                return sum(cost[basis[i]] * T[i][-1] for i in range(d))
            best = None
            for i in range(d):
                if T[i][red] > 0:
                    q = (T[i][-1] / T[i][red], basis[i], i)
                    if best is None or q < best:
                        best = q
            if best is None:
                return 'unbounded'
            pivot(best[2], red)
    cost = [Fraction(0)] * m + [Fraction(1)] * d
    if solve(cost, m + d) != 0:
        return 0
    for i in range(d):
        if basis[i] >= m:
            j = next((j for j in range(m) if T[i][j] and j not in basis), None)
            if j is not None:
                pivot(i, j)
    cost = [Fraction(-1 if s else 0) for _, s in gens] + [Fraction(0)] * d
    # artificial columns left in the basis stay at zero
    v = solve(cost, m)
    return 2 if v == 'unbounded' or v < 0 else 1
