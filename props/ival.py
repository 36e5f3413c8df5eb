"""Interval operations over IEEE floats: what each must enclose, and how tightly."""
import itertools
from props.lib import *
from fpo import *

SIGNS = [('<', '<'), ('<', '0'), ('<', '>'), ('0', '0'), ('0', '>'), ('>', '>')]


class Op:
    """corners(args) -> (values at which the lower bound is attained, values at which the upper is);
    args are (inf, sup) pairs of ratios; signs: split the operands by sign"""

    def __init__(self, f, name, corners, signs=True, where=None, pick=None, exact=False, pre=None):
        self.f, self.name, self.corners, self.signs, self.where, self.exact, self.pre = f, name, corners, signs, where, exact, pre
        self.pick = pick or (lambda v: v)


def zero_in(s):
    return s[0] in '<0' and s[1] in '0>'


def prod(a, b):
    c = [x * y for x in a for y in b]
    return c, c


def quot(a, b):
    c = [x / y for x in a for y in b]
    return c, c


def sq(a):
    return prod(a, a)


Z = qc(0)


def square(a, sa):
    if zero_in(sa[0]):
        return [Z], [a[0] * a[0], a[1] * a[1]]
    c = [a[0] * a[0], a[1] * a[1]]
    return c, c


def absv(a, sa):
    if zero_in(sa[0]):
        return [Z], [-a[0], a[1]]
    c = [a[0], a[1]] if sa[0][0] == '>' else [-a[0], -a[1]]
    return c, c


def signum(a, sa):
    m = {'<': qc(-1), '0': Z, '>': qc(1)}
    return [m[sa[0][0]]], [m[sa[0][1]]]


def div_corners(a, b, s):
    return None if zero_in(s[1]) else quot(a, b)


ARITH = [
    Op('neg', 'negation', lambda s, a: ([-a[1]], [-a[0]]), False, exact=True),
    Op('add', 'a + b', lambda s, a, b: ([a[0] + b[0]], [a[1] + b[1]]), False),
    Op('add_assign', 'a += b', lambda s, a, b: ([a[0] + b[0]], [a[1] + b[1]]), False),
    Op('add_t', 'a + number', lambda s, a, b: ([a[0] + b[0]], [a[1] + b[1]]), False),
    Op('sub', 'a - b', lambda s, a, b: ([a[0] - b[1]], [a[1] - b[0]]), False),
    Op('sub_assign', 'a -= b', lambda s, a, b: ([a[0] - b[1]], [a[1] - b[0]]), False),
    Op('sub_t', 'a - number', lambda s, a, b: ([a[0] - b[1]], [a[1] - b[0]]), False),
] + [Op(f, n, lambda s, a, b: prod(a, b)) for f, n in
     (('mul', 'a * b'), ('mul_assign', 'a *= b'), ('mul_t', 'a * number'), ('mul_assign_t', 'a *= number'))] + [
    Op(f, n, lambda s, a, b: div_corners(a, b, s)) for f, n in
    (('div', 'a / b'), ('div_assign', 'a /= b'), ('div_t', 'a / number'), ('div_assign_t', 'a /= number'))] + [
    Op('recip', 'reciprocal', lambda s, a: None if zero_in(s[0]) else quot((qc(1), qc(1)), a)),
    Op('square', 'square', lambda s, a: square(a, s)),
    Op('square_trait', 'square (scalar trait)', lambda s, a: square(a, s)),
    Op('sqrt', 'square root', lambda s, a: ([('sqrt', a[0])], [('sqrt', a[1])]), where=lambda s: s[0][0] != '<'),
    Op('sqrt_trait', 'square root (scalar trait)', lambda s, a: ([('sqrt', a[0])], [('sqrt', a[1])]),
       where=lambda s: s[0][0] != '<'),
]
LATTICE = [
    Op('min', 'minimum', lambda s, a, b: ([('min', a[0], b[0])], [('min', a[1], b[1])]), False, exact=True),
    Op('max', 'maximum', lambda s, a, b: ([('max', a[0], b[0])], [('max', a[1], b[1])]), False, exact=True),
    Op('min_max', 'ordered pair: smaller', lambda s, a, b: ([('min', a[0], b[0])], [('min', a[1], b[1])]), False,
       pick=lambda v: v.f[0], exact=True),
    Op('min_max', 'ordered pair: larger', lambda s, a, b: ([('max', a[0], b[0])], [('max', a[1], b[1])]), False,
       pick=lambda v: v.f[1], exact=True),
]
OTHER = [
    Op('abs', 'absolute value', lambda s, a: absv(a, s)),
    Op('signum', 'sign', lambda s, a: signum(a, s)),
    Op('clamp', 'clamp', lambda s, a, b, c: ([('min', ('max', a[0], b[0]), c[0])], [('min', ('max', a[1], b[1]), c[1])]),
       False, pre=lambda a, b, c: [(c[0] - b[0]).n, (c[1] - b[1]).n]),
]


def scenarios(kinds, op):
    if not op.signs:
        yield None
        return
    ch = [SIGNS if k == 'i' else [('<', '<'), ('0', '0'), ('>', '>')] for k in kinds]
    for s in itertools.product(*ch):
        if op.where is None or op.where(s):
            yield s


def start(terms, kinds, names, sc, extra=()):
    """facts about the operands"""
    zeros = set()
    fs = []
    for i, k in enumerate(kinds):
        vs = names[i]
        if sc is not None:
            for v, s in zip(vs, sc[i]):
                if s == '0':
                    zeros.add(v)
                else:
                    fs.append((pv(v) if s == '>' else -pv(v), True))
        if k == 'i' and vs[0] != vs[1]:
            fs.append((pv(vs[1]) - pv(vs[0]), False))
    fs += [(p, False) for p in extra]
    return Cell(terms, Facts2(fs, zeros))


def bound_le(cell, x, q):
    """float term x <= the corner"""
    if isinstance(q, tuple):
        if q[0] == 'min':
            return all(bound_le(cell, x, y) for y in q[1:])
        if q[0] == 'max':
            return any(bound_le(cell, x, y) for y in q[1:])
        if q[0] == 'sqrt':
            return le_root(cell, x, q[1])
        raise Unsupported('corner')
    return cell.le_real(x, q)


def bound_ge(cell, x, q):
    if isinstance(q, tuple):
        if q[0] == 'min':
            return any(bound_ge(cell, x, y) for y in q[1:])
        if q[0] == 'max':
            return all(bound_ge(cell, x, y) for y in q[1:])
        if q[0] == 'sqrt':
            return ge_root(cell, x, q[1])
    return cell.ge_real(x, q)


def le_root(cell, x, q):
    """float x <= sqrt(q): sqrt is rounded correctly"""
    for y in cell.alts(x):
        if y[0] == 'nd' and y[1][0] == 'fn' and y[1][1] == 'sqrt' and y[1][2][0] == 'ex' and cell.f.le(y[1][2][1], q):
            return True
    return cell.le_real(x, Z)


def ge_root(cell, x, q):
    for y in cell.flip().alts(neg(x)):
        y = neg(y)
        if y[0] == 'nu' and y[1][0] == 'fn' and y[1][1] == 'sqrt' and y[1][2][0] == 'ex' and cell.f.le(q, y[1][2][1]):
            return True
    return False


def near_le(cell, x, q):
    """float x >= the float below the rounded corner q (x is no further out)"""
    if isinstance(q, tuple):
        if q[0] == 'sqrt':
            return cell.le(('nd', ('fn', 'sqrt', ('ex', q[1]))), x)
    return cell.le(('nd', ('fl', q)), x)


def near_ge(cell, x, q):
    if isinstance(q, tuple) and q[0] == 'sqrt':
        return cell.le(x, ('nu', ('fn', 'sqrt', ('ex', q[1]))))
    return cell.le(x, ('nu', ('fl', q)))


def eq_corner(cell, x, q, lower):
    """float x = the corner exactly"""
    return bound_le(cell, x, q) and bound_ge(cell, x, q)


def ival_run(rep, mod, bits, op):
    cs = Case(rep, '%s::f%d_::%s' % (mod, bits, op.f), mode='fp', bits=bits, label='Interval<f%d> %s' % (bits, op.name))
    c = cs.c
    c.finite_hint = lambda e: e.op == 'v' or e.op == 'neg' and e.args[0].op == 'v'
    args, kinds, names, rs = [], [], [], []
    for i in range(cs.f['argc']):
        v = cs.sym(i, 'abc'[i])
        args.append(v)
        xs = [x.d.v.args for x in cs.fl(v)]
        kinds.append('i' if len(xs) == 2 else 't')
        names.append((xs[0], xs[-1]))
        rs.append((qv(xs[0]), qv(xs[-1])))
    cs.run(args)
    return cs, kinds, names, rs


def label(kinds, sc):
    if sc is None:
        return ''
    t = []
    for i, k in enumerate(kinds):
        a = 'abc'[i]
        s = sc[i]
        t.append({('<', '<'): '%s<0', ('<', '0'): '%s<=0', ('<', '>'): '%s around 0', ('0', '0'): '%s=0', ('0', '>'): '%s>=0',
                  ('>', '>'): '%s>0'}[s] % a)
    return ', '.join(t)


def show_cell(cs, cell):
    return cs.show(sorted(cell.asg.items()))


def check_op(rep, mod, bits, op, judge):
    """judge(cs, cell, L, U, lower corners, upper corners) -> error text or None, in every cell of every sign configuration"""
    cs, kinds, names, rs = ival_run(rep, mod, bits, op)
    c = cs.c
    T = Terms()
    lo, hi = cs.fl(op.pick(cs.val))
    for sc in scenarios(kinds, op):
        cell = start(T, kinds, names, sc, op.pre(*rs) if op.pre else ())
        corners = op.corners(sc, *rs)
        if corners is not None:
            corners = tuple([q if isinstance(q, tuple) else Q(q.n.sub0(cell.f.zeros), q.d.sub0(cell.f.zeros)) for q in x] for x in corners)
        err = None
        n = 0
        for g, loc, msg in cs.it.panics:
            for cl, v in walk(c, g, cell):
                if v:
                    err = 'may panic: %s in %s when %s' % (msg, loc, show_cell(cs, cl))
                    break
            if err:
                break
        if not err:
            for cl, (l, u) in walks(c, [lo.d, hi.d], cell):
                n += 1
                e = judge(cs, cl, T.term(l), T.term(u), corners)
                if e:
                    err = '%s; when %s: [%r, %r]' % (e, show_cell(cs, cl), l, u)
                    break
            if not err and not n:
                err = 'never returns'
        cs.ob(label(kinds, sc) or 'any signs', err is None, err or '')
