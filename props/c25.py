"""Disk sampling covers the unit disk uniformly."""
import itertools
from fractions import Fraction
from core import Ctx, Leaf, INF, NINF, NAN
from spec import Case, guarded, V
from props.lib import *

RULE = ('value numbering of both mappings with symbolic differentiation. The square is partitioned into open octants, the rays '
        'between them and the centre; on each the mapping is one expression. Obligations: squared radius value-equal to the '
        'required function, Jacobian determinant value-equal to +pi everywhere or -pi everywhere, and the expressions of '
        'neighbouring parts value-equal after substitution on their common border. A continuous map of the square to the disk '
        'with boundary on the circle and Jacobian of one sign and magnitude pi has degree one, so it reaches the whole disk')
ASSUMES = ['exact real arithmetic; samples in the closed unit square']
FLOOR = 60
H = Fraction(1, 2)


def one(d):
    """the only expression of a diagram"""
    ls = [d] if isinstance(d, Leaf) else None
    if ls is None:
        raise Unsupported('the mapping is a case distinction inside a part of the square')
    return d.v


def at(cs):
    g = cs.fl(cs.val)
    r = [one(x.d) for x in g]
    return r


def check(rep):
    guarded(rep, 'uniform', lambda: uniform(rep))
    guarded(rep, 'concentric', lambda: concentric(rep))


def uniform(rep):
    cs = Case(rep, 'c25::t::uniform', label='uniform')
    c = cs.c
    x, y = cs.v('p.x'), cs.v('p.y')
    for v in (x, y):
        cs.assume(v, '>=')
        cs.assume(1 - v, '>=')
    cs.run([pack(cs, 0, [x, y])])
    cs.no_panic()
    e = at(cs)
    r, t = c.fn('sqrt', c.var('p.y')), c.mul(c.mul(c.c(2), c.PI), c.var('p.x'))
    for i, f in enumerate(('cos', 'sin')):
        w = c.mul(r, c.fn(f, t))
        cs.ob('sqrt(y) at the angle 2 pi x, coordinate %d' % i, c.same(e[i], w), '%r' % e[i])
    rr = c.add(c.mul(e[0], e[0]), c.mul(e[1], e[1]))
    rad, ang = ('p.x', 'p.y') if c.same(rr, c.var('p.x')) else ('p.y', 'p.x')
    ok = False
    for s in (c.var(rad), c.sub(c.ONE, c.var(rad))):
        ok = ok or c.same(rr, s)
    cs.ob('squared radius is uniform in [0,1]', ok, 'x^2+y^2 = %r' % rr)
    D = [[c.deriv(f, v) for v in ('p.x', 'p.y')] for f in e]
    det = c.sub(c.mul(D[0][0], D[1][1]), c.mul(D[0][1], D[1][0]))
    cs.ob('Jacobian of magnitude pi', c.same(det, c.PI) or c.same(det, c.neg(c.PI)), 'determinant %r' % det)
    inner = c.sub(c.ONE, c.var(rad)) if c.same(rr, c.sub(c.ONE, c.var(rad))) else c.var(rad)
    for i in range(2):
        lo, hi = c.rebuild(e[i], {ang: c.ZERO}), c.rebuild(e[i], {ang: c.ONE})
        cs.ob('closes over the full turn, coordinate %d' % i, c.same(lo, hi), 'start %r, end %r' % (lo, hi))
        z = c.rebuild(e[i], {rad: c.ZERO if inner is c.var(rad) else c.ONE})
        cs.ob('radius zero is the centre, coordinate %d' % i, c.same(z, c.ZERO), '%r' % z)


def concentric(rep):
    parts = {}
    big = Ctx('real')

    def part(name, px, py, signs):
        """one part of the square; signs of a, b and |a|-|b|"""
        cs = Case(rep, 'c25::t::concentric', label='concentric ' + name)
        x, y = px(cs), py(cs)
        a, b = 1 - x * 2, 1 - y * 2
        for v, s in ((a, signs[0]), (b, signs[1])):
            if v.e().op != 'c':
                cs.assume(v, '>' if s > 0 else '<')
        if signs[2]:
            d = (a if signs[0] > 0 else -a) - (b if signs[1] > 0 else -b)
            if d.e().op != 'c':
                cs.assume(d, '>' if signs[2] > 0 else '<')
        cs.run([pack(cs, 0, [x, y])])
        cs.no_panic()
        e = at(cs)
        parts[name] = e
        c = cs.c
        m = a if signs[2] >= 0 else b
        rr = c.add(c.mul(e[0], e[0]), c.mul(e[1], e[1]))
        cs.ob('concentric squares become concentric circles', c.same(rr, (m * m).e()), 'x^2+y^2 = %r' % rr)
        return cs, e
    X = lambda cs: cs.v('p.x')
    Y = lambda cs: cs.v('p.y')
    dets = set()
    nm = lambda sa, sb, k: 'a%sb%s|a|%s|b|' % ('+' if sa > 0 else '-', '+' if sb > 0 else '-', {1: '>', -1: '<', 0: '='}[k])
    for sa, sb, k in itertools.product((1, -1), (1, -1), (1, -1)):
        cs, e = part(nm(sa, sb, k), X, Y, (sa, sb, k))
        c = cs.c
        D = [[c.deriv(f, v) for v in ('p.x', 'p.y')] for f in e]
        det = c.sub(c.mul(D[0][0], D[1][1]), c.mul(D[0][1], D[1][0]))
        s = 1 if c.same(det, c.PI) else (-1 if c.same(det, c.neg(c.PI)) else 0)
        cs.ob('Jacobian of magnitude pi', s != 0, 'determinant %r' % det)
        dets.add(s)
    rep.add('concentric: orientation is the same everywhere', len(dets) == 1, 'Jacobian signs %s' % sorted(dets))
    px = big.var('p.x')
    borders = []
    for sa, sb in itertools.product((1, -1), (1, -1)):
        f = X if sa == sb else (lambda cs: 1 - cs.v('p.x'))
        sub = {'p.y': px if sa == sb else big.sub(big.ONE, px)}
        part(nm(sa, sb, 0), X, f, (sa, sb, 0))
        borders.append((nm(sa, sb, 0), sub, [nm(sa, sb, 1), nm(sa, sb, -1)]))
    hc = big.c(H)
    for s in (1, -1):
        n = 'a%s, b=0' % '+-'[s < 0]
        part(n, X, lambda cs: cs.v(H), (s, 0, 1))
        borders.append((n, {'p.y': hc}, [nm(s, 1, 1), nm(s, -1, 1)]))
        n = 'a=0, b%s' % '+-'[s < 0]
        part(n, lambda cs: cs.v(H), Y, (0, s, -1))
        borders.append((n, {'p.x': hc}, [nm(1, s, -1), nm(-1, s, -1)]))
    for n, sub, near in borders:
        for o in near:
            for i in range(2):
                u, v = big.rebuild(parts[n][i], sub), big.rebuild(parts[o][i], sub)
                rep.add('concentric: continuous between %s and %s, coordinate %d' % (n, o, i), big.same(u, v),
                        'on the border %r, limit %r' % (u, v))
    cs, e = part('centre', lambda cs: cs.v(H), lambda cs: cs.v(H), (0, 0, 0))
    cs.ob('centre to centre', all(cs.c.same(x, cs.c.ZERO) for x in e), '%r' % e)
