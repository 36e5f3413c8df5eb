"""A transformed primitive behaves as the moved shape."""
import itertools
from core import INF
from spec import Case, guarded, V
from props.lib import *
from props.c22 import Kid

RULE = ('gated value numbering of queries on a transformed arbitrary primitive with independent symbolic forward and inverse '
        'matrices: hit condition equivalent to that of the primitive on the pulled-back ray, parameter value-equal, point, '
        'tangents and unit normal value-equal to the images; the box value-equal to the support function of the image per '
        'sign pattern of each matrix row')
ASSUMES = ['exact real arithmetic; affine transform; mapped normal not zero']
FLOOR = 100


def point(m, p):
    return [m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3] for i in range(3)]


def linear(m, p):
    return [m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] for i in range(3)]


def transposed(m, p):
    return [m[0][i] * p[0] + m[1][i] * p[1] + m[2][i] * p[2] for i in range(3)]


def unit(cs, n):
    l = cs.fn('sqrt', dot(n, n))
    return [x / l for x in n]


def check(rep):
    def setup(root, lim, deep=False):
        cs = Case(rep, 'c23::t::' + root, label='%s%s' % (root, '' if lim else ' unlimited'))
        k = Kid(cs, 0, 'a')
        m, w = mat(cs, 'm', True), mat(cs, 'w', True)
        args = [k.arg, pack(cs, 1, flat(m)), pack(cs, 2, flat(w))]
        ms = [(m, w)]
        if deep:
            m2, w2 = mat(cs, 'k', True), mat(cs, 'l', True)
            args += [pack(cs, 3, flat(m2)), pack(cs, 4, flat(w2))]
            ms.append((m2, w2))
        o, d = vec(cs, 'o'), vec(cs, 'd')
        t = cs.v('tmax') if lim else cs.v(cs.c.c(INF))
        args.append(pack(cs, len(args), o + d + [t]))
        oo, dd = o, d
        for _, w in reversed(ms):
            oo, dd = point(w, oo), linear(w, dd)
        lit = k.lit(oo, dd, t, lim)
        cs.run(args)
        cs.no_panic()
        return cs, k, ms, oo, dd, lit

    def hit(root, lim):
        cs, k, ms, oo, dd, lit = setup(root, lim, root == 'nested')
        some, pay = cs.some()
        cs.eq('hit exactly when the pulled-back ray hits', some, lit)
        if pay is None:
            cs.ob('reports hits', False, 'never reports a hit')
            return
        g = cs.fl(pay)
        p, du, dv, n = oo, dd, k.t, k.n
        for m, w in ms:
            p, du, dv, n = point(m, p), linear(m, du), linear(m, dv), unit(cs, transposed(w, n))
        cs.eq('parameter', g[0], k.h, care=lit)
        cs.eqs('point', g[1:4], p, care=lit)
        cs.eqs('normal', g[4:7], n, care=lit)
        cs.eqs('first tangent', g[7:10], du, care=lit)
        cs.eqs('second tangent', g[10:13], dv, care=lit)
        cs.eqs('surface parameters', g[13:15], k.uv, care=lit)
    for lim in (True, False):
        for root in ('hit', 'nested'):
            guarded(rep, root, lambda: hit(root, lim))

        def test():
            cs, k, ms, oo, dd, lit = setup('test', lim)
            cs.eq('answers for the pulled-back ray', cs.v(cs.val), lit)
        guarded(rep, 'test', test)
    boxes(rep, 'c23::t::bbox', lambda cs, lo, hi: Kid(cs, 2, 'a', lo, hi).arg)


def boxes(rep, root, mk):
    for ax in range(3):
        for pat in list(itertools.product('+-0', repeat=3)):
            def go():
                cs = Case(rep, root, label='bbox axis %s signs %s' % ('xyz'[ax], ''.join(pat)), fold=False)
                m, w = mat(cs, 'm', True), mat(cs, 'w', True)
                lo, hi = vec(cs, 'lo'), vec(cs, 'hi')
                for j in range(3):
                    cs.assume(hi[j] - lo[j], '>')
                    if pat[j] == '0':
                        m[ax][j] = cs.v(0)
                for i in range(3):
                    s = None
                    for j in range(3):
                        p = pat[j] if i == ax else '+'
                        if p == '0':
                            continue
                        d = m[i][j] * (hi[j] - lo[j])
                        d = d if p == '+' else -d
                        cs.assume(m[i][j] if p == '+' else -m[i][j], '>')
                        cs.assume(d, '>')
                        s = d if s is None else s + d
                    if s is not None:
                        cs.assume(s, '>')
                cs.run([pack(cs, 0, flat(m)), pack(cs, 1, flat(w)), mk(cs, lo, hi)])
                cs.no_panic()
                g = cs.fl(cs.val)
                a = b = m[ax][3]
                for j in range(3):
                    x, y = (hi[j], lo[j]) if pat[j] == '-' else (lo[j], hi[j])
                    a = a + m[ax][j] * x
                    b = b + m[ax][j] * y
                cs.eq('lower bound', g[ax], a)
                cs.eq('upper bound', g[3 + ax], b)
            guarded(rep, '%d %s' % (ax, ''.join(pat)), go)
