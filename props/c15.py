"""Bounding boxes form the expected lattice."""
from fractions import Fraction
from spec import Case, guarded, V
from props.lib import *

RULE = ('gated value numbering of every box operation for symbolic corners; corners of results must be value-equal to '
        'componentwise minima and maxima, truth values equivalent to the conjunction over the axes in every consistent '
        'cell of the diagram (order domain), the longest axis must dominate the other extents in every cell')
ASSUMES = ['coordinates are finite floats (no NaN)', 'the overlap test is stated for boxes with non-empty interior']
FLOOR = 30
MAX = Fraction(2) ** 128 - Fraction(2) ** 104


def check(rep):
    def op(name, pre=None):
        cs = Case(rep, 'c15::b::' + name)
        a = cs.args('ab')
        v = [cs.fl(x) for x in a]
        if pre:
            pre(cs, v)
        cs.run(a)
        cs.no_panic()
        return (cs, cs.fl(cs.val)) + tuple(v)

    def lohi(cs, lo, hi):
        return [cs.fn(lo, *x) for x in lohi.p[:3]] + [cs.fn(hi, *x) for x in lohi.p[3:]]

    def new():
        cs, g, p, q = op('new')
        cs.eqs('corners', g, [cs.fn('min', x, y) for x, y in zip(p, q)] + [cs.fn('max', x, y) for x, y in zip(p, q)])
    guarded(rep, 'new', new)
    for n in ('union', 'add', 'add_assign'):
        def un():
            cs, g, a, b = op(n)
            cs.eqs('smallest common box', g, [cs.fn('min', x, y) for x, y in zip(a[:3], b[:3])] +
                   [cs.fn('max', x, y) for x, y in zip(a[3:], b[3:])])
        guarded(rep, n, un)

    def inter():
        cs, g, a, b = op('intersect')
        cs.eqs('common points', g, [cs.fn('max', x, y) for x, y in zip(a[:3], b[:3])] +
               [cs.fn('min', x, y) for x, y in zip(a[3:], b[3:])])
    guarded(rep, 'intersect', inter)

    def over():
        def pre(cs, v):
            for x in v:
                for i in range(3):
                    cs.assume(x[3 + i] - x[i], '>')
        cs, g, a, b = op('overlaps', pre)
        w = cs.true
        for i in range(3):
            w = w & (a[3 + i] > b[i]) & (b[3 + i] > a[i])
        cs.eq('interiors intersect', g[0], w)
    guarded(rep, 'overlaps', over)

    def inside():
        cs, g, a, p = op('inside')
        w = cs.true
        for i in range(3):
            w = w & (a[i] <= p[i]) & (p[i] <= a[3 + i])
        cs.eq('membership', g[0], w)
    guarded(rep, 'inside', inside)

    def diag():
        cs, g, a = op('diagonal')
        cs.eqs('diagonal', g, [a[3 + i] - a[i] for i in range(3)])
        cs, g, a = op('center')
        cs.eqs('centre', g, [(a[3 + i] + a[i]) / 2 for i in range(3)])
    guarded(rep, 'diagonal', diag)

    def ext():
        cs, g, a = op('max_extent')
        lo, hi, axis = g
        e = [a[3 + i] - a[i] for i in range(3)]
        for i in range(3):
            here = V(cs, cs.c.apply(lambda k, i=i: cs.c.leaf(k == i), ('axis', i), axis.d))
            cs.eq('lower end on axis %d' % i, lo, a[i], care=here)
            cs.eq('upper end on axis %d' % i, hi, a[3 + i], care=here)
            for j in range(3):
                if j != i:
                    cs.holds('axis %d is not shorter than axis %d' % (i, j), e[i] >= e[j], care=here)
        cs.holds('axis is 0, 1 or 2', V(cs, cs.c.apply(lambda k: cs.c.leaf(k in (0, 1, 2)), ('axok',), axis.d)))
    guarded(rep, 'max_extent', ext)
    for n in ('default_union', 'union_default'):
        def neutral():
            def pre(cs, v):
                for x in v[0]:
                    cs.assume(MAX - x, '>=')
                    cs.assume(x + MAX, '>=')
            cs, g, a = op(n, pre)
            cs.eqs('default box is neutral', g, a)
        guarded(rep, n, neutral)
    for n in ('bbox', 'limits', 'clone'):
        def same():
            cs, g, a = op(n)
            cs.eqs('corners', g, a)
        guarded(rep, n, same)
