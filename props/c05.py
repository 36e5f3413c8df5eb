"""Interval bounds are tight to one representable step (IEEE arithmetic)."""
from props.ival import *

RULE = ('Each operation is interpreted over IEEE float terms; in every sign configuration and every cell the lower bound must '
        'not be below the float under the rounded value of some corner of the exact result (dually above), so with C01 it is '
        'at most one step from the rounded exact bound; negation, union, intersection, minimum and maximum must return the '
        'exact bound, and widening exactly the adjacent floats.')
ASSUMES = ['operand bounds are finite with lower <= upper; square root of non-negative intervals; intersected intervals overlap',
           '+ - * / sqrt round to nearest (IEEE-754); next_up/next_down step to the adjacent float (C06)']
FLOOR = 250
TECHNIQUE = 'static analysis: abstract interpretation of MIR over IEEE terms with an order domain (monotone rounding, polyhedral cone of sign products)'

SETS = [
    Op('union', 'union', lambda s, a, b: ([('min', a[0], b[0])], [('max', a[1], b[1])]), False, exact=True),
    Op('intersect', 'intersection', lambda s, a, b: ([('max', a[0], b[0])], [('min', a[1], b[1])]), False, exact=True,
       pre=lambda a, b: [(a[1] - b[0]).n, (b[1] - a[0]).n]),
    Op('from_t', 'from a number', lambda s, a: ([a[0]], [a[0]]), False, exact=True),
    Op('from_pair', 'from a pair', lambda s, a, b: ([a[0]], [b[0]]), False, exact=True, pre=lambda a, b: [(b[0] - a[0]).n]),
    Op('new', 'from bounds', lambda s, a, b: ([a[0]], [b[0]]), False, exact=True, pre=lambda a, b: [(b[0] - a[0]).n]),
]


def tight(cs, cell, l, u, corners):
    if corners is None:
        return None
    if not any(near_le(cell, l, q) for q in corners[0]):
        return 'the lower bound may be more than one step below the rounded exact bound'
    if not any(near_ge(cell, u, q) for q in corners[1]):
        return 'the upper bound may be more than one step above the rounded exact bound'
    return None


def exact(cs, cell, l, u, corners):
    for x, q, what in ((l, corners[0][0], 'lower'), (u, corners[1][0], 'upper')):
        if not eq_corner(cell, x, q, what == 'lower'):
            return 'the %s bound may differ from %r' % (what, q)
    return None


def widen(cs, cell, l, u, corners):
    for x, y, what in ((l, ('nd', ('ex', corners[0][0])), 'lower'), (u, ('nu', ('ex', corners[1][0])), 'upper')):
        if not (cell.le(x, y) and cell.le(y, x)):
            return 'the %s bound may differ from the adjacent float' % what
    return None


def check(rep):
    for bits in (32, 64):
        for op in ARITH + LATTICE + SETS:
            guarded(rep, 'Interval<f%d> %s' % (bits, op.name),
                    lambda: check_op(rep, 'c05', bits, op, exact if op.exact else tight))
        op = Op('extend', 'widening by a step', lambda s, a: ([a[0]], [a[1]]), False)
        guarded(rep, 'Interval<f%d> widening' % bits, lambda: check_op(rep, 'c05', bits, op, widen))
