"""Interval arithmetic encloses every exact result (IEEE arithmetic, rounding and overflow included)."""
from props.ival import *

RULE = ('Each operation is interpreted over IEEE float terms; for every sign configuration of the operand bounds and every '
        'cell of the decision diagram, the lower bound returned must be below, and the upper above, every corner at which the '
        'exact result attains its extremes, using only monotonicity of rounding and nd(fl(q)) <= q <= nu(fl(q)) and polynomial '
        'inequalities entailed by the outcomes. Corners bound the exact results because each operation is monotone in each '
        'operand on each sign region. No reachable debug assertion fails; a divisor containing zero yields (-inf, +inf).')
ASSUMES = ['operand bounds are finite with lower <= upper; square root of non-negative intervals; clamp limits ordered',
           '+ - * / sqrt round to nearest (IEEE-754); next_up/next_down step to the adjacent float (C06)']
FLOOR = 250
TECHNIQUE = 'static analysis: abstract interpretation of MIR over IEEE terms with an order domain (monotone rounding, polyhedral cone of sign products)'


def judge(cs, cell, l, u, corners):
    if corners is None:
        if l != ('inf', -1) or u != ('inf', 1):
            return 'the divisor contains zero but the quotient is bounded'
        return None
    for q in corners[0]:
        if not bound_le(cell, l, q):
            return 'the lower bound may exceed the exact result %r' % (q,)
    for q in corners[1]:
        if not bound_ge(cell, u, q):
            return 'the upper bound may be below the exact result %r' % (q,)
    if not cell.le(l, u):
        return 'the bounds may be out of order'
    return None


def check(rep):
    for bits in (32, 64):
        for op in ARITH + LATTICE + OTHER:
            guarded(rep, 'Interval<f%d> %s' % (bits, op.name), lambda: check_op(rep, 'c01', bits, op, judge))
