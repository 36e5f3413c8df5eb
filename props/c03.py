"""Interval comparisons and predicates (decided on the bounds, no rounding involved)."""
from props.lib import *

RULE = ('Every comparison operator and predicate of Interval is value-numbered for symbolic bounds with lower <= upper; '
        'in every cell of the decision diagram (every relative position of the bounds consistent with transitivity) the '
        'answer must be the quantified statement over all members, which for ordered bounds is a condition on them.')
ASSUMES = ['bounds are numbers (not NaN) with lower <= upper; comparisons do not round']
FLOOR = 100


def check(rep):
    for bits in (32, 64):
        one(rep, bits)


def one(rep, bits):
    L = 'Interval<f%d> ' % bits

    def run(f, body, what):
        def go():
            cs = Case(rep, 'c03::f%d_::%s' % (bits, f), bits=bits, label=L + what)
            args, vs = [], []
            for i in range(cs.f['argc']):
                v = cs.sym(i, 'abc'[i])
                args.append(v)
                x = cs.fl(v)
                if len(x) == 2:
                    cs.assume(x[1] - x[0], '>=')
                    vs.append((x[0], x[1]))
                else:
                    vs.append((x[0], x[0]))
            cs.run(args)
            cs.no_panic()
            body(cs, V(cs, cs.val), *vs)
        guarded(rep, L + what, go)

    def less(a, b):
        return a[1] < b[0]

    def equal(a, b):
        # every choice equal: both single numbers and the same
        return a[0].eq(a[1]) & b[0].eq(b[1]) & a[0].eq(b[0])

    for k in 'it':
        kind = 'interval' if k == 'i' else 'number'

        def order(cs, r, a, b):
            want = cs.ite(less(a, b), 0, cs.ite(equal(a, b), 1, cs.ite(less(b, a), 2, 3)))
            cs.eq('less/equal/greater exactly when certain', r, want)
        run('cmp_' + k, order, 'partial_cmp with an ' + kind)
        ops = {'eq': lambda cs, a, b: equal(a, b), 'ne': lambda cs, a, b: ~equal(a, b),
               'lt': lambda cs, a, b: less(a, b), 'gt': lambda cs, a, b: less(b, a)}
        for f, g in ops.items():
            run('%s_%s' % (f, k), lambda cs, r, a, b: cs.eq('true exactly when true of all members', r, g(cs, a, b)),
                '%s with an %s' % (f, kind))

        def le(cs, r, a, b):
            cs.holds('only true if true of all members', ~r | (a[1] <= b[0]))
            cs.holds('true when certain', r | ~(less(a, b) | equal(a, b)))

        def ge(cs, r, a, b):
            cs.holds('only true if true of all members', ~r | (a[0] >= b[1]))
            cs.holds('true when certain', r | ~(less(b, a) | equal(a, b)))
        run('le_' + k, le, 'le with an ' + kind)
        run('ge_' + k, ge, 'ge with an ' + kind)
    for p in ('own_', ''):
        preds = {'is_positive': lambda a: a[0] > 0, 'is_negative': lambda a: a[1] < 0,
                 'is_nonpositive': lambda a: a[1] <= 0, 'is_nonnegative': lambda a: a[0] >= 0}
        if not p:
            preds['is_zero'] = lambda a: a[0].eq(0) & a[1].eq(0)
            preds['is_one'] = lambda a: a[0].eq(1) & a[1].eq(1)
        for f, g in preds.items():
            run(p + f, lambda cs, r, a: cs.eq('true exactly when true of all members', r, g(a)),
                f + (' (own)' if p else ' (scalar trait)'))
        run(p + 'in_range', lambda cs, r, a, b, c: cs.eq('true exactly when true of all members', r,
                                                        (a[0] >= b[1]) & (a[1] <= c[0])),
            'in_range' + (' (own)' if p else ' (scalar trait)'))
