"""Interval elementary functions return no more than they have to (IEEE arithmetic)."""
from props.c02 import *

RULE = ('The elementary functions of intervals are interpreted over IEEE float terms with the std functions opaque. Inverse '
        'functions: a bound may be no further out than the float next to the library\'s value at the argument\'s bound, nor '
        'outside the range of the function. Sine and cosine: for every placement of the bounds in quadrants, a bound may be '
        'no further out than the float next to the library\'s value at one of the bounds where no extremum lies between, and '
        'never outside [-1, 1] where one does. The two-argument arctangent stays in the half or quarter turn its arguments '
        'are in where the second does not change sign. Constants span one step; conversions at most one step each way, none where the number is representable.')
ASSUMES = [ASSUMES[0], 'for sine and cosine: the bounds are not within 0.15 of half a turn apart, nor within 0.29 of a full turn '
           '(there the full range is permitted)', 'next_up/next_down step to the adjacent float (C06)']
FLOOR = 200
STEP = lambda cell, x, y, lower: cell.le(('nd', y), x) if lower else cell.le(x, ('nu', y))


def const_at(cell, x, k, lower):
    """no further out than the float next to the number k"""
    return STEP(cell, x, ('ex', qc(k)), lower)


def trig_tight(rep, bits, f, root, pick):
    op = Op(root, '%s%s' % (f, ' (pair)' if root != f else ''), None, False, pick=pick)
    cs, kinds, names, rs = ival_run(rep, 'c02', bits, op)
    T = Terms()
    (ai, as_), = names
    lo, hi = cs.fl(op.pick(cs.val))
    nm = {'ai': ai, 'as': as_}
    for name, zs, qi, qs, bnd, dmin, dmax in positions():
        zeros = {nm[z] for z in zs}
        d = pv(as_) - pv(ai)
        fs = [(d, False)]
        if 'ai' in zs and 'as' not in zs:
            fs.append((pv(as_), True))
        if 'as' in zs and 'ai' not in zs:
            fs.append((-pv(ai), True))
        if dmin:
            fs.append((d - pc(dmin * H_LO), True))
        if dmax in (2, 4):
            fs.append((pc(3 * dmax // 2) - d, True))
        elif dmax:
            fs.append((pc(dmax * H_HI) - d, True))
        known = {}
        for v, q in ((ai, qi), (as_, qs)):
            for g in ('sin', 'cos'):
                known[tkey(fnterm(g, qv(v)))] = QS[g][q] if q is not None else (0 if g == 'sin' else 1)
        cell = Cell(T, Facts2(fs, zeros), known=known)
        has = {False: any(k % 4 == MAXB[f] for k in bnd), True: any(k % 4 == (MAXB[f] + 2) % 4 for k in bnd)}

        def judge(cell, l, u):
            for x, lower, what in ((l, True, 'lower'), (u, False, 'upper')):
                if has[lower]:
                    if not (cell.le(('ex', qc(-1)), x) if lower else cell.le(x, ('ex', qc(1)))):
                        return 'the %s bound may lie outside [-1, 1]' % what
                    continue
                ok = any(STEP(cell, x, fnterm(f, qv(v)), lower) for v in (ai, as_))
                for z in zs:
                    ok = ok or const_at(cell, x, 0 if f == 'sin' else 1, lower)
                if not ok:
                    return 'the %s bound may be further than a step from the values at both bounds' % what
        cells(cs, T, name, cell, lo, hi, judge)


def inverse_tight(rep, bits):
    top = {'asin': H_HI, 'acos': PI_HI, 'atan': None}
    for f, inc in (('asin', True), ('acos', False), ('atan', True)):
        def go():
            cs, kinds, names, rs = ival_run(rep, 'c02', bits, Op(f, f, None, False))
            (ai, as_), = names
            T = Terms()
            lo, hi = cs.fl(cs.val)
            fs = [(pv(as_) - pv(ai), False)]
            if f != 'atan':
                fs += [(pv(ai) + pc(1), False), (pc(1) - pv(as_), False)]
            first, last = (ai, as_) if inc else (as_, ai)

            def judge(cell, l, u):
                if not STEP(cell, l, fnterm(f, qv(first)), True):
                    return 'the lower bound may be further than a step from the value at %s' % first
                if not STEP(cell, u, fnterm(f, qv(last)), False):
                    return 'the upper bound may be further than a step from the value at %s' % last
                if f == 'acos' and not cell.le(('ex', Z), l):
                    return 'the lower bound may be negative'
                t = top[f] and near_pi(top[f], bits)
                if t and not cell.le(u, ('ex', qc(t))):
                    return 'the upper bound may lie outside the range of the function'
                if t and f == 'asin' and not cell.le(('ex', qc(-t)), l):
                    return 'the lower bound may lie outside the range of the function'
            cells(cs, T, 'one step from the values at the bounds, within the range of the function', Cell(T, Facts2(fs)), lo, hi, judge)
        guarded(rep, 'Interval<f%d> %s' % (bits, f), go)


def near_pi(x, bits, up=True):
    """the float next to the number x (away from an integer), above or below"""
    m = {32: 24, 64: 53}[bits]
    e = 0
    while x >= 2 ** (e + 1):
        e += 1
    u = Fraction(2) ** (e - m + 1)
    k = x / u
    k = k.numerator // k.denominator
    return (k + (1 if up else 0)) * u


def atan2_range(rep, bits):
    cs, kinds, names, rs = ival_run(rep, 'c02', bits, Op('atan2', 'two-argument arctangent', None))
    T = Terms()
    lo, hi = cs.fl(cs.val)
    P, H, h = near_pi(PI_HI, bits), near_pi(H_HI, bits), near_pi(H_LO, bits, False)
    for sc in itertools.product(SIGNS, SIGNS):
        sy, sx = sc
        if sx == ('<', '>') or sx == ('0', '0') and sy[0] in '<0' and sy[1] in '0>':
            continue
        cell = start(T, 'ii', names, sc)
        if sx[0] in '>0':
            a, b = -H, H
        elif sx[1] in '<0' and sy[0] in '>0':
            a, b = h, P
        elif sx[1] in '<0' and sy[1] == '<':
            a, b = -P, -h
        else:
            a, b = -P, P

        def judge(cell, l, u):
            if not cell.le(('ex', qc(a)), l):
                return 'the lower bound may be below %.6f' % a
            if not cell.le(u, ('ex', qc(b))):
                return 'the upper bound may be above %.6f' % b
        cells(cs, T, 'y %s, x %s' % tuple(label('i', (x,)).replace('a ', ' ').replace('a', '', 1) for x in sc), cell, lo, hi, judge)


def consts_tight(rep, bits):
    for f, k in (('pi', 1), ('tau', 2), ('frac_pi_2', Fraction(1, 2)), ('frac_pi_4', Fraction(1, 4))):
        for root, what in ((f, 'Interval<f%d>::%s' % (bits, f)), ('s_' + f, 'f%d::%s_lower, %s_upper' % (bits, f, f))):
            def go():
                cs = Case(rep, 'c02::f%d_::%s' % (bits, root), mode='fp', bits=bits, label=what)
                cs.run([])
                x = [v.d.v.const() if isinstance(v.d, Leaf) else None for v in cs.fl(cs.val)]
                m = {32: 24, 64: 53}[bits]
                e = {'pi': 1, 'tau': 2, 'frac_pi_2': 0, 'frac_pi_4': -1}[f]
                ok = all(isinstance(v, Fraction) for v in x) and x[1] - x[0] == Fraction(2) ** (e - m + 1)
                cs.ob('the two floats next to the exact number', ok, repr([float(v) if isinstance(v, Fraction) else v for v in x]))
            guarded(rep, what, go)


def conv_tight(rep, bits):
    for f, what in (('from_i64', 'from an integer'), ('from_f32', 'from a single'), ('from_f64', 'from a double')):
        def go():
            cs = Case(rep, 'c02::f%d_::%s' % (bits, f), mode='fp', bits=bits, label='Interval<f%d> %s' % (bits, what))
            c = cs.c
            c.finite_hint = lambda e: e.op == 'v' or e.op == 'neg' and e.args[0].op == 'v'
            n = 'int' if f == 'from_i64' else 'x'
            cs.run([c.leaf(c.var(n))])
            wide = f == 'from_i64' or f == 'from_f64' and bits == 32
            T = Terms(wide=(n,) if wide else ())
            lo, hi = cs.fl(cs.val)

            def judge(cell, l, u):
                if not wide:
                    x = ('ex', qv(n))
                    if not (cell.le(x, l) and cell.le(u, x)):
                        return 'the bounds may differ from the number, which is representable'
                    return
                r = ('fl', qv(n))
                if not cell.le(('nd', r), l):
                    return 'the lower bound may be more than a step from the nearest float'
                if not cell.le(u, ('nu', r)):
                    return 'the upper bound may be more than a step from the nearest float'
            cells(cs, T, 'at most a step from the nearest float', Cell(T, Facts2([])), lo, hi, judge)
        guarded(rep, 'Interval<f%d> %s' % (bits, what), go)


def check(rep):
    for bits in (32, 64):
        consts_tight(rep, bits)
        conv_tight(rep, bits)
        for f, root, pick in (('sin', 'sin', None), ('cos', 'cos', None), ('sin', 'sin_cos', lambda v: v.f[0]),
                              ('cos', 'sin_cos', lambda v: v.f[1])):
            guarded(rep, 'Interval<f%d> %s' % (bits, f), lambda: trig_tight(rep, bits, f, root, pick))
        inverse_tight(rep, bits)
        guarded(rep, 'Interval<f%d> two-argument arctangent' % bits, lambda: atan2_range(rep, bits))
