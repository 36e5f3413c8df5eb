"""Interval elementary functions enclose every exact result."""
import re
from props.ival import *
from mir import Agg

RULE = ('Each function is interpreted over IEEE float terms. Sine and cosine: for every pair of quadrants of the two bounds and '
        'every number of quadrant boundaries between them (and bounds equal to 0), in every cell of the decision diagram the '
        'bounds returned must be -1 / 1 where an extremum lies between the argument bounds, and otherwise lie outside the '
        'exact values at the argument bounds. Tangent: the quotient of the sine and the cosine of the argument, judged as a '
        'division. Inverse functions: outside the exact values at the bounds. Two-argument arctangent: for every sign '
        'configuration of both arguments, outside the exact angle of every corner (and -pi and pi where the argument meets '
        'the branch cut). Constants are folded from MIR and must strictly bracket the number; conversions must enclose '
        'their argument.')
ASSUMES = ['argument bounds are finite with lower <= upper, within [-1, 1] for the inverse sine and cosine',
           'the std functions sin, cos, asin, acos, atan are within one step of the exact value and have its sign; asin, acos '
           'and atan are monotone as computed', 'next_up/next_down step to the adjacent float (C06); division encloses (C01)']
FLOOR = 250
TECHNIQUE = 'static analysis: abstract interpretation of MIR over IEEE terms with an order domain (monotone rounding, polyhedral cone of sign products)'
H_LO, H_HI = PI_LO / 2, PI_HI / 2


def fnterm(f, q):
    return ('fn', f, ('ex', q))


def le_fn(cell, x, f, q, inc=True, low=None):
    """float x <= f(q), q an input; f increasing or decreasing, or neither (None); low: least value of f"""
    for y in cell.alts(x):
        if y[0] == 'nd' and y[1][0] == 'fn' and y[1][1] == f and y[1][2][0] == 'ex':
            p = y[1][2][1]
            if p.k == q.k or inc is True and cell.f.le(p, q) or inc is False and cell.f.le(q, p):
                return True
    if low is not None and cell.le_real(x, qc(low)):
        return True
    s = cell.known.get(tkey(fnterm(f, q)))
    return s is not None and s >= 0 and cell.le_real(x, Z)


def ge_fn(cell, x, f, q, inc=True, high=None):
    for y in cell.flip().alts(neg(x)):
        y = neg(y)
        if y[0] == 'nu' and y[1][0] == 'fn' and y[1][1] == f and y[1][2][0] == 'ex':
            p = y[1][2][1]
            if p.k == q.k or inc is True and cell.f.le(q, p) or inc is False and cell.f.le(p, q):
                return True
    if high is not None and cell.ge_real(x, qc(high)):
        return True
    s = cell.known.get(tkey(fnterm(f, q)))
    return s is not None and s <= 0 and cell.ge_real(x, Z)


# ------------------------------------------------------------------ sine, cosine
QS = {'sin': (1, 1, -1, -1), 'cos': (1, -1, -1, 1)}
MAXB = {'sin': 1, 'cos': 0}


def positions():
    """(name, zeros, quadrant of ai or None, quadrant of as or None, boundaries strictly between, least and greatest width in quadrants)"""
    for q in range(4):
        for n in range(6):
            yield ('bounds in quadrants %d and %d, %d boundaries between' % (q + 1, (q + n) % 4 + 1, n), (), q, (q + n) % 4,
                   range(q + 1, q + n + 1), max(n - 1, 0), n + 1)
        for r in range(4):
            yield ('bounds in quadrants %d and %d, further than five quadrants apart' % (q + 1, r + 1), (), q, r, range(4), 5, None)
    for n in range(5):
        yield 'lower bound 0, upper in quadrant %d' % n, ('ai',), None, n % 4, range(1, n + 1), n, n + 1
        yield 'upper bound 0, lower in quadrant -%d' % n, ('as',), (-1 - n) % 4, None, range(-n, 0), n, n + 1
    for r in range(4):
        yield 'lower bound 0, upper in quadrant %d, further than five quadrants' % r, ('ai',), None, r, range(4), 5, None
        yield 'upper bound 0, lower in quadrant %d, further than five quadrants' % r, ('as',), r, None, range(4), 5, None
    yield 'both bounds 0', ('ai', 'as'), None, None, range(0), 0, 0


def trig(rep, bits, f, root, pick):
    op = Op(root, '%s%s' % (f, ' (pair)' if root != f else ''), None, False, pick=pick)
    cs, kinds, names, rs = ival_run(rep, 'c02', bits, op)
    c = cs.c
    T = Terms()
    (ai, as_), = names
    lo, hi = cs.fl(op.pick(cs.val))
    nm = {'ai': ai, 'as': as_}
    for name, zs, qi, qs, bnd, dmin, dmax in positions():
        zeros = {nm[z] for z in zs}
        d = pv(as_) - pv(ai)
        fs = [(d, False)]
        if 'ai' in zs and 'as' not in zs:
            fs.append((pv(as_), True))
        if 'as' in zs and 'ai' not in zs:
            fs.append((-pv(ai), True))
        if dmin:
            fs.append((d - pc(dmin * H_LO), True))
        if dmax is not None and dmax:
            fs.append((pc(dmax * H_HI) - d, True))
        known = {}
        for v, q in ((ai, qi), (as_, qs)):
            for g in ('sin', 'cos'):
                known[tkey(fnterm(g, qv(v)))] = QS[g][q] if q is not None else (0 if g == 'sin' else 1)
        # the sine of 0 is 0 and its cosine 1
        cell = Cell(T, Facts2(fs, zeros), known=known)
        has_max = any(k % 4 == MAXB[f] for k in bnd)
        has_min = any(k % 4 == (MAXB[f] + 2) % 4 for k in bnd)

        def judge(cell, l, u):
            if has_min:
                if not cell.le_real(l, qc(-1)):
                    return 'the minimum -1 lies between the bounds but may be excluded'
            else:
                for v in (ai, as_):
                    if nm['ai'] == v and 'ai' in zs or nm['as'] == v and 'as' in zs:
                        ok = cell.le_real(l, qc(0 if f == 'sin' else 1)) or le_fn(cell, l, f, qv(v), None, -1)
                    else:
                        ok = le_fn(cell, l, f, qv(v), None, -1)
                    if not ok:
                        return 'the lower bound may exceed the exact value at %s' % v
            if has_max:
                if not cell.ge_real(u, qc(1)):
                    return 'the maximum 1 lies between the bounds but may be excluded'
            else:
                for v in (ai, as_):
                    if nm['ai'] == v and 'ai' in zs or nm['as'] == v and 'as' in zs:
                        ok = cell.ge_real(u, qc(0 if f == 'sin' else 1)) or ge_fn(cell, u, f, qv(v), None, 1)
                    else:
                        ok = ge_fn(cell, u, f, qv(v), None, 1)
                    if not ok:
                        return 'the upper bound may be below the exact value at %s' % v
            return None
        cells(cs, T, name, cell, lo, hi, judge)


def cells(cs, T, name, cell, lo, hi, judge):
    c = cs.c
    if cell.f.bad():
        raise Unsupported('contradictory assumptions: ' + name)
    err, n = None, 0
    for g, loc, msg in cs.it.panics:
        for cl, v in walk(c, g, cell):
            if v:
                err = err or 'may panic: %s in %s when %s' % (msg, loc, show_cell(cs, cl))
    if not err:
        for cl, (l, u) in walks(c, [lo.d, hi.d], cell):
            n += 1
            e = judge(cl, T.term(l), T.term(u))
            if e:
                err = '%s; when %s: [%r, %r]' % (e, show_cell(cs, cl), l, u)
                break
        if not err and not n:
            err = 'never returns'
    cs.ob(name, err is None, err or '')


# ------------------------------------------------------------------ tangent
def tan(rep, bits):
    op = Op('tan', 'tangent', None, False)
    I = re.compile(r'GFloat for [\w:]*Interval<f%d>>::(sin|cos)$' % bits)
    J = re.compile(r'Interval<f%d> as [\w:]*GFloat>::(sin|cos)$' % bits)
    seen = []

    def hook(it, f, args, ats, dt, st):
        m = I.search(f['name']) or J.search(f['name'])
        if not m:
            return None
        k = m.group(1)[0]
        a = args[0]
        if not isinstance(a, Agg) or [x.v.args if isinstance(x, Leaf) and isinstance(x.v, E) else None for x in a.f] != ['a.inf', 'a.sup']:
            raise Unsupported('sine or cosine of something other than the argument')
        seen.append(k)
        return Agg(a.k, [it.c.leaf(it.c.var(k + n)) for n in ('.inf', '.sup')])
    cs = Case(rep, 'c02::f%d_::tan' % bits, mode='fp', bits=bits, label='Interval<f%d> tangent' % bits)
    cs.it.hooks.append(hook)
    c = cs.c
    c.finite_hint = lambda e: e.op == 'v' or e.op == 'neg' and e.args[0].op == 'v'
    cs.run([cs.sym(0, 'a')])
    T = Terms()
    lo, hi = cs.fl(cs.val)
    names = [('s.inf', 's.sup'), ('c.inf', 'c.sup')]
    s, k = [(qv(a), qv(b)) for a, b in names]
    for sc in itertools.product(SIGNS, SIGNS):
        cell = start(T, 'ii', names, sc)
        cn = div_corners(s, k, sc)
        if cn is not None:
            cn = tuple([Q(q.n.sub0(cell.f.zeros), q.d.sub0(cell.f.zeros)) for q in x] for x in cn)

        def judge(cell, l, u):
            if cn is None:
                return None if l == ('inf', -1) and u == ('inf', 1) else 'the cosine may be zero but the tangent is bounded'
            for q in cn[0]:
                if not bound_le(cell, l, q):
                    return 'the lower bound may exceed the exact result %r' % (q,)
            for q in cn[1]:
                if not bound_ge(cell, u, q):
                    return 'the upper bound may be below the exact result %r' % (q,)
        cells(cs, T, 'sine %s, cosine %s' % tuple(label('i', (x,)).replace('a ', ' ').replace('a', '', 1) for x in sc), cell, lo, hi, judge)


# ------------------------------------------------------------------ inverse functions
def inverse(rep, bits):
    for f, inc, low, high, dom in (('asin', True, -H_HI, H_HI, True), ('acos', False, 0, PI_HI, True), ('atan', True, -H_HI, H_HI, False)):
        def go():
            cs, kinds, names, rs = ival_run(rep, 'c02', bits, Op(f, f, None, False))
            (ai, as_), = names
            T = Terms()
            lo, hi = cs.fl(cs.val)
            fs = [(pv(as_) - pv(ai), False)]
            if dom:
                fs += [(pv(ai) + pc(1), False), (pc(1) - pv(as_), False)]
            first, last = (ai, as_) if inc else (as_, ai)

            def judge(cell, l, u):
                if not le_fn(cell, l, f, qv(first), inc, low):
                    return 'the lower bound may exceed the exact value at %s' % first
                if not ge_fn(cell, u, f, qv(last), inc, high):
                    return 'the upper bound may be below the exact value at %s' % last
            cells(cs, T, 'encloses the values at both bounds', Cell(T, Facts2(fs)), lo, hi, judge)
        guarded(rep, 'Interval<f%d> %s' % (bits, f), go)


# ------------------------------------------------------------------ two-argument arctangent
def angles(sy, sx, y, x):
    """exact angles between which all angles of the box lie: (k, q) stands for k pi/2 + atan(q); Z for no arctangent term"""
    out = []
    for i in (0, 1):
        for j in (0, 1):
            a, b = sy[i], sx[j]
            if b == '>':
                out.append((0, y[i] / x[j]))
            elif b == '0':
                if a != '0':
                    out.append((1 if a == '>' else -1, None))
            elif a == '0':
                out.append((2, None))
            else:
                out.append((2 if a == '>' else -2, y[i] / x[j]))
    if sx[0] == '<':
        if sy[0] == '<' and sy[1] in '0>':      # meets the branch cut
            out += [(2, None), (-2, None)]
    # axes met inside the box
    if sy[1] == '>' and sx[0] in '<0' and sx[1] in '0>':
        out.append((1, None))
    if sy[0] == '<' and sx[0] in '<0' and sx[1] in '0>':
        out.append((-1, None))
    if sx[1] == '>' and zero_in(sy):
        out.append((0, None))
    if sx[0] == '<' and zero_in(sy):
        out.append((2, None))
    return out


def atan2(rep, bits):
    cs, kinds, names, rs = ival_run(rep, 'c02', bits, Op('atan2', 'two-argument arctangent', None))
    T = Terms()
    lo, hi = cs.fl(cs.val)
    for sc in itertools.product(SIGNS, SIGNS):
        cell = start(T, 'ii', names, sc)
        z = cell.f.zeros
        need = angles(sc[0], sc[1], *[[Q(q.n.sub0(z), q.d) for q in r] for r in rs])

        def judge(cell, l, u):
            for k, q in need:
                at = () if q is None else (q,)
                what = '%s pi/2%s' % (k, '' if q is None else ' + atan(%r)' % q)
                if not cell.le_real(l, (PI2 * qc(k), at)):
                    return 'the lower bound may exceed the angle ' + what
                if not cell.ge_real(u, (PI2 * qc(k), at)):
                    return 'the upper bound may be below the angle ' + what
        cells(cs, T, 'y %s, x %s' % tuple(label('i', (x,)).replace('a ', ' ').replace('a', '', 1) for x in sc), cell, lo, hi, judge)


# ------------------------------------------------------------------ constants and conversions
def consts(rep, bits):
    for f, k in (('pi', 1), ('tau', 2), ('frac_pi_2', Fraction(1, 2)), ('frac_pi_4', Fraction(1, 4))):
        for root, what in ((f, 'Interval<f%d>::%s' % (bits, f)), ('s_' + f, 'f%d::%s_lower, %s_upper' % (bits, f, f))):
            def go():
                cs = Case(rep, 'c02::f%d_::%s' % (bits, root), mode='fp', bits=bits, label=what)
                cs.run([])
                x = [v.d.v.const() if isinstance(v.d, Leaf) else None for v in cs.fl(cs.val)]
                cs.no_panic()
                ok = all(isinstance(v, Fraction) for v in x) and x[0] < k * PI_LO and k * PI_HI < x[1]
                cs.ob('strictly brackets the exact number', ok, repr([float(v) if isinstance(v, Fraction) else v for v in x]))
            guarded(rep, what, go)


def conv(rep, bits):
    for f, what in (('from_i64', 'from an integer'), ('from_f32', 'from a single'), ('from_f64', 'from a double')):
        def go():
            cs = Case(rep, 'c02::f%d_::%s' % (bits, f), mode='fp', bits=bits, label='Interval<f%d> %s' % (bits, what))
            c = cs.c
            c.finite_hint = lambda e: e.op == 'v' or e.op == 'neg' and e.args[0].op == 'v'
            n = 'int' if f == 'from_i64' else 'x'
            cs.run([c.leaf(c.var(n))])
            wide = f == 'from_i64' or f == 'from_f64' and bits == 32
            T = Terms(wide=(n,) if wide else ())
            lo, hi = cs.fl(cs.val)

            def judge(cell, l, u):
                if not cell.le_real(l, qv(n)):
                    return 'the lower bound may exceed the number'
                if not cell.ge_real(u, qv(n)):
                    return 'the upper bound may be below the number'
            cells(cs, T, 'contains the number', Cell(T, Facts2([])), lo, hi, judge)
        guarded(rep, 'Interval<f%d> %s' % (bits, what), go)


def check(rep):
    for bits in (32, 64):
        consts(rep, bits)
        conv(rep, bits)
        for f, root, pick in (('sin', 'sin', None), ('cos', 'cos', None), ('sin', 'sin_cos', lambda v: v.f[0]),
                              ('cos', 'sin_cos', lambda v: v.f[1])):
            guarded(rep, 'Interval<f%d> %s' % (bits, f), lambda: trig(rep, bits, f, root, pick))
        guarded(rep, 'Interval<f%d> tangent' % bits, lambda: tan(rep, bits))
        inverse(rep, bits)
        guarded(rep, 'Interval<f%d> two-argument arctangent' % bits, lambda: atan2(rep, bits))
