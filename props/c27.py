"""Interval vectors, rays and transforms enclose the exact result (member reading of the interval operations)."""
import re
from props.lib import *
from mir import Agg, En
import models

RULE = ('An interval is read as an arbitrary member of it: each interval operation is summarised by the exact operation on '
        'members (C01 and C02 decide that its result encloses that), comparisons by an outcome that may be unknown but is '
        'never wrong (C03), any other access to an interval is rejected, and a plain float operation is inexact. Each component of every vector, ray, matrix and '
        'transform operation, value-numbered under this reading, must equal the defining formula, so the interval returned '
        'contains the exact value for every choice of members. Conversions are value-numbered on the bounds themselves.')
ASSUMES = ['enclosure by the scalar interval operations (C01, C02) and soundness of interval comparisons (C03)',
           'transforms are affine or the mapped point is off the plane at infinity; divisors, axes and normalised vectors non-zero']
FLOOR = 250
TECHNIQUE = 'static analysis: abstract interpretation of MIR, gated value numbering with interval operations summarised by their members'
NOTE = ('Abstract interpretation of the MIR of the current tree; the inclusion property is composed from the summaries that C01, C02 '
        'and C03 decide. Trusts rustc\'s MIR, the models of core/std functions and the input assumptions recorded in the evidence.')

PATS = [re.compile(x) for x in (r'^<[\w:]*Interval<f\d\d> as ([\w:]+)(?:<.*>)?>::(\w+)$', r'<impl ([\w:]+)(?:<.*>)? for [\w:]*Interval<f\d\d>>::(\w+)$',
                                r'()Interval::<f\d\d>::(\w+)$')]


def method(name):
    for p in PATS:
        m = p.search(name)
        if m:
            return m.group(2)
    return None


BIN = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div'}
UN = ('sqrt', 'sin', 'cos', 'asin', 'acos', 'atan', 'tan')
CONST = {'zero': 0, 'one': 1, 'two': 2, 'half': Fraction(1, 2)}
REL = {'is_positive': 'Gt', 'is_negative': 'Lt', 'is_nonnegative': 'Ge', 'is_nonpositive': 'Le', 'is_zero': 'Eq'}
n_opq = [0]


def hook(bits):
    def h(it, f, args, ats, dt, st):
        m = method(f['name'])
        if m is None or m.endswith('closure#0}'):
            return None
        c = it.c

        def sc(x, what='an interval'):
            if isinstance(x, Agg):
                raise Unsupported('%s: the bounds of %s are set outside the interval operations' % (f['name'], what))
            return x

        def deref(x):
            if isinstance(x, Leaf) and isinstance(x.v, tuple) and x.v and x.v[0] == 'ref':
                return sc(it.read_d(st, x))
            return sc(x)
        bin_ = lambda op, a, b: c.apply(lambda x, y: it.fbin(op, x, y, bits), ('fbin', op, bits), a, b)
        unknown = lambda: c.opq_bool('undecided comparison %d' % _next())
        if m in BIN:
            return bin_(BIN[m], sc(args[0]), sc(args[1]))
        if m.endswith('_assign') and m[:-7] in BIN:
            v = bin_(BIN[m[:-7]], sc(it.read_d(st, args[0])), sc(args[1]))
            it.write_d(st, args[0], v)
            return models.UNIT
        if m == 'neg':
            return c.apply(lambda x: c.leaf(c.neg(x)), 'fneg', sc(args[0]))
        if m == 'recip':
            return bin_('Div', c.leaf(c.c(1)), sc(args[0]))
        if m == 'square':
            return bin_('Mul', sc(args[0]), sc(args[0]))
        if m in UN:
            return c.apply(lambda x: c.leaf(c.fn(m, x, bits=bits)), ('ff', m, bits), sc(args[0]))
        if m == 'sin_cos':
            return Agg('tuple', [c.apply(lambda x: c.leaf(c.fn(n, x, bits=bits)), ('ff', n, bits), sc(args[0])) for n in ('sin', 'cos')])
        if m == 'abs':
            return c.apply(lambda x: c.leaf(c.fn('abs', x)), ('ff', 'abs', bits), sc(args[0]))
        if m in ('min', 'max'):
            return c.apply(lambda x, y: c.leaf((c.emax if m == 'max' else c.emin)([x, y])), ('spec', m), sc(args[0]), sc(args[1]))
        if m in CONST and not args:
            return c.leaf(c.c(CONST[m]))
        if m in ('pi', 'tau', 'frac_pi_2', 'frac_pi_4') and not args:
            k = {'pi': 1, 'tau': 2, 'frac_pi_2': Fraction(1, 2), 'frac_pi_4': Fraction(1, 4)}[m]
            return c.leaf(c.mul(c.c(Fraction(k)), c.PI))
        if m in ('from', 'from_i64', 'from_f32', 'from_f64') and isinstance(args[0], (Leaf, Node)):
            v = args[0]
            if m == 'from_i64':
                return c.apply(lambda x: c.leaf(c.c(Fraction(x)) if isinstance(x, int) else x), 'ivfrom', v)
            return v
        if m == 'extend_by_ulp':
            return sc(args[0])
        if m == 'clone':
            return deref(args[0])
        if m in REL:
            r = c.apply(lambda x: c.rel(REL[m], x, c.c(0)), ('ivrel', m), deref(args[0]))
            return c.and_(r, unknown())
        if m in ('eq', 'ne'):
            r = c.apply(lambda x, y: c.rel('Eq', x, y), ('ivrel', 'eq'), deref(args[0]), deref(args[1]))
            r = c.and_(r, unknown())
            return c.not_(r) if m == 'ne' else r
        if m == 'partial_cmp':
            d = c.apply(lambda x, y: c.cmp(x, y), ('ivcmp',), deref(args[0]), deref(args[1]))
            o = c.apply(lambda k: c.leaf({LT: 0, EQ: 1, GT: 2}.get(k, 1)), ('ivord',), d)
            return En(c.ite(unknown(), c.leaf(1), c.leaf(0)), {0: (), 1: (En(o, {0: (), 1: (), 2: ()}),)})
        if m in ('lt', 'le', 'gt', 'ge'):
            op = m.capitalize()
            r = c.apply(lambda x, y: c.rel(op, x, y), ('ivrel', m), deref(args[0]), deref(args[1]))
            return c.and_(r, unknown())
        raise Unsupported('interval operation %s is not known to enclose' % f['name'])
    return h


def _next():
    n_opq[0] += 1
    return n_opq[0]


class MCase(Case):
    """entry function under the member reading"""

    def __init__(self, rep, root, bits):
        super().__init__(rep, root, bits=bits)
        self.it.hooks.append(hook(bits))
        self.it.rounding = True
        self.it.abstract = lambda t: t['k'] == 'adt' and t.get('def', '').endswith('interval::Interval')


def check(rep):
    for k, bits in (('f', 32), ('d', 64)):
        def op(name, want, pre=None, care=None):
            def go():
                cs = MCase(rep, 'c27::%s::%s' % (k, name), bits)
                a = cs.args('abc')
                v = [cs.fl(x) for x in a]
                if pre:
                    pre(cs, *v)
                cs.run(a)
                cs.no_panic()
                w = want(cs, *v)
                cs.eqs(name, cs.fl(cs.val), w if isinstance(w, list) else [w])
            guarded(rep, '%s::%s' % (k, name), go)
        nz = lambda i: lambda cs, *v: [cs.assume(x, '!=') for x in v[i]]
        cw = lambda f: lambda cs, a, b: [f(x, y) for x, y in zip(a, b if len(b) > 1 else b * 3)]
        A, S, M, D = lambda x, y: x + y, lambda x, y: x - y, lambda x, y: x * y, lambda x, y: x / y
        for n in ('add', 'add_assign', 'p_add_v', 'v_add_p'):
            op(n, cw(A))
        for n in ('sub', 'sub_assign', 'p_sub_p', 'p_sub_v'):
            op(n, cw(S))
        for n in ('mul', 'scale', 'scale_t', 'pscale_t', 'nscale_t'):
            op(n, cw(M))
        for n in ('div', 'unscale', 'unscale_t', 'punscale_t'):
            op(n, cw(D), nz(1))
        op('neg', lambda cs, a: [-x for x in a])
        for n in ('min', 'max'):
            op(n, lambda cs, a, b: [cs.fn(n, x, y) for x, y in zip(a, b)])
        op('dot', lambda cs, a, b: dot(a, b))
        op('cross', lambda cs, a, b: cross(a, b))
        op('square_norm', lambda cs, a: dot(a, a))
        pos = lambda cs, a, *_: cs.assume(dot(a, a), '>')
        op('norm', lambda cs, a: cs.fn('sqrt', dot(a, a)), pos)
        op('normalize', lambda cs, a: [x / cs.fn('sqrt', dot(a, a)) for x in a], pos)
        diff = lambda a, b: [x - y for x, y in zip(a, b)]
        op('square_distance', lambda cs, a, b: dot(diff(a, b), diff(a, b)))
        op('distance', lambda cs, a, b: cs.fn('sqrt', dot(diff(a, b), diff(a, b))))
        op('eval', lambda cs, r, t: [o + d * t[0] for o, d in zip(r[:3], r[3:6])])
        op('p_from_v', lambda cs, a: a)
        op('v_from_p', lambda cs, a: a)

        # maps, affine and (points only) projective
        def maps(name, proj):
            def go():
                cs = MCase(rep, 'c27::%s::%s' % (k, name), bits)
                inv = name.startswith('unmap')
                m, i = mat(cs, 'm', not proj), mat(cs, 'i', not proj)
                args = [pack(cs, 0, flat(m)), pack(cs, 1, flat(i)), cs.sym(2, 'a')]
                a = cs.fl(args[2])
                u = i if inv else m

                def pt(p):
                    w = dot(u[3], p + [cs.v(1)])
                    if proj:
                        cs.assume(w, '!=')
                    return [dot(u[r], p + [cs.v(1)]) / w for r in range(3)]
                vc = lambda p: [dot(u[r][:3], p) for r in range(3)]
                kind = name[-1]
                if kind == 'p':
                    want = pt(a)
                elif kind == 'v':
                    want = vc(a)
                elif kind == 'n':
                    o = m if inv else i
                    want = [dot([o[r][j] for r in range(3)], a) for j in range(3)]
                else:
                    want = pt(a[:3]) + vc(a[3:6]) + [a[6]]
                cs.run(args)
                cs.no_panic()
                cs.eqs(name + (' (projective)' if proj else ''), cs.fl(cs.val), want)
            guarded(rep, '%s::%s' % (k, name), go)
        for n in ('map_', 'unmap_'):
            for kind in 'vpnr':
                maps(n + kind, False)
            maps(n + 'p', True)
        op('mat_mul', lambda cs, a, b: flat(mm(rows(a), rows(b))))
        op('mat_scale', lambda cs, a, b: [x * b[0] for x in a])

        def minv():
            cs = MCase(rep, 'c27::%s::mat_inverse' % k, bits)
            m = mat(cs, 'm')
            cs.assume(det(m), '!=')
            cs.run([pack(cs, 0, flat(m))])
            cs.no_panic()
            g = rows(cs.fl(cs.val))
            cs.eqs('inverse encloses: M * inverse', flat(mm(m, g)), flat(eye(cs)))
            cs.eqs('inverse encloses: inverse * M', flat(mm(g, m)), flat(eye(cs)))
        guarded(rep, k + '::mat_inverse', minv)

        # transforms of intervals
        def both(name, want, pre=None):
            def go():
                cs = MCase(rep, 'c27::%s::%s' % (k, name), bits)
                a = cs.args('ab')
                v = [cs.fl(x) for x in a]
                if pre:
                    pre(cs, *v)
                cs.run(a)
                cs.no_panic()
                g = cs.fl(cs.val)
                w = want(cs, *v)
                cs.eqs(name + ' matrix', g[:16], flat(w))
                cs.eqs(name + ': inverse', flat(mm(rows(g[:16]), rows(g[16:]))), flat(eye(cs)))
            guarded(rep, '%s::%s' % (k, name), go)

        def aff(cs, lin, t=None):
            t = t or [cs.v(0)] * 3
            return [list(lin[i]) + [t[i]] for i in range(3)] + [[cs.v(0)] * 3 + [cs.v(1)]]

        def rot(cs, u, a):
            s, c = cs.fn('sin', a), cs.fn('cos', a)
            e = eye(cs, 3)
            return aff(cs, [[e[i][j] * c + cross(u, [e[r][j] for r in range(3)])[i] * s + u[i] * u[j] * (1 - c) for j in range(3)] for i in range(3)])
        both('identity', lambda cs: eye(cs))
        both('translate', lambda cs, v: aff(cs, eye(cs, 3), v))
        both('scaling', lambda cs, v: aff(cs, [[v[i] if i == j else cs.v(0) for j in range(3)] for i in range(3)]), nz(0))
        for i, ax in enumerate('xyz'):
            both('rotate_' + ax, lambda cs, a: rot(cs, [cs.v(int(j == i)) for j in range(3)], a[0]))

        def unit(cs, u):
            n = cs.fn('sqrt', dot(u, u))
            return [x / n for x in u]
        both('rotate', lambda cs, u, a: rot(cs, unit(cs, u), a[0]), lambda cs, u, a: cs.assume(dot(u, u), '>'))

        # conversions, on the bounds themselves
        def conv(name, want, exact=False):
            def go():
                cs = Case(rep, 'c27::%s::%s' % (k, name), bits=bits)
                mk = (lambda n, b: cs.c.leaf(cs.c.var(n.replace('.inf', '').replace('.sup', '')))) if exact else None
                a = cs.args('a', mk)
                v = cs.fl(a[0])
                cs.run(a)
                cs.no_panic()
                cs.eqs(name, cs.fl(cs.val), want(v))
            guarded(rep, '%s::%s' % (k, name), go)
        for n in 'vp':
            conv('to_' + n, lambda v: [y for x in v for y in (x, x)])
            conv('from_' + n, lambda v: v[::2], True)
            conv('trip_' + n, lambda v: v)
