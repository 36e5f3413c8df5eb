"""Approximate equality is symmetric and componentwise."""
import itertools
from core import NAN, INF, NINF
from mir import State
from spec import Case, guarded, V
from props.lib import *

RULE = ('gated value numbering. Floats: for every sign pattern and order of two symbolic numbers the result is the diagram of '
        'the stated formula, false with a NaN operand, true for equal numbers. Intervals, vectors, matrices and transforms: '
        'the result is the conjunction of the diagrams of the componentwise comparisons computed in the same context')
ASSUMES = ['exact real arithmetic for differences and products; NaN operands as literals']
FLOOR = 200
FEQ = {'<%s as scarlet::math::scalar::%s' % (t, m) for t in ('f32', 'f64') for m in ('GFloat>::fequals', 'AlmostEqual>::almost_eq')}


def positive(c, cs, name):
    return {'+': '>', '-': '<', '0': '=='}[name]


def check(rep):
    for ty, bits in (('f32_', 32), ('f64_', 64)):
        guarded(rep, ty, lambda: floats(rep, ty, bits))
        for root in ('interval', 'vector2', 'vector3', 'vector4', 'point2', 'point3', 'normal3', 'matrix', 'transform',
                     'vector3_interval'):
            either(rep, lambda r: guarded(r, ty + root, lambda: comps(r, ty, bits, root, True)),
                   lambda r: guarded(r, ty + root, lambda: comps(r, ty, bits, root, False)))
        guarded(rep, ty + 'interval_num', lambda: number(rep, ty, bits))
    for ty in ('u8_', 'u16_', 'u32_', 'u64_', 'i8_', 'i16_', 'i32_', 'i64_'):
        for root in ('aeq', 'vector3', 'matrix'):
            def go():
                cs = Case(rep, 'c26::%s::%s' % (ty, root), label=ty + root)
                a, b = cs.args('ab')
                cs.run([a, b])
                cs.no_panic()
                w = cs.true
                for x, y in zip(cs.fl(a), cs.fl(b)):
                    w = w & x.eq(y)
                cs.holds('true only if all components are equal', w | ~cs.v(cs.val))
                cs.holds('true if all components are equal', ~w | cs.v(cs.val))
            guarded(rep, ty + root, go)


def eps(rep, ty, cs):
    it = cs.it
    f = rep.prog.roots['c26::%s::eps' % ty]
    return [V(cs, x) for x in it.run(f, [], State(cs.c.T, {})).f]


def floats(rep, ty, bits):
    for root in ('feq', 'aeq'):
        for sa, sb, k in itertools.product('+-0', '+-0', (1, 0, -1)):
            def go():
                cs = Case(rep, 'c26::%s::%s' % (ty, root), bits=bits, fold=False,
                          label='%s %s signs %s%s |a|%s|b|' % (ty[:-1], root, sa, sb, {1: '>', 0: '=', -1: '<'}[k]))
                ab = []
                for n, s in (('a', sa), ('b', sb)):
                    v = cs.v(n) if s != '0' else cs.v(0)
                    ab.append(v)
                a, b = ab
                if k == 0:
                    if (sa == '0') != (sb == '0'):
                        return
                    b = a if sa == sb else -a
                if k != 0 and (sa == sb == '0' or (sa == '0' and k > 0) or (sb == '0' and k < 0)):
                    return
                for v, s in ((a, sa), (b, sb)):
                    if s != '0':
                        cs.assume(v, '>' if s == '+' else '<')
                ma, mb = (a if sa != '-' else -a), (b if sb != '-' else -b)
                if k:
                    d = (ma - mb)
                    if d.e().op != 'c':
                        cs.assume(d, '>' if k > 0 else '<')
                diff = a - b
                if sa == sb:
                    diff = cs.v(0) if k == 0 else (ma - mb if k > 0 else mb - ma)
                else:
                    diff = ma + mb
                big = ma if k >= 0 else mb
                ae, re = eps(rep, ty, cs)
                cs.run([a.d, b.d])
                cs.no_panic()
                w = (diff < ae) | (diff < big * re)
                g = cs.v(cs.val)
                cs.holds('true only if the difference is below a tolerance', w | ~g)
                cs.holds('true if the difference is below a tolerance', ~w | g)
                if k == 0 and sa == sb:
                    cs.holds('reflexive', g)
            guarded(rep, ty + root, go)
        for x, y in ((NAN, None), (None, NAN), (NAN, NAN), (NAN, INF), (INF, NAN), (INF, NINF), (NINF, INF)):
            def go():
                cs = Case(rep, 'c26::%s::%s' % (ty, root), bits=bits, label='%s %s(%s, %s)' % (ty[:-1], root, x, y))
                cs.run([(cs.v(cs.c.c(z)) if z else cs.v(n)).d for z, n in ((x, 'a'), (y, 'b'))])
                cs.no_panic()
                cs.holds('false', ~cs.v(cs.val))
            guarded(rep, ty + root, go)

    def pos():
        cs = Case(rep, 'c26::%s::eps' % ty, bits=bits)
        cs.run([])
        for n, x in zip(('absolute', 'relative'), cs.fl(cs.val)):
            cs.holds(n + ' tolerance positive', x > 0)
            cs.holds(n + ' tolerance below one', x < 1)
    guarded(rep, ty + 'eps', pos)


def feq_hook(it, f, args, ats, dt, st):
    """the comparison of two floats as an uninterpreted symmetric predicate; its meaning is decided separately"""
    if f['name'] not in FEQ:
        return None
    c = it.c

    def g(x, y):
        if x.op == 'c' and x.args == NAN or y.op == 'c' and y.args == NAN:
            return c.F
        return c.opq_bool(('almost_eq',) + tuple(sorted((x.id, y.id))))
    return c.apply(g, 'feqhook', args[0], args[1])


def comps(rep, ty, bits, root, hooked):
    cs = Case(rep, 'c26::%s::%s' % (ty, root), bits=bits, label=ty + root)
    if hooked:
        cs.it.hooks.append(feq_hook)
    if root == 'transform':
        a = cs.args('aibj')
        pairs = list(zip(cs.fl(a[0]) + cs.fl(a[1]), cs.fl(a[2]) + cs.fl(a[3])))
    else:
        a = cs.args('ab')
        pairs = list(zip(cs.fl(a[0]), cs.fl(a[1])))
    cs.run(a)
    cs.no_panic()
    w = cs.true
    f = rep.prog.roots['c26::%s::aeq' % ty]
    for x, y in pairs:
        w = w & V(cs, cs.it.run(f, [x.d, y.d], State(cs.c.T, {})))
    g = cs.v(cs.val)
    cs.holds('true only if all components are', w | ~g)
    cs.holds('true if all components are', ~w | g)


def number(rep, ty, bits):
    root = 'c26::%s::interval_num' % ty
    for side in (1, -1):
        def out():
            cs = Case(rep, root, bits=bits, label='%s interval %s the number' % (ty[:-1], 'above' if side > 0 else 'below'))
            lo, hi, b = cs.v('lo'), cs.v('hi'), cs.v('b')
            cs.assume(hi - lo, '>=')
            cs.assume(lo - b if side > 0 else b - hi, '>')
            cs.run([pack(cs, 0, [lo, hi]), b.d])
            cs.no_panic()
            cs.holds('not almost equal to a number outside', ~cs.v(cs.val))
        guarded(rep, root, out)
    # the number inside: lo = b - p, hi = b + q; mirrored for negative b
    for sb, lo_neg, lo_big, mirror in ((1, 0, 0, 0), (1, 1, 0, 0), (1, 1, 1, 0), (1, 0, 0, 1), (1, 1, 0, 1), (1, 1, 1, 1),
                                       (0, 1, 1, 0), (0, 1, 1, 1)):
        for pz, qz in itertools.product((0, 1), (0, 1)):
            def go():
                cs = Case(rep, root, bits=bits, fold=False,
                          label='%s interval around the number, case %d%d%d%d%d%d' % (ty[:-1], sb, lo_neg, lo_big, mirror, pz, qz))
                b = cs.v('b') if sb else cs.v(0)
                p = cs.v('p') if pz else cs.v(0)
                q = cs.v('q') if qz else cs.v(0)
                if sb:
                    cs.assume(b, '>')
                lo, hi = b - p, b + q
                for v in (p, q):
                    if v.e().op != 'c':
                        cs.assume(v, '>')
                if not pz and (lo_neg or lo_big) and sb:
                    return
                if sb and pz:
                    cs.assume(lo, '<' if lo_neg else '>')
                    m = -lo if lo_neg else lo
                    cs.assume(m - b, '>' if lo_big else '<')
                if qz:
                    cs.assume(hi, '>')
                    cs.assume(hi - b, '>')
                ae, re = eps(rep, ty, cs)
                al = p if (lo_neg and lo_big) and not sb else (-lo if lo_neg else lo)
                w = ((p < ae) | (p < (al if lo_big else b) * re)) & ((q < ae) | (q < hi * re))
                x, y, n = (lo, hi, b) if not mirror else (-hi, -lo, -b)
                cs.run([pack(cs, 0, [x, y]), n.d])
                cs.no_panic()
                g = cs.v(cs.val)
                cs.holds('true only if both bounds are close', w | ~g)
                cs.holds('true if both bounds are close', ~w | g)
            guarded(rep, root, go)
