"""Transforms map points, vectors, normals and rays correctly."""
from spec import Case, guarded, V
from props.lib import *

RULE = ('value numbering of every mapping for a symbolic transform (general projective matrix for points, affine for '
        'vectors and rays; inverse matrix = adjugate / determinant of the symbolic matrix); images must be value-equal '
        'to the homogeneous formula, normals to the inverse-transpose image, and the round trip and composition laws '
        'must hold as value equalities')
ASSUMES = ['exact real arithmetic', 'the transform carries the inverse of its matrix (C08); determinant and homogeneous '
           'coordinates of mapped points non-zero']
FLOOR = 100


def setup(rep, root, bits, affine=True, n=1):
    cs = Case(rep, 'c10::' + root, bits=bits)
    ms = []
    for i in range(n):
        m = mat(cs, 'mn'[i], affine)
        if affine:
            l = [r[:3] for r in m[:3]]
            li, d = inverse(l)
            cs.assume(d, '!=')
            t = [r[3] for r in m[:3]]
            mi = [li[r] + [-dot(li[r], t)] for r in range(3)] + [[cs.v(0), cs.v(0), cs.v(0), cs.v(1)]]
        else:
            mi, d = inverse(m)
            cs.assume(d, '!=')
        ms += [m, mi]
    return cs, ms


def point(m, p):
    h = mv(m, list(p) + [p[0].s.v(1)])
    return [x / h[3] for x in h[:3]], h[3]


def lin(m, v):
    return mv([r[:3] for r in m[:3]], v)


def tr(m):
    return [[m[j][i] for j in range(3)] for i in range(3)]


def check(rep):
    for k, bits in (('f', 32), ('d', 64)):
        def go1(op, what, affine, fwd):
            cs, (m, mi) = setup(rep, '%s::%s' % (k, op), bits, affine)
            M, I = (m, mi) if fwd else (mi, m)
            if what == 'ray':
                p = [cs.v('r%d' % i) for i in range(7)]
            else:
                p = vec(cs, 'p')
            if what == 'point':
                want, w = point(M, p)
                cs.assume(w, '!=')
            elif what == 'vector':
                want = lin(M, p)
                cs.assume(dot(M[3][:3], p), '==') if not affine else None
            elif what == 'normal':
                want = mv(tr(I), p)
            else:
                want = point(M, p[:3])[0] + lin(M, p[3:6]) + [p[6]]
            cs.run([pack(cs, 0, flat(m)), pack(cs, 1, flat(mi)), pack(cs, 2, p)])
            cs.no_panic()
            g = cs.fl(cs.val)
            cs.eqs('image', g, want)
            if what == 'normal':
                s = vec(cs, 's')
                t = cross(p, s)
                cs.eq('perpendicular to mapped tangents', dot(g, lin(M, t)), 0)
        for what in ('point', 'vector', 'normal', 'ray'):
            for suf, fwd in (('', True), ('_inv', False), ('_trait', True), ('_trait_inv', False)):
                op = what + suf
                guarded(rep, '%s::%s' % (k, op), lambda: go1(op, what, True, fwd))
                if what in ('point',):
                    guarded(rep, '%s::%s projective' % (k, op), lambda: go1(op, what, False, fwd))
        def refused(op, what, fwd):
            cs, (m, mi) = setup(rep, '%s::%s' % (k, op), bits, False)
            M = m if fwd else mi
            p = vec(cs, 'p')
            if what == 'point':
                want, w = point(M, p)
            else:
                want, w = lin(M, p), dot(M[3][:3], p)
            cs.run([pack(cs, 0, flat(m)), pack(cs, 1, flat(mi)), pack(cs, 2, p)])
            pan = cs.c.F
            for g, _, _ in cs.it.panics:
                pan = cs.c.or_(pan, g)
            none = w.eq(0) if what == 'point' else w.ne(0)
            cs.eq('refused exactly when there is no image', V(cs, pan), none)
            cs.eqs('image of what is not refused', cs.fl(cs.val), want, care=~none)
        for what in ('point', 'vector'):
            for suf, fwd in (('', True), ('_inv', False)):
                op = what + suf
                guarded(rep, '%s::%s any matrix' % (k, op), lambda: refused(op, what, fwd))
        guarded(rep, k + '::point_of_inverse', lambda: go1('point_of_inverse', 'point', True, False))

        def back(what):
            cs, (m, mi) = setup(rep, '%s::back_%s' % (k, what), bits)
            p = [cs.v('r%d' % i) for i in range(7)] if what == 'ray' else vec(cs, 'p')
            cs.run([pack(cs, 0, flat(m)), pack(cs, 1, flat(mi)), pack(cs, 2, p)])
            cs.no_panic()
            cs.eqs('inverse mapping undoes mapping', cs.fl(cs.val), p)
        for what in ('point', 'vector', 'normal', 'ray'):
            guarded(rep, '%s::back_%s' % (k, what), lambda: back(what))

        def comp(what):
            cs, ms = setup(rep, '%s::both_%s' % (k, what), bits, n=2)
            p = vec(cs, 'p')
            cs.run([pack(cs, i, flat(x)) for i, x in enumerate(ms)] + [pack(cs, 4, p)])
            cs.no_panic()
            g = cs.fl(cs.val)
            cs.eqs('the product applies the right factor first', g[:3], g[3:])
        for what in ('point', 'vector', 'normal'):
            guarded(rep, '%s::both_%s' % (k, what), lambda: comp(what))

        def evalmap():
            cs, (m, mi) = setup(rep, '%s::eval_then_map' % k, bits)
            r, t = [cs.v('r%d' % i) for i in range(7)], cs.v('t')
            cs.run([pack(cs, 0, flat(m)), pack(cs, 1, flat(mi)), pack(cs, 2, r), t.d])
            cs.no_panic()
            g = cs.fl(cs.val)
            cs.eqs('evaluation and mapping commute', g[:3], g[3:])
        guarded(rep, k + '::eval_then_map', evalmap)

        def ev():
            cs = Case(rep, 'c10::%s::eval' % k, bits=bits)
            r, t = [cs.v('r%d' % i) for i in range(7)], cs.v('t')
            cs.run([pack(cs, 0, r), t.d])
            cs.no_panic()
            cs.eqs('point of the ray', cs.fl(cs.val), [r[i] + t * r[3 + i] for i in range(3)])
        guarded(rep, k + '::eval', ev)

        def rn():
            cs = Case(rep, 'c10::%s::ray_new' % k, bits=bits)
            a = cs.args('odt')
            cs.run(a)
            cs.eqs('fields of the ray', cs.fl(cs.val), [x for y in a for x in cs.fl(y)])
        guarded(rep, k + '::ray_new', rn)
