"""Camera placement and projection follow their stated geometry."""
from spec import Case, guarded, V
from props.lib import *

RULE = ('value numbering of the images of eye, target, up vector and a symbolic vector under look_at and of a symbolic '
        'point under perspective; required as value equalities with the geometric definition (distances, orientation by '
        'the determinant, depth 0 and 1 on the clipping planes, field-of-view edges on +-1)')
ASSUMES = ['exact real arithmetic', 'eye and target distinct, up not parallel to the viewing direction; 0 < near < far, '
           '0 < fov < pi']
FLOOR = 40


def check(rep):
    for k, bits in (('f', 32), ('d', 64)):
        def look(op, extra=0):
            cs = Case(rep, 'c12::%s::%s' % (k, op), bits=bits)
            a = cs.args('pquv')
            v = [cs.fl(x) for x in a]
            z = [x - y for x, y in zip(v[0], v[1])]
            w = cross(v[2], z)
            for t in (v[2], z, w):
                cs.assume(dot(t, t), '>')
            cs.run(a)
            cs.no_panic()
            return cs, v, z, w, cs.fl(cs.val)

        def eye_():
            cs, v, z, w, g = look('eye')
            cs.eqs('eye maps to the origin', g, [cs.v(0)] * 3)
        guarded(rep, k + '::eye', eye_)

        def origin():
            cs, v, z, w, g = look('origin')
            cs.eqs('origin maps back to the eye', g, v[0])
        guarded(rep, k + '::origin', origin)

        def target():
            cs, v, z, w, g = look('target')
            cs.eqs('target maps onto the negative z axis at its distance', g,
                   [cs.v(0), cs.v(0), -cs.fn('sqrt', dot(z, z))])
        guarded(rep, k + '::target', target)

        def up():
            cs, v, z, w, g = look('up')
            zz = cs.fn('sqrt', dot(z, z))
            cs.eq('up has no x component', g[0], 0)
            cs.eq('up has positive y component', g[1], cs.fn('sqrt', dot(w, w)) / zz)
            cs.eq('up keeps its component along the axis', g[2], dot(v[2], z) / zz)
        guarded(rep, k + '::up', up)

        def vecs():
            cs, v, z, w, g = look('vec')
            cs.eq('lengths are preserved', dot(g, g), dot(v[3], v[3]))
        guarded(rep, k + '::vec', vecs)

        def mats():
            cs, v, z, w, g = look('mat')
            m = rows(g)
            l = [r[:3] for r in m[:3]]
            cs.eq('orientation is preserved', det(l), 1)
            cs.eqs('rows are orthonormal', flat(mm(l, [[l[j][i] for j in range(3)] for i in range(3)])), flat(eye(cs, 3)))
            cs.eqs('affine', m[3], [cs.v(0), cs.v(0), cs.v(0), cs.v(1)])
        guarded(rep, k + '::mat', mats)

        def persp(op):
            cs = Case(rep, 'c12::%s::%s' % (k, op), bits=bits)
            a = cs.args('fnrpq')
            v = [cs.fl(x) for x in a]
            f, n, r = v[0][0], v[1][0], v[2][0]
            for x in (n, r, r - n, cs.fn('sin', f / 2), cs.fn('cos', f / 2)):
                cs.assume(x, '>')
            return cs, a, v, cs.fn('tan', f / 2), n, r

        def gen():
            cs, a, v, e, n, r = persp('persp')
            p = v[3]
            cs.assume(p[2], '<')
            cs.run(a)
            cs.no_panic()
            g = cs.fl(cs.val)
            d = -p[2]
            cs.eq('x over half width of the field of view', g[0], p[0] / (d * e))
            cs.eq('y over half height of the field of view', g[1], p[1] / (d * e))
            cs.eq('depth', g[2], r * (d - n) / (d * (r - n)))
        guarded(rep, k + '::persp', gen)
        for op, z in (('persp_near', 0), ('persp_far', 1)):
            def plane():
                cs, a, v, e, n, r = persp(op)
                cs.run(a)
                cs.no_panic()
                cs.eq('depth of the clipping plane', cs.fl(cs.val)[2], z)
            guarded(rep, '%s::%s' % (k, op), plane)

        def back():
            cs, a, v, e, n, r = persp('persp_back')
            p = v[3]
            w = r - (r - n) * p[2]
            cs.assume(w, '!=')
            cs.run(a)           # points at infinity panic by design
            g = cs.fl(cs.val)
            d = n * r / w
            cs.eqs('inverse projection', g, [p[0] * d * e, p[1] * d * e, -d])
        guarded(rep, k + '::persp_back', back)
