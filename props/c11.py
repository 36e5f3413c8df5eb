"""Named transforms act as named."""
from spec import Case, guarded, V
from props.lib import *

RULE = ('value numbering of the image of a symbolic point and vector under every named transform; images must be '
        'value-equal to the defining formulas (Rodrigues for rotations, with the axis normalised by the specification), '
        'and lengths and angles must be preserved as value equalities')
ASSUMES = ['exact real arithmetic', 'rotation axes and scale factors non-zero']
FLOOR = 80


def check(rep):
    for k, bits in (('f', 32), ('d', 64)):
        def op(name, want, pre=None):
            def go():
                cs = Case(rep, 'c11::%s::%s' % (k, name), bits=bits)
                a = cs.args('abc')
                v = [cs.fl(x) for x in a]
                if pre:
                    pre(cs, *v)
                cs.run(a)
                cs.no_panic()
                cs.eqs('image', cs.fl(cs.val), want(cs, *v))
            guarded(rep, '%s::%s' % (k, name), go)
        nz = lambda cs, v, *_: [cs.assume(x, '!=') for x in v]
        ax = lambda cs, u, *_: cs.assume(dot(u, u), '>')
        op('translate_p', lambda cs, v, p: [x + y for x, y in zip(v, p)])
        op('translate_v', lambda cs, v, p: p)
        op('scale_p', lambda cs, v, p: [x * y for x, y in zip(v, p)], nz)
        op('scale_v', lambda cs, v, p: [x * y for x, y in zip(v, p)], nz)

        def rod(cs, u, a, p):
            s, c = cs.fn('sin', a), cs.fn('cos', a)
            n = cs.fn('sqrt', dot(u, u))
            u = [x / n for x in u]
            w = cross(u, p)
            d = dot(u, p)
            return [p[i] * c + w[i] * s + u[i] * d * (1 - c) for i in range(3)]
        for i, axis in enumerate('xyz'):
            for kind in 'pv':
                def want(cs, a, p, i=i):
                    return rod(cs, [cs.v(int(j == i)) for j in range(3)], a[0], p)
                op('rotate_%s_%s' % (axis, kind), want)
        op('rotate_p', lambda cs, u, a, p: rod(cs, u, a[0], p), ax)
        op('rotate_v', lambda cs, u, a, p: rod(cs, u, a[0], p), ax)
        op('rotate_axis', lambda cs, u, a: u, ax)

        def isometry():
            cs = Case(rep, 'c11::%s::rotate_v' % k, bits=bits, label='%s rotation preserves lengths and angles' % k)
            a = cs.args('abc')
            v = [cs.fl(x) for x in a]
            ax(cs, v[0])
            cs.run(a)
            g = cs.fl(cs.val)
            cs.eq('length', dot(g, g), dot(v[2], v[2]))
            # the image of a second vector, by renaming
            w = vec(cs, 'w')
            h = rod(cs, v[0], v[1][0], w)
            cs.eq('angle', dot(g, h), dot(v[2], w))
        guarded(rep, k + '::isometry', isometry)
        for i, axis in enumerate('xyz'):
            def same():
                cs = Case(rep, 'c11::%s::same_%s' % (k, axis), bits=bits)
                a = cs.args('ka')
                cs.assume(cs.fl(a[0])[0], '>')
                cs.run(a)
                cs.no_panic()
                g = cs.fl(cs.val)
                cs.eqs('agrees with the general rotation', g[:16], g[16:])
            guarded(rep, '%s::same_%s' % (k, axis), same)
