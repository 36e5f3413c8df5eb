"""A transform always carries its own inverse."""
from spec import Case, guarded, V
from props.lib import *

RULE = ('value numbering of forward and inverse matrix of every constructor, of composition and of inversion for symbolic '
        'arguments; the products in both orders must be value-equal to the identity, composition must be the product '
        'in the order written, inversion must swap')
ASSUMES = ['exact real arithmetic', 'scale factors, rotation axes, viewing directions non-zero; up not parallel to the '
           'viewing direction; determinants non-zero; tan(fov/2), near, far, far-near non-zero']
FLOOR = 400


def both(cs):
    g = cs.fl(cs.val)
    if len(g) != 32:
        raise Unsupported('two matrices expected')
    return rows(g[:16]), rows(g[16:])


def inv_pair(cs, care=None):
    m, i = both(cs)
    cs.eqs('M * Minv', flat(mm(m, i)), flat(eye(cs)), care)
    cs.eqs('Minv * M', flat(mm(i, m)), flat(eye(cs)), care)
    return m, i


def check(rep):
    for k, bits in (('f', 32), ('d', 64)):
        def case(op):
            return Case(rep, 'c08::%s::%s' % (k, op), bits=bits)

        def simple(op, pre=None):
            def go():
                cs = case(op)
                a = cs.args('abc')
                if pre:
                    pre(cs, [cs.fl(x) for x in a])
                cs.run(a)
                cs.no_panic()
                inv_pair(cs)
            guarded(rep, k + '::' + op, go)
        nz = lambda cs, v: [cs.assume(x, '!=') for x in v]
        simple('identity')
        simple('translate')
        simple('scale', lambda cs, a: nz(cs, a[0]))
        simple('rotate_x')
        simple('rotate_y')
        simple('rotate_z')
        simple('rotate', lambda cs, a: cs.assume(dot(a[0], a[0]), '>'))

        def la(cs, a):
            z = [x - y for x, y in zip(a[0], a[1])]
            w = cross(a[2], z)
            for v in (a[2], z, w):
                cs.assume(dot(v, v), '>')
        simple('look_at', la)

        def pe(cs, a):
            f, n, r = a[0][0], a[1][0], a[2][0]
            nz(cs, [n, r, r - n, cs.fn('sin', f / 2), cs.fn('cos', f / 2)])
        simple('perspective', pe)

        def ident():
            cs = case('identity')
            cs.run([])
            m, _ = both(cs)
            cs.eqs('identity', flat(m), flat(eye(cs)))
        guarded(rep, k + '::identity', ident)

        def new():
            cs = case('new')
            a, b = mat(cs, 'a'), mat(cs, 'b')
            cs.run([pack(cs, 0, flat(a)), pack(cs, 1, flat(b))])
            m, i = both(cs)
            cs.eqs('forward matrix', flat(m), flat(a))
            cs.eqs('inverse matrix', flat(i), flat(b))
        guarded(rep, k + '::new', new)

        def inv():
            cs = case('inverse')
            a = mat(cs, 'a')
            ai, d = inverse(a)
            cs.assume(d, '!=')
            cs.run([pack(cs, 0, flat(a)), pack(cs, 1, flat(ai))])
            cs.no_panic()
            m, i = both(cs)
            cs.eqs('inversion swaps', flat(m) + flat(i), flat(ai) + flat(a))
        guarded(rep, k + '::inverse', inv)

        def mul():
            cs = case('mul')
            a, b = mat(cs, 'a'), mat(cs, 'b')
            ai, d = inverse(a)
            bi, e = inverse(b)
            cs.assume(d, '!=')
            cs.assume(e, '!=')
            cs.run([pack(cs, n, flat(x)) for n, x in enumerate((a, ai, b, bi))])
            cs.no_panic()
            m, i = inv_pair(cs)
            cs.eqs('product', flat(m), flat(mm(a, b)))
            cs.eqs('inverse of the product', flat(i), flat(mm(bi, ai)))
        guarded(rep, k + '::mul', mul)
