"""Vector algebra (real reading: exact arithmetic)."""
from core import Unsupported
from spec import Case, guarded, V

RULE = ('gated value numbering of every vector operator and method for symbolic components (exact arithmetic); each '
        'component of the result must be value-equal to its defining formula in every cell of the diagram; cross '
        'product and normalisation additionally by orthogonality, Lagrange identity and unit length')
ASSUMES = ['exact real arithmetic (rounding is not modelled); integers do not overflow',
           'divisors and normalised vectors are non-zero']
FLOOR = 300

KINDS = {'v2f': 2, 'v3f': 3, 'v4f': 4, 'v3d': 3, 'v4d': 4, 'v2i': 2, 'v3i': 3, 'p2f': 2, 'p3f': 3, 'p3i': 3,
         'n3f': 3, 'v3q': 3}


def pt(name, bits):
    """interval bounds of one exact number"""
    return None


def run(rep, root, names='ab', interval=False, nz=None):
    cs = Case(rep, 'c13::' + root, bits=64 if root.split('::')[0].endswith('d') else 32)
    mk = None
    if interval:
        cs.c.steps_vanish = True
        mk = lambda n, b: cs.c.leaf(cs.c.var(n.replace('.inf', '').replace('.sup', '')))
    args = cs.args(names, mk)
    fl = [cs.fl(a) for a in args]
    if interval:
        fl = [x[::2] for x in fl]
    if nz is not None:
        for x in fl[nz]:
            cs.assume(x, '!=')
    cs.run(args)
    cs.no_panic(overflow=False)
    got = cs.val
    if interval and not root.endswith(('::eq', '::ne', '::dim')):
        g = cs.fl(got)
        got = []
        for lo, hi in zip(g[::2], g[1::2]):
            cs.eq('bounds of an exact number coincide', lo, hi)
            got.append(lo)
    elif not isinstance(got, list):
        got = cs.fl(got)
    return cs, fl, got


def dot(cs, a, b):
    r = cs.v(0)
    for x, y in zip(a, b):
        r = r + x * y
    return r


def check(rep):
    for m, n in KINDS.items():
        q = m == 'v3q'

        def cw(op, f, nz=None):
            def go():
                cs, a, got = run(rep, '%s::%s' % (m, op), interval=q, nz=nz)
                cs.eqs(op, got, [f(cs, *[x[i] if len(x) > 1 else x[0] for x in a]) for i in range(n)])
            guarded(rep, m + '::' + op, go)
        cw('add', lambda s, x, y: x + y)
        cw('add_assign', lambda s, x, y: x + y)
        cw('neg', lambda s, x: -x)
        cw('mul', lambda s, x, y: x * y)
        cw('scale', lambda s, x, y: x * y)
        if m[-1] != 'i':
            cw('div', lambda s, x, y: x / y, nz=1)
            cw('unscale', lambda s, x, y: x / y, nz=1)
        else:
            cw('div', lambda s, x, y: s.fn('idiv', x, y), nz=1)
            cw('unscale', lambda s, x, y: s.fn('idiv', x, y), nz=1)
        cw('min', lambda s, x, y: s.fn('min', x, y))
        cw('max', lambda s, x, y: s.fn('max', x, y))
        cw('clone', lambda s, x: x)

        def eq(op):
            cs, (a, b), got = run(rep, '%s::%s' % (m, op), interval=q)
            w = cs.true
            for x, y in zip(a, b):
                w = w & x.eq(y)
            cs.eq(op, got[0], w if op == 'eq' else ~w)
        guarded(rep, m + '::eq', lambda: eq('eq'))
        guarded(rep, m + '::ne', lambda: eq('ne'))

        def default():
            cs, _, got = run(rep, m + '::default', interval=q)
            cs.eqs('zero', [g for g in got], [cs.v(0) if m[-1] != 'i' else V(cs, cs.c.leaf(0))] * n)
        guarded(rep, m + '::default', default)

        def dim():
            cs, _, got = run(rep, m + '::dim', interval=q)
            cs.eq('dimension', got[0], V(cs, cs.c.leaf(n)))
        guarded(rep, m + '::dim', dim)
        for op in ('dot', 'dot_trait', 'square_norm', 'square_norm_trait'):
            def go(op=op):
                cs, a, got = run(rep, '%s::%s' % (m, op), interval=q)
                cs.eqs(op, got, [dot(cs, a[0], a[-1])])
            guarded(rep, m + '::' + op, go)
    for m in ('s_v2f', 's_v3f', 's_v4d', 's_v3i'):
        for op in ('sub', 'sub_assign', 'square_distance', 'square_distance_trait'):
            def go(op=op):
                cs, (a, b), got = run(rep, '%s::%s' % (m, op))
                d = [x - y for x, y in zip(a, b)]
                cs.eqs(op, got, d if op.startswith('sub') else [dot(cs, d, d)])
            guarded(rep, m + '::' + op, go)
    for m in ('e_v2f', 'e_v3f', 'e_v3d'):
        for op in ('distance', 'distance_trait'):
            def go(op=op):
                cs, (a, b), got = run(rep, '%s::%s' % (m, op))
                d = [x - y for x, y in zip(a, b)]
                cs.eqs(op, got, [cs.fn('sqrt', dot(cs, d, d))])
            guarded(rep, m + '::' + op, go)
    for m in ('f_v2f', 'f_v3f', 'f_v4d', 'f_v3d', 'f_p3f', 'f_n3f'):
        for op in ('norm', 'norm_trait', 'normalize', 'normalize_trait'):
            def go(op=op):
                cs = Case(rep, 'c13::%s::%s' % (m, op), bits=64 if m.endswith('d') else 32)
                args = cs.args()
                a = cs.fl(args[0])
                q = dot(cs, a, a)
                cs.assume(q, '>')
                cs.run(args)
                cs.no_panic()
                n = cs.fn('sqrt', q)
                if op.startswith('norm_') or op == 'norm':
                    cs.eqs(op, cs.val, [n])
                else:
                    g = cs.fl(cs.val)
                    cs.eqs(op, g, [x / n for x in a])
                    cs.eq('unit length', dot(cs, g, g), 1)
            guarded(rep, m + '::' + op, go)
    for m in ('d_v2f', 'd_p2f', 'd_v3f', 'd_v3d', 'd_v3i', 'd_p3f', 'd_n3f', 'd_v4f', 'd_v4d'):
        def acc(op, pick):
            cs, a, got = run(rep, '%s::%s' % (m, op), names='abcd')
            cs.eqs(op, got, pick(a))
        guarded(rep, m + '::new', lambda: acc('new', lambda a: [x[0] for x in a]))
        for op in ('from', 'get', 'index'):
            guarded(rep, m + '::' + op, lambda op=op: acc(op, lambda a: a[0]))
        for op in ('set', 'set_index'):
            guarded(rep, m + '::' + op, lambda op=op: acc(op, lambda a: a[1]))
        if '3' in m:
            def cross():
                cs, (a, b), g = run(rep, m + '::cross')
                cs.eqs('cross', g, [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
                cs.eq('perpendicular to the first factor', dot(cs, g, a), 0)
                cs.eq('perpendicular to the second factor', dot(cs, g, b), 0)
                cs.eq('Lagrange identity', dot(cs, g, g),
                      dot(cs, a, a) * dot(cs, b, b) - dot(cs, a, b) * dot(cs, a, b))
            guarded(rep, m + '::cross', cross)
    for m in ('a3f', 'a2f', 'a3d'):
        ops = {'p_sub_p': lambda x, y: x - y, 'p_add_v': lambda x, y: x + y, 'v_add_p': lambda x, y: x + y,
               'p_sub_v': lambda x, y: x - y, 'p_from_v': lambda x: x, 'v_from_p': lambda x: x,
               'back': lambda x, y: x}
        for op, f in ops.items():
            def go(op=op, f=f):
                cs, a, got = run(rep, '%s::%s' % (m, op))
                cs.eqs(op, got, [f(*xs) for xs in zip(*a)])
            guarded(rep, m + '::' + op, go)

        def vdp():
            cs, (a, b), got = run(rep, m + '::v_dot_p')
            cs.eqs('dot', got, [dot(cs, a, b)])
        guarded(rep, m + '::v_dot_p', vdp)
    for op in ('n_from_v', 'v_from_n', 'v_dot_n', 'n_dot_v'):
        def go(op=op):
            cs, a, got = run(rep, 'normals::' + op)
            cs.eqs(op, got, a[0] if 'from' in op else [dot(cs, a[0], a[1])])
        guarded(rep, 'normals::' + op, go)
