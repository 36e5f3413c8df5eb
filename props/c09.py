"""Matrix algebra is exact linear algebra."""
from spec import Case, guarded, V
from props.lib import *

RULE = ('value numbering of every matrix operation over four scalar types for symbolic entries; each entry of the result '
        'must be value-equal to its defining formula, and the inverse must give the identity with its matrix in both orders')
ASSUMES = ['exact real arithmetic; integers do not overflow; interval entries are exact numbers (enclosure is C27)',
           'determinant non-zero for inversion']
FLOOR = 500


def check(rep):
    for k in 'fdiq':
        q = k == 'q'

        def case(op):
            cs = Case(rep, 'c09::%s::%s' % (k, op), bits=64 if k == 'd' else 32)
            cs.c.steps_vanish = q
            return cs

        def args(cs):
            n = cs.f['argc']
            out, vs = [], []
            for i in range(n):
                if q:
                    a = cs.sym(i, 'ab'[i], lambda nm, b: cs.c.leaf(cs.c.var(nm[:-4])))
                    out.append(a)
                    vs.append(cs.fl(a)[::2])
                else:
                    a = cs.sym(i, 'ab'[i])
                    out.append(a)
                    vs.append(cs.fl(a))
            return out, vs

        def res(cs):
            g = cs.fl(cs.val)
            if q and not cs.root.endswith('eq'):
                for lo, hi in zip(g[::2], g[1::2]):
                    cs.eq('bounds of an exact number coincide', lo, hi)
                g = g[::2]
            return g

        def op(name, want):
            def go():
                cs = case(name)
                a, v = args(cs)
                cs.run(a)
                cs.no_panic(overflow=False)
                cs.eqs(name, res(cs), want(cs, *v))
            guarded(rep, '%s::%s' % (k, name), go)
        num = lambda cs, x: cs.v(x) if k != 'i' else V(cs, cs.c.leaf(x))
        ident = lambda cs: [num(cs, int(i == j)) for i in range(4) for j in range(4)]
        op('new', ident)
        op('default', ident)
        op('identity', ident)
        op('zero', lambda cs: [num(cs, 0)] * 16)
        op('from', lambda cs, a: a)
        op('transpose', lambda cs, a: [a[4 * j + i] for i in range(4) for j in range(4)])
        for n in ('rows', 'row_vecs', 'index1', 'index2'):
            op(n, lambda cs, a: a)
        for n in ('cols', 'col_vecs'):
            op(n, lambda cs, a: [a[4 * j + i] for i in range(4) for j in range(4)])
        op('index2_mut', lambda cs, a, b: b)
        op('index2_one', lambda cs, a, b: [b[0] if e == n else a[e] for n in range(16) for e in range(16)])
        op('index1_mut', lambda cs, a, b: [b[e % 4] if e // 4 == n else a[e] for n in range(4) for e in range(16)])
        op('mul', lambda cs, a, b: flat(mm(rows(a), rows(b))))
        op('scale', lambda cs, a, b: [x * b[0] for x in a])

        def eq():
            cs = case('eq')
            a, (x, y) = args(cs)
            cs.run(a)
            w = cs.true
            for p, r in zip(x, y):
                w = w & p.eq(r)
            cs.eq('equality', res(cs)[0], w)
        guarded(rep, k + '::eq', eq)
    for k in 'fdq':
        def inv():
            cs = Case(rep, 'c09::inv::' + k, bits=32 if k == 'f' else 64)
            cs.c.steps_vanish = k == 'q'
            m = mat(cs, 'm')
            cs.assume(det(m), '!=')
            vs = flat(m) if k != 'q' else [x for e in flat(m) for x in (e, e)]
            cs.run([pack(cs, 0, vs)])
            cs.no_panic()
            g = cs.fl(cs.val)
            if k == 'q':
                g = g[::2]
            cs.eqs('M * inverse', flat(mm(m, rows(g))), flat(eye(cs)))
            cs.eqs('inverse * M', flat(mm(rows(g), m)), flat(eye(cs)))
        guarded(rep, 'inv::' + k, inv)
