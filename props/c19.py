"""The fast intersection test agrees with the full query."""
import itertools
from core import INF
from spec import Case, guarded, V
from props.lib import *
from props.c18 import query, roots
from props.c22 import Kid

RULE = ('gated value numbering of the yes/no test and of the full query on the same symbolic primitive and ray; the two '
        'conditions must be equivalent in every cell consistent with the sign and order domains')
ASSUMES = ['exact real arithmetic; box corners in order; radius positive, direction not zero',
           'members of lists and transformed primitives are themselves consistent; lists of up to 3 members, and of up to 1024 members two of which can be hit']
FLOOR = 150


def check(rep):
    def agree(cs):
        cs.no_panic()
        a, b = cs.fl(cs.val)
        cs.eq('test and query agree', a, b)

    for pat in [p for p in itertools.product('+-0', repeat=3) if p != ('0', '0', '0')]:
        for lim in ('t', 'inf'):
            def box():
                cs = Case(rep, 'c19::t::bbox', label='box, direction %s limit %s' % (''.join(pat), lim))
                lo, hi, o, d = vec(cs, 'lo'), vec(cs, 'hi'), vec(cs, 'o'), vec(cs, 'd')
                for i in range(3):
                    cs.assume(hi[i] - lo[i], '>')
                    if pat[i] == '0':
                        d[i] = cs.v(0)
                        cs.assume(o[i] - lo[i], '!=')
                        cs.assume(hi[i] - o[i], '!=')
                    else:
                        cs.assume(d[i], '>' if pat[i] == '+' else '<')
                        a, b = (lo[i] - o[i]) / d[i], (hi[i] - o[i]) / d[i]
                        cs.assume(b - a if pat[i] == '+' else a - b, '>')
                t = cs.v('tmax') if lim == 't' else cs.v(cs.c.c(INF))
                cs.run([pack(cs, 0, lo + hi), pack(cs, 1, o + d + [t])])
                agree(cs)
            guarded(rep, 'box', box)
    for lim in ('t', 'inf'):
        for what, oz, dz in (('any ray', (), ()), ('ray along z', (0, 1), (0, 1)), ('ray from the centre', (0, 1, 2), ())):
            def sph():
                cs = Case(rep, 'c19::t::sphere', label='sphere, %s, limit %s' % (what, lim))
                o, d = vec(cs, 'o'), vec(cs, 'd')
                for i in oz:
                    o[i] = cs.v(0)
                for i in dz:
                    d[i] = cs.v(0)
                r, z0, z1, ph, o, d, t, a = query(cs, lim, o, d)
                b, c, D, s, l, h = roots(cs, r, o, d, a)
                cs.assume(s / a, '>=')
                cs.run([r.d, z0.d, z1.d, ph.d, pack(cs, 4, o + d + [t])])
                agree(cs)
            guarded(rep, 'sphere', sph)
        for root, n, m in (('moved', 1, True), ('list0', 0, False), ('list1', 1, False), ('list2', 2, False),
                           ('list3', 3, False), ('moved_list', 2, True)) + tuple(
                               (x.split('::')[-1], 2, False) for x in sorted(rep.prog.roots) if 'c19::t::long_' in x):
            def kids():
                cs = Case(rep, 'c19::t::' + root, label='%s, limit %s' % (root, lim), fold=False)
                args = [Kid(cs, i, 'abc'[i]).arg for i in range(n)]
                if m:
                    args += [pack(cs, n, flat(mat(cs, 'm', True))), pack(cs, n + 1, flat(mat(cs, 'w', True)))]
                t = cs.v('tmax') if lim == 't' else cs.v(cs.c.c(INF))
                args.append(pack(cs, len(args), vec(cs, 'o') + vec(cs, 'd') + [t]))
                cs.run(args)
                agree(cs)
            guarded(rep, root, kids)
