"""Ray-box queries report exactly the overlapping parameter range."""
import itertools
from core import INF, NINF
from spec import Case, guarded, V
from props.lib import *

RULE = ('gated value numbering of the slab test for a symbolic box and ray, once per sign pattern of the direction (26, '
        'zero components included, flat boxes, and unlimited rays); the hit condition must be equivalent, in every consistent cell, '
        'to max(entries, 0) <= min(exits, limit), and the parameters value-equal to these')
ASSUMES = ['exact real arithmetic; box corners in order; ray limit not negative',
           'origin not on a face plane the ray is parallel to (zero direction component)']
FLOOR = 60


def check(rep):
    for pat in [p for p in itertools.product('+-0', repeat=3) if p != ('0', '0', '0')] + ['f++', '-f+', '+-f', 'fgf', 'gf0', 'ggg']:
        for lim in ('t', 'inf'):
            def go():
                cs = Case(rep, 'c17::b::hit', label='direction %s limit %s' % (''.join(pat), lim))
                lo, hi, o, d = vec(cs, 'lo'), vec(cs, 'hi'), vec(cs, 'o'), vec(cs, 'd')
                t = cs.v('tmax')
                if lim == 't':
                    cs.assume(t, '>=')
                else:
                    t = cs.v(cs.c.c(INF))
                near, far = [cs.v(0)], [t] if lim == 't' else []
                ok = cs.true
                for i in range(3):
                    flat = pat[i] in 'fg'
                    if flat:
                        hi[i] = lo[i]
                    else:
                        cs.assume(hi[i] - lo[i], '>')
                    if pat[i] == '0':
                        d[i] = cs.v(0)
                        cs.assume(o[i] - lo[i], '!=')
                        cs.assume(hi[i] - o[i], '!=')
                        ok = ok & (lo[i] < o[i]) & (o[i] < hi[i])
                        continue
                    cs.assume(d[i], '>' if pat[i] in '+f' else '<')
                    a, b = (lo[i] - o[i]) / d[i], (hi[i] - o[i]) / d[i]
                    if pat[i] == '-':
                        a, b = b, a
                    if not flat:
                        cs.assume(b - a, '>')
                    near.append(a)
                    far.append(b)
                if far:
                    ok = ok & (cs.fn('max', *near) <= cs.fn('min', *far))
                cs.run([pack(cs, 0, lo + hi), pack(cs, 1, o + d + [t])])
                cs.no_panic()
                some, pay = cs.some()
                cs.eq('hit exactly when the ranges overlap', some, ok)
                if pay is None:
                    cs.ob('reports hits', False, 'never reports a hit')
                    return
                e, x = cs.fl(pay)
                cs.eq('entry parameter', e, cs.fn('max', *near), care=ok)
                if far:
                    cs.eq('exit parameter', x, cs.fn('min', *far), care=ok)
                else:
                    cs.eq('exit parameter', x, t, care=ok)
            guarded(rep, ''.join(pat) + lim, go)
