"""A transformed bounding box contains the image of the box."""
import itertools
from spec import Case, guarded, V
from props.lib import *

RULE = ('value numbering of the mapped box for a symbolic affine matrix and box, once per axis and sign pattern of the '
        'three matrix entries acting on it (27) and for flat boxes; each bound must be value-equal to the support '
        'function of the image, which is the least box containing every image point and is attained at a corner')
ASSUMES = ['exact real arithmetic; affine transform; box corners in order']
FLOOR = 200


def check(rep):
    for op in ('map', 'map_inverse', 'tmap', 'tmap_inverse'):
        fwd = not op.endswith('inverse')
        for ax in range(3):
            for pat in list(itertools.product('+-0', repeat=3)) + ['f++', '-f+', '++f', 'fff']:
                def go():
                    cs = Case(rep, 'c16::b::' + op, label='%s axis %s signs %s' % (op, 'xyz'[ax], ''.join(pat)), fold=False)
                    m = mat(cs, 'm', True)
                    o = mat(cs, 'o', True)
                    lo, hi = vec(cs, 'lo'), vec(cs, 'hi')
                    tot = None
                    for i in range(3):
                        for j in range(3):
                            p = pat[j] if i == ax else '+'
                            if pat[j] == 'f':
                                hi[j] = lo[j]
                                continue
                            if p == '0':
                                m[i][j] = cs.v(0)
                                continue
                    for j in range(3):
                        if hi[j] is not lo[j]:
                            cs.assume(hi[j] - lo[j], '>')
                    for i in range(3):
                        s = None
                        for j in range(3):
                            p = pat[j] if i == ax else '+'
                            if hi[j] is lo[j] or p == '0':
                                continue
                            d = m[i][j] * (hi[j] - lo[j])
                            d = d if p == '+' else -d
                            cs.assume(m[i][j] if p == '+' else -m[i][j], '>')
                            cs.assume(d, '>')
                            s = d if s is None else s + d
                        if s is not None:
                            cs.assume(s, '>')
                    mats = (m, o) if fwd else (o, m)
                    cs.run([pack(cs, 0, flat(mats[0])), pack(cs, 1, flat(mats[1])), pack(cs, 2, lo + hi)])
                    cs.no_panic()
                    g = cs.fl(cs.val)
                    a = b = m[ax][3]
                    for j in range(3):
                        x, y = (hi[j], lo[j]) if pat[j] == '-' else (lo[j], hi[j])
                        a = a + m[ax][j] * x
                        b = b + m[ax][j] * y
                    cs.eq('lower bound', g[ax], a)
                    cs.eq('upper bound', g[3 + ax], b)
                guarded(rep, '%s %d %s' % (op, ax, ''.join(pat)), go)
