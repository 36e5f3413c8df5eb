"""Bounding boxes enclose what can be hit."""
import itertools
from core import INF
from spec import Case, guarded, V
from props.lib import *
from props.c18 import query, roots
from props.c22 import Kid
from props.c23 import boxes, point

RULE = ('gated value numbering of query and bounding box on the same symbolic primitive; in every cell in which a hit is '
        'reported, each coordinate of the hit point must be bounded by the box (order domain); for boxes through the slab '
        'parameters per sign pattern of the direction, for transformed primitives through the support function of the '
        'image; the area must be value-equal to (azimuth range) * radius * (height range)')
ASSUMES = ['exact real arithmetic; radius positive; clipping heights within the sphere for the area',
           'members report points inside their own boxes']
FLOOR = 60


def check(rep):
    for lim in ('t', 'inf'):
        def sph():
            cs = Case(rep, 'c21::t::sphere', label='sphere, limit %s' % lim)
            r, z0, z1, ph, o, d, t, a = query(cs, lim)
            b, c, D, s, l, h = roots(cs, r, o, d, a)
            cs.assume(s / a, '>=')
            for R in (l, h):
                # points of the sphere: |x| <= r and so on
                for i in range(3):
                    x = o[i] + d[i] * R
                    cs.assume(r - x, '>=')
                    cs.assume(r + x, '>=')
            cs.run([r.d, z0.d, z1.d, ph.d, pack(cs, 4, o + d + [t])])
            cs.no_panic()
            inside(cs)
        guarded(rep, 'sphere', sph)

    def lims():
        cs = Case(rep, 'c21::t::limits')
        r, z0, z1 = cs.v('r'), cs.v('z0'), cs.v('z1')
        cs.assume(r, '>')
        cs.assume(z1 - z0, '>')
        cs.run([r.d, z0.d, z1.d, cs.v('ph').d])
        cs.no_panic()
        g = cs.fl(cs.val)
        cs.eqs('limits agree with the box', g[:6], g[6:])
    guarded(rep, 'limits', lims)

    def area():
        cs = Case(rep, 'c21::t::area')
        r, z0, z1, ph = cs.v('r'), cs.v('z0'), cs.v('z1'), cs.v('ph')
        cs.assume(r, '>')
        cs.assume(z1 - z0, '>')
        cs.assume(r - z1, '>=')
        cs.assume(z0 + r, '>=')
        cs.assume(ph + cs.v(cs.c.PI), '>')
        cs.assume(cs.v(cs.c.PI) - ph, '>=')
        cs.run([r.d, z0.d, z1.d, ph.d])
        cs.no_panic()
        cs.eq('area of the clipped surface', cs.fl(cs.val)[0], (ph + cs.v(cs.c.PI)) * r * (z1 - z0))
    guarded(rep, 'area', area)

    for pat in [p for p in itertools.product('+-0', repeat=3) if p != ('0', '0', '0')]:
        def box():
            cs = Case(rep, 'c21::t::bbox', label='box, direction %s' % ''.join(pat))
            lo, hi, o, d = vec(cs, 'lo'), vec(cs, 'hi'), vec(cs, 'o'), vec(cs, 'd')
            t = cs.v('tmax')
            cs.assume(t, '>=')
            ends = []
            for i in range(3):
                cs.assume(hi[i] - lo[i], '>')
                if pat[i] == '0':
                    d[i] = cs.v(0)
                    cs.assume(o[i] - lo[i], '!=')
                    cs.assume(hi[i] - o[i], '!=')
                else:
                    cs.assume(d[i], '>' if pat[i] == '+' else '<')
                    a, b = (lo[i] - o[i]) / d[i], (hi[i] - o[i]) / d[i]
                    if pat[i] == '-':
                        a, b = b, a
                    cs.assume(b - a, '>')
                    ends.append((i, a, b))
            cs.run([pack(cs, 0, lo + hi), pack(cs, 1, o + d + [t])])
            cs.no_panic()
            hit, bb = cs.val.f
            some, pay = cs.some(hit)
            cs.eqs('box of a box', bb, lo + hi)
            if pay is None:
                cs.ob('reports hits', False, 'never reports a hit')
                return
            q, *p = cs.fl(pay)
            for i, a, b in ends:
                cs.holds('parameter within the slab of axis %d' % i, (q >= a) & (q <= b), care=some)
            for i in range(3):
                if pat[i] == '0':
                    cs.holds('origin within the slab of axis %d' % i, (o[i] >= lo[i]) & (o[i] <= hi[i]), care=some)
            for i in range(3):
                # the coordinate of the face hit may be snapped to the face
                cs.one_of('coordinate %d on the ray or a face' % i, p[i], [o[i] + d[i] * q, lo[i], hi[i]], care=some)
        guarded(rep, 'box', box)

    def moved():
        cs = Case(rep, 'c21::t::moved')
        p = vec(cs, 'p')
        k = Kid(cs, 0, 'a', more=p)
        m, w = mat(cs, 'm', True), mat(cs, 'w', True)
        cs.run([k.arg, pack(cs, 1, flat(m)), pack(cs, 2, flat(w)), pack(cs, 3, vec(cs, 'o') + vec(cs, 'd') + [cs.v('tmax')])])
        cs.no_panic()
        some, pay = cs.some(cs.val.f[0])
        if pay is None:
            cs.ob('reports hits', False, 'never reports a hit')
            return
        cs.eqs('point is the image', pay, point(m, p), care=some)
    guarded(rep, 'moved', moved)
    boxes(rep, 'c21::t::moved_box', lambda cs, lo, hi: Kid(cs, 2, 'a', lo, hi, vec(cs, 'p')).arg)

    def lst():
        cs = Case(rep, 'c21::t::list')
        ks = []
        for i in range(2):
            p = vec(cs, 'pq'[i])
            k = Kid(cs, i, 'ab'[i], more=p)
            for j in range(3):
                cs.assume(p[j] - k.lo[j], '>=')
                cs.assume(k.hi[j] - p[j], '>=')
                for x in (k.lo[j], k.hi[j]):
                    cs.assume(MAX - x, '>=')
                    cs.assume(x + MAX, '>=')
            ks.append(k)
        cs.run([k.arg for k in ks] + [pack(cs, 2, vec(cs, 'o') + vec(cs, 'd') + [cs.v('tmax')])])
        cs.no_panic()
        inside(cs)
    guarded(rep, 'list', lst)


def inside(cs):
    hit, bb = cs.val.f
    some, pay = cs.some(hit)
    b = cs.fl(bb)
    if pay is None:
        cs.ob('reports hits', False, 'never reports a hit')
        return
    p = cs.fl(pay)
    for i in range(3):
        cs.holds('hit point not below the box on axis %d' % i, p[i] >= b[i], care=some)
        cs.holds('hit point not above the box on axis %d' % i, p[i] <= b[3 + i], care=some)


from props.c22 import MAX
