"""Ray-sphere queries return the nearest valid hit."""
from core import INF
from spec import Case, guarded, V
from props.lib import *

RULE = ('gated value numbering of the sphere query for a symbolic clipped sphere and ray (limited and unlimited, and with '
        'origin, direction or both in special position); the diagram must be equivalent, in every cell consistent with '
        'the sign and order domain, to "discriminant >= 0 and the smaller root is valid, else the larger", where valid '
        'means 0 <= t <= limit, height and azimuth inside the clipping range, and the parameter value-equal to that root')
ASSUMES = ['exact real arithmetic; radius positive, direction not zero, lower clipping height below upper']
FLOOR = 25


def query(cs, lim, o=None, d=None, r=None, root_val=None):
    """inputs and the two roots; returns dict"""
    cs.c.split_abs = True
    r = cs.v('r') if r is None else r
    z0, z1, ph = cs.v('z0'), cs.v('z1'), cs.v('phimax')
    o = vec(cs, 'o') if o is None else o
    d = vec(cs, 'd') if d is None else d
    t = cs.v('tmax') if lim == 't' else cs.v(cs.c.c(INF))
    cs.assume(cs.v('r'), '>')
    cs.assume(z1 - z0, '>')
    a = dot(d, d)
    cs.assume(a, '>')
    return r, z0, z1, ph, o, d, t, a


def roots(cs, r, o, d, a):
    b = dot(o, d) * 2
    c = dot(o, o) - r * r
    D = b * b - 4 * (a * c)
    s = cs.fn('sqrt', D)
    return b, c, D, s, (-b - s) / (2 * a), (s - b) / (2 * a)


def valid(cs, R, o, d, t, lim, z0, z1, ph):
    x, y, z = [o[i] + d[i] * R for i in range(3)]
    g = (R >= 0) & (z >= z0) & (z <= z1) & (cs.fn('atan2', y, x) <= ph)
    return g & (R <= t) if lim == 't' else g


def check(rep):
    def general(lim, what, oz=(), dz=()):
        cs = Case(rep, 'c18::s::hit', label='%s, limit %s' % (what, lim))
        o, d = vec(cs, 'o'), vec(cs, 'd')
        for i in oz:
            o[i] = cs.v(0)
        for i in dz:
            d[i] = cs.v(0)
        r, z0, z1, ph, o, d, t, a = query(cs, lim, o, d)
        b, c, D, s, lo, hi = roots(cs, r, o, d, a)
        if not isinstance(s.d.v, type(b.d.v)) or s.e().op != 'c':
            cs.assume(s / a, '>=')
        vl, vh = [valid(cs, R, o, d, t, lim, z0, z1, ph) for R in (lo, hi)]
        real = D >= 0
        cs.run([r.d, z0.d, z1.d, ph.d, pack(cs, 4, o + d + [t])])
        cs.no_panic()
        some, pay = cs.some()
        cs.eq('hit exactly when a root is valid', some, real & (vl | vh))
        if pay is None:
            cs.ob('reports hits', False, 'never reports a hit')
            return
        cs.eq('parameter is the smallest valid root', cs.fl(pay)[0], cs.ite(vl, lo, hi), care=real & (vl | vh))

    for lim in ('t', 'inf'):
        for what, oz, dz in (('any ray', (), ()), ('origin at the centre', (0, 1, 2), ()), ('ray in the plane y=0', (1,), (1,)),
                             ('ray in the plane x=0', (0,), (0,)), ('ray along the z axis', (0, 1), (0, 1)),
                             ('ray parallel to z', (), (0, 1)), ('ray parallel to x', (), (1, 2)), ('ray parallel to y', (), (0, 2))):
            guarded(rep, what, lambda: general(lim, what, oz, dz))

        def touching():
            # tangent at its origin: both roots are zero and the discriminant vanishes
            cs = Case(rep, 'c18::s::hit', label='origin on the surface, direction tangent, limit %s' % lim)
            r = cs.v('r')
            o = [r, cs.v(0), cs.v(0)]
            d = [cs.v(0), cs.v('d.y'), cs.v('d.z')]
            r, z0, z1, ph, o, d, t, a = query(cs, lim, o, d)
            if lim == 't':
                cs.assume(t, '>')
            cs.run([r.d, z0.d, z1.d, ph.d, pack(cs, 4, o + d + [t])])
            cs.no_panic()
            some, pay = cs.some()
            ok = (z0 <= 0) & (z1 >= 0) & (cs.fn('atan2', cs.v(0), r) <= ph)
            cs.eq('hit exactly when inside the clipping range', some, ok)
            if pay is not None:
                cs.eq('parameter is zero', cs.fl(pay)[0], cs.v(0), care=ok)
        guarded(rep, 'touching', touching)

        def onsurf():
            cs = Case(rep, 'c18::s::hit', label='origin on the surface, limit %s' % lim)
            r = cs.v('r')
            o = [r, cs.v(0), cs.v(0)]
            d = vec(cs, 'd')
            cs.assume(d[0], '<')
            r, z0, z1, ph, o, d, t, a = query(cs, lim, o, d)
            if lim == 't':
                cs.assume(t, '>=')
            far = -2 * (r * d[0]) / a
            cs.assume(far, '>')
            v0, v1 = [valid(cs, R, o, d, t, lim, z0, z1, ph) for R in (cs.v(0), far)]
            cs.run([r.d, z0.d, z1.d, ph.d, pack(cs, 4, o + d + [t])])
            cs.no_panic()
            some, pay = cs.some()
            cs.eq('hit exactly when a root is valid', some, v0 | v1)
            if pay is not None:
                cs.eq('parameter is the smallest valid root', cs.fl(pay)[0], cs.ite(v0, cs.v(0), far), care=v0 | v1)
        guarded(rep, 'onsurf', onsurf)
