"""A reported hit describes the point that was hit."""
import itertools
from core import INF
from spec import Case, guarded, V
from props.lib import *
from props.c18 import query, roots

RULE = ('gated value numbering of the hit record. Sphere: in every cell with a hit, the point is value-equal to the ray at the '
        'reported parameter and satisfies the sphere equation, the normal is parallel to it, of unit length, outward and '
        'orthogonal to both tangents; surface parameters and tangents are value-equal to the parametrisation and its '
        'derivatives. Box: per direction sign pattern and entering axis, the record is that of the entered face')
ASSUMES = ['exact real arithmetic; radius positive, direction not zero, clipping ranges not empty',
           'box entered from outside through the interior of a face', 'sphere tangents: the hit is not at a pole']
FLOOR = 200


def check(rep):
    def sph(lim, what, o=None, d=None, pole=False):
        cs = Case(rep, 'c20::t::sphere', label='sphere, %s, limit %s' % (what, lim))
        o, d = vec(cs, 'o') if o is None else o(cs), vec(cs, 'd') if d is None else d(cs)
        rr = cs.v('r+')
        cs.assume(rr, '>')
        r, z0, z1, ph, o, d, t, a = query(cs, lim, o, d, r=rr)
        PI = cs.v(cs.c.PI)
        cs.assume(ph + PI, '>')
        b, c, D, s, l, h = roots(cs, r, o, d, a)
        if s.e().op != 'c':
            cs.assume(s / a, '>=')
        for R in (l, h):
            z = o[2] + d[2] * R
            for x in (1 - z / r, 1 + z / r):
                if x.e().op != 'c':
                    cs.assume(x, '>=')
        cs.run([r.d, z0.d, z1.d, ph.d, pack(cs, 4, o + d + [t])])
        cs.no_panic()
        some, pay = cs.some()
        if pay is None:
            cs.ob('reports hits', False, 'never reports a hit')
            return
        g = cs.fl(pay)
        q, p, n, du, dv, uv = g[0], g[1:4], g[4:7], g[7:10], g[10:13], g[13:15]
        cs.eqs('point is the ray at the parameter', p, [o[i] + d[i] * q for i in range(3)], care=some)
        cs.eq('point on the sphere', dot(p, p), r * r, care=some)
        cs.eq('normal has unit length', dot(n, n), cs.v(1), care=some)
        cs.eqs('normal along the radius', cross(n, p), [cs.v(0)] * 3, care=some)
        cs.eq('normal outward', dot(n, p), r, care=some)
        cs.eq('normal orthogonal to dpdu', dot(n, du), cs.v(0), care=some)
        if pole:
            return
        x, y, z = p
        phi, th = cs.fn('atan2', y, x), cs.fn('acos', z / r)
        tl, tu = [cs.fn('acos', cs.fn('min', cs.v(1), cs.fn('max', cs.v(-1), w / r))) for w in (z0, z1)]
        cs.eq('normal orthogonal to dpdv', dot(n, dv), cs.v(0), care=some)
        cs.eq('u', uv[0], (phi + PI) / (ph + PI), care=some)
        cs.eq('v', uv[1], (th - tl) / (tu - tl), care=some)
        cs.eqs('dpdu', du, [-y * (ph + PI), x * (ph + PI), cs.v(0)], care=some)
        rho = cs.fn('sqrt', x * x + y * y)
        cs.eqs('dpdv', dv, [k * (tu - tl) for k in (z * x / rho, z * y / rho, -rho)], care=some)
    zero = lambda cs: cs.v(0)
    for lim in ('t', 'inf'):
        guarded(rep, 'sphere', lambda: sph(lim, 'any ray'))
        guarded(rep, 'pole', lambda: sph(lim, 'ray along the axis', lambda cs: [cs.v(0), cs.v(0), cs.v('o.z')],
                                         lambda cs: [cs.v(0), cs.v(0), cs.v('d.z')], True))

    for k in range(3):
        for pat in itertools.product('+-0', repeat=3):
            if pat[k] == '0':
                continue
            for lim in ('t', 'inf'):
                guarded(rep, 'box', lambda: box(rep, k, pat, lim))

    def rec():
        cs = Case(rep, 'c20::t::record')
        p, uv, du, dv = vec(cs, 'p'), [cs.v('u'), cs.v('v')], vec(cs, 's'), vec(cs, 't')
        cs.run([pack(cs, 0, p), pack(cs, 1, uv), pack(cs, 2, du), pack(cs, 3, dv)])
        cs.no_panic()
        g = cs.fl(cs.val)
        w = cross(du, dv)
        w1 = cs.fn('sqrt', dot(w, w))
        cs.eqs('record of a surface point', g[1:], p + [x / w1 for x in w] + du + dv + uv)
    guarded(rep, 'record', rec)


def box(rep, k, pat, lim):
    cs = Case(rep, 'c20::t::bbox', label='box entered along %s, direction %s, limit %s' % ('xyz'[k], ''.join(pat), lim))
    lo, hi, o, d = vec(cs, 'lo'), vec(cs, 'hi'), vec(cs, 'o'), vec(cs, 'd')
    t = cs.v('tmax') if lim == 't' else cs.v(cs.c.c(INF))
    ab = []
    for i in range(3):
        cs.assume(hi[i] - lo[i], '>')
        if pat[i] == '0':
            d[i] = cs.v(0)
            cs.assume(o[i] - lo[i], '>')
            cs.assume(hi[i] - o[i], '>')
            ab.append(None)
            continue
        cs.assume(d[i], '>' if pat[i] == '+' else '<')
        a, b = (lo[i] - o[i]) / d[i], (hi[i] - o[i]) / d[i]
        if pat[i] == '-':
            a, b = b, a
        cs.assume(b - a, '>')
        ab.append((a, b))
    q = ab[k][0]
    cs.assume(q, '>')
    if lim == 't':
        cs.assume(t - q, '>=')
    for i in range(3):
        if i != k:
            if ab[i]:
                cs.assume(q - ab[i][0], '>')
                cs.assume(ab[i][1] - q, '>')
            p = o[i] + d[i] * q
            cs.assume(p - lo[i], '>')
            cs.assume(hi[i] - p, '>')
    for i in range(3):
        # the other ends of the slabs lie ahead
        if ab[i]:
            cs.assume(ab[i][1], '>')
    cs.run([pack(cs, 0, lo + hi), pack(cs, 1, o + d + [t])])
    cs.no_panic()
    some, pay = cs.some()
    cs.holds('hit reported', some)
    if pay is None:
        return
    g = cs.fl(pay)
    p, n, du, dv = g[1:4], g[4:7], g[7:10], g[10:13]
    cs.eq('parameter is the entry', g[0], q)
    cs.eqs('point is the ray at the entry', p, [o[i] + d[i] * q for i in range(3)])
    cs.eqs('outward normal of the entered face', n, [cs.v(0 if i != k else (-1 if pat[k] == '+' else 1)) for i in range(3)])
    cs.eq('normal orthogonal to dpdu', dot(n, du), cs.v(0))
    cs.eq('normal orthogonal to dpdv', dot(n, dv), cs.v(0))
    cs.eq('dpdu has unit length', dot(du, du), cs.v(1))
    cs.eq('dpdv has unit length', dot(dv, dv), cs.v(1))
    cs.eqs('tangents turned as on every other face (dpdu x dpdv = -n)', cross(du, dv), [-x for x in n])
