"""Thin-lens rays start on the lens and meet in the plane of focus."""
from core import INF, round_to
from fractions import Fraction
from spec import Case, guarded, V
from props.lib import *
from props.c23 import point, linear, unit

RULE = ('gated value numbering of generate_ray for symbolic camera parameters, samples and independent forward and inverse view '
        'matrices: the camera-space ray is value-equal, in every cell of the lens mapping, to the one from the lens point '
        'through the point of the focus plane that depends on the film sample only; the range is at least the largest float')
ASSUMES = ['exact real arithmetic', 'focus distance > focal length > 0, aspect ratio > 0, field of view below 180 degrees',
           'affine view transform']
FLOOR = 14
FMAX = Fraction((1 << 24) - 1) * (1 << 104)


def check(rep):
    def run(film, lens, what):
        cs = Case(rep, 'c24::t::gen', label=what)
        m, w = mat(cs, 'm', True), mat(cs, 'w', True)
        fd, fov, fl, lr, ar = [cs.v(n) for n in ('fd', 'fov', 'fl', 'lr', 'ar')]
        for x in (fd, fl, fd - fl, ar, lr):
            cs.assume(x, '>')
        half = fov * Fraction(1, 2)
        co, si = cs.fn('cos', half), cs.fn('sin', half)
        cs.assume(co, '>')
        cs.assume(si, '>')
        pf, pl = film(cs), lens(cs)
        cs.run([pack(cs, 0, flat(m)), pack(cs, 1, flat(w)), fd.d, fov.d, fl.d, lr.d, ar.d, pack(cs, 7, pf), pack(cs, 8, pl)])
        cs.no_panic()
        g = cs.fl(cs.val)
        disk = g[7:9]
        L = [disk[0] * lr, disk[1] * lr, cs.v(0)]
        t = si / co
        F = [fd * t * (pf[0] * 2 - 1), fd * t * (pf[1] * 2 - 1) / ar, -fd]
        dirn = unit(cs, [F[i] - L[i] for i in range(3)])
        cs.eqs('origin is the world-space lens point', g[0:3], point(w, L))
        cs.eqs('direction leads to the focus point', g[3:6], linear(w, dirn))
        big = all(isinstance(l.v, E) and (l.v.const() == INF or isinstance(l.v.const(), Fraction) and l.v.const() >= FMAX)
                  for l in cs.c.leaves_of(g[6].d))
        cs.ob('range is unlimited', big, 'range %r' % g[6].d)
    P = lambda n: lambda cs: [cs.v(n + '.x'), cs.v(n + '.y')]
    H = lambda cs: [cs.v(Fraction(1, 2))] * 2
    guarded(rep, 'any', lambda: run(P('film'), P('lens'), 'any samples'))
    guarded(rep, 'centre', lambda: run(P('film'), H, 'lens centre'))
    guarded(rep, 'axis', lambda: run(H, P('lens'), 'film centre'))
