"""A list of primitives behaves as their union."""
from fractions import Fraction
from core import INF
from spec import Case, guarded, V
from props.lib import *

RULE = ('gated value numbering of list queries over arbitrary members (hit condition, hit parameter and record are symbolic '
        'functions of the member and of the ray it is given), for lists of 0 to 4 members, a nested list, and lists of up to 1024 members two of which can be hit; in every cell '
        'consistent with the order domain the result must be the record of the member with the least valid parameter')
ASSUMES = ['members honour the ray limit and their parameters differ (ties may go either way)',
           'boxes inside the finite float range', 'lists of up to 4 members that are hit, and of 1024 members in all']
FLOOR = 350
MAX = Fraction(2) ** 128 - Fraction(2) ** 104


class Kid:
    def __init__(self, cs, i, name, lo=None, hi=None, more=()):
        self.name = name
        f = ['h'] + [k + x for k in ('a', 'b', 'n') for x in 'xyz'] + ['u', 'v'] + [k + x for k in ('t', 'l', 'm') for x in 'xyz']
        v = self.v = [cs.v(name + '.' + x) for x in f]
        self.h, self.a, self.b, self.n, self.uv, self.t, self.lo, self.hi = \
            v[0], v[1:4], v[4:7], v[7:10], v[10:12], v[12:15], v[15:18], v[18:21]
        if lo:
            v[15:18], v[18:21] = lo, hi
            self.lo, self.hi = lo, hi
        self.arg = pack(cs, i, v + list(more))

    def lit(self, o, d, t, lim=True):
        g = (self.h >= 0) & (dot(self.a, o) + dot(self.b, d) > 1)
        return g & (self.h <= t) if lim else g

    def rec(self, o, d):
        return [self.h] + o + self.n + d + self.t + self.uv


def check(rep):
    def ray(cs, i, lim):
        o, d = vec(cs, 'o'), vec(cs, 'd')
        t = cs.v('tmax') if lim else cs.v(cs.c.c(INF))
        return o, d, t, pack(cs, i, o + d + [t])

    def union(cs, kids, o, d, t, lim):
        """(hit, record) of the nearest"""
        for i, k in enumerate(kids):
            for j in kids[:i]:
                cs.assume(k.h - j.h, '!=')
        got, best, rec = cs.false, None, None
        for k in kids:
            l = k.lit(o, d, t, lim)
            r = k.rec(o, d)
            if rec is None:
                got, best, rec = l, k.h, r
            else:
                take = l & (~got | (k.h < best))
                rec = [cs.ite(take, x, y) for x, y in zip(r, rec)]
                best = rec[0]
                got = got | l
        return got, rec

    def hit(root, n, lim):
        cs = Case(rep, 'c22::l::' + root, label='%s%s' % (root, '' if lim else ' unlimited'), fold=False)
        kids = [Kid(cs, i, 'abcd'[i]) for i in range(n)]
        o, d, t, r = ray(cs, n, lim)
        want, rec = union(cs, kids, o, d, t, lim)
        cs.run([k.arg for k in kids] + [r])
        cs.no_panic()
        some, pay = cs.some()
        cs.eq('hit exactly when a member is hit', some, want)
        if n:
            if pay is None:
                cs.ob('reports hits', False, 'never reports a hit')
                return
            g = cs.fl(pay)
            cs.eqs('record of the nearest member', g, rec, care=want)
    for n in range(5):
        for lim in (True, False):
            if n == 4 and not lim:
                continue
            guarded(rep, 'hit%d' % n, lambda: hit('hit%d' % n, n, lim))
    guarded(rep, 'nested', lambda: hit('nested', 3, True))
    for r in sorted(x for x in rep.prog.roots if 'c22::l::long_hit_' in x):
        r = r.split('::')[-1]
        guarded(rep, r, lambda: hit(r, 2, True))
    guarded(rep, 'handle', lambda: hit('handle_hit', 1, True))

    def test():
        cs = Case(rep, 'c22::l::handle_test')
        k = Kid(cs, 0, 'a')
        o, d, t, r = ray(cs, 1, True)
        cs.run([k.arg, r])
        cs.no_panic()
        cs.eq('answers for the primitive', cs.v(cs.val), k.lit(o, d, t))
    guarded(rep, 'handle_test', test)

    def boxes(root, n):
        cs = Case(rep, 'c22::l::' + root)
        kids = [Kid(cs, i, 'abcd'[i]) for i in range(n)]
        for k in kids:
            for x in k.lo + k.hi:
                cs.assume(MAX - x, '>=')
                cs.assume(x + MAX, '>=')
        cs.run([k.arg for k in kids])
        cs.no_panic()
        g = cs.fl(cs.val)
        if n:
            cs.eqs('union of the boxes', g, [cs.fn('min', *[k.lo[i] for k in kids]) for i in range(3)] +
                   [cs.fn('max', *[k.hi[i] for k in kids]) for i in range(3)])
        else:
            cs.eqs('empty box', g, [cs.v(MAX)] * 3 + [cs.v(-MAX)] * 3)
    for n in range(5):
        guarded(rep, 'box%d' % n, lambda: boxes('box%d' % n, n))
    for r in sorted(x for x in rep.prog.roots if 'c22::l::long_box_' in x):
        r = r.split('::')[-1]
        guarded(rep, r, lambda: boxes(r, 2))
    guarded(rep, 'handle_box', lambda: boxes('handle_box', 1))
