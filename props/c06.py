from spec import *
from mir import Aff, FB, Split, urange
import mir

RULE = ('The bit pattern of the argument is an interval of integers n; the function is interpreted over affine '
        'bit patterns +-n+k, and the interval is split wherever a comparison, mask, shift or overflow test has no '
        'uniform answer, so the final intervals partition all 2^32 (2^64) patterns. On each the returned pattern '
        'must be that of the adjacent float: n+1 away from zero, n-1 towards zero, the smallest subnormals from '
        'both zeros, and the argument itself for NaN and at the end of the line; and no step panics.')
ASSUMES = ['f32/f64 are IEEE-754 binary32/64: patterns of one sign are ordered as their values are']
FLOOR = 32
TECHNIQUE = 'abstract interpretation of MIR over intervals of bit patterns with range splitting'


def classes(bits):
    top = 1 << (bits - 1)
    inf = (0xff << 23) if bits == 32 else (0x7ff << 52)
    # name, lo, hi, offset of the pattern stepping up / down (None: unchanged), or a set of patterns
    yield '+0', 0, 0, {1}, {top | 1}
    yield '-0', top, top, {1}, {top | 1}
    yield 'smallest positive subnormal', 1, 1, {2}, {0, top}
    yield 'positive finite', 2, inf - 1, 1, -1
    yield '+inf', inf, inf, {inf}, {inf - 1}
    yield 'positive NaN', inf + 1, top - 1, None, None
    yield 'smallest negative subnormal', top | 1, top | 1, {0, top}, {top | 2}
    yield 'negative finite', top | 2, (top | inf) - 1, -1, 1
    yield '-inf', top | inf, top | inf, {(top | inf) - 1}, {top | inf}
    yield 'negative NaN', (top | inf) + 1, 2 * top - 1, None, None


def one(rep, root, bits, name, lo, hi, want):
    done = []
    work = [(lo, hi)]
    n = 0
    while work:
        tick()
        l, h = work.pop()
        cs = Case(rep, root, mode='fp', bits=bits, label='%s of %s' % (root, name))
        cs.it.hooks.clear()
        cs.c.mode = 'bits'
        n += 1
        if n > 4 * 4096:
            raise Unsupported('too many ranges')
        x = FB(Aff(0, l, h) if l < h else l, bits)
        try:
            v = cs.run([cs.c.leaf(x)])
        except Split as s:
            if not l < s.at <= h:
                raise Unsupported('range of %s cannot be split' % root)
            work += [(l, s.at - 1), (s.at, h)]
            continue
        done.append((l, h))
        where = 'bit patterns %#x to %#x' % (l, h)
        for g, loc, msg in cs.it.panics:
            if g is not cs.c.F:
                return cs.ob('steps to the adjacent float', False, '%s: panics (%s) in %s' % (where, msg, loc))
        if not isinstance(v, Leaf):
            raise Unsupported('undecided step')
        r = v.v
        r = mir.to_fb(r, bits)
        top = 1 << (bits - 1)
        inf = (0xff << 23) if bits == 32 else (0x7ff << 52)
        rl, rh = urange(r.u)
        if isinstance(want, set):
            ok = rl == rh and rl in want
        elif want is None:
            # some NaN: its payload is not observable through the float operations
            ok = rl == rh and rl & (top - 1) > inf or rl > top + inf or inf < rl and rh < top
        elif l == h:
            ok = rl == rh == l + want
        else:
            u = r.u
            ok = isinstance(u, Aff) and (u.s, u.k, u.lo, u.hi) == (1, want, l, h)
        if not ok:
            w = {None: 'NaN', 1: 'n+1', -1: 'n-1'}.get(want if not isinstance(want, set) else 0,
                                                       want if isinstance(want, set) else want)
            return cs.ob('steps to the adjacent float', False, '%s: returns %r, required %s' % (where, r, w))
    done.sort()
    ok = done[0][0] == lo and done[-1][1] == hi and all(a[1] + 1 == b[0] for a, b in zip(done, done[1:]))
    rep.add('%s of %s: steps to the adjacent float' % (root, name), ok, 'ranges do not cover the class')
    rep.ranges += len(done)


def check(rep):
    rep.ranges = 0
    for bits in (32, 64):
        for i, d in enumerate(('up', 'down')):
            root = 'c06::f%d_::%s' % (bits, d)
            for name, lo, hi, u, dn in classes(bits):
                guarded(rep, '%s of %s' % (root, name),
                        lambda: one(rep, root, bits, name, lo, hi, dn if i else u))
    rep.extra = {'bit_pattern_ranges': rep.ranges, 'bit_patterns': 2 * (2 ** 32 + 2 ** 64)}
