"""Transfer functions for the parts of std that are not analysed from MIR."""
import re
from fractions import Fraction
from core import *
import mir
import iters
from mir import Agg, En, Aff, FB, UNDEF, OPAQUE, UNIT, State

FLOAT_RE = re.compile(r'^(?:core|std)::(?:f32|f64|num::\w+)::<impl (f32|f64)>::(\w+)$')
INT_RE = re.compile(r'^core::num::<impl (\w+)>::(\w+)$')
_uid = [0]
EXACT_FN = ('abs', 'min', 'max', 'clamp', 'signum', 'copysign', 'floor', 'ceil', 'round', 'trunc', 'is_nan', 'is_finite',
            'is_infinite', 'is_sign_negative', 'is_sign_positive', 'to_bits', 'from_bits', 'next_up', 'next_down')


def uid():
    _uid[0] += 1
    return ('u', _uid[0])


def opt_none(it):
    return En(it.c.leaf(0), {0: (), 1: None} if False else {0: ()})


def opt_some(it, v):
    return En(it.c.leaf(1), {1: (v,)})


def opt(it, cond, v):
    """Some(v) where cond else None"""
    c = it.c
    return En(c.ite(cond, c.leaf(1), c.leaf(0)), {0: (), 1: (v,)})


def raw_ptr(it, ops):
    # (data pointer, metadata)
    d, m = ops
    if isinstance(m, (Leaf, Node)):
        def f(r, k):
            if isinstance(k, int):
                off = r[3][0] if isinstance(r[3], tuple) else 0
                return it.c.leaf(('ref', r[1], r[2], (off, k)))
            return it.c.leaf(r)
        return it.c.apply(f, uid(), d, m)
    return d


def ptr_add(it, r, i):
    if not (isinstance(r, tuple) and r[0] == 'ref' and isinstance(i, int)):
        raise Unsupported('pointer offset')
    if r[2] and isinstance(r[2][-1], int):
        return it.c.leaf(('ref', r[1], r[2][:-1] + (r[2][-1] + i,), r[3]))
    raise Unsupported('pointer offset')


def cast(it, kind, v, to, frm, st):
    c = it.c
    k = kind.split('(')[0]
    if k in ('IntToFloat',):
        bits = 32 if to['f'] == 'F32' else 64

        def f(x):
            if isinstance(x, bool):
                x = int(x)
            if isinstance(x, int):
                return c.leaf(c._fold(Fraction(x), bits))
            if isinstance(x, E):
                return c.leaf(x if c.mode == 'real' else c.fn('fl%d' % bits, x))
            raise Unsupported('int to float of %r' % (x,))
        return c.apply(f, ('i2f', bits), v)
    if k == 'FloatToFloat':
        bits = 32 if to['f'] == 'F32' else 64
        fb = 32 if frm['f'] == 'F32' else 64

        def f(x):
            if isinstance(x, FB):
                raise Unsupported('cast of a bit pattern')
            if bits >= fb or c.mode == 'real' and not getattr(c, 'wide', False):
                return c.leaf(x)
            if x.op == 'c':
                n = x.args
                return c.leaf(x if isinstance(n, str) else c.c(round_to(n, 32)))
            return c.leaf(c.fn('fl32', x))
        return c.apply(f, ('f2f', bits, fb), v)
    if k == 'FloatToInt':
        def f(x):
            n = x.const() if isinstance(x, E) else None
            lo, hi = mir.int_range(to)
            if isinstance(n, Fraction):
                q = abs(n).numerator // abs(n).denominator
                q = q if n >= 0 else -q
                return c.leaf(max(lo, min(hi, q)))
            if isinstance(x, E):
                return c.leaf(c.fn('trunc' if c.mode == 'real' or to.get('bits') == 128 else 'trunc%d' % to['bits'], x))
            raise Unsupported('float to int')
        return c.apply(f, ('f2i', to['s']), v)
    if k == 'IntToInt':
        if isinstance(v, En):
            vs = frm['variants']
            v = c.apply(lambda i: c.leaf(vs[i]['discr']), ('discr', frm['s']), v.tag)

        def f(x):
            if isinstance(x, Aff):
                lo, hi = mir.int_range(to)
                l, h = x.rng()
                if lo <= l and h <= hi:
                    return c.leaf(x)
                m = 1 << to['bits']
                for d in (-m, m):
                    if lo <= l + d and h + d <= hi:
                        return c.leaf(Aff(x.k + d, x.lo, x.hi, x.s))
                mir.cut(x, lo if l < lo else hi + 1, 'integer cast of %r' % x)
            if isinstance(x, bool):
                x = int(x)
            if isinstance(x, int):
                return c.leaf(mir.wrap_int(x, to) if 'bits' in to else x)
            if isinstance(x, E) and 'bits' in to and 'bits' in frm:
                (lo, hi), (l, h) = mir.int_range(to), mir.int_range(frm)
                if not (lo <= l and h <= hi):
                    return c.leaf(c.fn('as_' + to['s'], x))
            return c.leaf(x)
        return c.apply(f, ('i2i', to['s'], frm['s']), v)
    if k == 'PointerCoercion':
        if 'Unsize' in kind:
            return unsize(it, v, to, frm, st)
        if 'ReifyFnPointer' in kind or 'UnsafeFnPointer' in kind or 'MutToConst' in kind or 'ArrayToPointer' in kind:
            if 'ArrayToPointer' in kind:
                return it.ref_ext(v, 0)
            return v
        if 'ClosureFnPointer' in kind:
            return c.leaf(('fn', frm['fn']))
        return v
    if k == 'PtrToPtr':
        return v
    if k == 'Transmute':
        return transmute(it, v, to, frm)
    if k in ('BoxDerefTransmute', 'FnPtrToPtr', 'PointerExposeAddress', 'PointerWithExposedProvenance', 'Subtype'):
        return v
    raise Unsupported('cast %s' % kind)


def transmute(it, v, to, frm):
    c = it.c
    fk, tk = frm['k'], to['k']
    if fk == 'float' and tk in ('uint', 'int'):
        return to_bits(it, v, to)
    if tk == 'float' and fk in ('uint', 'int'):
        return from_bits(it, v, 32 if to['f'] == 'F32' else 64)
    if fk in ('ref', 'ptr') or tk in ('ref', 'ptr'):
        return v
    if tk == 'adt' and to['adt'] == 'Enum' and fk in ('int', 'uint'):
        vs = [x['discr'] for x in to['variants']]
        bits = frm['bits']

        def f(x):
            for i, d in enumerate(vs):
                if d == x or d == x % (1 << bits) or d - (1 << 128) == x:
                    return c.leaf(i)
            raise Unsupported('transmute to enum')
        return En(c.apply(f, ('tre', to['s']), v), {i: () for i in range(len(vs))})
    if fk == 'adt' and frm['adt'] == 'Enum' and tk in ('int', 'uint') and isinstance(v, En):
        vs = frm['variants']
        return c.apply(lambda i: c.leaf(mir.wrap_int(vs[i]['discr'], to)), ('tri', frm['s'], to['s']), v.tag)
    if frm.get('s') == to.get('s'):
        return v
    if fk == 'adt' and tk == 'adt' and isinstance(v, Agg):
        return v
    if fk == 'array' or tk == 'array' or fk == 'adt' or tk == 'adt':
        return v
    if fk in ('int', 'uint') and tk in ('int', 'uint'):
        return cast(it, 'IntToInt', v, to, frm, None)
    raise Unsupported('transmute %s -> %s' % (frm['s'], to['s']))


def to_bits(it, v, t):
    c = it.c

    def f(x):
        if isinstance(x, FB):
            u = x.u
            if t['k'] == 'int':
                return cast_i(c, u, t)
            return c.leaf(u)
        if isinstance(x, E) and x.op == 'c':
            return c.leaf(mir.wrap_int(const_to_bits(x.args, t['bits']), t))
        if isinstance(x, E):
            return c.leaf(('bitsof', x.id, t['bits']))
        raise Unsupported('to_bits of %r' % (x,))
    return c.apply(f, ('tobits', t['s']), v)


def cast_i(c, u, t):
    lo, hi = mir.int_range(t)
    if isinstance(u, int):
        return c.leaf(mir.wrap_int(u, t))
    l, h = u.rng()
    if h <= hi:
        return c.leaf(u)
    if l <= hi:
        mir.cut(u, hi + 1, 'cast of %r' % u)
    return c.leaf(Aff(u.k - (1 << t['bits']), u.lo, u.hi, u.s))


def from_bits(it, v, bits):
    c = it.c
    by = {e.id: e for e in ()}

    def f(x):
        if isinstance(x, tuple) and x[0] == 'bitsof':
            for e in c.exprs.values():
                if e.id == x[1]:
                    return c.leaf(e)
        if isinstance(x, int):
            return c.leaf(c.fconst(bits_to_const(x % (1 << bits), bits), bits)) if c.mode != 'bits' else c.leaf(FB(x, bits))
        if isinstance(x, Aff):
            l, h = x.rng()
            if l < 0:
                x = Aff(x.k + (1 << bits), x.lo, x.hi, x.s)
                l, h = x.rng()
            if l < 0 or h >= 1 << bits:
                raise Unsupported('from_bits of %r' % x)
            return c.leaf(FB(x, bits))
        raise Unsupported('from_bits of %r' % (x,))
    return c.apply(f, ('frombits', bits), v)


def unsize(it, v, to, frm, st):
    c = it.c
    te = to
    fe = frm

    def pointee(t):
        while True:
            if t['k'] in ('ref', 'ptr'):
                return it.p.types[t['e']]
            if t['k'] == 'adt' and t.get('targs'):
                return it.p.types[t['targs'][0]]
            return None
    pf, pt = pointee(frm), pointee(to)
    if pf and pf['k'] == 'array':
        n = pf['n']
        return c.apply(lambda r: c.leaf(('ref', r[1], r[2], (0, n))), ('unsize', n), v)
    if pt and pt['k'] == 'dyn':
        tid = next(i for i, x in enumerate(it.p.types) if x is pf)

        def f(r):
            return c.leaf(('ref', r[1], r[2], ('dyn', tid)))
        if isinstance(v, Agg):
            return Agg(v.k, [c.apply(f, ('undyn', tid), it.as_d(v))] + list(v.f[1:]))
        return c.apply(f, ('undyn', tid), v)
    return v


# -------------------------------------------------------------------- floats
def fmin(it, a, b, maxi):
    """IEEE minNum/maxNum (NaN loses)"""
    c = it.c
    if isinstance(a, FB) or isinstance(b, FB):
        raise Unsupported('min/max of bit patterns')
    if c._isnan(a):
        return c.leaf(b)
    if c._isnan(b):
        return c.leaf(a)
    if c.mode == 'real':
        return c.leaf(c.emax([a, b]) if maxi else c.emin([a, b]))
    d = c.cmp(a, b)

    def f(k):
        if k == UN:
            # whichever is not NaN
            cb = c.classify(b)
            return c.apply(lambda q: c.leaf(a) if q == CNAN else c.leaf(b), ('mmnan', a.id, b.id), cb)
        if k == EQ:
            return c.leaf(a)
        return c.leaf(a if (k == GT) == maxi else b)
    return c.apply(f, ('fminmax', maxi, a.id, b.id), d)


def float_fn(it, name, bits, args, st):
    c = it.c
    one = lambda f, *ds: c.apply(f, ('ff', name, bits), *ds)
    if name in ('sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'floor', 'ceil', 'round', 'trunc', 'exp', 'ln',
                'exp2', 'log2', 'log10', 'cbrt', 'sinh', 'cosh', 'tanh', 'fract', 'exp_m1', 'ln_1p'):
        return one(lambda x: c.leaf(c.fn(name, x, bits=bits)), args[0])
    if name == 'abs':
        def f(x):
            if isinstance(x, FB):
                top = 1 << (bits - 1)
                lo, hi = mir.urange(x.u)
                return c.leaf(FB(mir.flip_sign(x), bits)) if lo >= top else c.leaf(x)
            if (c.mode == 'fp' or c.split_abs) and x.op != 'c':
                d = c.cmp(x, c.c(0))
                return c.apply(lambda k: c.leaf(c.neg(x)) if k == LT else c.leaf(x), ('fabs', x.id), d)
            return c.leaf(c.fn('abs', x))
        return one(f, args[0])
    if name == 'atan2':
        return one(lambda y, x: c.leaf(c.fn('atan2', y, x)), args[0], args[1])
    if name == 'sin_cos':
        return Agg('tuple', [c.apply(lambda x: c.leaf(c.fn(n, x, bits=bits)), ('ff', n, bits), args[0]) for n in ('sin', 'cos')])
    if name in ('min', 'max'):
        return one(lambda a, b: fmin(it, a, b, name == 'max'), args[0], args[1])
    if name in ('minimum', 'maximum'):
        return one(lambda a, b: fmin(it, a, b, name == 'maximum'), args[0], args[1])
    if name == 'clamp':
        def f(x, lo, hi):
            if c.mode == 'real':
                return c.leaf(c.emin([c.emax([x, lo]), hi]))
            a = c.rel('Lt', x, lo)
            b = c.rel('Gt', x, hi)
            return c.ite(a, c.leaf(lo), c.ite(b, c.leaf(hi), c.leaf(x)))
        bad = c.apply(lambda lo, hi: c.rel('Gt', lo, hi), ('clampbad',), args[1], args[2])
        bad = c.and_(st.g, bad)
        if bad is not c.F:
            it.panic(State(bad, {}), 'clamp: min > max')
            st.g = c.and_(st.g, c.not_(bad))
        return one(f, *args)
    if name == 'signum':
        def f(x):
            d = c.cmp(x, c.c(0))
            # sign bit of a zero is not tracked: +0.0 gives 1.0
            return c.apply(lambda k: c.leaf(c.c({LT: -1, EQ: 1, GT: 1, UN: NAN}[k])), ('stdsignum',), d)
        return one(f, args[0])
    if name == 'copysign':
        def f(x, s):
            d = c.cmp(s, c.c(0))
            if c.split_abs and x.op != 'c':
                return c.apply(lambda k, j: c.leaf(c.neg(x)) if (k == LT) != (j == LT) else c.leaf(x), ('cpss', x.id), d,
                               c.cmp(x, c.c(0)))
            ab = c.fn('abs', x)
            return c.apply(lambda k: c.leaf(c.neg(ab)) if k == LT else c.leaf(ab), ('cps', ab.id), d)
        return one(f, args[0], args[1])
    if name == 'recip':
        return one(lambda x: it.fbin('Div', c.c(1), x, bits), args[0])
    if name == 'mul_add':
        if c.mode == 'real':
            return one(lambda x, y, z: c.leaf(c.add(c.mul(x, y), z)), *args)
        return one(lambda x, y, z: c.leaf(c.fn('fma', x, y, z)), *args)
    if name == 'powi':
        def f(x, n):
            if isinstance(n, int) and 0 <= n <= 8:
                r = c.c(1)
                for _ in range(n):
                    r = c.mul(r, x, bits)
                return c.leaf(r)
            if isinstance(n, int) and -8 <= n < 0:
                r = c.c(1)
                for _ in range(-n):
                    r = c.mul(r, x, bits)
                return it.fbin('Div', c.c(1), r, bits)
            raise Unsupported('powi')
        return one(f, args[0], args[1])
    if name == 'powf':
        def f(x, n):
            v = n.const()
            if v == 2:
                return c.leaf(c.mul(x, x, bits))
            if v == Fraction(1, 2):
                return c.leaf(c.fn('sqrt', x))
            return c.leaf(c.fn('powf', x, n))
        return one(f, args[0], args[1])
    if name == 'hypot':
        if c.mode == 'real':
            return one(lambda x, y: c.leaf(c.fn('sqrt', c.add(c.mul(x, x), c.mul(y, y)))), *args)
        return one(lambda x, y: c.leaf(c.fn('hypot', x, y)), *args)
    if name == 'to_radians':
        if c.mode == 'real':
            return one(lambda x: c.leaf(c.mul(x, c.mul(c.c(Fraction(1, 180)), c.PI))), args[0])
    if name == 'to_degrees':
        if c.mode == 'real':
            return one(lambda x: c.leaf(c.div(c.mul(x, c.c(180)), c.PI)), args[0])
    if name in ('is_nan', 'is_finite', 'is_infinite'):
        def f(x):
            if isinstance(x, FB):
                mb = 23 if bits == 32 else 52
                inf = (0xff if bits == 32 else 0x7ff) << mb
                lo, hi = mir.urange(x.u)
                top = 1 << (bits - 1)
                base = 0
                if lo < top <= hi:
                    mir.cut(x.u, top, 'sign of %r' % x)
                if lo >= top:
                    lo, hi, base = lo - top, hi - top, top
                if name == 'is_nan':
                    dec = (lo > inf, hi <= inf)
                elif name == 'is_finite':
                    dec = (hi < inf, lo >= inf)
                else:
                    dec = (lo == hi == inf, hi < inf or lo > inf)
                if dec[0]:
                    return c.T
                if dec[1]:
                    return c.F
                mir.cut(x.u, base + (inf if lo < inf else inf + 1), '%s of %r' % (name, x))
            ok = {'is_nan': (CNAN,), 'is_finite': (FIN,), 'is_infinite': (PINF, MINF)}[name]
            return c.apply(lambda k: c.leaf(k in ok), ('clsin', ok), c.classify(x))
        return one(f, args[0])
    if name in ('is_sign_negative', 'is_sign_positive'):
        def f(x):
            if isinstance(x, FB):
                lo, hi = mir.urange(x.u)
                top = 1 << (bits - 1)
                neg = lo >= top
                if not neg and hi >= top:
                    mir.cut(x.u, top, 'sign of %r' % x)
                return c.leaf(neg == (name == 'is_sign_negative'))
            if c.mode == 'real':
                # zeros carry no sign in exact arithmetic
                return c.rel('Lt' if name == 'is_sign_negative' else 'Ge', x, c.c(0))
            d = c.cmp(x, c.c(0))
            key = 'signbit of %r' % (x,)

            def g(k):
                if k == LT:
                    return c.T
                if k == GT:
                    return c.F
                return c.opq_bool(key)
            n = c.apply(g, ('signneg', x.id), d)
            return n if name == 'is_sign_negative' else c.not_(n)
        return one(f, args[0])
    if name == 'to_bits':
        return to_bits(it, args[0], {'k': 'uint', 'bits': bits, 's': 'u%d' % bits})
    if name == 'from_bits':
        return from_bits(it, args[0], bits)
    if name in ('next_up', 'next_down'):
        if c.mode == 'real':
            return args[0]

        def f(x):
            if isinstance(x, FB):
                return c.leaf(fb_next(x, name == 'next_up'))
            return c.leaf(c.fn('nu' if name == 'next_up' else 'nd', x, bits=bits))
        return one(f, args[0])
    if name == 'total_cmp':
        a, b = it.read_d(st, args[0]), it.read_d(st, args[1])
        d = c.apply(lambda x, y: c.cmp(x, y), ('tc',), a, b)
        return En(c.apply(lambda k: c.leaf({LT: 0, EQ: 1, GT: 2, UN: 2}[k]), ('tc2',), d), {0: (), 1: (), 2: ()})
    if name == 'rem_euclid':
        return one(lambda x, y: c.leaf(c.fn('reme', x, y)), args[0], args[1])
    raise Unsupported('float function %s' % name)


def fb_next(x, up):
    lo, hi = mir.urange(x.u)
    bits = x.bits
    top = 1 << (bits - 1)
    inf = (0xff if bits == 32 else 0x7ff) << (23 if bits == 32 else 52)
    neg = lo >= top
    if not neg and hi >= top:
        mir.cut(x.u, top, 'sign of %r' % x)
    base = top if neg else 0
    l, h = lo - base, hi - base
    if l > inf:
        return x
    if h > inf:
        mir.cut(x.u, base + inf + 1, 'class of %r' % x)
    if neg != up and h == inf and l < inf:
        mir.cut(x.u, base + inf, 'class of %r' % x)
    if h == l == inf and neg != up:
        return x
    if h == l == 0:
        return FB(1 if up else top + 1, bits)
    if l == 0:
        mir.cut(x.u, base + 1, 'next of %r' % x)
    k = 1 if neg != up else -1
    return FB(Aff(x.u.k + k, x.u.lo, x.u.hi, x.u.s) if isinstance(x.u, Aff) else x.u + k, bits)


def int_fn(it, ty, name, args, st):
    c = it.c
    t = next((x for x in it.p.types if x['s'] == ty), None)
    if t is None:
        return None
    ops = {'wrapping_add': 'Add', 'wrapping_sub': 'Sub', 'wrapping_mul': 'Mul'}
    if name in ops:
        if c.int_range and any(isinstance(l.v, E) for d in args[:2] for l in c.leaves_of(d)):
            k = lambda x: x if isinstance(x, E) else c.c(x)
            return c.apply(lambda x, y: c.leaf(c.fn(name + '_' + ty, k(x), k(y))), ('wrap', ty, name), args[0], args[1])
        return it.binop(ops[name], args[0], args[1], t)
    if name in ('min_value', 'max_value'):
        return c.leaf(mir.int_range(t)[name == 'max_value'])
    if name in ('wrapping_neg',):
        return it.binop('Sub', c.leaf(0), args[0], t)
    if name in ('saturating_sub', 'saturating_add', 'abs_diff'):
        lo, hi = mir.int_range(t)

        def f(x, y):
            if isinstance(x, int) and isinstance(y, int):
                if name == 'abs_diff':
                    return c.leaf(abs(x - y))
                return c.leaf(max(lo, min(hi, x - y if name.endswith('sub') else x + y)))
            if isinstance(x, Aff) or isinstance(y, Aff):
                v = mir.aff_bin(it, 'Sub' if name.endswith('sub') else 'Add', x, y, t, False)
                l, h = mir.urange(v.v)
                if lo <= l and h <= hi:
                    return v
            raise Unsupported(name)
        return c.apply(f, ('ifn', ty, name), args[0], args[1])
    return None


# -------------------------------------------------------------------- helpers
def leaf_eq(it, a, b):
    """structural == of two values made of floats / ints"""
    c = it.c
    if isinstance(a, Agg):
        r = c.T
        for x, y in zip(a.f, b.f):
            r = c.and_(r, leaf_eq(it, x, y))
        return r

    def f(x, y):
        if isinstance(x, E) or isinstance(y, E):
            return c.rel('Eq', x, y)
        return c.leaf(x == y)
    return c.apply(f, ('leafeq',), a, b)


def value_eq(it, a, b, t, st):
    """== of two values of type t; None if an element's PartialEq is unknown"""
    c = it.c
    if t['k'] in ('float', 'int', 'uint', 'bool', 'char'):
        return leaf_eq(it, a, b)
    if t['k'] in ('array', 'slice'):
        if len(a.f) != len(b.f):
            return c.F
        e = it.p.types[t['e']]
        r = c.T
        for x, y in zip(a.f, b.f):
            q = value_eq(it, x, y, e, st)
            if q is None:
                return None
            r = c.and_(r, q)
        return r
    want = '<%s as std::cmp::PartialEq>::eq' % t['s']
    for g in it.p.fns:
        if g['name'] == want and not g.get('nobody'):
            rs = []
            for v in (a, b):
                k = it.alloc()
                st.s[k] = v
                rs.append(c.leaf(('ref', k, (), None)))
            ref = {'k': 'ref', 'e': it.p.types.index(t)}
            return it.call(g['id'], rs, [ref, ref], None, st)
    return None


def is_plain(it, t):
    k = t['k']
    if k in ('float', 'int', 'uint', 'bool', 'char', 'fndef', 'ptr'):
        return True
    if k == 'ref':
        return not t.get('mut')
    if k == 'array':
        return is_plain(it, it.p.types[t['e']])
    if k == 'tuple':
        return all(is_plain(it, it.p.types[x]) for x in t['ts'])
    if k == 'closure':
        return True
    if k == 'adt':
        return all(is_plain(it, it.p.types[x]) for v in t['variants'] for _, x in v['fields']) and \
            t['def'] not in ('alloc::vec::Vec', 'std::vec::Vec')
    return False


def closure_call(it, fv, ft, args, st):
    """call a closure or function value of type ft"""
    if ft['k'] == 'closure':
        return it.call_closure(fv, ft, args, st)
    if ft['k'] == 'ref':
        inner = it.p.types[ft['e']]
        if inner['k'] == 'closure':
            return it.call_closure(None, inner, args, st, selfref=fv)
        return closure_call(it, it.read_d(st, fv), inner, args, st)
    if ft['k'] == 'fndef':
        return it.call(ft['fn'], args, [None] * len(args), None, st)
    return it.call_value(fv, args, None, None, st, tt=ft)


def slice_meta(it, st, d):
    """(ref diagram with meta) -> list"""
    return d


def slice_len(it, st, r):
    if isinstance(r[3], tuple) and r[3][0] != 'dyn':
        return r[3][1]
    v = it.load(st, r)
    return len(v.f)


def elem(it, r, i):
    off = r[3][0] if isinstance(r[3], tuple) and r[3][0] != 'dyn' else 0
    return ('ref', r[1], r[2] + (off + i,), None)


def mk_iter(it, st, base, by):
    """slice iterator value: Agg('Iter', [base ref, pos, end])  by in ref/val"""
    c = it.c
    n = c.apply(lambda r: c.leaf(slice_len(it, st, r)), uid(), c.restrict(base, st.g))
    return Agg('Iter_' + by, [base, c.leaf(0), n])


def iter_next(it, st, selfd, back=False):
    c = it.c
    v = it.read_d(st, selfd)
    if not (isinstance(v, Agg) and v.k.startswith('Iter_')):
        return None
    base, pos, end = v.f
    base, pos, end = [c.restrict(x, st.g) for x in (base, pos, end)]
    has = c.apply(lambda p, e: c.leaf(p < e), 'iterhas', pos, end)
    if back:
        end2 = c.apply(lambda p, e: c.leaf(e - 1 if p < e else e), 'iterdec', pos, end)
        at = c.apply(lambda p, e: c.leaf(e - 1 if p < e else 0), 'iterbk', pos, end)
        new = Agg(v.k, [base, pos, end2])
    else:
        pos2 = c.apply(lambda p, e: c.leaf(p + 1 if p < e else p), 'iterinc', pos, end)
        at = c.apply(lambda p, e: c.leaf(p if p < e else 0), 'iterat', pos, end)
        new = Agg(v.k, [base, pos2, end])
    it.write_d(st, selfd, new)
    live = c.and_(st.g, has)
    if live is c.F:
        return opt_none(it)
    at = c.restrict(at, live)
    ref = c.apply(lambda r, i: c.leaf(elem(it, r, i)), 'iterelem', base, at)
    if v.k == 'Iter_val':
        ref = it.dcase(c.restrict(ref, live), lambda r: it.load(st, r))
    return opt(it, has, ref)


ITER_RE = re.compile(r'^<std::(slice::Iter(?:Mut)?|array::IntoIter|vec::IntoIter)<.*> as (?:std::iter::)?(Iterator|DoubleEndedIterator|ExactSizeIterator|IntoIterator)>::(\w+)(?:::<.*>)?$')


def plain_name(f):
    """name of a function, with the closures among its type arguments blanked (their paths contain further names)"""
    n = f.get('plain')
    if n is None:
        n, depth = '', 0
        s = f['name']
        i = 0
        while i < len(s):
            if not depth and s.startswith('{closure@', i):
                n += '{closure'
                depth = 1
                i += 9
                continue
            if depth:
                depth += (s[i] == '{') - (s[i] == '}')
                if not depth:
                    n += '}'
            else:
                n += s[i]
            i += 1
        f['plain'] = n
    return n


def loop_iter(it, st, selfd, back, body):
    """run body(item) for each item; body returns stop-condition diagram or None.
    Implemented as an explicit unrolled dataflow over the iterator."""
    c = it.c
    outs = []
    for _ in range(it.MAX_ITER):
        o = iter_next(it, st, selfd, back)
        has = c.apply(lambda t: c.leaf(t == 1), 'issome', o.tag)
        g = c.and_(st.g, has)
        done = c.and_(st.g, c.not_(has))
        if done is not c.F:
            outs.append((State(done, dict(st.s)), None))
        if g is c.F:
            break
        st.g = g
        r = body(o.pay[1][0], st)
        if st.g is c.F:
            break
        if r is not None:
            stop, val = r
            sg = c.and_(st.g, stop)
            if sg is not c.F:
                outs.append((State(sg, dict(st.s)), val))
            st.g = c.and_(st.g, c.not_(stop))
            if st.g is c.F:
                break
    else:
        raise Unsupported('iterator does not end')
    return outs


def merge_outs(it, st, outs, default):
    if not outs:
        st.g = it.c.F
        return UNDEF
    acc = None
    for s, v in outs:
        v = default if v is None else v
        if acc is None:
            acc = (s, v)
        else:
            acc = (it.join(acc[0], s), it.join_val(acc[0].g, acc[1], v))
    st.g = acc[0].g
    st.s.clear()
    st.s.update(acc[0].s)
    return acc[1]


def iter_method(it, f, meth, args, argtys, st):
    c = it.c
    targs = [it.p.types[i] for i in f['targs']]
    byval = meth in ('fold', 'rfold', 'for_each', 'count', 'last')
    if byval:
        a = it.alloc()
        st.s[a] = args[0]
        selfd = c.leaf(('ref', a, (), None))
    else:
        selfd = args[0]
    if meth == 'next':
        return iter_next(it, st, selfd)
    if meth == 'next_back':
        return iter_next(it, st, selfd, True)
    if meth in ('size_hint', 'len', 'count'):
        v = it.read_d(st, selfd)
        n = c.apply(lambda p, e: c.leaf(e - p), 'iterlen', v.f[1], v.f[2])
        if meth == 'size_hint':
            return Agg('tuple', (n, opt_some(it, n)))
        return n
    fty = argtys[-1] if argtys and argtys[-1] else targs[-1]
    fv = args[-1]
    if meth in ('fold', 'rfold'):
        acc = it.alloc()
        st.s[acc] = args[1]
        fa = it.alloc()
        st.s[fa] = fv

        def body(x, s):
            r = fn_call(it, fa, fty, [s.s[acc], x], s)
            s.s[acc] = r
        outs = loop_iter(it, st, selfd, meth == 'rfold', body)
        merge_outs(it, st, outs, UNIT)
        return st.s.get(acc, UNDEF)
    if meth == 'for_each':
        fa = it.alloc()
        st.s[fa] = fv
        outs = loop_iter(it, st, selfd, False, lambda x, s: (fn_call(it, fa, fty, [x], s), None)[1])
        merge_outs(it, st, outs, UNIT)
        return UNIT
    if meth in ('any', 'all'):
        fa = it.alloc()
        st.s[fa] = fv
        want = meth == 'any'

        def body(x, s):
            r = fn_call(it, fa, fty, [x], s)
            return (r if want else c.not_(r)), c.leaf(want)
        outs = loop_iter(it, st, selfd, False, body)
        return merge_outs(it, st, outs, c.leaf(not want))
    if meth in ('find', 'find_map', 'position'):
        fa = it.alloc()
        st.s[fa] = fv
        cnt = [0]

        def body(x, s):
            if meth == 'find':
                a = it.alloc()
                s.s[a] = x
                r = fn_call(it, fa, fty, [c.leaf(('ref', a, (), None))], s)
                return r, opt_some(it, x)
            if meth == 'position':
                r = fn_call(it, fa, fty, [x], s)
                cnt[0] += 1
                return r, opt_some(it, c.leaf(cnt[0] - 1))
            r = fn_call(it, fa, fty, [x], s)
            return c.apply(lambda t: c.leaf(t == 1), 'issome', r.tag), r
        outs = loop_iter(it, st, selfd, False, body)
        return merge_outs(it, st, outs, opt_none(it))
    if meth == 'nth':
        k = c.restrict(args[1], st.g)
        if isinstance(k, Leaf):
            r = None
            for _ in range(k.v + 1):
                r = iter_next(it, st, selfd)
            return r
    if meth == 'try_fold':
        return None
    return None


def fn_call(it, falloc, fty, args, s):
    """call the (possibly mutable) function value stored at falloc"""
    if fty['k'] == 'closure':
        return it.call_closure(None, fty, args, s, selfref=it.c.leaf(('ref', falloc, (), None)))
    return closure_call(it, s.s[falloc], fty, args, s)


PANIC_PREFIX = ('core::panicking::', 'std::rt::panic', 'std::rt::begin_panic', 'core::option::unwrap_failed',
                'core::option::expect_failed', 'core::result::unwrap_failed', 'core::slice::index::slice_',
                'std::process::abort', 'std::intrinsics::abort')


def model(it, f, args, argtys, dty, st):
    c = it.c
    name = plain_name(f)
    kr = f['krate']
    if kr in ('scarlet', 'harness') or f['def'].rsplit('::', 1)[-1].startswith('{closure'):
        return None
    m = FLOAT_RE.match(name)
    if m:
        bits = 32 if m.group(1) == 'f32' else 64
        r = float_fn(it, m.group(2), bits, args, st)
        if it.rounding and isinstance(r, (Leaf, Node)) and m.group(2) not in EXACT_FN:
            r = it.rounded(r)
        return r
    m = INT_RE.match(name)
    if m:
        r = int_fn(it, m.group(1), m.group(2), args, st)
        if r is not None:
            return r
        if f.get('nobody'):
            raise Unsupported(name)
    if name.startswith(PANIC_PREFIX) or (dty is not None and dty['k'] == 'never'):
        it.panic(st, name)
        return UNDEF
    if name.startswith(('core::fmt::', 'std::fmt::', '<std::fmt::')) or '::fmt::rt::' in name:
        return OPAQUE
    d = f['def']
    targs = [it.p.types[i] for i in f['targs']] if f['targs'] else []
    # ---- rust-call of fn items
    if re.search(r' as std::ops::Fn(Once|Mut)?<.*>::call(_once|_mut)?$', name):
        ft = targs[0] if targs else None
        if ft is not None and ft['k'] == 'closure' and not (argtys and argtys[0] and argtys[0]['k'] in ('closure', 'ref')) and \
                len(args) == it.p.fns[ft['fn']]['argc'] - 1:
            # a closure without captures called through a function pointer
            return it.call_closure(Agg('closure', ()), ft, args, st)
        if ft is not None and ft['k'] in ('fndef', 'closure', 'ref') and isinstance(args[1], Agg):
            if ft['k'] == 'closure' and argtys and argtys[0] and argtys[0]['k'] == 'ref':
                return it.call_closure(None, ft, args[1].f, st, selfref=args[0])
            if ft['k'] == 'fndef':
                return it.call(ft['fn'], list(args[1].f), [None] * len(args[1].f), None, st)
            if argtys and argtys[0] and argtys[0]['k'] == 'ref' and ft['k'] == 'ref':
                return closure_call(it, it.read_d(st, args[0]), ft, args[1].f, st)
            return closure_call(it, args[0], ft, args[1].f, st)
    # ---- arrays
    if re.match(r'^(core|std)::array::<impl \[.*; \d+\]>::map::', name):
        fa = it.alloc()
        st.s[fa] = args[1]
        fty = argtys[1]
        out = []
        for x in args[0].f:
            out.append(fn_call(it, fa, fty, [x], st))
            if st.g is c.F:
                return UNDEF
        return Agg('array', out)
    if re.match(r'^(core|std)::array::from_fn::', name):
        n = f['cargs'][0]
        fa = it.alloc()
        st.s[fa] = args[0]
        return Agg('array', [fn_call(it, fa, argtys[0], [c.leaf(i)], st) for i in range(n)])
    if re.match(r'^(core|std)::array::<impl \[.*; \d+\]>::(as_slice|as_mut_slice)$', name):
        n = f['cargs'][0] if f['cargs'] else None
        return c.apply(lambda r: c.leaf(('ref', r[1], r[2], (0, slice_len(it, st, r)))), uid(), args[0])
    if re.search(r'equality::<impl std::cmp::PartialEq(<.*>)? for \[.*\]>::(eq|ne)$', name) or \
            re.search(r'cmp::<impl std::cmp::PartialEq(<.*>)? for \[.*\]>::(eq|ne)$', name) or \
            re.match(r'^<.* as std::array::equality::SpecArrayEq<.*>>::spec_(eq|ne)$', name) or \
            re.match(r'^<\[.*\] as std::cmp::PartialEq.*>::(eq|ne)$', name):
        a, b = it.read_d(st, args[0]), it.read_d(st, args[1])
        et = it.p.types[argtys[0]['e']] if argtys[0] else None
        if et is not None and isinstance(a, Agg) and isinstance(b, Agg) and a.k in ('array', 'vec'):
            r = value_eq(it, a, b, et, st)
            if r is not None:
                return c.not_(r) if name.endswith('ne') else r
        return None
    # ---- clone / copy
    if name.endswith(' as std::clone::Clone>::clone') or re.search(r'impl std::clone::Clone for .*>::clone$', name):
        t = argtys[0]
        if t is not None and t['k'] == 'ref':
            e = it.p.types[t['e']]
            if is_plain(it, e) or e.get('def', '').endswith(('rc::Rc', 'sync::Arc')):
                return it.read_d(st, args[0])
    # ---- mem
    if name.startswith(('std::mem::swap::', 'core::mem::swap::')):
        a, b = it.read_d(st, args[0]), it.read_d(st, args[1])
        it.write_d(st, args[0], b)
        it.write_d(st, args[1], a)
        return UNIT
    if name.startswith(('std::mem::replace::', 'core::mem::replace::')):
        a = it.read_d(st, args[0])
        it.write_d(st, args[0], args[1])
        return a
    if name.startswith(('std::mem::drop', 'std::mem::forget')) or name.startswith('std::ptr::drop_in_place'):
        return UNIT
    if re.match(r'^(core|std)::intrinsics::(assume|cold_path|assert_)', name) or 'precondition_check' in name or \
            name.startswith('core::ub_checks::') or name.startswith('std::hint::assert_unchecked'):
        return UNIT
    if re.match(r'^(core|std)::intrinsics::(likely|unlikely|black_box)', name) or name.startswith('std::hint::black_box') \
            or re.match(r'^(core|std)::hint::(likely|unlikely)', name):
        return args[0]
    if name.startswith('std::intrinsics::discriminant_value'):
        v = it.read_d(st, args[0])
        t = it.p.types[argtys[0]['e']]
        vs = t['variants']
        return c.apply(lambda i: c.leaf(vs[i]['discr']), ('discr', t['s']), v.tag)
    m = re.match(r'^(?:core|std)::intrinsics::integer_(min|max)', name) or re.match(r'^(?:core|std)::cmp::(min|max)::<[iu]', name)
    if m:
        lt = it.binop('Lt', args[0], args[1], argtys[0] or {'k': 'uint', 'bits': 64, 's': 'usize'})
        return c.ite(lt, args[0], args[1]) if m.group(1) == 'min' else c.ite(lt, args[1], args[0])
    m = re.match(r'^(?:core|std)::intrinsics::(saturating_(?:add|sub))::<(\w+)>', name)
    if m:
        return int_fn(it, m.group(2), m.group(1), args, st)
    if re.match(r'^(core|std)::intrinsics::three_way_compare', name):
        a, b = args[0], args[1]
        return En(c.apply(lambda x, y: c.leaf((x > y) - (x < y) + 1), '3way', a, b), {0: (), 1: (), 2: ()})
    # ---- iterators, ranges of slices, growing vectors
    for g in (lambda: iters.model(it, f, args, argtys, dty, st), lambda: iters.slice_index(it, f, args, argtys, st),
              lambda: iters.vec_method(it, f, name, args, argtys, dty, st)):
        r = g()
        if r is not None:
            return r
    # ---- slices
    m = re.match(r'^(core|std)::slice::<impl \[.*?\]>::(\w+)(::<.*)?$', name)
    if m:
        r = slice_method(it, f, m.group(2), args, argtys, dty, st)
        if r is None:
            r = iters.slice_method(it, m.group(2), args, argtys, dty, st)
        if r is not None:
            return r
    m = ITER_RE.match(name)
    if m:
        if m.group(2) == 'IntoIterator':
            return args[0]
        r = iter_method(it, f, m.group(3), args, argtys, st)
        if r is not None:
            return r
    if re.search(r'IntoIterator for &.*\[.*\]>::into_iter$|<&.*\[.*\] as std::iter::IntoIterator>::into_iter$', name):
        return mk_iter(it, st, args[0], 'ref')
    if re.search(r'<&.*std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$', name):
        return mk_iter(it, st, vec_slice(it, st, args[0]), 'ref')
    if re.search(r'<\[.*; \d+\] as std::iter::IntoIterator>::into_iter$|IntoIterator for \[.*; \d+\]>::into_iter$', name) or \
            re.search(r'<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$', name):
        a = it.alloc()
        st.s[a] = args[0] if args[0].k != 'vec' else Agg('array', args[0].f)
        n = len(args[0].f)
        return mk_iter(it, st, c.leaf(('ref', a, (), (0, n))), 'val')
    if re.match(r'^<std::iter::Zip<.*> as (std::iter::)?(Iterator|zip::ZipImpl<.*>)>::next$', name) or \
            re.match(r'^<std::iter::Zip<.*> as .*ZipImpl.*>::next$', name):
        ids = f['targs']
        a = zip_next(it, f, 0, args, argtys, st)
        return a
    # ---- Range<usize>
    if re.match(r'^(std|core)::iter::range::<impl std::iter::Iterator for std::ops::Range<\w+>>::next$', name):
        v = it.read_d(st, args[0])
        s, e = c.restrict(v.f[0], st.g), c.restrict(v.f[1], st.g)
        if all(isinstance(l.v, int) for x in (s, e) for l in c.leaves_of(x)):
            has = c.apply(lambda p, q: c.leaf(p < q), 'iterhas', s, e)
            s2 = c.apply(lambda p, q: c.leaf(p + 1 if p < q else p), 'iterinc', s, e)
            it.write_d(st, args[0], Agg(v.k, [s2, e]))
            return opt(it, has, s)
    # ---- Vec / Rc / Box
    r = heap_method(it, f, name, args, argtys, dty, st)
    if r is not None:
        return r
    if f.get('kind') == 'Shim' and f.get('empty'):
        return UNIT
    return None


def zip_next(it, f, k, args, argtys, st):
    """Zip::next over the two inner iterators (fields a, b)"""
    c = it.c
    zt = it.p.types[argtys[0]['e']]
    inner = zt['targs']
    res = []
    v = it.read_d(st, args[0])
    a = any_next(it, it.p.types[inner[0]], it.ref_ext(args[0], 0), st)
    has_a = c.apply(lambda t: c.leaf(t == 1), 'issome', a.tag)
    s2 = State(c.and_(st.g, has_a), dict(st.s))
    if s2.g is c.F:
        return opt_none(it)
    b = any_next(it, it.p.types[inner[1]], it.ref_ext(args[0], 1), s2)
    j = it.join(s2, State(c.and_(st.g, c.not_(has_a)), st.s)) if c.and_(st.g, c.not_(has_a)) is not c.F else s2
    st.g = j.g
    ns = dict(j.s)
    st.s.clear()
    st.s.update(ns)
    has_b = c.apply(lambda t: c.leaf(t == 1), 'issome', b.tag)
    has = c.and_(has_a, has_b)
    if 1 not in a.pay or 1 not in b.pay:
        return opt_none(it)
    return opt(it, has, Agg('tuple', (a.pay[1][0], b.pay[1][0])))


def any_next(it, t, selfd, st):
    c = it.c
    v = it.read_d(st, selfd)
    if isinstance(v, Agg) and v.k.startswith('Iter_'):
        return iter_next(it, st, selfd)
    # find the Iterator::next instance for this type among the analysed functions
    for g in it.p.fns:
        if g['name'].endswith('::next') and g['targs'] and it.p.types[g['targs'][0]] is t:
            return it.call(g['id'], [selfd], [{'k': 'ref', 'e': it.p.types.index(t)}], None, st)
    ts = t['s']
    for g in it.p.fns:
        if g['name'].endswith('::next') and ts in g['name'] and not g.get('nobody'):
            return it.call(g['id'], [selfd], [{'k': 'ref', 'e': it.p.types.index(t)}], None, st)
    raise Unsupported('next() of %s' % ts)


def vec_slice(it, st, d):
    c = it.c

    def f(r):
        v = it.load(st, r)
        if isinstance(v, Agg):
            return c.leaf(('ref', r[1], r[2], (0, len(v.f))))
        raise Unsupported('vector %r' % (v,))
    return c.apply(f, uid(), c.restrict(d, st.g))


def slice_method(it, f, meth, args, argtys, dty, st):
    c = it.c
    d = c.restrict(it.as_d(args[0]), st.g)
    if meth in ('iter', 'iter_mut'):
        return mk_iter(it, st, d, 'ref')
    if meth == 'len':
        return c.apply(lambda r: c.leaf(slice_len(it, st, r)), uid(), d)
    if meth == 'is_empty':
        return c.apply(lambda r: c.leaf(slice_len(it, st, r) == 0), uid(), d)
    if meth in ('first', 'last', 'first_mut', 'last_mut'):
        n = c.apply(lambda r: c.leaf(slice_len(it, st, r)), uid(), d)
        has = c.apply(lambda k: c.leaf(k > 0), 'pos', n)
        ref = c.apply(lambda r, k: c.leaf(elem(it, r, 0 if meth.startswith('first') else max(k - 1, 0))), uid(), d, n)
        return opt(it, has, ref)
    if meth in ('get', 'get_mut'):
        i = c.restrict(it.as_d(args[1]), st.g)
        if all(isinstance(l.v, int) for l in c.leaves_of(i)):
            has = c.apply(lambda r, k: c.leaf(0 <= k < slice_len(it, st, r)), uid(), d, i)
            ref = c.apply(lambda r, k: c.leaf(elem(it, r, k)), uid(), d, i)
            return opt(it, has, ref)
    if meth in ('get_unchecked', 'get_unchecked_mut'):
        i = c.restrict(it.as_d(args[1]), st.g)
        return c.apply(lambda r, k: c.leaf(elem(it, r, k)), uid(), d, i)
    if meth == 'swap':
        i, j = c.restrict(args[1], st.g), c.restrict(args[2], st.g)
        ri = c.apply(lambda r, k: c.leaf(elem(it, r, k)), uid(), d, i)
        rj = c.apply(lambda r, k: c.leaf(elem(it, r, k)), uid(), d, j)
        a, b = it.read_d(st, ri), it.read_d(st, rj)
        it.write_d(st, ri, b)
        it.write_d(st, rj, a)
        return UNIT
    if meth in ('as_ptr', 'as_mut_ptr'):
        return c.apply(lambda r: c.leaf(elem(it, r, 0)), 'asptr', d)
    if meth in ('split_at', 'split_at_mut') and isinstance(args[1], Leaf):
        k = args[1].v
        return Agg('tuple', [
            c.apply(lambda r: c.leaf(('ref', r[1], r[2], ((r[3][0] if r[3] else 0), k))), uid(), d),
            c.apply(lambda r: c.leaf(('ref', r[1], r[2], ((r[3][0] if r[3] else 0) + k, slice_len(it, st, r) - k))), uid(), d)])
    if meth in ('copy_from_slice', 'clone_from_slice'):
        s = c.restrict(it.as_d(args[1]), st.g)
        if isinstance(d, Leaf) and isinstance(s, Leaf):
            n = slice_len(it, st, d.v)
            for i in range(n):
                it.write_d(st, c.leaf(elem(it, d.v, i)), it.load(st, elem(it, s.v, i)))
            return UNIT
    if meth == 'fill' and isinstance(d, Leaf):
        for i in range(slice_len(it, st, d.v)):
            it.write_d(st, c.leaf(elem(it, d.v, i)), args[1])
        return UNIT
    if meth in ('sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key') and isinstance(d, Leaf):
        n = slice_len(it, st, d.v)
        if n > 12:
            raise Unsupported('sorting %d items' % n)
        fa = it.alloc()
        st.s[fa] = args[1]
        fty = argtys[1]
        at = [c.leaf(elem(it, d.v, i)) for i in range(n)]
        for i in range(1, n):
            for j in range(i, 0, -1):
                if 'key' in meth:
                    ks = [fn_call(it, fa, fty, [at[k]], st) for k in (j - 1, j)]
                    if not all(isinstance(k, (Leaf, Node)) and all(isinstance(l.v, (int, bool)) for l in c.leaves_of(k)) for k in ks):
                        raise Unsupported('sorting by a key that is not an integer')
                    gt = c.apply(lambda x, y: c.leaf(x > y), 'sortgt', *ks)
                else:
                    o = fn_call(it, fa, fty, [at[j - 1], at[j]], st)
                    if st.g is c.F:
                        return UNDEF
                    gt = c.apply(lambda t: c.leaf(t == 2), 'isgreater', o.tag)
                x, y = it.read_d(st, at[j - 1]), it.read_d(st, at[j])
                it.write_d(st, at[j - 1], it.join_val(gt, y, x))
                it.write_d(st, at[j], it.join_val(gt, x, y))
        return UNIT
    if meth == 'reverse' and isinstance(d, Leaf):
        n = slice_len(it, st, d.v)
        vs = [it.load(st, elem(it, d.v, i)) for i in range(n)]
        for i in range(n):
            it.write_d(st, c.leaf(elem(it, d.v, i)), vs[n - 1 - i])
        return UNIT
    return None


def heap_method(it, f, name, args, argtys, dty, st):
    c = it.c
    m = re.match(r'^std::vec::Vec::<(.*)>::(\w+)(::<.*)?$', name)
    if m:
        meth = m.group(2)
        if meth in ('new', 'with_capacity'):
            return Agg('vec', ())
        if meth == 'push':
            v = it.read_d(st, args[0])
            it.write_d(st, args[0], Agg('vec', v.f + (args[1],)))
            return UNIT
        if meth == 'len':
            return c.leaf(len(it.read_d(st, args[0]).f))
        if meth == 'is_empty':
            return c.leaf(len(it.read_d(st, args[0]).f) == 0)
        if meth in ('as_slice', 'as_mut_slice'):
            return vec_slice(it, st, args[0])
        if meth in ('clear',):
            it.write_d(st, args[0], Agg('vec', ()))
            return UNIT
        if meth in ('reserve', 'shrink_to_fit', 'reserve_exact'):
            return UNIT
        if meth == 'insert' and isinstance(args[1], Leaf):
            v = it.read_d(st, args[0])
            i = args[1].v
            it.write_d(st, args[0], Agg('vec', v.f[:i] + (args[2],) + v.f[i:]))
            return UNIT
        if meth == 'pop':
            v = it.read_d(st, args[0])
            if not v.f:
                return opt_none(it)
            it.write_d(st, args[0], Agg('vec', v.f[:-1]))
            return opt_some(it, v.f[-1])
    if re.match(r'^<std::vec::Vec<.*> as std::default::Default>::default$', name):
        return Agg('vec', ())
    if re.match(r'^<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$', name) or \
            re.match(r'^<std::vec::Vec<.*> as std::convert::AsRef<\[.*\]>>::as_ref$', name):
        return vec_slice(it, st, args[0])
    if re.match(r'^<std::vec::Vec<.*> as std::ops::Index(Mut)?<usize>>::index(_mut)?$', name):
        i = c.restrict(args[1], st.g)
        n = c.apply(lambda r: c.leaf(len(it.load(st, r).f)), uid(), args[0])
        bad = c.and_(st.g, c.apply(lambda k, q: c.leaf(not 0 <= k < q), 'oob', i, n))
        if bad is not c.F:
            it.panic(State(bad, {}), 'index out of bounds')
            st.g = c.and_(st.g, c.not_(bad))
        return c.apply(lambda r, k: c.leaf(('ref', r[1], r[2] + (k,), None)), uid(), args[0], i)
    if re.match(r'^std::(rc::Rc|sync::Arc|boxed::Box)::<.*>::new$', name):
        a = it.alloc()
        st.s[a] = args[0]
        return c.leaf(('ref', a, (), None))
    if re.match(r'^<std::(rc::Rc|sync::Arc|boxed::Box)<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$', name) or \
            re.match(r'^<std::(rc::Rc|sync::Arc|boxed::Box)<.*> as std::(convert::AsRef|borrow::Borrow)<.*>>::(as_ref|borrow)$', name):
        return it.as_d(it.read_d(st, args[0]))
    if re.match(r'^<std::(rc::Rc|sync::Arc)<.*> as std::clone::Clone>::clone$', name) or re.match(r'^std::rc::Rc::<.*>::clone$', name):
        return it.read_d(st, args[0])
    return None
