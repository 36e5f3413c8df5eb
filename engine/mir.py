"""Forward value-flow analysis over monomorphised MIR.

Blocks are visited in loop-nest order; states meeting at a block are joined by
gating their values on the branch conditions (gated single assignment), so
there is no enumeration of paths.  Loops are followed as long as constant
propagation does not close them; calls are analysed in context.
"""
import json
import re
from fractions import Fraction
from core import *


class Agg:
    __slots__ = ('k', 'f')

    def __init__(self, k, f):
        self.k = k
        self.f = tuple(f)

    def __repr__(self):
        return '%s%r' % (self.k, self.f)


class En:
    """enum value: tag diagram over variant indices + payload per variant"""
    __slots__ = ('tag', 'pay')

    def __init__(self, tag, pay):
        self.tag = tag
        self.pay = pay

    def __repr__(self):
        return 'En(%r,%r)' % (self.tag, self.pay)


class Undef:
    def __repr__(self):
        return 'undef'


class Opaque:
    """a value no computation looks into (format arguments, ...)"""

    def __repr__(self):
        return 'opaque'


UNDEF = Undef()
OPAQUE = Opaque()
UNIT = Agg('tuple', ())


class Aff:
    """integer  n + k  (or  s*n + k) where n ranges over [lo, hi]"""
    __slots__ = ('s', 'k', 'lo', 'hi')

    def __init__(self, k, lo, hi, s=1):
        self.k, self.lo, self.hi, self.s = k, lo, hi, s

    def __eq__(self, o):
        return isinstance(o, Aff) and (self.s, self.k, self.lo, self.hi) == (o.s, o.k, o.lo, o.hi)

    def __hash__(self):
        return hash((self.s, self.k, self.lo, self.hi))

    def __repr__(self):
        return '(%dn%+d | n in [%#x,%#x])' % (self.s, self.k, self.lo, self.hi)

    def rng(self):
        a, b = self.s * self.lo + self.k, self.s * self.hi + self.k
        return (a, b) if a <= b else (b, a)


class Split(Unsupported):
    """the answer differs within the input range: decide it separately for n < at and n >= at"""

    def __init__(self, at, why=''):
        super().__init__(why)
        self.at = at


def cut(x, v, why=''):
    """split the input range between the values of x below v and those from v on"""
    n = v - x.k if x.s == 1 else x.k - v + 1
    if x.s in (1, -1) and x.lo < n <= x.hi:
        raise Split(n, why)
    raise Unsupported(why)


class FB:
    """the float whose bit pattern is the unsigned integer value u"""
    __slots__ = ('u', 'bits')

    def __init__(self, u, bits):
        self.u, self.bits = u, bits

    def __eq__(self, o):
        return isinstance(o, FB) and self.u == o.u and self.bits == o.bits

    def __hash__(self):
        return hash((self.u, self.bits))

    def __repr__(self):
        return 'fromBits(%r)' % (self.u,)


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = d['fns']
        self.types = d['types']
        self.roots = {n: i for n, i in d['roots']}
        self.impls = {(a, b): x for a, b, x in d.get('impls', [])}
        self.cfg = {}

    def loops(self, fid):
        """rpo numbers and, per block, the list of enclosing loop headers"""
        r = self.cfg.get(fid)
        if r:
            return r
        blocks = self.fns[fid]['blocks']
        n = len(blocks)
        succ = [self.succ(b[1]) for b in blocks]
        order, state = [], [0] * n
        st = [(0, iter(succ[0]))]
        state[0] = 1
        back = []
        while st:
            b, it = st[-1]
            for s in it:
                if state[s] == 0:
                    state[s] = 1
                    st.append((s, iter(succ[s])))
                    break
                if state[s] == 1:
                    back.append((b, s))
            else:
                state[b] = 2
                order.append(b)
                st.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        pred = {}
        for b in order:
            for s in succ[b]:
                pred.setdefault(s, []).append(b)
        body = {}
        for t, h in back:
            s = body.setdefault(h, {h})
            work = [t]
            while work:
                x = work.pop()
                if x in s:
                    continue
                s.add(x)
                work.extend(pred.get(x, ()))
        nest = {b: sorted((h for h in body if b in body[h]), key=lambda h: rpo[h]) for b in order}
        r = (rpo, nest, set(back))
        self.cfg[fid] = r
        return r

    @staticmethod
    def succ(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + ([t[3]] if t[3] >= 0 else [])
        if k == 'call':
            return [t[4]] if t[4] >= 0 else []
        if k == 'assert':
            return [t[3]]
        if k == 'drop':
            return [t[2]]
        return []


class State:
    __slots__ = ('g', 's')

    def __init__(self, g, s):
        self.g, self.s = g, s


class Interp:
    MAX_ITER = 1100

    def __init__(self, prog, ctx):
        self.p = prog
        self.c = ctx
        self.wide = {}
        self.next_alloc = 0
        self.panics = []            # (guard, function, message)
        self.visited = set()
        self.steps = 0
        self.calls = 0
        self.stack = []
        self.hooks = []             # fn(interp, fninfo, args, argtys, dty, state) -> value | None
        self.abstract = None        # type -> bool: values read as a single scalar
        self.rounding = False       # mark the results of float operations as inexact
        self.statics_read = set()
        self.warn = []
        import models
        self.models = models

    # ------------------------------------------------------------- values
    def sym(self, tid, name, mk=None):
        """fresh symbolic value of a type; mk(name, bits) may supply leaves"""
        t = self.p.types[tid]
        k = t['k']
        c = self.c
        if self.abstract is not None and self.abstract(t):
            # the whole value is one scalar
            v = mk(name, 0) if mk else None
            return v if v is not None else c.leaf(c.var(name))
        if k == 'float':
            bits = 32 if t['f'] == 'F32' else 64
            v = mk(name, bits) if mk else None
            return v if v is not None else c.leaf(c.var(name))
        if k in ('int', 'uint'):
            v = mk(name, t['bits']) if mk else None
            return v if v is not None else c.leaf(c.var(name))
        if k == 'bool':
            return c.opq_bool(name)
        if k == 'array':
            return Agg('array', [self.sym(t['e'], '%s[%d]' % (name, i), mk) for i in range(t['n'])])
        if k == 'tuple':
            return Agg('tuple', [self.sym(x, '%s.%d' % (name, i), mk) for i, x in enumerate(t['ts'])])
        if k == 'ref':
            a = self.alloc()
            self.init_store[a] = self.sym(t['e'], name, mk)
            return c.leaf(('ref', a, (), None))
        if k == 'adt' and t['adt'] == 'Struct':
            return Agg(t['s'], [self.sym(x, '%s.%s' % (name, n), mk) for n, x in t['variants'][0]['fields']])
        raise Unsupported('symbolic value of type %s' % t['s'])

    def alloc(self):
        self.next_alloc += 1
        return self.next_alloc

    def join_val(self, g, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if a is OPAQUE or b is OPAQUE:
            return OPAQUE
        if isinstance(a, (Leaf, Node)) and isinstance(b, (Leaf, Node)):
            return self.c.ite(g, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if len(a.f) != len(b.f):
                if a.k == b.k == 'vec':
                    return OPAQUE       # of a length that depends on the path: may be dropped, not looked into
                raise Unsupported('join of aggregates of different shape')
            return Agg(a.k, [self.join_val(g, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, En) and isinstance(b, En):
            pay = {}
            for v in set(a.pay) | set(b.pay):
                pa, pb = a.pay.get(v), b.pay.get(v)
                if pa is None:
                    pay[v] = pb
                elif pb is None:
                    pay[v] = pa
                else:
                    pay[v] = tuple(self.join_val(g, x, y) for x, y in zip(pa, pb))
            return En(self.c.ite(g, a.tag, b.tag), pay)
        raise Unsupported('join of %s and %s' % (type(a).__name__, type(b).__name__))

    def join(self, s1, s2):
        g = s1.g
        out = {}
        for k in s1.s.keys() | s2.s.keys():
            a, b = s1.s.get(k, UNDEF), s2.s.get(k, UNDEF)
            out[k] = a if a is b else self.join_val(g, a, b)
        return State(self.c.or_(s1.g, s2.g), out)

    def dcase(self, d, f):
        """map leaves of a diagram to arbitrary values and join"""
        if isinstance(d, Leaf):
            return f(d.v)
        memo = {}

        def conds(d):
            # list of (leaf value, condition diagram)
            res = {}
            for l in self.c.leaves_of(d):
                res[l.id] = (l.v, self.c.apply(lambda v, w=l.v: self.c.T if v == w and type(v) == type(w) else self.c.F,
                                               ('iseq', l.id), d))
            return list(res.values())
        cs = conds(d)
        out = f(cs[-1][0])
        for v, g in reversed(cs[:-1]):
            out = self.join_val(g, f(v), out)
        return out

    # ------------------------------------------------------------- constants
    def const(self, tid, cv, st):
        t = self.p.types[tid]
        return self.cval(t, cv, st)

    def cval(self, t, cv, st):
        c = self.c
        k = t['k']
        tag = cv[0]
        if tag == 'zst':
            if k == 'fndef':
                return c.leaf(('fn', t['fn']))
            if k == 'closure':
                return Agg('closure', ())
            if k == 'adt':
                if t['adt'] == 'Enum':
                    return En(c.leaf(0), {0: ()})
                return Agg(t['s'], [self.cval(self.p.types[x], ['zst'], st) for _, x in t['variants'][0]['fields']])
            if k == 'array':
                return Agg('array', [self.cval(self.p.types[t['e']], ['zst'], st)] * max(t['n'], 0))
            if k == 'tuple':
                return Agg('tuple', [self.cval(self.p.types[x], ['zst'], st) for x in t['ts']])
            return UNIT
        if tag == 'bits':
            b = int(cv[1])
            if k == 'float':
                bits = 32 if t['f'] == 'F32' else 64
                return c.leaf(c.fconst(bits_to_const(b, bits), bits))
            if k == 'bool':
                return c.T if b else c.F
            if k == 'int' and b >> (t['bits'] - 1) & 1:
                b -= 1 << t['bits']
            return c.leaf(b)
        if tag == 'arr':
            return Agg('array', [self.cval(self.p.types[t['e']], x, st) for x in cv[1]])
        if tag == 'agg':
            if k == 'tuple':
                return Agg('tuple', [self.cval(self.p.types[x], y, st) for x, y in zip(t['ts'], cv[2])])
            if k == 'adt':
                fs = t['variants'][cv[1]]['fields']
                vals = [self.cval(self.p.types[x], y, st) for (_, x), y in zip(fs, cv[2])]
                if t['adt'] == 'Enum':
                    return En(c.leaf(cv[1]), {cv[1]: tuple(vals)})
                return Agg(t['s'], vals)
        if tag == 'ref':
            a = self.alloc()
            e = self.p.types[t['e']]
            meta = None
            if e['k'] == 'slice':
                v = Agg('array', [self.cval(self.p.types[e['e']], x, st) for x in cv[1][1]])
                meta = (0, len(v.f))
            else:
                v = self.cval(e, cv[1], st)
            st.s[a] = v
            return c.leaf(('ref', a, (), meta))
        if tag == 'fn':
            return c.leaf(('fn', cv[1]))
        if tag == 'str':
            return c.leaf(('str',))
        if tag == 'static':
            self.statics_read.add(cv[1])
            return OPAQUE
        return OPAQUE

    # ------------------------------------------------------------- places
    def place_ref(self, st, fr, pl):
        """diagram of references denoting the place"""
        local, proj = pl
        d = self.c.leaf(('ref', fr[local], (), None))
        for pr in proj:
            k = pr[0]
            if k == 'deref':
                d = self.c.restrict(self.as_d(self.read_d(st, d)), st.g)
            elif k == 'field':
                d = self.ref_ext(d, pr[1])
            elif k == 'index':
                i = self.c.restrict(st.s[fr[pr[1]]], st.g)

                def f(r, ix):
                    if not isinstance(ix, int):
                        raise Unsupported('index %r is not a constant' % (ix,))
                    m = r[3]
                    off = m[0] if isinstance(m, tuple) and len(m) == 2 and m[0] != 'dyn' else 0
                    return self.c.leaf(('ref', r[1], r[2] + (off + ix,), None))
                d = self.c.apply(f, 'refindex', d, i)
            elif k == 'cindex':
                def f(r):
                    m = r[3]
                    off, n = m if isinstance(m, tuple) else (0, None)
                    if pr[2]:
                        if n is None:
                            n = len(self.load(st, r).f)
                        ix = n - pr[1]
                    else:
                        ix = pr[1]
                    return self.c.leaf(('ref', r[1], r[2] + (off + ix,), None))
                d = self.c.apply(f, self.models.uid(), d)
            elif k == 'sub':
                def f(r):
                    m = r[3]
                    off, n = m if isinstance(m, tuple) else (0, len(self.load(st, r).f))
                    hi = n - pr[2] if pr[3] else pr[2]
                    return self.c.leaf(('ref', r[1], r[2], (off + pr[1], hi - pr[1])))
                d = self.c.apply(f, self.models.uid(), d)
            elif k == 'down':
                d = self.ref_ext(d, ('v', pr[1]))
            elif k == 'ocast':
                pass
            else:
                raise Unsupported('projection %s' % k)
        return d

    def ref_ext(self, d, x):
        def f(r):
            if not (isinstance(r, tuple) and r[0] == 'ref'):
                raise Unsupported('projection through %r' % (r,))
            return self.c.leaf(('ref', r[1], r[2] + (x,), None))
        return self.c.apply(f, ('refext', x), d)

    def as_d(self, v):
        if isinstance(v, Agg) and len(v.f) >= 1 and v.k != 'array':
            # Box / NonNull / Unique style wrappers around a reference
            return self.as_d(v.f[0])
        if not isinstance(v, (Leaf, Node)):
            raise Unsupported('scalar expected, got %r' % (v,))
        return v

    def load(self, st, r):
        if not (isinstance(r, tuple) and r[0] == 'ref'):
            raise Unsupported('dereference of %r' % (r,))
        v = st.s.get(r[1], UNDEF)
        for x in r[2]:
            v = self.proj(v, x)
        if isinstance(r[3], tuple) and r[3] and r[3][0] != 'dyn' and isinstance(v, Agg):
            off, n = r[3]
            if not (off == 0 and n == len(v.f)):
                v = Agg('array', v.f[off:off + n])
        return v

    def proj(self, v, x):
        if v is UNDEF or v is OPAQUE:
            return v
        if isinstance(x, tuple):
            if isinstance(v, En):
                return ('pay', v, x[1])
            return v
        if isinstance(v, tuple) and v[0] == 'pay':
            p = v[1].pay.get(v[2])
            if p is None:
                return UNDEF
            return p[x] if x < len(p) else UNIT
        if isinstance(v, Agg):
            if x >= len(v.f):
                if v.k == 'closure':
                    raise Unsupported('closure field')
                return UNDEF
            return v.f[x]
        if isinstance(v, (Leaf, Node)) and x == 0:
            return v       # transparent pointer wrappers
        raise Unsupported('projection %r of %r' % (x, v))

    def read_d(self, st, d):
        d = self.c.restrict(d, st.g)
        return self.dcase(d, lambda r: self.load(st, r))

    def read(self, st, fr, pl):
        if not pl[1]:
            return st.s.get(fr[pl[0]], UNDEF)
        return self.read_d(st, self.place_ref(st, fr, pl))

    def upd(self, v, path, new, hint=None):
        if not path:
            return new
        x = path[0]
        if isinstance(x, tuple):
            # downcast: update payload field
            i = path[1]
            if v is UNDEF:
                v = En(self.c.leaf(x[1]), {})
            pay = dict(v.pay)
            fs = list(pay.get(x[1], ()))
            while len(fs) <= i:
                fs.append(UNDEF)
            fs[i] = self.upd(fs[i], path[2:], new)
            pay[x[1]] = tuple(fs)
            return En(v.tag, pay)
        if v is UNDEF:
            fs = [UNDEF] * (x + 1)
            fs[x] = self.upd(UNDEF, path[1:], new)
            return Agg('?', fs)
        if isinstance(v, Agg):
            fs = list(v.f)
            while len(fs) <= x:
                fs.append(UNDEF)
            fs[x] = self.upd(fs[x], path[1:], new)
            return Agg(v.k, fs)
        if v is OPAQUE:
            return OPAQUE
        raise Unsupported('update of %r' % (v,))

    def write_d(self, st, d, val):
        d = self.c.restrict(d, st.g)
        if isinstance(d, Leaf):
            r = d.v
            if not (isinstance(r, tuple) and r[0] == 'ref'):
                raise Unsupported('write through %r' % (r,))
            st.s[r[1]] = self.upd(st.s.get(r[1], UNDEF), r[2], val)
            return
        for l in self.c.leaves_of(d):
            r = l.v
            if not (isinstance(r, tuple) and r[0] == 'ref'):
                raise Unsupported('write through %r' % (r,))
            g = self.c.apply(lambda v, w=r: self.c.T if v == w else self.c.F, ('iseq', l.id), d)
            old = self.load(st, r)
            st.s[r[1]] = self.upd(st.s.get(r[1], UNDEF), r[2], self.join_val(g, val, old))

    def write(self, st, fr, pl, val):
        if not pl[1]:
            st.s[fr[pl[0]]] = val
        else:
            self.write_d(st, self.place_ref(st, fr, pl), val)

    # ------------------------------------------------------------- operands
    def widened(self, d):
        """a float that is one of many: any float at all (the same for the same diagram)"""
        w = self.wide.get(d.id)
        if w is None:
            ls = self.c.leaves_of(d)
            w = d
            if len(ls) > self.c.widen and all(isinstance(l.v, E) for l in ls):
                w = self.c.leaf(self.c.var('~%d' % d.id))
            self.wide[d.id] = w
        return w

    def operand(self, st, fr, o):
        k = o[0]
        if k in ('copy', 'move'):
            v = self.read(st, fr, o[1])
            return self.widened(v) if self.c.widen and isinstance(v, Node) else v
        if k == 'const':
            return self.const(o[1], o[2], st)
        if k == 'rtcheck':
            return self.c.F
        raise Unsupported('operand %s' % k)

    # ------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        c = self.c
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k in ('ref', 'addr', 'reborrow'):
            return self.place_ref(st, fr, r[1])
        if k == 'bin' or k == 'cbin':
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            t = self.p.types[r[4]]
            if k == 'cbin':
                return self.checked(r[1], a, b, t)
            return self.binop(r[1], a, b, t)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            t = self.p.types[r[3]]
            return self.unop(r[1], a, t, st)
        if k == 'agg':
            ops = [self.operand(st, fr, x) for x in r[3]]
            if r[1] == 'array':
                return Agg('array', ops)
            if r[1] == 'tuple':
                return Agg('tuple', ops)
            if r[1] == 'closure':
                return Agg('closure', ops)
            if r[1] == 'adt':
                t = self.p.types[r[2]]
                if t['adt'] == 'Enum':
                    return En(c.leaf(r[4]), {r[4]: tuple(ops)})
                return Agg(t['s'], ops)
            if r[1] == 'rawptr':
                return self.models.raw_ptr(self, ops)
            raise Unsupported('aggregate %s' % r[1])
        if k == 'cast':
            return self.models.cast(self, r[1], self.operand(st, fr, r[2]), self.p.types[r[3]], self.p.types[r[4]], st)
        if k == 'discr':
            v = self.read(st, fr, r[1])
            if isinstance(v, En):
                t = self.p.types[r[2]]
                if t['k'] == 'adt':
                    vs = t['variants']
                    return c.apply(lambda i: c.leaf(vs[i]['discr']), ('discr', r[2]), v.tag)
                return v.tag
            if v is UNDEF:
                # zero-sized enum (Option<!> and the like): only one variant has values
                vs = [x for x in self.p.types[r[2]].get('variants', ())
                      if not any(self.never(self.p.types[y]) for _, y in x['fields'])]
                if len(vs) == 1:
                    return c.leaf(vs[0]['discr'])
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'len':
            v = self.read(st, fr, r[1])
            return c.leaf(len(v.f))
        if k == 'repeat':
            return Agg('array', [self.operand(st, fr, r[1])] * r[2])
        if k == 'tls':
            self.statics_read.add(r[1])
            return OPAQUE
        raise Unsupported('rvalue %s' % k)

    def never(self, t):
        return t['k'] == 'never' or t['k'] == 'adt' and t['adt'] == 'Enum' and not t['variants']

    def unop(self, op, a, t, st):
        c = self.c
        if op == 'Not':
            if t['k'] == 'bool':
                return c.not_(a)
            n = t['bits']
            sgn = t['k'] == 'int'

            def f(x):
                if isinstance(x, Aff):
                    return c.leaf(Aff(((1 << n) - 1) - x.k, x.lo, x.hi, -x.s))
                return c.leaf(~x if sgn else (~x) & ((1 << n) - 1))
            return c.apply(f, ('not', n, sgn), a)
        if op == 'Neg':
            if t['k'] == 'float':
                def f(x):
                    if isinstance(x, FB):
                        return c.leaf(FB(flip_sign(x), x.bits))
                    return c.leaf(c.neg(x))
                return c.apply(f, 'fneg', a)
            return c.apply(lambda x: c.leaf(-x if isinstance(x, int) else Aff(-x.k, x.lo, x.hi, -x.s)
                                            if isinstance(x, Aff) else c.neg(x)), 'ineg', a)
        if op == 'PtrMetadata':
            def f(r):
                if isinstance(r[3], tuple):
                    return c.leaf(r[3][1])
                return c.leaf(('unit',))
            return c.apply(f, 'ptrmeta', a)
        raise Unsupported('unary %s' % op)

    def checked(self, op, a, b, t):
        c = self.c
        v = self.binop(op, a, b, t, wrap=False)

        def ov(x):
            if isinstance(x, int):
                lo, hi = int_range(t)
                return c.leaf(not lo <= x <= hi)
            if isinstance(x, Aff):
                lo, hi = int_range(t)
                l, h = x.rng()
                if lo <= l and h <= hi:
                    return c.F
                if h < lo or l > hi:
                    return c.T
                cut(x, lo if l < lo else hi + 1, 'overflow undecided for %r' % x)
            if isinstance(x, E) and c.int_range:
                lo, hi = int_range(t)
                return c.or_(c.rel('Lt', x, c.c(lo)), c.rel('Gt', x, c.c(hi)))
            return c.F
        return Agg('tuple', (v, c.apply(ov, ('ov', t['s']), v)))

    def binop(self, op, a, b, t, wrap=True):
        c = self.c
        op = op.replace('Unchecked', '')
        if a is OPAQUE or b is OPAQUE:
            raise Unsupported('operation on an opaque value')
        if t['k'] == 'float':
            bits = 32 if t['f'] == 'F32' else 64
            r = c.apply(lambda x, y: self.fbin(op, x, y, bits), ('fbin', op, bits), self.as_d(a), self.as_d(b))
            return self.rounded(r) if op in ('Add', 'Sub', 'Mul', 'Div') else r
        if t['k'] == 'bool':
            if op == 'BitAnd':
                return c.and_(a, b)
            if op == 'BitOr':
                return c.or_(a, b)
            if op in ('BitXor', 'Ne'):
                return c.ite(a, c.not_(b), b)
            if op == 'Eq':
                return c.ite(a, b, c.not_(b))
        if op == 'Offset':
            return c.apply(lambda r, i: self.models.ptr_add(self, r, i), ('offset',), a, b)
        a, b = self.as_d(a), self.as_d(b)
        if op == 'Cmp':
            lt = self.binop('Lt', a, b, t)
            eq = self.binop('Eq', a, b, t)
            return En(c.ite(lt, c.leaf(0), c.ite(eq, c.leaf(1), c.leaf(2))), {0: (), 1: (), 2: ()})
        return c.apply(lambda x, y: self.ibin(op, x, y, t, wrap), ('ibin', op, t['s'], wrap), a, b)

    def rounded(self, d):
        """result of a float operation where rounding matters"""
        if not self.rounding:
            return d
        c = self.c
        return c.apply(lambda x: c.leaf(x if x.op in ('c', 'v') or x.op == 'neg' and x.args[0].op == 'v' else c.fn('rounded', x)), 'rounded', d)

    def fbin(self, op, x, y, bits):
        c = self.c
        if isinstance(x, FB) or isinstance(y, FB):
            return fb_bin(self, op, x, y)
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            return c.rel(op, x, y)
        f = {'Add': c.add, 'Sub': c.sub, 'Mul': c.mul, 'Div': c.div}.get(op)
        if f:
            r = f(x, y, bits)
            if r is not None:
                return c.leaf(r)
            # needs the sign of the non-infinite / dividend operand
            o = x if op == 'Div' and c._num(y) is not None else (y if c._isinf(x) else x)
            d = c.cmp(o, c.c(0))

            def g(k):
                if k == UN or k == EQ:
                    return c.leaf(c.c(NAN))
                s = 1 if k == GT else -1
                rep = c.c(s)
                return c.leaf(f(rep if o is x else x, rep if o is y else y, bits))
            return c.apply(g, ('infsplit', op, x.id, y.id, bits), d)
        if op == 'Rem':
            return c.leaf(c.fn('rem', x, y))
        raise Unsupported('float op %s' % op)

    def ibin(self, op, x, y, t, wrap):
        c = self.c
        if isinstance(x, Aff) or isinstance(y, Aff):
            return aff_bin(self, op, x, y, t, wrap)
        if isinstance(x, tuple) or isinstance(y, tuple):
            if op == 'Eq':
                return c.leaf(x == y)
            if op == 'Ne':
                return c.leaf(x != y)
            if op == 'BitAnd' and isinstance(x, tuple) and x[0] == 'ref' and isinstance(y, int) and y < 64:
                return c.leaf(0)        # alignment check of a reference
            raise Unsupported('pointer op %s' % op)
        if isinstance(x, bool):
            x = int(x)
        if isinstance(y, bool):
            y = int(y)
        if isinstance(x, E) or isinstance(y, E):
            x = x if isinstance(x, E) else c.c(x)
            y = y if isinstance(y, E) else c.c(y)
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                return c.rel(op, x, y)
            f = {'Add': c.add, 'Sub': c.sub, 'Mul': c.mul}.get(op)
            if f:
                return c.leaf(f(x, y))
            if op in ('Div', 'Rem'):
                return c.leaf(c.fn('i' + op.lower(), x, y))
            raise Unsupported('symbolic integer op %s' % op)
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            return c.leaf({'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Eq': x == y, 'Ne': x != y}[op])
        if op in ('Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Div', 'Rem'):
            if op in ('Shl', 'Shr'):
                y %= t['bits']
            if op in ('Div', 'Rem') and y == 0:
                return c.leaf(0)
            r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'BitAnd': lambda: x & y,
                 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y,
                 'Div': lambda: tdiv(x, y), 'Rem': lambda: x - y * tdiv(x, y)}[op]()
            if wrap or op in ('Shl',):
                r = wrap_int(r, t)
            return c.leaf(r)
        raise Unsupported('integer op %s' % op)

    # ------------------------------------------------------------- functions
    def call(self, fid, args, argtys, dty, st):
        """returns value (st updated in place; st.g may shrink to False)"""
        f = self.p.fns[fid]
        for h in self.hooks:
            r = h(self, f, args, argtys, dty, st)
            if r is not None:
                self.visited.add(fid)
                return r
        if f['kind'].startswith('Virtual'):
            return self.call_virtual(f, fid, args, argtys, dty, st)
        r = self.models.model(self, f, args, argtys, dty, st)
        if r is not None:
            return r
        if f.get('nobody'):
            if f.get('empty'):
                return UNIT
            r = self.models.iters.constructor(self, f, args)
            if r is not None:
                return r
            raise Unsupported('no body for %s' % f['name'])
        return self.run(fid, args, st)

    def panic(self, st, msg):
        where = [self.p.fns[i]['name'] for i in self.stack]
        loc = ''
        for i in reversed(self.stack):
            if self.p.fns[i]['krate'] in ('scarlet',):
                loc = self.p.fns[i]['name']
                break
        self.panics.append((st.g, loc, msg))
        st.g = self.c.F

    def trace(self):
        return [self.p.fns[i]['name'] for i in self.stack]

    def run(self, fid, args, st, untupled=False):
        f = self.p.fns[fid]
        if not untupled and f['def'].rsplit('::', 1)[-1].startswith('{closure') and len(args) == 2 and \
                isinstance(args[1], Agg) and args[1].k == 'tuple' and f['spread'] < 0:
            args = [args[0]] + list(args[1].f)
        if len(self.stack) > 2500:
            raise Unsupported('call depth in %s' % f['name'])
        self.visited.add(fid)
        self.stack.append(fid)
        self.calls += 1
        try:
            return self._run(f, fid, args, st)
        finally:
            self.stack.pop()

    def _run(self, f, fid, args, st):
        c = self.c
        rpo, nest, back = self.p.loops(fid)
        fr = {}
        for i in range(len(f['locals'])):
            fr[i] = self.alloc()
        s0 = State(st.g, st.s)
        argc = f['argc']
        if f['spread'] >= 0 and len(args) != argc:
            k = f['spread'] - 1
            args = list(args[:k]) + [Agg('tuple', args[k:])]
        if len(args) != argc:
            raise Unsupported('arity of %s: %d vs %d' % (f['name'], len(args), argc))
        for i, a in enumerate(args):
            s0.s[fr[i + 1]] = a
        pend = {}
        iters = {}

        def key(b, it):
            k = []
            for h in nest[b]:
                k.append(rpo[h])
                k.append(it[h])
            k.append(rpo[b])
            return tuple(k)

        def push(b, it, s):
            if s.g is c.F:
                return
            it = {h: it[h] for h in nest[b]}
            k = key(b, it)
            if k in pend:
                pend[k] = (b, it, self.join(pend[k][2], s))
            else:
                pend[k] = (b, it, s)

        def go(src, dst, it, s):
            it = dict(it)
            if (src, dst) in back:
                it[dst] = it[dst] + 1
                if it[dst] > self.MAX_ITER:
                    raise Unsupported('loop in %s does not close' % f['name'])
            else:
                for h in nest[dst]:
                    if h == dst and h not in nest[src]:
                        it[h] = 0
            for h in nest[dst]:
                it.setdefault(h, 0)
            push(dst, it, s)

        push(0, {h: 0 for h in nest[0]}, s0)
        ret = None
        blocks = f['blocks']
        while pend:
            k = min(pend)
            b, it, s = pend.pop(k)
            s = State(s.g, dict(s.s))
            self.steps += 1
            stmts, term = blocks[b]
            for q in stmts:
                if q[0] == '=':
                    v = self.rvalue(s, fr, q[2])
                    if q[2][0] == 'discr' and not q[1][1]:
                        t = self.p.types[f['locals'][q[1][0]]]
                        if t['k'] == 'int':
                            v = c.apply(lambda i: c.leaf(wrap_int(i, t)), ('sdiscr', t['bits']), v)
                    self.write(s, fr, q[1], v)
                elif q[0] == 'setd':
                    v = self.read(s, fr, q[1])
                    self.write(s, fr, q[1], En(c.leaf(q[2]), v.pay if isinstance(v, En) else {}))
                else:
                    raise Unsupported('statement %s' % q[0])
            tk = term[0]
            if tk == 'goto':
                go(b, term[1], it, s)
            elif tk == 'return':
                v = s.s.get(fr[0], UNDEF)
                for a in fr.values():
                    s.s.pop(a, None)
                if ret is None:
                    ret = (v, s)
                else:
                    g = ret[1].g
                    ret = (self.join_val(g, ret[0], v), self.join(ret[1], s))
            elif tk == 'switch':
                d = self.operand(s, fr, term[1])
                d = c.restrict(self.as_d(d), s.g)
                t = self.p.types[term[4]]
                rest = s.g
                for vs, tgt in term[2]:
                    v = int(vs)
                    if t['k'] == 'int' and v >> (t['bits'] - 1) & 1:
                        v -= 1 << t['bits']
                    if t['k'] == 'int' and v < 0:
                        vv = (v, v + (1 << t['bits']))
                    else:
                        vv = (v,)

                    def f2(x, vv=vv):
                        if isinstance(x, bool):
                            return c.leaf(int(x) in vv)
                        if isinstance(x, int):
                            return c.leaf(x in vv)
                        if isinstance(x, Aff):
                            lo, hi = x.rng()
                            if lo == hi:
                                return c.leaf(lo in vv)
                            if vv[0] < lo or vv[0] > hi:
                                return c.F
                            cut(x, vv[0] if vv[0] > lo else vv[0] + 1, 'switch on %r' % x)
                        if isinstance(x, E):
                            return c.rel('Eq', x, c.c(vv[0]))
                        raise Unsupported('switch on %r' % (x,))
                    g = c.apply(f2, ('sw', vv), d)
                    gt = c.and_(rest, g)
                    if gt is not c.F:
                        go(b, tgt, it, State(gt, dict(s.s)))
                    rest = c.and_(rest, c.not_(g))
                if rest is not c.F and term[3] >= 0:
                    go(b, term[3], it, State(rest, s.s))
            elif tk == 'call':
                self.term_call(s, fr, term, lambda s2: go(b, term[4], it, s2) if term[4] >= 0 else None)
            elif tk == 'assert':
                d = c.restrict(self.operand(s, fr, term[1]), s.g)
                ok = d if term[2] else c.not_(d)
                bad = c.and_(s.g, c.not_(ok))
                if bad is not c.F:
                    self.panic(State(bad, {}), term[4])
                good = c.and_(s.g, ok)
                go(b, term[3], it, State(good, s.s))
            elif tk == 'drop':
                go(b, term[2], it, s)
            elif tk in ('unreachable', 'resume', 'abort'):
                if tk == 'abort':
                    self.panic(s, 'abort')
            else:
                raise Unsupported('terminator %s' % tk)
        if ret is None:
            st.g = c.F
            return UNDEF
        st.g = ret[1].g
        st.s.clear()
        st.s.update(ret[1].s)
        return ret[0]

    def term_call(self, s, fr, term, cont):
        c = self.c
        f, aops, dest, tgt, atys, dty, line = term[1:]
        args = [self.operand(s, fr, o) for o in aops]
        dt = self.p.types[dty] if dty >= 0 else None
        ats = [self.p.types[i] if i >= 0 else None for i in atys]
        if f[0] == 'fn':
            v = self.call(f[1], args, ats, dt, s)
        elif f[0] == 'ptr':
            v = self.call_value(self.operand(s, fr, f[1]), args, ats, dt, s)
        else:
            raise Unsupported('unresolved callee %s' % f[1])
        if s.g is c.F:
            return
        self.write(s, fr, dest, v)
        cont(s)

    def call_value(self, fv, args, ats, dt, s, tt=None):
        """call a closure / fn item / fn pointer value (possibly behind refs)"""
        c = self.c
        if isinstance(fv, Agg) and fv.k == 'closure':
            if tt is None:
                raise Unsupported('closure of unknown type')
            return self.call_closure(fv, tt, args, s)
        d = c.restrict(self.as_d(fv), s.g)
        if isinstance(d, Leaf) and isinstance(d.v, tuple) and d.v[0] == 'fn':
            return self.call(d.v[1], args, ats or [None] * len(args), dt, s)
        if isinstance(d, Leaf) and isinstance(d.v, tuple) and d.v[0] == 'ref':
            inner = self.load(s, d.v)
            return self.call_value(('byref', d, inner) if False else inner, args, ats, dt, s,
                                   tt=self.p.types[tt['e']] if tt and tt['k'] == 'ref' else tt)
        if isinstance(d, Node):
            out = None
            gs = s.g
            res = []
            for l in c.leaves_of(d):
                g = c.and_(gs, c.apply(lambda v, w=l.v: c.leaf(v == w), ('iseq', l.id), d))
                if g is c.F:
                    continue
                s2 = State(g, dict(s.s))
                v = self.call_value(c.leaf(l.v), args, ats, dt, s2, tt)
                res.append((v, s2))
            v, s2 = res[0]
            for v3, s3 in res[1:]:
                v = self.join_val(s2.g, v, v3)
                s2 = self.join(s2, s3)
            s.g = s2.g
            s.s.clear()
            s.s.update(s2.s)
            return v
        raise Unsupported('call of %r' % (fv,))

    def call_virtual(self, f, fid, args, ats, dt, s):
        """method of a trait object: one call per possible receiver"""
        c = self.c
        d = c.restrict(self.as_d(args[0]), s.g)
        gs = s.g
        res = []
        for l in c.leaves_of(d):
            r = l.v
            g = c.and_(gs, c.apply(lambda v, w=r: c.leaf(v == w), ('iseq', l.id), d))
            if g is c.F:
                continue
            if not (isinstance(r, tuple) and r[0] == 'ref' and isinstance(r[3], tuple) and r[3][0] == 'dyn'):
                raise Unsupported('method %s of an unknown trait object' % f['name'])
            k = self.p.impls.get((fid, r[3][1]))
            if k is None:
                raise Unsupported('no implementation of %s' % f['name'])
            s2 = State(g, dict(s.s))
            v = self.call(k, [c.leaf(('ref', r[1], r[2], None))] + list(args[1:]), ats, dt, s2)
            res.append((v, s2))
        v, s2 = res[0]
        for v3, s3 in res[1:]:
            v = self.join_val(s2.g, v, v3)
            s2 = self.join(s2, s3)
        s.g = s2.g
        if s2.s is not s.s:
            t = dict(s2.s)
            s.s.clear()
            s.s.update(t)
        return v

    def call_closure(self, clo, t, args, s, selfref=None):
        """clo: closure aggregate (or ref diagram to it), t: closure type"""
        fid = t['fn']
        f = self.p.fns[fid]
        t0 = self.p.types[f['locals'][1]]
        if t0['k'] == 'ref':
            if selfref is None:
                a = self.alloc()
                s.s[a] = clo
                selfref = self.c.leaf(('ref', a, (), None))
            first = selfref
        else:
            first = clo if clo is not None else self.read_d(s, selfref)
        return self.run(fid, [first] + list(args), s, untupled=True)


def tdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def int_range(t):
    n = t['bits']
    if t['k'] == 'int':
        return -(1 << (n - 1)), (1 << (n - 1)) - 1
    return 0, (1 << n) - 1


def wrap_int(v, t):
    n = t.get('bits', 64)
    v &= (1 << n) - 1
    if t['k'] == 'int' and v >> (n - 1):
        v -= 1 << n
    return v


# ------------------------------------------------------------ bit-pattern domain
def urange(u):
    return u.rng() if isinstance(u, Aff) else (u, u)


def flip_sign(x):
    top = 1 << (x.bits - 1)
    lo, hi = urange(x.u)
    if hi < top:
        return Aff(x.u.k + top, x.u.lo, x.u.hi, x.u.s) if isinstance(x.u, Aff) else x.u + top
    if lo >= top:
        return Aff(x.u.k - top, x.u.lo, x.u.hi, x.u.s) if isinstance(x.u, Aff) else x.u - top
    cut(x.u, top, 'sign of %r undecided' % x)


def fb_val(x):
    """(kind, lo, hi) numeric key range for comparisons, or 'nan'"""
    top = 1 << (x.bits - 1)
    mb = 23 if x.bits == 32 else 52
    inf = (0xff if x.bits == 32 else 0x7ff) << mb
    lo, hi = urange(x.u)
    if hi < top:
        if lo > inf:
            return 'nan'
        if hi > inf:
            cut(x.u, inf + 1, 'class of %r' % x)
        return (lo, hi)
    if lo >= top:
        if lo - top > inf:
            return 'nan'
        if hi - top > inf:
            cut(x.u, top + inf + 1, 'class of %r' % x)
        return (-(hi - top), -(lo - top))
    cut(x.u, top, 'class of %r' % x)


def fb_cut(x, y, a, b):
    """split where the float x crosses the constant y"""
    why = 'comparison of %r and %r undecided' % (x, y)
    if b[0] != b[1]:
        x, y, a, b = y, x, b, a
    if b[0] != b[1] or not isinstance(x.u, Aff):
        raise Unsupported(why)
    top = 1 << (x.bits - 1)
    v = b[0]
    lo, hi = urange(x.u)
    if lo >= top:
        cut(x.u, top - v if top - v > lo else top - v + 1, why)
    cut(x.u, v if v > lo else v + 1, why)


def to_fb(x, bits):
    if isinstance(x, FB):
        return x
    return FB(const_to_bits(x.const(), bits), bits)


def fb_bin(it, op, x, y):
    c = it.c
    bits = x.bits if isinstance(x, FB) else y.bits
    if not isinstance(x, FB) and x.const() is None or not isinstance(y, FB) and y.const() is None:
        raise Unsupported('bit-level operand')
    x, y = to_fb(x, bits), to_fb(y, bits)
    if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
        a, b = fb_val(x), fb_val(y)
        if a == 'nan' or b == 'nan':
            return c.leaf(op == 'Ne')
        if x.u == y.u:
            lt, eq, gt = False, True, False
        elif a[1] < b[0]:
            lt, eq, gt = True, False, False
        elif a[0] > b[1]:
            lt, eq, gt = False, False, True
        elif a[0] == a[1] == b[0] == b[1]:
            lt, eq, gt = False, True, False
        else:
            fb_cut(x, y, a, b)
        return c.leaf({'Lt': lt, 'Le': lt or eq, 'Gt': gt, 'Ge': gt or eq, 'Eq': eq, 'Ne': not eq}[op])
    if op in ('Sub', 'Add', 'Mul', 'Div'):
        raise Unsupported('float arithmetic %s on a bit pattern' % op)
    raise Unsupported('bit-level %s' % op)


def aff_bin(it, op, x, y, t, wrap):
    c = it.c
    lo1, hi1 = urange(x)
    lo2, hi2 = urange(y)
    if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
        if x == y:
            lt = gt = False
            eq = True
        elif hi1 < lo2:
            lt, eq, gt = True, False, False
        elif lo1 > hi2:
            lt, eq, gt = False, False, True
        elif isinstance(x, Aff) and isinstance(y, Aff) and (x.s, x.lo, x.hi) == (y.s, y.lo, y.hi):
            lt, eq, gt = x.k < y.k, x.k == y.k, x.k > y.k
        elif hi1 <= lo2 and op in ('Le', 'Gt'):
            return c.leaf(op == 'Le')
        elif lo1 >= hi2 and op in ('Ge', 'Lt'):
            return c.leaf(op == 'Ge')
        else:
            why = 'comparison %r %s %r undecided' % (x, op, y)
            r, v = (x, y) if isinstance(y, int) else (y, x)
            if not isinstance(v, int):
                raise Unsupported(why)
            cut(r, v if v > r.rng()[0] else v + 1, why)
        return c.leaf({'Lt': lt, 'Le': lt or eq, 'Gt': gt, 'Ge': gt or eq, 'Eq': eq, 'Ne': not eq}[op])
    tlo, thi = int_range(t)

    def norm(k, s, lo, hi):
        r = Aff(k, lo, hi, s)
        if wrap:
            l, h = r.rng()
            m = 1 << t['bits']
            while l > thi:
                r = Aff(r.k - m, lo, hi, s)
                l, h = r.rng()
            while h < tlo:
                r = Aff(r.k + m, lo, hi, s)
                l, h = r.rng()
            if l < tlo or h > thi:
                cut(r, tlo if l < tlo else thi + 1, 'wrap of %r' % r)
        return c.leaf(r)
    if op in ('Add', 'Sub'):
        if isinstance(x, Aff) and isinstance(y, Aff):
            if (x.lo, x.hi) == (y.lo, y.hi):
                sg = 1 if op == 'Add' else -1
                s = x.s + sg * y.s
                if s == 0:
                    return c.leaf(x.k + sg * y.k)
            raise Unsupported('%s of two ranges' % op)
        if isinstance(x, Aff):
            return norm(x.k + y if op == 'Add' else x.k - y, x.s, x.lo, x.hi)
        return norm(x + y.k if op == 'Add' else x - y.k, y.s if op == 'Add' else -y.s, y.lo, y.hi)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        r, m = (x, y) if isinstance(x, Aff) else (y, x)
        if isinstance(m, Aff):
            if m == r:
                return c.leaf(r) if op != 'BitXor' else c.leaf(0)
            raise Unsupported('%s of two ranges' % op)
        n = t['bits']
        top = 1 << (n - 1)
        full = (1 << n) - 1
        lo, hi = r.rng()
        m &= full
        neg = False
        if t['k'] == 'int':
            if hi < 0:
                r = Aff(r.k + (1 << n), r.lo, r.hi, r.s)
                lo, hi = r.rng()
            elif lo < 0:
                cut(r, 0, 'sign of %r' % r)
        set_ = lo >= top
        if not set_ and hi >= top:
            cut(r, top, 'sign bit of %r' % r)

        def back(k):
            if isinstance(k, int):
                return c.leaf(wrap_int(k, t))
            l, h = k.rng()
            if t['k'] == 'int' and l >= top:
                k = Aff(k.k - (1 << n), k.lo, k.hi, k.s)
            return c.leaf(k)
        if m == 0:
            return back(0 if op == 'BitAnd' else r)
        if m == full:
            return back({'BitAnd': r, 'BitOr': full, 'BitXor': Aff(full - r.k, r.lo, r.hi, -r.s)}[op])
        if m == top:
            if op == 'BitAnd':
                return back(top if set_ else 0)
            if op == 'BitOr':
                return back(r if set_ else Aff(r.k + top, r.lo, r.hi, r.s))
            return back(Aff(r.k + (-top if set_ else top), r.lo, r.hi, r.s))
        if m == full - top:
            if op == 'BitAnd':
                return back(Aff(r.k - top, r.lo, r.hi, r.s) if set_ else r)
            if op == 'BitXor':
                # flip all but the sign bit
                s = Aff(r.k - top, r.lo, r.hi, r.s) if set_ else r
                fl = Aff((full - top) - s.k, s.lo, s.hi, -s.s)
                return back(Aff(fl.k + top, fl.lo, fl.hi, fl.s) if set_ else fl)
        # exponent-style masks: decided when the whole range agrees on the masked bits
        low = (m & -m)
        if op == 'BitAnd':
            if (lo // low) == (hi // low):
                return back(lo & m)
            sp = m // low
            if sp & (sp + 1) == 0 and low == 1:
                # low bits: a shifted range once the upper bits are fixed
                if lo // (m + 1) == hi // (m + 1):
                    return back(Aff(r.k - lo // (m + 1) * (m + 1), r.lo, r.hi, r.s))
                low = m + 1
            cut(r, (lo // low + 1) * low, 'mask %#x on %r' % (m, r))
        raise Unsupported('mask %#x on %r' % (m, r))
    if op == 'Shr':
        if isinstance(y, int):
            l, h = lo1 >> y, hi1 >> y
            if l == h:
                return c.leaf(l)
            cut(x, (l + 1) << y, 'shift of %r' % (x,))
        raise Unsupported('shift of %r' % (x,))
    if op == 'Mul' and (x == 0 or y == 0):
        return c.leaf(0)
    if op == 'Mul' and (x == 1 or y == 1):
        return c.leaf(y if x == 1 else x)
    raise Unsupported('%s on a bit range' % op)
