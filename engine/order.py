"""Order domain: contradictions among comparison outcomes.

Facts are the outcomes of the comparison atoms in a cell of a diagram and the
assumptions on the inputs.  They are closed under transitivity, the lattice
laws of max/min/abs, antitonicity of negation, and the sign algebra of `Ctx`.
The closure is kept incrementally along the prefixes of a cell.
"""
from core import *


class Ord:
    __slots__ = ('c', 'ids', 'es', 'le', 'lt', 'ge', 'ng', 'mx', 'bad', 'sg', 'cf')

    def __init__(self, c):
        self.c = c
        self.ids, self.es, self.le, self.lt, self.ge, self.ng = {}, [], [], [], [], []
        self.mx = []            # (node of the max, its element nodes)
        self.bad = False
        self.sg = {}
        self.cf = []            # outcomes as sign facts

    def copy(self):
        r = Ord(self.c)
        r.ids, r.es, r.le, r.lt, r.ge, r.ng = dict(self.ids), list(self.es), list(self.le), list(self.lt), \
            list(self.ge), list(self.ng)
        r.mx = list(self.mx)
        r.bad = self.bad
        r.cf = list(self.cf)
        return r

    def _new(self, e):
        i = len(self.es)
        self.ids[e.id] = i
        self.es.append(e)
        self.le.append(1 << i)
        self.ge.append(1 << i)
        self.lt.append(0)
        self.ng.append(None)
        return i

    def node(self, e):
        i = self.ids.get(e.id)
        if i is not None:
            return i
        c = self.c
        i = self._new(e)
        n = c.neg(e)
        j = self.ids.get(n.id)
        if j is None:
            j = self._new(n)
        self.ng[i], self.ng[j] = j, i
        for x, k in ((e, i), (n, j)):
            if x.op == 'max':
                el = [self.node(a) for a in x.args]
                self.mx.append((k, el))
                for a in el:
                    self.add(a, k, False)
            elif x.op == 'abs':
                a = self.node(x.args[0])
                self.mx.append((k, [a, self.ng[a]]))
                self.add(a, k, False)
                self.add(self.ng[a], k, False)
                self.add(self.node(c.ZERO), k, False)
        if e.op == 'c' or n.op == 'c':
            for x, k in ((e, i), (n, j)):
                if x.op != 'c' or not isinstance(x.args, Fraction):
                    continue
                for y, l in list(self.ids.items()):
                    z = self.es[l]
                    if z.op == 'c' and isinstance(z.args, Fraction) and z.args != x.args:
                        if z.args < x.args:
                            self.add(l, k, True)
                        else:
                            self.add(k, l, True)
        elif c.mode == 'real':
            s = c.signs(e)
            if s != {-1, 0, 1} and len(s) < 3 and s != {-1, 1}:
                z = self.node(c.ZERO)
                if s <= {0, 1}:
                    self.add(z, i, 0 not in s)
                elif s <= {-1, 0}:
                    self.add(i, z, 0 not in s)
                if s == {0}:
                    self.add(i, z, False)
        return i

    def _edge(self, a, b, s):
        if (self.lt[a] >> b) & 1 or not s and (self.le[a] >> b) & 1:
            return False
        pred, succ = self.ge[a], self.le[b]
        ltb = self.lt[b]
        p = pred
        while p:
            low = p & -p
            i = low.bit_length() - 1
            p ^= low
            self.le[i] |= succ
            if s or (self.lt[i] >> a) & 1:
                self.lt[i] |= succ
            else:
                self.lt[i] |= ltb
            if (self.lt[i] >> i) & 1:
                self.bad = True
        q = succ
        while q:
            low = q & -q
            j = low.bit_length() - 1
            q ^= low
            self.ge[j] |= pred
        return True

    def add(self, a, b, s):
        """node a <= node b (strictly if s)"""
        if self.bad:
            return
        ch = self._edge(a, b, s)
        x, y = self.ng[a], self.ng[b]
        if x is not None and y is not None:
            ch |= self._edge(y, x, s)
        while ch and not self.bad:
            ch = False
            for k, el in self.mx:
                up = ~0
                st = ~0
                for e in el:
                    up &= self.le[e]
                    st &= self.lt[e]
                new = up & ~self.le[k]
                news = st & ~self.lt[k]
                both = new | news
                while both:
                    low = both & -both
                    j = low.bit_length() - 1
                    both ^= low
                    strict = bool((st >> j) & 1)
                    if j == k:
                        if strict:
                            self.bad = True
                        continue
                    if self._edge(k, j, strict):
                        ch = True
                    x, y = self.ng[k], self.ng[j]
                    if x is not None and y is not None and self._edge(y, x, strict):
                        ch = True

    def rel(self, a, b, sg):
        """sign set of a - b"""
        i, j = self.node(a), self.node(b)
        if sg <= {-1, 0}:
            self.add(i, j, 0 not in sg)
        if sg <= {0, 1}:
            self.add(j, i, 0 not in sg)

    def fact(self, e, sg):
        c = self.c
        if e.op == 'sub':
            self.rel(e.args[0], e.args[1], sg)
        elif e.op == 'add':
            self.rel(e.args[0], c.neg(e.args[1]), sg)
        else:
            self.rel(e, c.ZERO, sg)


def base(c):
    k = ('ordbase', len(c.facts))
    r = c.omemo.get(k)
    if r is None:
        c.omemo.clear()
        r = Ord(c)
        for e, sg in c.facts:
            r.fact(e, sg)
        c.omemo[k] = r
    return r


def state(c, cell):
    b = base(c)
    if not cell:
        return b
    r = c.omemo.get(cell)
    if r is not None:
        return r
    p = state(c, cell[:-1])
    if p.bad:
        r = p
    else:
        r = p.copy()
        i, o = cell[-1]
        at = c.atoms[i]
        if at.kind == 'cmp':
            if o != 3:
                r.rel(at.a, at.b, frozenset((o - 1,)))
            if at.e is not None:
                forms = [(at.e, frozenset((o - 1,)))]
                if c.mode == 'real' and not r.bad:
                    e, sg = forms[0]
                    for _ in range(3):
                        q = c.cleared(e)
                        if q is None:
                            break
                        ys = c._signs(q[1], Facts(c.facts + r.cf), 0)
                        if ys != {1} and ys != {-1}:
                            break
                        e, sg = q[0], sg if 1 in ys else frozenset(-x for x in sg)
                        forms.append((e, sg))
                for e, sg in forms:
                    if not r.bad and c.mode == 'real' and e.op != 'v':
                        fs = Facts(c.facts + r.cf)
                        if not set(c._struct(e, fs, 0)) & sg or not set(c._linear(e, fs)) & sg:
                            r.bad = True
                    if not r.bad and e is not at.e:
                        r.fact(e, sg)
                    r.cf.append((e, sg))
                if not r.bad and c.mode == 'real':
                    # the new outcome may contradict the structure of earlier ones
                    fs = Facts(c.facts + r.cf)
                    for e, s in r.cf[:-len(forms)]:
                        if e.op != 'v' and not set(c._struct(e, fs, 0)) & s:
                            r.bad = True
                            break
    if len(c.omemo) > 20000:
        c.omemo.clear()
        c.omemo[('ordbase', len(c.facts))] = b
    c.omemo[cell] = r
    return r


def contradiction(c, cell):
    return state(c, tuple(cell)).bad


def equal_in(c, x, y, cell):
    """x = y follows from the outcomes of the cell"""
    if x.op == 'c' and x.args in SPECIAL or y.op == 'c' and y.args in SPECIAL:
        return False
    s = state(c, tuple(cell))
    if s.bad:
        return True
    d = c.sub(x, y)
    if c._signs(d, Facts(c.facts + s.cf), 0) == {0}:
        return True
    if x.op == y.op and x.op not in ('c', 'v') and len(x.args) == len(y.args) and \
            all(a is b or equal_in(c, a, b, cell) for a, b in zip(x.args, y.args)):
        return True
    s = s.copy()
    i, j = s.node(x), s.node(y)
    return s.bad or bool((s.le[i] >> j) & 1 and (s.le[j] >> i) & 1)


def equal_known(c, x, y, cell):
    """x = y once expressions that equal a number in the cell are replaced by it"""
    known = []
    for a, o in cell:
        at = c.atoms[a]
        if at.kind == 'cmp' and o == 1:
            for l, r in ((at.a, at.b), (at.b, at.a)):
                if isinstance(r.const(), Fraction) and l.op != 'c':
                    known.append((l, r))
                    break
    if not known:
        return False
    try:
        return c.same(c.rebuild(x, {}, known), c.rebuild(y, {}, known))
    except (Unsupported, ZeroDivisionError):
        return False


def le_in(c, x, y, cell, strict=False, extra=()):
    """x <= y (x < y) follows from the outcomes of the cell"""
    s = state(c, tuple(cell))
    if s.bad:
        return True
    s = s.copy()
    for e, sg in extra:
        s.fact(e, sg)
    i, j = s.node(x), s.node(y)
    if s.bad:
        return True
    if i == j:
        return not strict
    if (s.lt[i] >> j) & 1 or not strict and (s.le[i] >> j) & 1:
        return True
    if c.mode == 'real':
        sg = c._signs(c.sub(x, y), Facts(c.facts + s.cf + list(extra)), 0)
        return sg <= ({-1} if strict else {-1, 0})
    return False


def resolve(c, e, cell, open_):
    """e with the maxima and absolute values the cell decides put in; pairs left undecided go to open_"""
    memo = {}

    def go(x):
        if x.op in ('c', 'v'):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        a = [go(y) for y in x.args]
        if x.op == 'max':
            keep = []
            for k, y in enumerate(a):
                if not any(j != k and le_in(c, y, z, cell) and (j < k or not le_in(c, z, y, cell))
                           for j, z in enumerate(a)):
                    keep.append(y)
            if len(keep) > 1:
                open_.append((keep[0], keep[1]))
            r = c.emax(keep or a)
        elif x.op == 'abs':
            if le_in(c, c.ZERO, a[0], cell):
                r = a[0]
            elif le_in(c, a[0], c.ZERO, cell):
                r = c.neg(a[0])
            else:
                open_.append((a[0], c.ZERO))
                r = c.fn('abs', a[0])
        elif all(p is q for p, q in zip(a, x.args)):
            r = x
        elif x.op in ('add', 'sub', 'mul', 'div'):
            r = getattr(c, x.op)(*a)
        elif x.op == 'neg':
            r = c.neg(a[0])
        else:
            r = c.fn(x.op, *a)
        if r is None:
            r = x
        memo[x.id] = r
        return r
    return go(e)


def equal_split(c, x, y, cell, depth=5):
    """x = y follows from the cell, with the maxima and absolute values in them split into cases"""
    if x.op == 'c' and x.args in SPECIAL or y.op == 'c' and y.args in SPECIAL:
        return False
    open_ = []
    x, y = resolve(c, x, cell, open_), resolve(c, y, cell, open_)
    if c.same(x, y) or equal_in(c, x, y, cell):
        return True
    if not open_ or depth == 0:
        return False
    a, b = open_[0]
    d = c.cmp(a, b)
    if not hasattr(d, 'var'):
        return False
    m = dict(cell)
    if d.var in m:
        return False
    for o in c.atoms[d.var].outs:
        nc = tuple(cell) + ((d.var, o),)
        if not contradiction(c, nc) and not equal_split(c, x, y, nc, depth - 1):
            return False
    return True
