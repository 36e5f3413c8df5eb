"""Obligations: statements about the diagrams the analysis computes.

A `Case` analyses one entry function for symbolic arguments.  The property
modules state what its result must be; `Report` records every obligation with
its outcome and, for a failed one, the functions of scarlet involved and the
cell of the diagram (the conditions on the inputs) in which it fails.
"""
from fractions import Fraction
from core import *
import mir
from mir import Agg, En, State, Interp, UNDEF, OPAQUE
import order

NEXT = {'<f32 as scarlet::math::scalar::GFloat>::next_up': ('nu', 32),
        '<f32 as scarlet::math::scalar::GFloat>::next_down': ('nd', 32),
        '<f64 as scarlet::math::scalar::GFloat>::next_up': ('nu', 64),
        '<f64 as scarlet::math::scalar::GFloat>::next_down': ('nd', 64)}


def next_hook(it, f, args, ats, dt, st):
    """summary of next_up / next_down; property C06 decides that it is right"""
    k = NEXT.get(f['name'])
    if k is None:
        return None
    c = it.c
    if c.steps_vanish:
        return args[0]
    return c.apply(lambda x: c.leaf(c.fn(k[0], x, bits=k[1])), ('nexthook',) + k, args[0])


class Report:
    def __init__(self, pid, prog):
        self.pid = pid
        self.prog = prog
        self.obl = []            # (name, ok, detail)
        self.viol = []
        self.fns = set()
        self.roots = set()
        self.samples = []
        self.steps = 0
        self.known = []
        self.suffix = ''

    def add(self, name, ok, detail='', case=None):
        name += self.suffix
        self.obl.append((name, bool(ok)))
        if not ok:
            loc = case.anchor() if case is not None else []
            self.viol.append({'obligation': name, 'detail': detail, 'constructs': loc})
        return ok

    def note(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


class V:
    """scalar diagram with operators, for writing specifications"""
    __slots__ = ('s', 'd')

    def __init__(self, s, d):
        self.s, self.d = s, d

    def _w(self, o):
        if isinstance(o, V):
            return o.d
        if isinstance(o, E):
            return self.s.c.leaf(o)
        return self.s.c.leaf(self.s.c.c(Fraction(o)))

    def _b(self, op, a, b):
        it = self.s.it
        bits = self.s.bits
        return V(self.s, self.s.c.apply(lambda x, y: it.fbin(op, x, y, bits), ('fbin', op, bits), a, b))

    def __add__(self, o): return self._b('Add', self.d, self._w(o))
    def __radd__(self, o): return self._b('Add', self._w(o), self.d)
    def __sub__(self, o): return self._b('Sub', self.d, self._w(o))
    def __rsub__(self, o): return self._b('Sub', self._w(o), self.d)
    def __mul__(self, o): return self._b('Mul', self.d, self._w(o))
    def __rmul__(self, o): return self._b('Mul', self._w(o), self.d)
    def __truediv__(self, o): return self._b('Div', self.d, self._w(o))
    def __rtruediv__(self, o): return self._b('Div', self._w(o), self.d)
    def __neg__(self): return V(self.s, self.s.c.apply(lambda x: self.s.c.leaf(self.s.c.neg(x)), 'fneg', self.d))
    def __lt__(self, o): return self._b('Lt', self.d, self._w(o))
    def __le__(self, o): return self._b('Le', self.d, self._w(o))
    def __gt__(self, o): return self._b('Gt', self.d, self._w(o))
    def __ge__(self, o): return self._b('Ge', self.d, self._w(o))
    def eq(self, o): return self._b('Eq', self.d, self._w(o))
    def ne(self, o): return self._b('Ne', self.d, self._w(o))
    # booleans
    def __and__(self, o): return V(self.s, self.s.c.and_(self.d, o.d))
    def __or__(self, o): return V(self.s, self.s.c.or_(self.d, o.d))
    def __invert__(self): return V(self.s, self.s.c.not_(self.d))

    def e(self):
        """the expression, if there is a single one"""
        if isinstance(self.d, Leaf):
            return self.d.v
        raise Unsupported('value is a case distinction')


class Case:
    """analysis of one entry function"""

    def __init__(self, rep, root, mode='real', bits=32, label=None, fold=True):
        self.rep = rep
        self.root = root
        self.bits = bits
        self.label = label or root
        self.c = Ctx(mode, fold=fold)
        self.c.steps_vanish = False     # read a step between adjacent floats as none
        self.it = Interp(rep.prog, self.c)
        self.it.hooks.append(next_hook)
        self.it.init_store = {}
        self.fid = rep.prog.roots.get(root)
        if self.fid is None:
            raise Unsupported('entry function %s is missing' % root)
        self.f = rep.prog.fns[self.fid]
        sig = ' '.join(rep.prog.types[t]['s'] for t in self.f['locals'][:self.f['argc'] + 1])
        self.c.wide = 'f64' in sig and 'f32' not in sig     # code for doubles: rounding to single is a loss
        self.val = None
        self.fails = 0

    # ---------------------------------------------------------------- inputs
    def sym(self, i, name, mk=None):
        return self.it.sym(self.f['locals'][i + 1], name, mk)

    def args(self, names='abcdefgh', mk=None):
        return [self.sym(i, names[i], mk) for i in range(self.f['argc'])]

    def v(self, x):
        """V of a diagram, an expression, a number or a variable name"""
        if isinstance(x, V):
            return x
        if isinstance(x, str):
            return V(self, self.c.leaf(self.c.var(x)))
        if isinstance(x, E):
            return V(self, self.c.leaf(x))
        if isinstance(x, (Leaf, Node)):
            return V(self, x)
        return V(self, self.c.leaf(self.c.c(Fraction(x))))

    def fl(self, val):
        """flat list of V of all scalars of a value"""
        out = []

        def go(x):
            if isinstance(x, Agg):
                for y in x.f:
                    go(y)
            elif isinstance(x, (Leaf, Node)):
                out.append(V(self, x))
            else:
                raise Unsupported('scalars expected, got %r' % (x,))
        go(val)
        return out

    def fn(self, name, *xs):
        xs = [self.v(x) for x in xs]
        c = self.c
        if name in ('min', 'max'):
            return V(self, c.apply(lambda *a: c.leaf((c.emax if name == 'max' else c.emin)(a)), ('spec', name),
                                   *[x.d for x in xs]))
        return V(self, c.apply(lambda *a: c.leaf(c.fn(name, *a, bits=self.bits)), ('spec', name), *[x.d for x in xs]))

    def ite(self, g, a, b):
        return V(self, self.c.ite(g.d, self.v(a).d, self.v(b).d))

    @property
    def true(self):
        return V(self, self.c.T)

    @property
    def false(self):
        return V(self, self.c.F)

    def assume(self, x, rel):
        self.c.assume(x.e() if isinstance(x, V) else x, rel)

    # ------------------------------------------------------------------- run
    def run(self, args=None, store=None):
        if args is None:
            args = self.args()
        st = State(self.c.T, dict(self.it.init_store))
        if store:
            st.s.update(store)
        self.rep.roots.add(self.root)
        try:
            self.val = self.it.run(self.fid, args, st)
        except RecursionError:
            raise Unsupported('recursion in %s' % self.root)
        finally:
            self.rep.fns |= {i for i in self.it.visited if self.rep.prog.fns[i]['krate'] == 'scarlet'}
            self.rep.steps += self.it.steps
        self.out = st
        self.ret = V(self, st.g)
        return self.val

    def anchor(self):
        """functions of scarlet the entry function reaches, outermost first"""
        out = []
        for i in sorted(self.it.visited):
            f = self.rep.prog.fns[i]
            if f['krate'] == 'scarlet':
                out.append('%s:%s %s' % (f.get('file', '?'), f.get('line', '?'), f['name']))
        return out[:12]

    # ----------------------------------------------------------- obligations
    def ob(self, what, ok, detail=''):
        return self.rep.add('%s: %s' % (self.label, what), ok, detail, self)

    def no_panic(self, care=None, overflow=True):
        """no panic under the assumptions (and care); overflow=False: integers do not overflow"""
        bad = None
        for g, loc, msg in self.it.panics:
            if not overflow and str(msg).startswith('Overflow'):
                continue
            g2 = g if care is None else self.c.and_(care.d, g)
            cell = self.feasible_cell(g2)
            if cell is not None:
                bad = '%s in %s when %s' % (msg, loc, self.show(cell))
                break
        return self.ob('does not panic', bad is None, bad or '')

    def show(self, cell):
        t = []
        for a, o in cell:
            at = self.c.atoms[a]
            if at.kind == 'cmp':
                t.append('%r %s %r' % (at.a, ['<', '=', '>', 'unordered with'][o], at.b))
            elif at.kind == 'cls':
                t.append('%r is %s' % (at.a, ['finite', '+inf', '-inf', 'NaN'][o]))
            else:
                t.append('%s=%s' % (at.name, o))
        return ', '.join(t)[:1500] or 'always'

    def cell_facts(self, cell):
        fs = list(self.c.facts)
        for a, o in cell:
            at = self.c.atoms[a]
            if at.kind == 'cmp' and at.e is not None:
                fs.append((at.e, frozenset((o - 1,))))
        return fs

    def infeasible(self, cell):
        return order.contradiction(self.c, cell)

    def true_cells(self, d, limit=200000):
        """cells in which a boolean diagram is true, pruned by contradiction"""
        c = self.c
        n = [0]

        def go(d, asg):
            if d is c.F:
                return
            if asg and order.contradiction(c, asg):
                return
            if d is c.T:
                yield asg
                return
            n[0] += 1
            tick()
            if n[0] > limit:
                raise Unsupported('too many cells')
            for j, k in enumerate(d.kids):
                yield from go(k, asg + ((d.var, c.atoms[d.var].outs[j]),))
        yield from go(d, ())

    def feasible_cell(self, d):
        for cell in self.true_cells(d):
            return cell
        return None

    def holds(self, what, b, care=None):
        """boolean V true in every feasible cell"""
        d = self.c.not_(b.d)
        if care is not None:
            d = self.c.and_(care.d, d)
        if d is self.c.F:
            return self.ob(what, True)
        cell = self.feasible_cell(d)
        return self.ob(what, cell is None, '' if cell is None else 'fails when ' + self.show(cell))

    def eq(self, what, got, want, care=None):
        """two scalar (or boolean) V equal in every feasible cell"""
        c = self.c
        g, w = self.v(got).d, self.v(want).d
        if g is w:
            return self.ob(what, True)

        def ne(x, y):
            if isinstance(x, E) != isinstance(y, E):
                # an integer the analysis knows against an expression
                x, y = [c.c(v) if isinstance(v, int) and not isinstance(v, bool) else v for v in (x, y)]
            if isinstance(x, E) and isinstance(y, E):
                return c.leaf(not c.same(x, y) if c.mode == 'real' else x is not y)
            return c.leaf(x != y or type(x) != type(y) and not (isinstance(x, int) and isinstance(y, int)))
        try:
            d = c.apply(ne, ('specne',), g, w)
        except Unsupported as ex:
            return self.ob(what, False, 'not comparable: %s' % ex)
        if care is not None:
            d = c.and_(care.d, d)
        if d is c.F:
            return self.ob(what, True)
        for cell, x, y in self.expand(d, g, w):
            if isinstance(x, Leaf) and isinstance(y, Leaf) and isinstance(x.v, E) and isinstance(y.v, E) and \
                    c.mode == 'real' and (order.equal_in(c, x.v, y.v, cell) or order.equal_split(c, x.v, y.v, cell) or
                                         order.equal_known(c, x.v, y.v, cell)):
                continue
            return self.ob(what, False, 'when %s: computed %r, required %r' % (
                self.show(cell), x.v if isinstance(x, Leaf) else '?', y.v if isinstance(y, Leaf) else '?'))
        return self.ob(what, True)

    def expand(self, d, g, w):
        """feasible cells of d, refined until g and w are single expressions"""
        c = self.c
        for cell in self.true_cells(d):
            st = [cell]
            while st:
                x = st.pop()
                a, b = self.at(g, x), self.at(w, x)
                n = a if not isinstance(a, Leaf) else b
                if isinstance(n, Leaf):
                    yield x, a, b
                    continue
                for o in c.atoms[n.var].outs:
                    y = x + ((n.var, o),)
                    if not order.contradiction(c, y):
                        st.append(y)

    def at(self, d, cell):
        """cofactor of a diagram in a cell"""
        m = dict(cell)
        c = self.c
        while not isinstance(d, Leaf):
            if d.var not in m:
                return d
            d = d.kids[c.atoms[d.var].outs.index(m[d.var])]
        return d

    def one_of(self, what, got, wants, care=None):
        """got equals one of wants in every feasible cell"""
        c = self.c

        def bad(x, *ys):
            return c.leaf(not any(c.same(x, y) for y in ys))
        d = c.apply(bad, ('oneof', len(wants)), self.v(got).d, *[self.v(w).d for w in wants])
        if care is not None:
            d = c.and_(care.d, d)
        if d is c.F:
            return self.ob(what, True)
        cell = self.feasible_cell(d)
        return self.ob(what, cell is None, '' if cell is None else 'when %s: computed %r' % (
            self.show(cell), getattr(self.at(self.v(got).d, cell), 'v', '?')))

    def eqs(self, what, got, want, care=None):
        gs = got if isinstance(got, list) else self.fl(got)
        if len(gs) != len(want):
            return self.ob(what, False, 'shape: %d components, expected %d' % (len(gs), len(want)))
        ok = True
        for i, (g, w) in enumerate(zip(gs, want)):
            ok &= bool(self.eq('%s[%d]' % (what, i) if len(want) > 1 else what, g, w, care))
        return ok

    def some(self, val=None):
        """(condition for Some, payload) of an Option value"""
        v = self.val if val is None else val
        if not isinstance(v, En):
            raise Unsupported('Option expected')
        t = self.c.apply(lambda k: self.c.leaf(k == 1), ('issome',), v.tag)
        p = v.pay.get(1)
        return V(self, t), (p[0] if p else None)


def guarded(rep, name, f):
    """an unsupported construct fails its obligation instead of crashing the check"""
    try:
        return f()
    except Unsupported as e:
        rep.add(name, False, 'the analysis cannot follow the code: %s' % e)
    except MemoryError:
        rep.add(name, False, 'the analysis cannot follow the code: out of memory')
    except (AttributeError, TypeError, IndexError, KeyError, StopIteration, AssertionError, ValueError) as e:
        import traceback
        rep.add(name, False, 'the analysis cannot follow the code: %s %s' % (
            type(e).__name__, traceback.format_exc()[-700:]))
