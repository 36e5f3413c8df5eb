"""Arguments outside the domain are refused."""
import os
import dump
import mir
from spec import Case, guarded, V
from props.lib import *

RULE = ('panic conditions as decision diagrams: the disjunction of the guards of all reachable panics must be equivalent to the '
        'argument being outside the domain, and the value returned otherwise must be the one inside. Indices are a case '
        'distinction over the admitted ones and one symbol for any larger one; bounds of intervals and spheres are compared in '
        'the IEEE order domain, so that NaN and infinities are among them. Decided on the MIR with and without debug assertions')
ASSUMES = ['the order of interval bounds is checked in debug builds only, everything else with and without debug assertions', 'exact real arithmetic for the last coordinate of an image']
FLOOR = 300


def refusal(cs):
    pan = cs.c.F
    for g, _, _ in cs.it.panics:
        pan = cs.c.or_(pan, g)
    return V(cs, pan)


def index(cs, name, n):
    """an index: 0 .. n-1 or anything not below n; the condition of the latter"""
    c = cs.c
    big = cs.v(name)
    cs.assume(big - n, '>=')
    k = c.opq(name + ' is', n + 1)
    d = c.case(k, tuple([c.leaf(i) for i in range(n)] + [big.d]))
    out = c.case(k, tuple([c.F] * n + [c.T]))
    pick = lambda vs: V(cs, c.case(k, tuple([v.d for v in vs] + [vs[0].d])))
    return d, V(cs, out), pick


def check(rep):
    both(rep, True)
    # the same without debug assertions
    debug, fns = rep.prog, set(rep.fns)
    out = os.path.join(dump.BUILD, dump.tag('C32-release') + '.json')
    dump.dump(['c32'], out, dump.tag('C32r'), os.environ.get('VERIF_HARNESS') or dump.HARNESS, release=True)
    rep.prog = mir.Program(out)
    rep.suffix = ' (release)'
    both(rep, False)
    rep.prog, rep.fns = debug, fns


def both(rep, debug):
    for m in ('v2f', 'v3f', 'v4f', 'v2d', 'v3d', 'p2f', 'p3f', 'n3f'):
        n, bits = int(m[1]), 32 if m[2] == 'f' else 64
        for f in ('x', 'y', 'z', 'w', 'x_mut', 'y_mut', 'z_mut', 'w_mut'):
            def named():
                cs = Case(rep, 'c32::%s::%s' % (m, f), bits=bits)
                p = [cs.v('c%d' % i) for i in range(n)]
                cs.run([pack(cs, 0, p)])
                i = 'xyzw'.index(f[0])
                cs.eq('refused exactly beyond the dimension', refusal(cs), V(cs, cs.c.T if i >= n else cs.c.F))
                if i < n:
                    cs.eqs('the component named', cs.fl(cs.val), [p[i]])
            guarded(rep, '%s::%s' % (m, f), named)
        for f in ('index', 'index_mut'):
            def indexed():
                cs = Case(rep, 'c32::%s::%s' % (m, f), bits=bits)
                p = [cs.v('c%d' % i) for i in range(n)]
                i, out, pick = index(cs, 'i', n)
                cs.run([pack(cs, 0, p), i])
                cs.eq('refused exactly beyond the dimension', refusal(cs), out)
                cs.eqs('the component indexed', cs.fl(cs.val), [pick(p)], care=~out)
            guarded(rep, '%s::%s' % (m, f), indexed)
    for m, bits in (('mf', 32), ('md', 64)):
        for f in ('row', 'col', 'row_vec', 'col_vec', 'index', 'index_mut'):
            def line():
                cs = Case(rep, 'c32::%s::%s' % (m, f), bits=bits)
                a = mat(cs, 'm', False)
                i, out, pick = index(cs, 'i', 4)
                cs.run([pack(cs, 0, flat(a)), i])
                cs.eq('refused exactly beyond the matrix', refusal(cs), out)
                ls = a if f[0] != 'c' else [[a[r][k] for r in range(4)] for k in range(4)]
                cs.eqs('the line asked for', cs.fl(cs.val), [pick([l[j] for l in ls]) for j in range(4)], care=~out)
            guarded(rep, '%s::%s' % (m, f), line)
        for f in ('at', 'at_mut'):
            def elem():
                cs = Case(rep, 'c32::%s::%s' % (m, f), bits=bits)
                a = mat(cs, 'm', False)
                i, oi, pi = index(cs, 'i', 4)
                j, oj, pj = index(cs, 'j', 4)
                cs.run([pack(cs, 0, flat(a)), i, j])
                cs.eq('refused exactly beyond the matrix', refusal(cs), oi | oj)
                cs.eqs('the element asked for', cs.fl(cs.val), [pi([pj(r) for r in a])], care=~(oi | oj))
            guarded(rep, '%s::%s' % (m, f), elem)

    def bounds(root, bits, at, what, same):
        cs = Case(rep, 'c32::' + root, mode='fp', bits=bits)
        a = cs.args('abcd')
        lo, hi = V(cs, a[at[0]]), V(cs, a[at[1]])
        cs.run(a)
        bad = refusal(cs)
        ok = lo < hi if what == '<' else lo <= hi
        cs.eq('refused exactly when not lower %s upper' % what, bad, ~ok)
        cs.eqs('arguments kept', cs.fl(cs.val), [V(cs, x) for x in a], care=ok)
    def image(op, what, fwd):
        cs = Case(rep, 'c32::map::' + op)
        m, mi = mat(cs, 'm', False), mat(cs, 'n', False)
        p = vec(cs, 'p')
        M = m if fwd else mi
        h = mv(M, p + [cs.v(1 if what == 'point' else 0)])
        cs.run([pack(cs, 0, flat(m)), pack(cs, 1, flat(mi)), pack(cs, 2, p)])
        none = h[3].eq(0) if what == 'point' else h[3].ne(0)
        cs.eq('refused exactly when there is no image', refusal(cs), none)
        cs.eqs('image', cs.fl(cs.val), [x / h[3] for x in h[:3]] if what == 'point' else h[:3], care=~none)
    for what in ('point', 'vector'):
        for suf in ('', '_inv'):
            guarded(rep, 'map::' + what + suf, lambda: image(what + suf, what, not suf))
    if debug:
        guarded(rep, 'Interval<f32>', lambda: bounds('iv::new_f', 32, (0, 1), '<=', True))
        guarded(rep, 'Interval<f64>', lambda: bounds('iv::new_d', 64, (0, 1), '<=', True))
    guarded(rep, 'Sphere', lambda: bounds('sp::new', 32, (1, 2), '<', True))
