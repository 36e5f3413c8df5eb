"""Queries on valid inputs never panic."""
import re
from props.lib import *
from props import c01, c02, c04
from fpo import *
from spec import Report

RULE = ('Every entry function of every other property (together they call the whole public interface) is interpreted over IEEE '
        'floats with all branches, overflow checks, index checks and assertions of a debug build; each assertion, unwrap, '
        'bounds check or explicit panic that is reached contributes the condition under which it fails, and no cell of that '
        'condition may be consistent with finite inputs and the documented preconditions. Interval operations are judged '
        'for every configuration of signs of the operands.')
ASSUMES = ['finite inputs; affine transforms; lower limit of a clipped sphere below the upper one',
           'integer arithmetic that overflows, and integer division by zero, panic as Rust\'s own operators do and are excluded',
           'vectors of intervals are excluded: an overflowing intermediate bound can make a later one NaN']
FLOOR = 900
TECHNIQUE = 'static analysis: panic reachability by abstract interpretation of MIR over IEEE terms (order domain on panic guards)'
SKIP = [re.compile(x) for x in (
    r'^c3[245]::',                                   # arguments outside the domain: refused by panicking
    r'^c0[15]::', r'^c02::', r'^c04::',           # interval operations, judged with their own scenarios below
    r'^c27::|::q$|::q::|::v3q::',                 # vectors of intervals
    r'^c12::.::persp',                            # projective
    r'^c13::\w+i::(div|unscale|neg)$', r'^c07::si\d+::abs$',   # integer overflow and division by zero
    r'^c03::code$', r'^child::')]
MATS = re.compile(r'^c(10|19|21|23|24)::')
SPH = re.compile(r'^c18::s::hit$|^c(19|20|21)::t::(sphere|limits|area)$')


def one(rep, root):
    cs = Case(rep, root, mode="fp", bits=64 if re.search(r"::(d|f64_?)::", root) else 32, fold=False)
    c = cs.c
    c.finite_hint = lambda e: e.op == 'v' or e.op == 'neg' and e.args[0].op == 'v'
    args = []
    for i in range(cs.f['argc']):
        v = cs.sym(i, 'abcdefghijk'[i])
        if MATS.match(root) and len(cs.fl(v)) == 16:
            x = cs.fl(v)
            k = iter(x[:12] + [cs.v(0), cs.v(0), cs.v(0), cs.v(1)])
            v = cs.sym(i, '_', lambda n, b: next(k).d)
        args.append(v)
    cs.run(args)
    facts = [(pv('c') - pv('b'), True)] if SPH.match(root) else []
    T = Terms()
    cell = Cell(T, Facts2(facts))
    err = None
    for g, loc, msg in cs.it.panics:
        if g is c.F:
            continue
        for cl, v in walk(c, g, cell):
            if v:
                err = '%s in %s when %s' % (msg, loc, cs.show(sorted(cl.asg.items())))
                break
        if err:
            break
    cs.ob('does not panic', err is None, err or '')


def interval(m):
    def go(rep):
        sub = Report(rep.pid, rep.prog)
        sub.tier = rep.tier
        m.check(sub)
        bad = {v['obligation']: v for v in sub.viol
               if v['detail'].startswith(('may panic', 'the analysis cannot')) or v['obligation'].endswith('does not panic')}
        rep.obl += [('no panic: ' + n, n not in bad) for n, _ in sub.obl]
        rep.viol += list(bad.values())
        rep.fns |= sub.fns
        rep.roots |= sub.roots
        rep.steps += sub.steps
    return go


def check(rep):
    roots = [r for r in sorted(rep.prog.roots) if not any(x.search(r) for x in SKIP)]
    tasks = [interval(c02), interval(c01), interval(c04)]
    tasks += [lambda sub, r=r: guarded(sub, r, lambda: one(sub, r)) for r in roots]
    parallel(rep, tasks)
