"""Reported ray parameters lie within the ray, as computed (IEEE arithmetic)."""
from props.ival import *
from props.lib import *

RULE = ('The ray queries are interpreted over IEEE float terms without any assumption on the inputs (rounding, overflow, '
        'infinities and not-a-number included, the limit of the ray not negative). In every cell of the resulting case '
        'distinction in which a hit is returned, its parameter must compare at least zero and at most the limit of the ray, '
        'and a range entered must compare at most the range left.')
# floats with many cases are replaced by arbitrary ones, which can only add behaviour
ASSUMES = ['the limit of the ray is a number, not negative, possibly infinite', 'members of a list or transformed primitive respect the '
           'limit of the ray they are given themselves', 'comparisons of floats follow IEEE-754; no property of + - * / or of the functions is used']
FLOOR = 30
TECHNIQUE = 'static analysis: abstract interpretation of MIR over IEEE terms, decided on the comparisons made'


def once(rep, root, what, lim, k):
    """[(goal, complaint or None)] with floats of more than k cases replaced by any float"""
    cs = Case(rep, 'c34::t::' + root, mode='fp', label='%s, limit %s' % (what, lim), fold=False)
    c = cs.c
    c.widen = k
    args = [cs.sym(i, 'abcdefgh'[i]) for i in range(cs.f['argc'])]
    t = cs.fl(args[-1])[-1]
    if lim == 'infinite':
        x = iter(cs.fl(args[-1])[:-1] + [cs.v(c.c(INF))])
        args[-1] = cs.sym(len(args) - 1, '_', lambda n, b: next(x).d)
        t = cs.v(c.c(INF))
    cs.run(args)
    some, pay = cs.some()
    if pay is None:
        return cs, [('reports hits', 'never reports a hit')]
    fl = cs.fl(pay)
    cell = Cell(Terms(), Facts2([]))
    goals = [('not negative', fl[0] >= 0), ('not beyond the limit', fl[-1] <= t)]
    if len(fl) == 2:
        goals.append(('entered before left', fl[0] <= fl[1]))
    care = some if lim == 'infinite' else some & (t >= 0)
    out = []
    for name, g in goals:
        bad = c.and_(care.d, c.not_(g.d))
        err = None
        for cl, v in walk(c, bad, cell):
            if v:
                err = 'fails when ' + show_cell(cs, cl)
                break
        out.append((name, err))
    return cs, out


def check(rep):
    def go(root, what, lim):
        first = None
        for k in (4, 2, 3, 6, 1):
            try:
                cs, out = once(rep, root, what, lim, k)
            except Unsupported:
                if first is None and k == 1:
                    raise
                continue
            if first is None or not any(e for _, e in out):
                first = cs, out
            if not any(e for _, e in out):
                break
        cs, out = first
        for name, err in out:
            cs.ob(name, err is None, err or '')

    for root, what in (('range', 'box, range'), ('bbox', 'box'), ('sphere', 'sphere'), ('moved', 'transformed primitive'),
                       ('list1', 'list of one'), ('list2', 'list of two'), ('list3', 'list of three'), ('moved_list', 'transformed list')):
        for lim in ('given', 'infinite'):
            guarded(rep, '%s, limit %s' % (what, lim), lambda: go(root, what, lim))
