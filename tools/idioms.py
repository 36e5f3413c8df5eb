#!/usr/bin/env python3
"""Development aid: the analysis must find every function of a module of tools/idioms equal to `base`."""
import os, sys, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'engine'), HERE]
sys.setrecursionlimit(20000)
import dump, mir
from spec import Case, Report
out = os.path.join(HERE, 'build', 'idioms.json')
if '-n' not in sys.argv:
    dump.dump([], out, 'idioms', os.path.join(HERE, 'tools', 'idioms'))
prog = mir.Program(out)
bad = n = 0
for mode in ('real', 'fp'):
    for r in sorted(prog.roots):
        m, f = r.rsplit('::', 1)
        if f == 'base' or m + '::base' not in prog.roots or mode == 'fp' and not m.endswith('arr'):
            continue
        rep = Report('X', prog)
        try:
            cs = Case(rep, r, mode=mode)
            c1 = Case(rep, m + '::base', mode=mode)
            c1.c = cs.c
            c1.it.c = cs.c
            for x in (cs, c1):
                x.run(x.args())
                x.no_panic() if mode == 'real' else None
            cs.eqs('same', cs.fl(cs.val), c1.fl(c1.val))
            err = '; '.join(v['obligation'] + ': ' + v['detail'][:200] for v in rep.viol)
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, str(e)[:300])
            if '-v' in sys.argv: traceback.print_exc()
        n += 1
        if err:
            bad += 1
            print(mode, r, err)
print('%d of %d idioms are not followed' % (bad, n))
