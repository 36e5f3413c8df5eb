#!/usr/bin/env python3
"""check.py <property>: decides one property from /repo's current source."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)


def main():
    import threading
    threading.stack_size(2 << 30)
    res = []
    t = threading.Thread(target=lambda: res.append(run(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 3)


def run(argv):
    pid = argv[0]
    given = argv[1] if len(argv) > 1 else None
    t0 = time.time()
    import resource
    lim = 16 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    import dump
    import mir
    from spec import Report
    EV = os.environ.get('EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(EV, exist_ok=True)
    mod = importlib.import_module('props.' + pid.lower())
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    rep = Report(pid, None)
    rep.tier = tier
    tag = '%s-%d' % (pid, os.getpid()) if False else pid
    try:
        if getattr(mod, 'NEEDS_MIR', True):
            out = given or os.path.join(HERE, 'build', pid + '.json')
            if not given:
                os.makedirs(os.path.dirname(out), exist_ok=True)
                dump.dump([pid.lower()], out, tag)
            rep.prog = mir.Program(out)
        mod.check(rep)
        floor = getattr(mod, 'FLOOR', 1)
        if len(rep.obl) < floor:
            rep.add('coverage', False, 'only %d obligations were generated, expected at least %d' % (len(rep.obl), floor))
    except dump.BuildError as e:
        rep.add('build', False, 'entry functions no longer type-check against scarlet:\n' + str(e))
    ok = sum(1 for o in rep.obl if o[1])
    wall = time.time() - t0
    prog = rep.prog
    files = {}
    if prog:
        for i in rep.fns:
            f = prog.fns[i]
            files.setdefault(f.get('file', '?'), set()).add(f['name'])
    cov = {'obligations': len(rep.obl), 'discharged': ok,
           'explanation': mod.RULE,
           'entry_functions': len(rep.roots),
           'scarlet_functions_analysed': len(rep.fns),
           'scarlet_functions_by_file': {k: len(v) for k, v in sorted(files.items())},
           'basic_blocks_interpreted': rep.steps,
           'samples': rep.samples + [o[0] for o in rep.obl[:3]]}
    cov.update(getattr(rep, 'extra', {}))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMES', [])), 'wall_s': round(wall, 2), 'violations': len(rep.viol)}
    with open(os.path.join(EV, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d scarlet functions analysed, %.1f s' % (
        pid, len(rep.obl), ok, len(rep.fns), wall))
    if rep.viol:
        rp = os.path.join(EV, pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(rep.viol, f, indent=1)
        for v in rep.viol[:10]:
            print('  %s\n    %s' % (v['obligation'], v['detail'].replace('\n', '\n    ')))
            for l in v['constructs'][:4]:
                print('      at %s' % l)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    main()
