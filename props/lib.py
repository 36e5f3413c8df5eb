"""specification vocabulary shared by the property modules"""
from core import *
from mir import Agg
from spec import Case, V, guarded


def dot(a, b):
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        r = r + x * y
    return r


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def mat(cs, name, affine=False):
    m = [[cs.v('%s%d%d' % (name, i, j)) for j in range(4)] for i in range(4)]
    if affine:
        m[3] = [cs.v(0), cs.v(0), cs.v(0), cs.v(1)]
    return m


def rows(flat):
    return [flat[4 * i:4 * i + 4] for i in range(4)]


def mm(a, b):
    n = len(b)
    return [[dot(a[i], [b[k][j] for k in range(n)]) for j in range(len(b[0]))] for i in range(len(a))]


def mv(m, v):
    return [dot(r, v) for r in m]


def eye(cs, n=4):
    return [[cs.v(1 if i == j else 0) for j in range(n)] for i in range(n)]


def minor(m, r, c):
    return [[m[i][j] for j in range(len(m)) if j != c] for i in range(len(m)) if i != r]


def det(m):
    if len(m) == 1:
        return m[0][0]
    r = None
    for j in range(len(m)):
        t = m[0][j] * det(minor(m, 0, j))
        r = t if r is None else (r + t if j % 2 == 0 else r - t)
    return r


def inverse(m):
    d = det(m)
    n = len(m)
    return [[(det(minor(m, j, i)) if (i + j) % 2 == 0 else -det(minor(m, j, i))) / d for j in range(n)] for i in range(n)], d


def flat(m):
    return [x for r in m for x in r]


def pack(cs, argi, vs):
    """value of the type of argument argi whose scalars are the given V"""
    it = iter(vs)
    return cs.sym(argi, '_', lambda n, b: next(it).d)


def vec(cs, name, n=3):
    return [cs.v('%s.%s' % (name, 'xyzw'[i])) for i in range(n)]


def either(rep, *fs):
    """the first of several ways to discharge the same obligations that succeeds, else the last"""
    from spec import Report
    for i, f in enumerate(fs):
        r = Report(rep.pid, rep.prog)
        f(r)
        if not r.viol or i == len(fs) - 1:
            rep.obl += r.obl
            rep.viol += r.viol
            rep.fns |= r.fns
            rep.roots |= r.roots
            rep.steps += r.steps
            return
        rep.fns |= r.fns


def parallel(rep, tasks, jobs=8):
    """run tasks (functions of a Report) in forked processes; their reports are merged in order"""
    import os
    import pickle
    from spec import Report
    n = max(1, min(jobs, os.cpu_count() or 1, len(tasks)))
    pipes = []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                out = []
                for i in range(k, len(tasks), n):
                    sub = Report(rep.pid, rep.prog)
                    sub.tier = rep.tier
                    tasks[i](sub)
                    out.append((i, sub.obl, sub.viol, sub.fns, sub.roots, sub.steps))
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
                os._exit(0)
            finally:
                os._exit(1)
        os.close(w)
        pipes.append((r, pid))
    res = []
    for r, pid in pipes:
        with os.fdopen(r, 'rb') as f:
            b = f.read()
        os.waitpid(pid, 0)
        if not b:
            rep.add('analysis', False, 'a worker of the analysis ended early')
            continue
        res += pickle.loads(b)
    for i, obl, viol, fns, roots, steps in sorted(res, key=lambda x: x[0]):
        rep.obl += obl
        rep.viol += viol
        rep.fns |= fns
        rep.roots |= roots
        rep.steps += steps
