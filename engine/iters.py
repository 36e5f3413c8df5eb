"""Transfer functions for std iterators, slices by range and growing vectors.

Every iterator is followed through its next()/next_back(); consumers that std
specialises (fold, nth, count, ...) are their definitions in terms of those.
"""
import re
from core import *
import mir
from mir import Agg, En, UNDEF, UNIT, State

ADAPT = re.compile(r'^<std::(iter::\w+|slice::\w+|array::IntoIter|vec::IntoIter)(?:<.*>)? as std::iter::(?:adapters::[\w:]+::)?(\w+)(?:<.*>)?>::(\w+)$')
RANGE = re.compile(r'^(?:std|core)::iter::range::<impl std::iter::(\w+) for std::ops::(Range|RangeInclusive|RangeFrom)<A>>::(\w+)$')
KNOWN = {'std::iter::Map', 'std::iter::Enumerate', 'std::iter::Rev', 'std::iter::Copied', 'std::iter::Cloned',
         'std::iter::Zip', 'std::iter::Take', 'std::iter::Skip', 'std::iter::StepBy', 'std::iter::Filter',
         'std::iter::FilterMap', 'std::iter::Chain', 'std::iter::Inspect', 'std::slice::Iter', 'std::slice::IterMut',
         'std::array::IntoIter', 'std::vec::IntoIter', 'std::ops::Range', 'std::ops::RangeInclusive', 'std::ops::RangeFrom',
         'std::slice::Chunks', 'std::slice::ChunksMut', 'std::slice::ChunksExact', 'std::slice::ChunksExactMut',
         'std::slice::Windows', 'std::iter::Once', 'std::iter::Empty', 'std::iter::TakeWhile', 'std::iter::Peekable',
         'std::iter::Scan', 'std::iter::Successors', 'std::iter::Repeat', 'std::iter::FromFn', 'std::iter::Fuse'}


LEFT = {'std::iter::Once', 'std::iter::Peekable', 'std::iter::Successors', 'std::iter::Repeat', 'std::iter::FromFn'}


def ty(it, i):
    return it.p.types[i]


def known(it, t):
    """an iterator type nxt() follows"""
    if t is None:
        return False
    if t['k'] == 'ref':
        return known(it, ty(it, t['e']))
    if t['k'] != 'adt' or t['def'] not in KNOWN:
        return False
    if t['def'] in LEFT and has_next(it, t) is None:
        return False
    fs = dict(t['variants'][0]['fields'])
    for n in ('iter', 'it', 'a', 'b'):
        if n in fs and t['def'].startswith('std::iter::'):
            e = ty(it, fs[n])
            if t['def'] in ('std::iter::Chain', 'std::iter::Fuse'):
                e = ty(it, e['targs'][0])
            if not known(it, e) and not has_next(it, e):
                return False
    return True


def has_next(it, t):
    """Iterator::next of a type of the program"""
    try:
        k = it.p.types.index(t)
    except ValueError:
        return None
    memo = it.p.__dict__.setdefault('_next_of', {})
    if k not in memo:
        memo[k] = None
        for g in it.p.fns:
            if g['name'].endswith('::next') and not g.get('nobody') and g['argc'] == 1:
                a = it.p.types[g['locals'][1]]
                if a['k'] == 'ref' and a['e'] == k:
                    memo[k] = g['id']
    return memo[k]


def under(it, st, cond, fn):
    """run fn on the part of the state where cond holds; None if that is empty"""
    c = it.c
    g1 = c.and_(st.g, cond)
    if g1 is c.F:
        return None
    g0 = c.and_(st.g, c.not_(cond))
    s1 = State(g1, dict(st.s))
    v = fn(s1)
    if s1.g is c.F:
        # that part ended in a panic
        st.g = g0
        return UNDEF
    if g0 is not c.F:
        s1 = it.join(s1, State(g0, st.s))
    st.g = s1.g
    t = dict(s1.s)
    st.s.clear()
    st.s.update(t)
    return v


def has(it, o):
    return it.c.apply(lambda t: it.c.leaf(t == 1), 'issome', o.tag)


def call_at(it, st, ft, ref, args):
    import models
    if ft['k'] == 'closure':
        return it.call_closure(None, ft, args, st, selfref=ref)
    return models.closure_call(it, it.read_d(st, ref), ft, args, st)


def tmp(it, st, v):
    a = it.alloc()
    st.s[a] = v
    return it.c.leaf(('ref', a, (), None))


def guarded_some(it, st, o, fn):
    """o.map(fn) where fn runs on the state in which o is Some"""
    import models
    h = has(it, o)
    if 1 not in o.pay:
        return models.opt_none(it)
    v = under(it, st, h, lambda s: fn(o.pay[1][0], s))
    if v is None:
        return models.opt_none(it)
    return models.opt(it, h, v)


def ints(it, *ds):
    return all(isinstance(l.v, int) for d in ds for l in it.c.leaves_of(d))


def nxt(it, st, t, selfd, back=False):
    """one step of an iterator of type t stored at selfd"""
    import models
    c = it.c
    if t['k'] == 'ref':
        return nxt(it, st, ty(it, t['e']), it.as_d(it.read_d(st, selfd)), back)
    v = it.read_d(st, selfd)
    if isinstance(v, Agg) and v.k.startswith('Iter_'):
        return models.iter_next(it, st, selfd, back)
    d = t.get('def')
    if d not in KNOWN:
        g = has_next(it, t) if not back else None
        if g is None:
            raise Unsupported('step of the iterator %s' % t['s'])
        return it.call(g, [selfd], [{'k': 'ref', 'e': it.p.types.index(t)}], None, st)
    fs = t['variants'][0]['fields']
    fty = [ty(it, x[1]) for x in fs]
    sub = lambda i: it.ref_ext(selfd, i)
    inner = lambda s=None, b=back: nxt(it, s or st, fty[0], sub(0), b)
    if d == 'std::iter::Rev':
        return nxt(it, st, fty[0], sub(0), not back)
    if d == 'std::iter::Map':
        return guarded_some(it, st, inner(), lambda x, s: call_at(it, s, fty[1], sub(1), [x]))
    if d in ('std::iter::Copied', 'std::iter::Cloned'):
        if d.endswith('Cloned'):
            it_t = it.p.types[t['targs'][0]]
            e = item_elem(it, it_t)
            if e is None or not models.is_plain(it, e) and not e.get('def', '').endswith(('rc::Rc', 'sync::Arc')):
                raise Unsupported('cloned() of %s' % it_t['s'])
        return guarded_some(it, st, inner(), lambda x, s: it.read_d(s, x))
    if d == 'std::iter::Inspect':
        def f(x, s):
            call_at(it, s, fty[1], sub(1), [tmp(it, s, x)])
            return x
        return guarded_some(it, st, inner(), f)
    if d == 'std::iter::Enumerate':
        if back:
            n = length(it, st, fty[0], sub(0))
            cnt = it.read_d(st, sub(1))
            ix = c.apply(lambda a, b: c.leaf(a + b - 1), 'enumback', n, cnt)
            return guarded_some(it, st, inner(), lambda x, s: Agg('tuple', (ix, x)))

        def f(x, s):
            n = it.read_d(s, sub(1))
            it.write_d(s, sub(1), c.apply(lambda k: c.leaf(k + 1), 'inc', n))
            return Agg('tuple', (n, x))
        return guarded_some(it, st, inner(), f)
    if d == 'std::iter::Zip':
        if back:
            la, lb = length(it, st, fty[0], sub(0)), length(it, st, fty[1], sub(1))
            for i, x, y in ((0, la, lb), (1, lb, la)):
                while True:
                    more = c.apply(lambda p, q: c.leaf(p > q), 'morethan', x, y)
                    if c.and_(st.g, more) is c.F:
                        break
                    under(it, st, more, lambda s: nxt(it, s, fty[i], sub(i), True))
                    x = c.apply(lambda p, q: c.leaf(p - 1 if p > q else p), 'shrink', x, y)

        def f(x, s):
            o = nxt(it, s, fty[1], sub(1), back)
            return (x, o)
        a = inner()
        if 1 not in a.pay:
            return models.opt_none(it)
        ha = has(it, a)
        r = under(it, st, ha, lambda s: nxt(it, s, fty[1], sub(1), back))
        if r is None or r is UNDEF or 1 not in r.pay:
            return models.opt_none(it)
        return models.opt(it, c.and_(ha, has(it, r)), Agg('tuple', (a.pay[1][0], r.pay[1][0])))
    if d == 'std::iter::Take':
        n = c.restrict(it.read_d(st, sub(1)), st.g)
        if back:
            # the last of the first n items: drop the items behind them first
            m = length(it, st, fty[0], sub(0))
            while True:
                more = c.apply(lambda p, q: c.leaf(p > q), 'morethan', m, n)
                if c.and_(st.g, more) is c.F:
                    break
                under(it, st, more, lambda s: nxt(it, s, fty[0], sub(0), True))
                m = c.apply(lambda p, q: c.leaf(p - 1 if p > q else p), 'shrink', m, n)
        pos = c.apply(lambda k: c.leaf(k > 0), 'pos', n)

        def f(s):
            it.write_d(s, sub(1), c.apply(lambda k: c.leaf(max(k - 1, 0)), 'dec0', n))
            return inner(s)
        o = under(it, st, pos, f)
        if o is None or o is UNDEF or 1 not in o.pay:
            return models.opt_none(it)
        return models.opt(it, c.and_(pos, has(it, o)), o.pay[1][0])
    if d == 'std::iter::Skip':
        if back:
            m = length(it, st, fty[0], sub(0))
            n = c.restrict(it.read_d(st, sub(1)), st.g)
            left = c.apply(lambda p, q: c.leaf(p > q), 'morethan', m, n)
            o = under(it, st, left, inner)
            if o is None or o is UNDEF or 1 not in o.pay:
                return models.opt_none(it)
            return models.opt(it, c.and_(left, has(it, o)), o.pay[1][0])
        while True:
            n = c.restrict(it.read_d(st, sub(1)), st.g)
            pos = c.apply(lambda k: c.leaf(k > 0), 'pos', n)
            if c.and_(st.g, pos) is c.F:
                break

            def f(s):
                it.write_d(s, sub(1), c.apply(lambda k: c.leaf(max(k - 1, 0)), 'dec0', n))
                return inner(s)
            under(it, st, pos, f)
            if st.g is c.F:
                return models.opt_none(it)
        return inner()
    if d == 'std::iter::StepBy':
        if back:
            raise Unsupported('step_by from the back')
        first = it.read_d(st, sub(2))
        k = c.restrict(it.read_d(st, sub(1)), st.g)
        if not isinstance(k, Leaf):
            raise Unsupported('step_by a varying step')
        it.write_d(st, sub(2), c.F)

        def f(s):
            for _ in range(k.v):
                inner(s)
        if k.v:
            under(it, st, c.not_(first), f)
        return inner()
    if d in ('std::iter::Filter', 'std::iter::FilterMap', 'std::iter::TakeWhile'):
        if d.endswith('TakeWhile'):
            done = it.read_d(st, sub(1))

            def g(s):
                o = inner(s)
                ok = guarded_some(it, s, o, lambda x, q: call_at(it, q, fty[2], sub(2), [tmp(it, q, x)]))
                if 1 not in ok.pay:
                    return models.opt_none(it)
                stop = c.and_(has(it, o), c.not_(ok.pay[1][0]))
                it.write_d(s, sub(1), c.or_(it.read_d(s, sub(1)), stop))
                return models.opt(it, c.and_(has(it, o), ok.pay[1][0]), o.pay[1][0])
            o = under(it, st, c.not_(done), g)
            if o is None or o is UNDEF or 1 not in o.pay:
                return models.opt_none(it)
            return models.opt(it, c.and_(c.not_(done), has(it, o)), o.pay[1][0])

        def body(x, s):
            if d.endswith('FilterMap'):
                r = call_at(it, s, fty[1], sub(1), [x])
                if r is UNDEF:
                    return None
                return has(it, r), r
            return call_at(it, s, fty[1], sub(1), [tmp(it, s, x)]), models.opt_some(it, x)
        return models.merge_outs(it, st, each(it, st, fty[0], sub(0), back, body), models.opt_none(it))
    if d == 'std::iter::Chain':
        order = (1, 0) if back else (0, 1)
        res = None
        for i in order:
            o = it.read_d(st, sub(i))
            if not isinstance(o, En):
                raise Unsupported('chain')
            live = has(it, o)
            if res is not None:
                live = c.and_(live, c.not_(has(it, res)))
            et = ty(it, fty[i]['targs'][0])
            ref = it.ref_ext(it.ref_ext(sub(i), ('v', 1)), 0)
            r = under(it, st, live, lambda s: nxt(it, s, et, ref, back))
            if r is None or r is UNDEF or 1 not in r.pay:
                r = models.opt_none(it)
            h = c.and_(live, has(it, r))
            r = models.opt(it, h, r.pay[1][0]) if 1 in r.pay else r
            if res is None:
                res = r
            elif 1 not in res.pay:
                res = r
            elif 1 in r.pay:
                h0 = has(it, res)
                res = models.opt(it, c.or_(h0, h), it.join_val(h0, res.pay[1][0], r.pay[1][0]))
        return res
    if d == 'std::ops::Range':
        s, e = [c.restrict(x, st.g) for x in it.read_d(st, selfd).f]
        if not ints(it, s, e):
            raise Unsupported('range with varying bounds')
        h = c.apply(lambda p, q: c.leaf(p < q), 'iterhas', s, e)
        if back:
            e2 = c.apply(lambda p, q: c.leaf(q - 1 if p < q else q), 'iterdec', s, e)
            it.write_d(st, selfd, Agg(v.k, [s, e2]))
            return models.opt(it, h, e2)
        s2 = c.apply(lambda p, q: c.leaf(p + 1 if p < q else p), 'iterinc', s, e)
        it.write_d(st, selfd, Agg(v.k, [s2, e]))
        return models.opt(it, h, s)
    if d == 'std::ops::RangeFrom':
        s = c.restrict(v.f[0], st.g)
        if back or not ints(it, s):
            raise Unsupported('range with varying bounds')
        it.write_d(st, selfd, Agg(v.k, [c.apply(lambda p: c.leaf(p + 1), 'inc', s)]))
        return models.opt_some(it, s)
    if d == 'std::ops::RangeInclusive':
        s, e, x = [c.restrict(y, st.g) for y in v.f]
        if not ints(it, s, e):
            raise Unsupported('range with varying bounds')
        h = c.and_(c.not_(x), c.apply(lambda p, q: c.leaf(p <= q), 'iterhase', s, e))
        x2 = c.or_(x, c.apply(lambda p, q: c.leaf(p >= q), 'iterend', s, e))
        if back:
            e2 = c.ite(h, c.apply(lambda p, q: c.leaf(q - 1 if p < q else q), 'iterdec', s, e), e)
            it.write_d(st, selfd, Agg(v.k, [s, e2, x2]))
            return models.opt(it, h, e)
        s2 = c.ite(h, c.apply(lambda p, q: c.leaf(p + 1 if p < q else p), 'iterinc', s, e), s)
        it.write_d(st, selfd, Agg(v.k, [s2, e, x2]))
        return models.opt(it, h, s)
    if d.startswith('std::slice::'):
        # chunks and windows: field 0 is the remaining slice, field 1 the size (ChunksExact: remainder in between)
        names = [x[0] for x in fs]
        ki = names.index('size') if 'size' in names else names.index('chunk_size')
        ref = c.restrict(it.as_d(v.f[0]), st.g)
        k = c.restrict(v.f[ki], st.g)
        if isinstance(k, Agg):
            k = it.as_d(k)
        if not (isinstance(ref, Leaf) and isinstance(k, Leaf)):
            raise Unsupported('chunks of varying slices')
        r, n = ref.v, k.v
        off, m = r[3] if isinstance(r[3], tuple) else (0, models.slice_len(it, st, r))
        exact = 'Exact' in d
        if 'Windows' in d:
            if m < n:
                return models.opt_none(it)
            item = (off + m - n, n) if back else (off, n)
            rest = (off, m - 1) if back else (off + 1, m - 1)
        else:
            if m == 0 or exact and m < n:
                return models.opt_none(it)
            if back:
                q = m % n or n
                item, rest = (off + m - q, q), (off, m - q)
            else:
                q = min(m, n)
                item, rest = (off, q), (off + q, m - q)
        f2 = list(v.f)
        f2[0] = c.leaf(('ref', r[1], r[2], rest))
        it.write_d(st, selfd, Agg(v.k, f2))
        return models.opt_some(it, c.leaf(('ref', r[1], r[2], item)))
    if d == 'std::iter::Scan' and not back:
        o = inner()
        r = guarded_some(it, st, o, lambda x, s: call_at(it, s, fty[1], sub(1), [sub(2), x]))
        if 1 not in r.pay or r.pay[1][0] is UNDEF or 1 not in r.pay[1][0].pay:
            return models.opt_none(it)
        y = r.pay[1][0]
        return models.opt(it, c.and_(has(it, r), has(it, y)), y.pay[1][0])
    if d == 'std::iter::Empty':
        return models.opt_none(it)
    if d == 'std::iter::Fuse' and not back:
        o = it.read_d(st, sub(0))
        live = has(it, o)
        et = ty(it, fty[0]['targs'][0])
        ref = it.ref_ext(it.ref_ext(sub(0), ('v', 1)), 0)
        r = under(it, st, live, lambda s: nxt(it, s, et, ref, back))
        if r is None or r is UNDEF or 1 not in r.pay:
            return models.opt_none(it)
        h = c.and_(live, has(it, r))
        it.write_d(st, sub(0), En(c.ite(h, o.tag, c.leaf(0)), it.read_d(st, sub(0)).pay))
        return models.opt(it, h, r.pay[1][0])
    g = next_fn(it, t, back)
    if g is None:
        raise Unsupported('step of the iterator %s' % t['s'])
    return it.run(g, [selfd], st)


def next_fn(it, t, back):
    """the analysed body of next() for types left to std"""
    if back:
        k = it.p.types.index(t)
        for g in it.p.fns:
            if g['name'].endswith('::next_back') and not g.get('nobody') and g['argc'] == 1:
                a = it.p.types[g['locals'][1]]
                if a['k'] == 'ref' and a['e'] == k:
                    return g['id']
        return None
    return has_next(it, t)


def item_elem(it, t):
    """type T of an iterator over &T"""
    while t['k'] == 'ref':
        t = ty(it, t['e'])
    d = t.get('def')
    if d in ('std::slice::Iter', 'std::slice::IterMut'):
        return ty(it, [x for x in t['targs']][-1])
    if d in ('std::iter::Rev', 'std::iter::Skip', 'std::iter::Take', 'std::iter::StepBy', 'std::iter::Filter', 'std::iter::Inspect'):
        return item_elem(it, ty(it, t['targs'][0]))
    return None


def length(it, st, t, selfd):
    """number of items left (exact-size iterators)"""
    import models
    c = it.c
    if t['k'] == 'ref':
        return length(it, st, ty(it, t['e']), it.as_d(it.read_d(st, selfd)))
    v = it.read_d(st, selfd)
    if isinstance(v, Agg) and v.k.startswith('Iter_'):
        return c.apply(lambda p, e: c.leaf(e - p), 'iterlen', c.restrict(v.f[1], st.g), c.restrict(v.f[2], st.g))
    d = t.get('def')
    fs = t['variants'][0]['fields'] if t['k'] == 'adt' else []
    sub = lambda i: length(it, st, ty(it, fs[i][1]), it.ref_ext(selfd, i))
    if d in ('std::iter::Map', 'std::iter::Enumerate', 'std::iter::Rev', 'std::iter::Copied', 'std::iter::Cloned', 'std::iter::Inspect'):
        return sub(0)
    if d == 'std::iter::Zip':
        return c.apply(lambda a, b: c.leaf(min(a, b)), 'imin', sub(0), sub(1))
    if d in ('std::iter::Take', 'std::iter::Skip'):
        n = c.restrict(it.read_d(st, it.ref_ext(selfd, 1)), st.g)
        return c.apply(lambda a, b: c.leaf(min(a, b) if d.endswith('Take') else max(a - b, 0)), ('ilen', d), sub(0), n)
    if d in ('std::ops::Range', 'std::ops::RangeInclusive'):
        s, e = [c.restrict(x, st.g) for x in v.f[:2]]
        if ints(it, s, e):
            if d == 'std::ops::Range':
                return c.apply(lambda p, q: c.leaf(max(q - p, 0)), 'rlen', s, e)
            x = c.restrict(v.f[2], st.g)
            return c.apply(lambda p, q, y: c.leaf(0 if y else max(q - p + 1, 0)), 'rleni', s, e, x)
    if d and d.startswith('std::slice::'):
        names = [x[0] for x in fs]
        ki = names.index('size') if 'size' in names else names.index('chunk_size')
        ref, k = c.restrict(it.as_d(v.f[0]), st.g), c.restrict(it.as_d(v.f[ki]), st.g)
        if isinstance(ref, Leaf) and isinstance(k, Leaf):
            m, n = models.slice_len(it, st, ref.v), k.v
            return c.leaf(max(m - n + 1, 0) if 'Windows' in d else m // n if 'Exact' in d else -(-m // n))
    if d == 'std::iter::StepBy':
        m, k, first = sub(0), c.restrict(v.f[1], st.g), c.restrict(v.f[2], st.g)
        return c.apply(lambda a, b, q: c.leaf(-(-a // (b + 1)) if q else a // (b + 1)), 'steplen', m, k, first)
    raise Unsupported('length of %s' % t['s'])


def each(it, st, t, selfd, back, body):
    """run body for each item; body may return (stop condition, value)"""
    c = it.c
    outs = []
    for _ in range(it.MAX_ITER):
        o = nxt(it, st, t, selfd, back)
        if st.g is c.F:
            break
        h = has(it, o)
        g = c.and_(st.g, h)
        done = c.and_(st.g, c.not_(h))
        if done is not c.F:
            outs.append((State(done, dict(st.s)), None))
        if g is c.F:
            break
        st.g = g
        r = body(o.pay[1][0], st)
        if st.g is c.F:
            break
        if r is not None:
            stop, val = r
            sg = c.and_(st.g, stop)
            if sg is not c.F:
                outs.append((State(sg, dict(st.s)), val))
            st.g = c.and_(st.g, c.not_(stop))
            if st.g is c.F:
                break
    else:
        raise Unsupported('iterator does not end')
    return outs


def self_type(it, f, argtys):
    t = argtys[0] if argtys else None
    return t


def model(it, f, args, argtys, dty, st):
    import models
    c = it.c
    d = f['def']
    if d.startswith('<std::iter::Zip<') and d.endswith('::new') or d == 'std::iter::zip':
        if d == 'std::iter::zip':
            return None
        if len(args) == 2:
            t = dty
            return Agg(t['s'] if t else 'std::iter::Zip', [args[0], args[1], c.leaf(0), c.leaf(0)])
    if d == 'std::iter::StepBy::<I>::new':
        k = c.restrict(args[1], st.g)
        return Agg(dty['s'] if dty else 'std::iter::StepBy', [args[0], c.apply(lambda n: c.leaf(n - 1), 'dec', k), c.T])
    m = ADAPT.match(d) or RANGE.match(d)
    meth = None
    if m:
        meth = m.group(3)
        if m.re is RANGE and m.group(1) not in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'):
            return None
        if m.re is ADAPT and m.group(2) not in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'):
            return None
    else:
        m = re.match(r'^std::iter::(?:Iterator|DoubleEndedIterator|ExactSizeIterator)::(\w+)$', d)
        if m:
            meth = m.group(1)
    if meth is None or meth.startswith('__') or not argtys or argtys[0] is None:
        return None
    t = argtys[0]
    byref = t['k'] == 'ref' and meth not in ('fold', 'rfold', 'count', 'last', 'for_each', 'reduce', 'sum', 'product')
    if byref:
        t = ty(it, t['e'])
        selfd = args[0]
    if not known(it, t):
        return None
    if meth in ('next', 'next_back') and byref:
        return nxt(it, st, t, selfd, meth == 'next_back')
    if meth in ('nth', 'nth_back') and byref:
        k = c.restrict(args[1], st.g)
        if not isinstance(k, Leaf):
            return None
        o = None
        for _ in range(k.v + 1):
            o = nxt(it, st, t, selfd, meth == 'nth_back')
            if st.g is c.F:
                return UNDEF
        return o
    if meth in ('len', 'size_hint') and byref:
        try:
            n = length(it, st, t, selfd)
        except Unsupported:
            return None
        return n if meth == 'len' else Agg('tuple', (n, models.opt_some(it, n)))
    if meth in ('fold', 'rfold'):
        fty = argtys[-1]
        if fty is None:
            return None
        selfd = tmp(it, st, args[0])
        acc, fr = it.alloc(), tmp(it, st, args[2])
        st.s[acc] = args[1]

        def body(x, s):
            s.s[acc] = call_at(it, s, fty, fr, [s.s[acc], x])
        models.merge_outs(it, st, each(it, st, t, selfd, meth == 'rfold', body), UNIT)
        return st.s.get(acc, UNDEF)
    if meth == 'for_each':
        fty = argtys[-1]
        if fty is None:
            return None
        selfd, fr = tmp(it, st, args[0]), tmp(it, st, args[1])

        def body(x, s):
            call_at(it, s, fty, fr, [x])
        models.merge_outs(it, st, each(it, st, t, selfd, False, body), UNIT)
        return UNIT
    if meth == 'count':
        selfd = tmp(it, st, args[0])
        acc = it.alloc()
        st.s[acc] = c.leaf(0)

        def body(x, s):
            s.s[acc] = c.apply(lambda k: c.leaf(k + 1), 'inc', s.s[acc])
        models.merge_outs(it, st, each(it, st, t, selfd, False, body), UNIT)
        return st.s.get(acc, UNDEF)
    if meth == 'last':
        selfd = tmp(it, st, args[0])
        acc = it.alloc()
        st.s[acc] = models.opt_none(it)

        def body(x, s):
            s.s[acc] = models.opt_some(it, x)
        models.merge_outs(it, st, each(it, st, t, selfd, False, body), UNIT)
        return st.s.get(acc, UNDEF)
    return None


# ------------------------------------------------------------------ slices
SLICE_IX = re.compile(r'^<(usize|std::ops::Range\w*(?:<usize>)?) as std::slice::SliceIndex<\[T\]>>::(\w+)$')


def slice_index(it, f, args, argtys, st):
    """v[range] and v.get(range)"""
    import models
    c = it.c
    m = SLICE_IX.match(f['def'])
    if not m or m.group(2) not in ('index', 'index_mut', 'get', 'get_mut', 'get_unchecked', 'get_unchecked_mut'):
        return None
    kind, meth = m.group(1), m.group(2)
    sl = c.restrict(it.as_d(args[1]), st.g)
    if not all(isinstance(l.v, tuple) and l.v[0] == 'ref' for l in c.leaves_of(sl)):
        return None
    n = c.apply(lambda r: c.leaf(models.slice_len(it, st, r)), models.uid(), sl)
    if kind == 'usize':
        i = c.restrict(it.as_d(args[0]), st.g)
        if not ints(it, i):
            return None
        ok = c.apply(lambda k, m: c.leaf(0 <= k < m), 'inb', i, n)
        ref = lambda: c.apply(lambda r, k: c.leaf(models.elem(it, r, k)), models.uid(), sl, i)
    else:
        z = c.leaf(0)
        if kind.startswith('std::ops::RangeFull'):
            lo, hi = z, n
        elif kind.startswith('std::ops::RangeFrom'):
            lo, hi = args[0].f[0], n
        elif kind.startswith('std::ops::RangeToInclusive'):
            lo, hi = z, c.apply(lambda k: c.leaf(k + 1), 'inc', args[0].f[0])
        elif kind.startswith('std::ops::RangeTo'):
            lo, hi = z, args[0].f[0]
        elif kind.startswith('std::ops::RangeInclusive'):
            lo, hi = args[0].f[0], c.apply(lambda k: c.leaf(k + 1), 'inc', args[0].f[1])
        else:
            lo, hi = args[0].f
        lo, hi = c.restrict(lo, st.g), c.restrict(hi, st.g)
        if not ints(it, lo, hi):
            return None
        ok = c.apply(lambda a, b, m: c.leaf(0 <= a <= b <= m), 'inr', lo, hi, n)

        def cutr(r, a, b):
            off = r[3][0] if isinstance(r[3], tuple) else 0
            return c.leaf(('ref', r[1], r[2], (off + a, b - a)))
        ref = lambda: c.apply(cutr, 'slicerange', sl, lo, hi)
    if meth.startswith('get_unchecked'):
        return ref()
    if meth.startswith('get'):
        if c.and_(st.g, ok) is c.F:
            return models.opt_none(it)
        return models.opt(it, ok, ref())
    bad = c.and_(st.g, c.not_(ok))
    if bad is not c.F:
        it.panic(State(bad, {}), 'index out of bounds')
        st.g = c.and_(st.g, ok)
        if st.g is c.F:
            return UNDEF
    return ref()


def slice_method(it, meth, args, argtys, dty, st):
    import models
    c = it.c
    if not args:
        return None
    d = c.restrict(it.as_d(args[0]), st.g)
    if meth in ('chunks', 'chunks_mut', 'chunks_exact', 'chunks_exact_mut', 'windows') and dty is not None:
        fs = [x[0] for x in dty['variants'][0]['fields']]
        k = c.restrict(args[1], st.g)
        if not isinstance(k, Leaf) or k.v <= 0:
            return None
        vals = []
        for n in fs:
            vals.append(d if n == 'v' else k if n in ('chunk_size', 'size') else UNIT)
        return Agg(dty['s'], vals)
    if meth in ('split_first', 'split_last', 'split_first_mut', 'split_last_mut'):
        n = c.apply(lambda r: c.leaf(models.slice_len(it, st, r)), models.uid(), d)
        ok = c.apply(lambda k: c.leaf(k > 0), 'pos', n)
        if c.and_(st.g, ok) is c.F:
            return models.opt_none(it)
        first = 'first' in meth

        def one(r, k):
            return c.leaf(models.elem(it, r, 0 if first else max(k - 1, 0)))

        def rest(r, k):
            off = r[3][0] if isinstance(r[3], tuple) else 0
            return c.leaf(('ref', r[1], r[2], (off + (1 if first else 0), max(k - 1, 0))))
        return models.opt(it, ok, Agg('tuple', (c.apply(one, models.uid(), d, n), c.apply(rest, models.uid(), d, n))))
    if meth in ('to_vec', 'into_vec', 'to_owned'):
        v = it.read_d(st, d)
        if isinstance(v, Agg) and plain_elems(it, argtys):
            return Agg('vec', v.f)
    if meth == 'contains' and argtys and argtys[0]:
        v = it.read_d(st, d)
        e = ty(it, ty(it, argtys[0]['e'])['e'])
        x = it.read_d(st, args[1])
        r = c.F
        for y in v.f:
            q = models.value_eq(it, y, x, e, st)
            if q is None:
                return None
            r = c.or_(r, q)
        return r
    return None


def plain_elems(it, argtys):
    import models
    t = argtys[0] if argtys else None
    if t is None or t['k'] not in ('ref', 'adt'):
        return False
    e = ty(it, t['e']) if t['k'] == 'ref' else ty(it, t['targs'][0])
    if e['k'] in ('slice', 'array'):
        e = ty(it, e['e'])
    return models.is_plain(it, e) or e.get('def', '').endswith(('rc::Rc', 'sync::Arc'))


# ----------------------------------------------------------------- vectors
def drain_all(it, st, t, v):
    """items of an iterator value; their number must not depend on data"""
    c = it.c
    selfd = tmp(it, st, v)
    out = []
    for _ in range(it.MAX_ITER):
        o = nxt(it, st, t, selfd)
        if st.g is c.F:
            return out
        h = c.restrict(has(it, o), st.g)
        if h is c.F:
            return out
        if h is not c.T:
            raise Unsupported('collecting a number of items that depends on data')
        out.append(o.pay[1][0])
    raise Unsupported('iterator does not end')


def vec_method(it, f, name, args, argtys, dty, st):
    import models
    c = it.c
    d = f['def']
    if re.match(r'^<std::vec::Vec<T(?:, A)?> as std::vec::spec_from_iter\w*::SpecFromIter\w*<T, .*>>::from_iter$', d) and argtys and known(it, argtys[0]):
        return Agg('vec', drain_all(it, st, argtys[0], args[0]))
    m = re.match(r"^<std::vec::Vec<T(?:, A)?> as std::vec::spec_extend::SpecExtend<(&'a )?T, .*>>::spec_extend$", d)
    if m and argtys and known(it, argtys[1]):
        xs = drain_all(it, st, argtys[1], args[1])
        if st.g is c.F:
            return UNDEF
        if m.group(1):
            e = item_elem(it, argtys[1])
            if e is None or not models.is_plain(it, e):
                return None
            xs = [it.read_d(st, x) for x in xs]
        v = it.read_d(st, args[0])
        it.write_d(st, args[0], Agg('vec', tuple(v.f) + tuple(xs)))
        return UNIT
    if d == 'std::vec::Vec::<T, A>::extend_from_slice':
        s = it.read_d(st, args[1])
        v = it.read_d(st, args[0])
        if isinstance(s, Agg) and isinstance(v, Agg) and plain_elems(it, [argtys[1]]):
            it.write_d(st, args[0], Agg('vec', tuple(v.f) + tuple(s.f)))
            return UNIT
    if d == 'std::boxed::box_assume_init_into_vec_unsafe':
        v = it.read_d(st, it.as_d(args[0]))
        while isinstance(v, Agg) and v.k != 'array' and len(v.f) == 1:
            v = v.f[0]
        while isinstance(v, Agg) and v.k != 'array':
            v = [x for x in v.f if x is not UNDEF and isinstance(x, Agg)][-1]
        return Agg('vec', v.f)
    if d == 'std::boxed::Box::<T>::new_uninit':
        return tmp(it, st, UNDEF)
    if d in ('std::intrinsics::write_box_via_move', 'std::boxed::Box::<std::mem::MaybeUninit<T>, A>::write'):
        it.write_d(st, it.as_d(args[0]), args[1])
        return args[0]
    m = re.match(r'^std::vec::Vec::<T, A>::(\w+)$', d)
    if m:
        meth = m.group(1)
        if meth in ('remove', 'swap_remove', 'truncate', 'first', 'append', 'drain', 'split_off', 'iter'):
            v = it.read_d(st, args[0])
            if not isinstance(v, Agg):
                return None
            if meth in ('remove', 'swap_remove', 'truncate'):
                i = c.restrict(args[1], st.g)
                if not isinstance(i, Leaf):
                    return None
                if meth == 'truncate':
                    it.write_d(st, args[0], Agg('vec', v.f[:i.v]))
                    return UNIT
                if i.v >= len(v.f):
                    it.panic(st, 'index out of bounds')
                    return UNDEF
                fs = list(v.f)
                x = fs[i.v]
                if meth == 'remove':
                    del fs[i.v]
                else:
                    fs[i.v] = fs[-1]
                    fs.pop()
                it.write_d(st, args[0], Agg('vec', fs))
                return x
            if meth == 'append':
                w = it.read_d(st, args[1])
                it.write_d(st, args[0], Agg('vec', tuple(v.f) + tuple(w.f)))
                it.write_d(st, args[1], Agg('vec', ()))
                return UNIT
    m = re.match(r'^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$', d)
    if m and argtys and argtys[1] and argtys[1].get('def', '').startswith('std::ops::Range'):
        g = {'def': '<%s as std::slice::SliceIndex<[T]>>::index' % argtys[1]['s']}
        return slice_index(it, g, [args[1], models.vec_slice(it, st, args[0])], None, st)
    if re.match(r'^std::(array|vec)::<impl std::convert::TryFrom<(&.*\[T\]|std::vec::Vec<T, A>)> for \[T; N\]>::try_from$', d):
        n = f['cargs'][0]
        byref = '&' in d.split(' for ')[0]
        v = it.read_d(st, args[0]) if byref else args[0]
        if isinstance(v, Agg) and (not byref or plain_elems(it, argtys)):
            if len(v.f) == n:
                return En(c.leaf(0), {0: (Agg('array', v.f),)})
            return En(c.leaf(1), {1: (UNIT if byref else v,)})
    return None


# ------------------------------------------------------------ constructors
def constructor(it, f, args):
    """a struct or enum constructor used as a function"""
    name = f['name'].replace('::<', '<')
    m = re.match(r'^(.*)::(\w+)$', name)
    for t in it.p.types:
        if t['k'] != 'adt':
            continue
        if t['adt'] == 'Struct' and t['s'] == name and len(t['variants'][0]['fields']) == len(args):
            return Agg(t['s'], args)
        if m and t['adt'] == 'Enum' and t['s'] == m.group(1):
            for i, v in enumerate(t['variants']):
                if v['name'] == m.group(2) and len(v['fields']) == len(args):
                    return En(it.c.leaf(i), {i: tuple(args)})
    return None
