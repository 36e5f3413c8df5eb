import json
import os

RULE = ('Effect analysis of the whole crate: for every item and every MIR body of scarlet (before monomorphisation, '
        'so generic and unreached code is included) the compiler lists statics, unsafe code, the types of fields, '
        'locals and statics, and every function called or used as a value. No static is mutable, thread-local or '
        'interior-mutable; nothing is unsafe; no type is a cell, lock, atomic or random-order container; no callee '
        'lies outside the pure part of the standard library (no I/O, environment, time, threads, atomics, randomness, '
        'reference counts or addresses); no pointer is turned into an integer or compared.')
ASSUMES = ['functions of core/alloc outside the denied modules, and float functions of std, have no effect beyond their arguments',
           'primitives implemented outside the crate and handed to it are pure themselves',
           'code excluded by cfg in the dev profile is not part of the analysed build']
FLOOR = 150
NEEDS_MIR = False
TECHNIQUE = 'effect analysis of all items and MIR bodies (statics, unsafe, interior mutability, callee classification)'

TYPES = ('core::cell::', 'core::sync::', 'std::sync::', 'std::thread::', 'std::collections::hash', 'std::hash::random',
         'std::io::', 'std::fs::', 'std::time::', 'std::process::', 'std::net::', 'std::env::', 'core::task::',
         'alloc::task::')
MODS = ('core::cell', 'core::sync', 'core::arch', 'core::task', 'alloc::task', 'core::core_arch', 'core::ffi', 'alloc::ffi')
STD_OK = ('std::f32', 'std::f64', 'std::num', 'std::panicking', 'std::panic', 'std::error', 'std::prelude')
NAMES = {'core::ptr': ('eq', 'addr_eq', 'fn_addr_eq', 'hash', 'addr', 'expose_provenance', 'with_exposed_provenance',
                       'read_volatile', 'write_volatile', 'offset_from'),
         'core::intrinsics': ('volatile_load', 'volatile_store', 'ptr_guaranteed_cmp'),
         'alloc::rc': ('strong_count', 'weak_count', 'ptr_eq', 'as_ptr', 'get_mut', 'try_unwrap', 'into_raw',
                       'downgrade', 'upgrade', 'unwrap_or_clone', 'into_inner'),
         'alloc::sync': ('strong_count', 'weak_count', 'ptr_eq', 'as_ptr', 'get_mut', 'try_unwrap', 'into_raw',
                         'downgrade', 'upgrade', 'unwrap_or_clone', 'into_inner')}


def within(m, ps):
    return any(m == p or m.startswith(p + '::') for p in ps)


def bad_call(w):
    name, mod = w.rsplit(' @ ', 1)
    crate = mod.split('::')[0]
    last = name.rsplit('::', 1)[-1]
    if crate == 'scarlet':
        return None
    if crate == 'std':
        return None if within(mod, STD_OK) else 'uses the environment of the program'
    if crate in ('core', 'alloc'):
        if within(mod, MODS):
            return 'shared or volatile state'
        m = mod.replace('alloc::rcs', 'alloc')
        for p, ns in NAMES.items():
            if within(m, (p,)) and last in ns:
                return 'depends on addresses, reference counts or volatile memory'
        return None
    return 'code outside scarlet and the standard library'


def check(rep):
    import dump
    out = os.path.join(dump.BUILD, dump.tag('C29.eff') + '.json')
    dump.dump([], out, dump.tag('C29'), harness=os.environ.get('VERIF_HARNESS') or os.path.join(dump.VERIF, 'harness'), effects=True)
    d = json.load(open(out))
    verdicts = {}

    def obl(key, bad=None):
        v = verdicts.setdefault(key, [])
        if bad:
            v.append(bad)
    for f in d['facts']:
        k, w, at, own = f['kind'], f['what'], f['at'], f['in']
        bad = None
        key = ('body' if k in ('call', 'indirect', 'fn-value', 'local', 'address', 'threadlocal', 'asm', 'static-use', 'transmute')
               else 'static' if k.startswith('static') else k, own or at)
        if k == 'unsafe':
            bad = w
        elif k == 'static' and w != 'immutable':
            bad = 'static is ' + w
        elif k in ('threadlocal', 'asm', 'address'):
            bad = '%s (%s)' % (w, k)
        elif k in ('call', 'fn-value'):
            r = bad_call(w)
            if r:
                bad = 'calls %s: %s' % (w.rsplit(' @ ', 1)[0], r)
        elif k in ('field', 'local', 'static-type'):
            if w.startswith(TYPES):
                bad = 'holds a %s' % w
            elif w == 'raw pointer' and k != 'local':
                bad = 'holds a raw pointer'
        obl(key, bad and '%s at %s' % (bad, at))
    for key in sorted(verdicts):
        v = verdicts[key]
        rep.add('%s %s has no effect' % key, not v, '; '.join(dict.fromkeys(v)))
    rep.add('every item was listed', d['bodies'] >= 100 and d['items'] >= 300, 'only %d bodies' % d['bodies'])
    rep.extra = {'items': d['items'], 'bodies': d['bodies'], 'call_sites': d['calls'], 'fields': d['fields'],
                 'item_kinds': d['kinds'], 'statics': sum(f['kind'] == 'static' for f in d['facts']),
                 'unsafe_uses': sum(f['kind'] == 'unsafe' for f in d['facts'])}
