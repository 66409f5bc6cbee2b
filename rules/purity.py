"""Effect analysis over the resolved call graph."""
import calls, re

# Library entry points that read or change something other than their arguments.
IMPURE = [
    ('std::io::', 'input/output'), ('std::fs::', 'file system'), ('std::env::', 'process environment'),
    ('std::time::', 'clock'), ('std::thread::', 'threads / thread-local state'), ('std::process::', 'process control'),
    ('std::net::', 'network'), ('std::os::', 'operating system'), ('std::sync::', 'shared mutable state'),
    ('core::sync::', 'shared mutable state'), ('std::arch::', 'machine state'), ('core::arch::', 'machine state'),
    ('rand::', 'random numbers'), ('rand_core::', 'random numbers'), ('rand_chacha::', 'random numbers'), ('getrandom::', 'random numbers'),
    ('std::hash::random::', 'randomly seeded hashing'), ('std::hash::RandomState', 'randomly seeded hashing'), ('std::collections::hash_map::RandomState', 'randomly seeded hashing'),
    ('std::hash::DefaultHasher', 'hashing whose result is unspecified between releases'),
    ('std::panic::set_hook', 'global panic hook'), ('std::panic::take_hook', 'global panic hook'), ('std::panic::Location', 'source location of the caller'),
    ('core::fmt::rt::Argument::<\'_>::new_pointer', 'the address of a value'),
    ('plotters::', 'drawing'),
]
HASH_ITER = re.compile(r'^(<?(&?(\'\w+ )?(mut )?)?std::collections::(hash_map::|hash_set::)?Hash(Map|Set).*(::iter|::iter_mut|::keys|::values|::values_mut|::into_iter|::into_keys|::into_values|::drain|::retain|::extract_if|::next|::intersection|::union|::difference|::symmetric_difference)$'
                       r'|<?std::collections::hash_(map|set)::)')
ADDR = re.compile(r'^(core|std)::ptr::(const_ptr|mut_ptr|non_null)::.*::(addr|expose_provenance|is_aligned|align_offset|is_aligned_to)$|::NonNull::<T>::addr$|^std::alloc::Allocator')
CAP = re.compile(r'^std::(vec::Vec|string::String|collections::HashMap|collections::HashSet|collections::VecDeque)::<?.*::capacity$')
MUT_STATIC = re.compile(r'Atomic|Mutex|RwLock|OnceLock|LazyLock|OnceCell|LazyCell|RefCell|Cell<|UnsafeCell')


def impure_reason(path, op):
    for pre, why in IMPURE:
        if path.startswith(pre) or path.startswith('<' + pre):
            return why
    if HASH_ITER.match(path):
        return 'iteration in hash order'
    if ADDR.match(path):
        return 'the address of a value'
    if CAP.match(path):
        return 'allocation history'
    s = op.get('self') or ''
    args = op.get('args') or []
    if op.get('name') in ('into_iter', 'next') and any(re.match(r"^(&('\w+ )?(mut )?)?std::collections::Hash(Map|Set)<|^std::collections::hash_(map|set)::", str(a)) for a in [s] + list(args)[:1]):
        return 'iteration in hash order'
    return None


def expose_casts(fn):
    for b in [fn.body] + list(fn.d.get('promoted') or []):
        if not b:
            continue
        for bb in b['blocks']:
            for st in bb['st']:
                rv = st.get('rv') or {}
                if rv.get('r') == 'cast' and 'Expose' in str(rv.get('kind')):
                    yield st.get('at', '')


def random_by_name(fn):
    return fn.name.startswith('random') or 'random' in fn.name


def check_T01(prog, rep):
    g = calls.CallGraph(prog)
    rep.rule('no call path from a function that is not a random_* constructor to an impure library entry point, mutable static, thread-local, or address-to-integer cast')
    static_ty = {s.get('path', s.get('key')): s for s in prog.statics}
    roots = []
    for fn in prog.fns.values():
        if fn.kind == 'closure':
            continue
        if random_by_name(fn):
            rep.count('random constructors (exempt)')
            continue
        if fn.d.get('pub') or fn.trait or fn.d.get('intrait'):
            roots.append(fn.key)
    seen, parent = g.reachable(roots)

    def chain(k):
        out = [k]
        while k in parent:
            k = parent[k]
            out.append(k)
        return ' <- '.join(prog.fns[x].label() for x in out[:6])
    ncalls = 0
    for k in sorted(seen):
        fn = prog.fns[k]
        rep.analysed(fn)
        bad = []
        for path, op, at in g.ext.get(k, []):
            ncalls += 1
            why = impure_reason(path, op)
            if why:
                bad.append((path, why, at))
        for s, at in g.statics.get(k, []):
            st = static_ty.get(s) or {}
            if s == 'thread-local' or st.get('mut') or MUT_STATIC.search(str(st.get('ty', ''))):
                bad.append((s, 'mutable static', at))
        for at in expose_casts(fn):
            bad.append(('pointer-to-integer cast', 'the address of a value', at))
        rep.require('pure:' + fn.label(), not bad, '; '.join('%s (%s)' % (p, w) for p, w, _ in bad) + ' reached: ' + chain(k), bad[0][2] if bad else '')
    # the rule must see the effects it forbids where they are allowed
    pos = 0
    for fn in prog.fns.values():
        if random_by_name(fn):
            pos += sum(1 for p, op, _ in g.ext.get(fn.key, []) if impure_reason(p, op))
    rep.count('impure calls recognised inside random_* constructors', pos)
    rep.count('roots', len(roots))
    rep.count('reachable functions', len(seen))
    rep.count('external call sites', ncalls)
    rep.floor('impure calls recognised inside random_* constructors', 4)
    rep.floor('roots', 500)
    rep.floor('reachable functions', 900)
    rep.assumptions.append('Caller-supplied trait implementations and closures are pure; the contents of freshly allocated matrix storage are covered by the storage property.')
