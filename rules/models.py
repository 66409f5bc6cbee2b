"""Contracts of the library functions the workspace calls (std, num, rand), as term transformers.

Everything here is a statement about std's documented behaviour; nothing here describes code of the
repository itself, which is always analysed from its own MIR.
"""
import re
from terms import *
from absint import *
from absint import mk, PRED_TRUE

NI = NotImplemented
RANGE = 'std::ops::Range'
RANGE_INCL = 'std::ops::RangeInclusive'

ITOPS = {'it_range', 'it_rangefrom', 'it_slice', 'it_into', 'it_rev', 'it_enum', 'it_map', 'it_filter', 'it_zip', 'it_skip', 'it_take',
         'it_chain', 'it_takewhile', 'it_flatten', 'it_opaque', 'it_flatmap', 'it_filtermap', 'it_once', 'it_step', 'it_such'}


def idx_ty(ty):
    return ty in INT


def deref_all(I, st, v):
    n = 0
    while n < 6 and (v.op == 'ref' or (v.op == 'ite' and (v.args[1].op == 'ref' or v.args[2].op == 'ref'))):
        v = I.content(st, v)
        n += 1
    return v


def pointee(I, st, v, ty):
    """Follows as many references as the type says."""
    n = 0
    while ty.startswith('&') and n < 6:
        v = I.content(st, v)
        ty = strip_ref(ty)
        n += 1
    return v


def val(I, st, v):
    return deref_all(I, st, v)


# ------------------------------------------------------------------ iterators
def as_iter(I, v):
    if v.op in ITOPS:
        return v
    if is_adt(v, RANGE):
        return mk('it_range', v.args[1], v.args[2])
    if v.op == 'rangeincl':
        return mk('it_range', v.args[0], add(v.args[1], const(1)))
    if is_adt(v, 'std::ops::RangeFrom'):
        return mk('it_rangefrom', v.args[1])
    return None


def into_iter(I, st, v, ty):
    """IntoIterator::into_iter on a value of type ty."""
    it = as_iter(I, v)
    if it is not None:
        return it
    if ty.startswith('&'):
        inner = strip_ref(ty)
        if inner.startswith(('std::vec::Vec<', '[', 'std::collections::VecDeque<')) or inner.startswith('std::boxed::Box<['):
            return mk('it_slice', v)
        if inner.startswith('std::collections') or inner.startswith('std::option'):
            return mk('it_opaque', I.content(st, v))
        if inner.startswith('std::ops::Range<'):
            return into_iter(I, st, I.content(st, v), inner)
        return None
    if ty.startswith(('std::vec::Vec<', '[', 'std::collections::VecDeque<')):
        return mk('it_into', v)
    if ty.startswith('std::ops::Range<'):
        return mk('it_range', proj(v, ('f', 0)), proj(v, ('f', 1)))
    if ty.startswith('std::collections') or ty.startswith('std::option'):
        return mk('it_opaque', v)
    return None


def it_len(I, st, it):
    o = it.op
    if o == 'it_range':
        d = sub(it.args[1], it.args[0])
        if nonneg(d) or all(c >= 0 and (m == () or all(nonneg(x) for x, _ in m)) for m, c in to_poly(d).items()):
            return d
        # max(d, 0): written without the maximum, its users compare with > 0
        return d
    if o == 'it_slice': return length(I.content(st, it.args[0]))
    if o == 'it_into': return length(it.args[0])
    if o in ('it_rev', 'it_enum', 'it_map'): return it_len(I, st, it.args[0])
    if o == 'it_zip':
        a, b = it_len(I, st, it.args[0]), it_len(I, st, it.args[1])
        if a is None: return b
        if b is None: return a
        return a if a is b else mk('min', frozenset([a, b]))
    if o == 'it_skip':
        n = it_len(I, st, it.args[0])
        return None if n is None else sub(n, it.args[1])
    if o == 'it_take':
        n = it_len(I, st, it.args[0])
        return it.args[1] if n is None else mk('min', frozenset([n, it.args[1]]))
    if o == 'it_chain':
        a, b = it_len(I, st, it.args[0]), it_len(I, st, it.args[1])
        return None if a is None or b is None else add(a, b)
    return None


def more_conds(n, k):
    if n.op == 'min':
        return land(*[gt0(sub(x, k)) for x in n.args[0]])
    return gt0(sub(n, k))


def elem_ref(I, st, ref, k):
    """Reference to element k of the slice/vector behind ref."""
    if ref.op == 'ite':
        return ite(ref.args[0], elem_ref(I, st, ref.args[1], k), elem_ref(I, st, ref.args[2], k))
    r, p = I.target(ref)
    return I.ref(r, I.push(p, ('ix', k)))


def step(I, it, k, lid, st, pc, at):
    """k-th step: (more, item, state, pc) -- pc is restricted to iterations that pass all filters;
    `more` holds while the iterator is not exhausted.  Returns None when the form is not known."""
    o = it.op
    if o == 'it_range':
        return gt0(sub(sub(it.args[1], it.args[0]), k)), add(it.args[0], k), st, pc
    if o == 'it_rangefrom':
        return TRUE, add(it.args[0], k), st, pc
    if o == 'it_slice':
        c = sifted(I, st, it)
        if c is not None:
            I.fresh += 1
            root = ('C', I.fresh)
            st = dict(st)
            st[root] = subst(c.args[3], {c.args[0]: k})
            return sift(I, c, k, lid, mk('ref', root, ()), st, pc)
        n = length(I.content(st, it.args[0]))
        return gt0(sub(n, k)), elem_ref(I, st, it.args[0], k), st, pc
    if o == 'it_into':
        c = sifted(I, st, it)
        if c is not None:
            return sift(I, c, k, lid, subst(c.args[3], {c.args[0]: k}), st, pc)
        return gt0(sub(length(it.args[0]), k)), proj(it.args[0], ('ix', k)), st, pc
    if o in ('it_skip', 'it_take', 'it_takewhile') and has_filter(it.args[0], I, st):
        return None
    if o == 'it_skip':
        return step(I, it.args[0], add(k, it.args[1]), lid, st, pc, at)
    if o == 'it_take':
        r = step(I, it.args[0], k, lid, st, pc, at)
        if r is None: return None
        return land(r[0], gt0(sub(it.args[1], k))), r[1], r[2], r[3]
    if o == 'it_rev':
        src = it.args[0]
        if src.op in ('it_map', 'it_filter', 'it_enum', 'it_such'):
            n = it_len(I, st, src)
            if src.op == 'it_map':
                return step(I, mk('it_map', mk('it_rev', src.args[0]), src.args[1]), k, lid, st, pc, at)
            if src.op == 'it_such':
                return step(I, mk('it_such', mk('it_rev', src.args[0]), *src.args[1:]), k, lid, st, pc, at)
            if src.op == 'it_filter':
                return step(I, mk('it_filter', mk('it_rev', src.args[0]), src.args[1]), k, lid, st, pc, at)
        if src.op == 'it_rev':
            return step(I, src.args[0], k, lid, st, pc, at)
        c = sifted(I, st, src)
        n = it_len(I, st, src) if c is None else c.args[1]
        if n is None: return None
        r = step(I, src, sub(sub(n, const(1)), k), lid, st, pc, at)
        if r is None: return None
        return more_conds(n, k), r[1], r[2], r[3]
    if o == 'it_enum':
        r = step(I, it.args[0], k, lid, st, pc, at)
        if r is None: return None
        if r[3] is not pc and has_filter(it.args[0], I, st):
            return r[0], tup(mk('rank', lid, it.args[0]), r[1]), r[2], r[3]
        return r[0], tup(k, r[1]), r[2], r[3]
    if o == 'it_zip':
        a = step(I, it.args[0], k, lid, st, pc, at)
        if a is None: return None
        b = step(I, it.args[1], k, lid, a[2], a[3], at)
        if b is None or has_filter(it.args[0], I, st) or has_filter(it.args[1], I, st): return None
        return land(a[0], b[0]), tup(a[1], b[1]), b[2], b[3]
    if o == 'it_map':
        a = step(I, it.args[0], k, lid, st, pc, at)
        if a is None: return None
        p = dnf_and(a[3], a[0])
        if not p:
            return a[0], mk('undef'), a[2], a[3]
        r = I.apply(it.args[1], [a[1]], a[2], p, at)
        if r is None:
            return a[0], mk('undef'), a[2], dnf_and(a[3], lnot(a[0]))
        # both the exhausted and the mapped outcome remain possible
        return a[0], r[0], r[1], join_more(a[3], a[0], r[2])
    if o == 'it_filter':
        a = step(I, it.args[0], k, lid, st, pc, at)
        if a is None: return None
        p = dnf_and(a[3], a[0])
        if not p:
            return a[0], mk('undef'), a[2], a[3]
        I.fresh += 1
        root = ('C', I.fresh)
        s = dict(a[2])
        s[root] = a[1]
        r = I.apply(it.args[1], [mk('ref', root, ())], s, p, at)
        if r is None:
            return a[0], mk('undef'), a[2], dnf_and(a[3], lnot(a[0]))
        c = as_bool(r[0])
        note_filter(I, lid, c)
        return a[0], a[1], r[1], join_more(a[3], a[0], dnf_and(r[2], c))
    if o == 'it_such':
        # the members of a source that satisfy a condition (it_such(source, member, condition))
        a = step(I, it.args[0], k, lid, st, pc, at)
        if a is None: return None
        c = subst(it.args[2], {it.args[1]: a[1]})
        p = dnf_and(a[3], a[0])
        if not p:
            return a[0], mk('undef'), a[2], a[3]
        note_filter(I, lid, c)
        return a[0], a[1], a[2], join_more(a[3], a[0], dnf_and(p, c))
    if o == 'it_filtermap':
        a = step(I, it.args[0], k, lid, st, pc, at)
        if a is None: return None
        p = dnf_and(a[3], a[0])
        if not p:
            return a[0], mk('undef'), a[2], a[3]
        r = I.apply(it.args[1], [a[1]], a[2], p, at)
        if r is None:
            return a[0], mk('undef'), a[2], dnf_and(a[3], lnot(a[0]))
        c = isv(r[0], 1)
        note_filter(I, lid, c)
        return a[0], proj(r[0], ('f', 0)), r[1], join_more(a[3], a[0], dnf_and(r[2], c))
    if o == 'it_takewhile':
        a = step(I, it.args[0], k, lid, st, pc, at)
        if a is None: return None
        p = dnf_and(a[3], a[0])
        if not p:
            return a[0], mk('undef'), a[2], a[3]
        I.fresh += 1
        root = ('C', I.fresh)
        s = dict(a[2])
        s[root] = a[1]
        r = I.apply(it.args[1], [mk('ref', root, ())], s, p, at)
        if r is None: return None
        return land(a[0], as_bool(r[0])), a[1], r[1], a[3]
    if o == 'it_chain':
        n = it_len(I, st, it.args[0])
        a = step(I, it.args[0], k, lid, st, pc, at)
        if a is None or n is None or has_filter(it.args[0], I, st): return None
        b = step(I, it.args[1], sub(k, n), lid, a[2], a[3], at)
        if b is None: return None
        return lor(a[0], land(lnot(a[0]), b[0])), ite(a[0], a[1], b[1]), b[2], b[3]
    if o in ('it_flatten', 'it_flatmap') and any(L.id == lid and L.iv is k for L in I.loops):
        # member fcol of member frow: every pair of them comes exactly once
        r, c = mk('frow', lid, k), mk('fcol', lid, k)
        mark(r)
        mark(c)
        a = step(I, it.args[0] if o == 'it_flatten' else mk('it_map', it.args[0], it.args[1]), r, lid, st, pc, at)
        if a is not None and not any(x.op in ('item', 'more') for x in subterms(a[1])):
            inner = as_iter(I, a[1]) or (mk('it_slice', a[1]) if a[1].op == 'ref' else into_iter(I, a[2], a[1], 'std::vec::Vec<>'))
            b = inner is not None and not has_filter(inner, I, st) and step(I, inner, c, lid, a[2], a[3], at)
            if b:
                for L in I.loops:
                    if L.id == lid:
                        L.flat = (as_bool(a[0]), as_bool(b[0]))
                return mk('more', lid, it), b[1], b[2], b[3]
    if o in ('it_opaque', 'it_flatten', 'it_flatmap', 'it_step', 'it_once'):
        return mk('more', lid, it), mk('item', lid, it), st, pc
    return None


def note_filter(I, lid, c):
    for L in I.loops:
        if L.id == lid:
            stack = [c]
            while stack:
                x = stack.pop()
                L.filters.add(x)
                if x.op in ('and', 'or'):
                    stack.extend(x.args[0])
            for d in dnf_and(frozenset([frozenset()]), c):
                L.filters |= d


def join_more(pc0, more, pcm):
    """Predicate after evaluating something under pc0 & more: either exhausted, or pcm."""
    ex = dnf_and(pc0, lnot(more))
    return dnf_or([ex, pcm]) if ex else pcm


def as_bool(v):
    return v if is_bool(v) else (v if v.op == 'bool' else mk('eq', v, TRUE) if False else v)


def has_filter(it, I=None, st=None):
    return contains(it, lambda t: t.op in ('it_filter', 'it_filtermap', 'it_such') or I is not None and t.op in ('it_slice', 'it_into') and sifted(I, st, t) is not None)


def sifted(I, st, it):
    """The collection behind an iterator, when it holds only the values of a source that satisfy a condition."""
    if it.op not in ('it_slice', 'it_into'):
        return None
    c = I.reify(st, models_content(I, st, it))
    return c if c.op == 'collect' and c.args[2] else None


def models_content(I, st, it):
    return it.args[0] if it.op == 'it_into' else I.content(st, it.args[0])


def sift(I, c, k, lid, item, st, pc):
    more = gt0(sub(c.args[1], k))
    p = dnf_and(pc, more)
    if not p:
        return more, mk('undef'), st, pc
    for x in c.args[2]:
        x = subst(x, {c.args[0]: k})
        note_filter(I, lid, x)
        p = dnf_and(p, x)
    return more, item, st, join_more(pc, more, p)


def it_next(I, op, args, st, pc, at):
    """Iterator::next on &mut iterator."""
    ref = args[0]
    v = I.content(st, ref)
    it = as_iter(I, v)
    if v.op == 'iterstate':
        lid, init = v.args
        src = as_iter(I, init)
        if src is None:
            return NI
        L = next((l for l in I.loops if l.id == lid), None)
        if L is None:
            return NI
        r = step(I, src, L.iv, lid, st, pc, at)
        if r is None:
            r = (mk('more', lid, src), mk('item', lid, src), st, pc)
        st = dict(r[2])
        I.store(st, ref, mk('iteradv', lid, init))
        return ite(r[0], some(r[1]), none()), st, r[3]
    if v.op == 'iteradv':
        lid, init = v.args
        src = as_iter(I, init)
        if src is None:
            return NI
        st = dict(st)
        I.store(st, ref, mk('iterstate2', v))
        return mk('call', 'next', (v,)), st, pc
    if it is not None:
        if it.op == 'it_filter':
            # the first member that passes
            def f(item, acc, s, p, iv):
                I.fresh += 1
                root = ('C', I.fresh)
                s = dict(s)
                s[root] = item
                r = I.apply(it.args[1], [mk('ref', root, ())], s, p, at)
                if not r:
                    return []
                t, fl = bool_split(as_bool(r[0]), r[1], r[2])
                return [('stop', some(item), r[1], t), ('next', None, r[1], fl)]
            r = consume(I, it.args[0], st, pc, at, f, none())
            if r is None or r is NI:
                return r
            st = dict(r[1])
            I.store(st, ref, mk('it_skip', it, const(1)))
            return r[0], st, r[2]
        r = step(I, it, const(0), 0, st, pc, at) if not has_filter(it, I, st) else None
        st = dict(st)
        if r is None:
            I.store(st, ref, mk('it_skip', it, const(1)))
            return mk('call', 'next', (it,)), st, pc
        st = dict(r[2])
        I.store(st, ref, mk('it_skip', it, const(1)))
        return ite(r[0], some(r[1]), none()), st, r[3]
    return NI


def consume(I, it, st, pc, at, f, init):
    """Loops over it; f(item, ref-to-accumulator, st, pc, iv) -> ('next', st, pc) list or ('stop', value, st, pc).
    Returns (accumulator or stop value, state, pc)."""
    I.fresh += 1
    acc = ('C', I.fresh)
    st = dict(st)
    st[acc] = init
    out = ('C', I.fresh, 'out')

    def flat(it, st, pc, body_):
        def body(s, p):
            L = I.loops[-1]
            src = it
            inner = None
            if src.op in ('it_flatten', 'it_flatmap'):
                inner = src
                src = src.args[0] if src.op == 'it_flatten' else mk('it_map', src.args[0], src.args[1])
            r = step(I, src, L.iv, L.id, s, p, at)
            if r is None:
                r = (mk('more', L.id, src), mk('item', L.id, src), s, p)
            more, item, s2, p2 = r
            pm = dnf_and(p2, more)
            exits = []
            px = dnf_and(p, lnot(more))
            if px:
                exits.append((px, s, 'end', None))
            backs = []
            if pm:
                if inner is not None:
                    sub_it = into_iter(I, s2, item, 'std::vec::Vec<>') if item.op != 'ref' else mk('it_slice', item)
                    sub_it = as_iter(I, item) or sub_it or mk('it_opaque', item)
                    for p3, s3, kind, v in flat(sub_it, s2, pm, body_):
                        if kind == 'end':
                            backs.append((p3, s3))
                        else:
                            exits.append((p3, s3, kind, v))
                else:
                    for kind, v, s3, p3 in body_(item, s2, pm, L.iv):
                        if not p3:
                            continue
                        if kind == 'next':
                            backs.append((p3, s3))
                        else:
                            s3 = dict(s3)
                            s3[out] = v
                            exits.append((p3, s3, 'stop', None))
            return backs, exits
        return I.loop(body, st, pc, at)

    def b(item, s, p, iv):
        return f(item, mk('ref', acc, ()), s, p, iv)
    exits = flat(it, st, pc, b)
    ins = []
    for i, (p, s, kind, v) in enumerate(exits):
        s = dict(s)
        if kind == 'end':
            s[out] = s.get(acc, init)
        s.pop(acc, None)
        ins.append((i, p, s))
    if not ins:
        return None
    class F: pass
    F.key = 'consume'
    p, s = I.merge(ins, F, I.fresh)
    v = s.pop(out)
    return v, s, p


def bool_split(cond, st, pc):
    """[(truth, st, pc)]"""
    out = []
    t = dnf_and(pc, cond)
    f = dnf_and(pc, lnot(cond))
    return t, f


def consumer(I, name, op, args, st, pc, at):
    it = as_iter(I, args[0])
    if it is None:
        # &mut iterator (by_ref style): find/all/any/position take &mut self
        if args[0].op == 'ref':
            c = I.content(st, args[0])
            it = as_iter(I, c)
            if it is not None:
                st = dict(st)
                I.store(st, args[0], mk('itused', it))
        if it is None:
            return NI
    if name == 'for_each':
        def f(item, acc, s, p, iv):
            r = I.apply(args[1], [item], s, p, at)
            return [('next', None, r[1], r[2])] if r else []
        r = consume(I, it, st, pc, at, f, UNIT)
        return None if r is None else (UNIT, r[1], r[2])
    if name in ('sum', 'product'):
        comb, unit = (add, const(0)) if name == 'sum' else (mul, const(1))

        def f(item, acc, s, p, iv):
            s = dict(s)
            I.store(s, acc, comb(I.content(s, acc), val(I, s, item)))
            return [('next', None, s, p)]
        return consume(I, it, st, pc, at, f, unit)
    if name == 'count':
        def f(item, acc, s, p, iv):
            s = dict(s)
            I.store(s, acc, add(I.content(s, acc), const(1)))
            return [('next', None, s, p)]
        return consume(I, it, st, pc, at, f, const(0))
    if name == 'fold':
        def f(item, acc, s, p, iv):
            r = I.apply(args[2], [I.content(s, acc), item], s, p, at)
            if not r: return []
            s2 = dict(r[1])
            I.store(s2, acc, r[0])
            return [('next', None, s2, r[2])]
        return consume(I, it, st, pc, at, f, args[1])
    if name in ('all', 'any', 'find', 'position', 'find_map'):
        def f(item, acc, s, p, iv):
            x = item
            if name == 'find':
                I.fresh += 1
                root = ('C', I.fresh)
                s = dict(s)
                s[root] = item
                x = mk('ref', root, ())
            r = I.apply(args[1], [x], s, p, at)
            if not r: return []
            if name == 'find_map':
                t, fl = bool_split(isv(r[0], 1), r[1], r[2])
                return [('stop', r[0], r[1], t), ('next', None, r[1], fl)]
            t, fl = bool_split(as_bool(r[0]), r[1], r[2])
            if name == 'all':
                return [('next', None, r[1], t), ('stop', FALSE, r[1], fl)]
            stopv = TRUE if name == 'any' else some(item if name == 'find' else (iv if not has_filter(it) else mk('rank', iv)))
            return [('stop', stopv, r[1], t), ('next', None, r[1], fl)]
        init = TRUE if name == 'all' else FALSE if name == 'any' else none()
        return consume(I, it, st, pc, at, f, init)
    if name == 'collect':
        to = op['args'][-1] if op.get('args') else ''
        if to.startswith(('std::vec::Vec<', 'std::collections::VecDeque<')):
            if it.op == 'it_chain':
                r1 = consumer(I, name, op, [it.args[0]] + list(args[1:]), st, pc, at)
                r2 = consumer(I, name, op, [it.args[1]] + list(args[1:]), r1[1], r1[2], at) if r1 else None
                if r1 is None or r2 is None or r1 is NI or r2 is NI: return NI if NI in (r1, r2) else None
                return seq_append(r1[0], r2[0]), r2[1], r2[2]

            def f(item, acc, s, p, iv):
                s = dict(s)
                I.store(s, acc, mk('push', I.content(s, acc), item))
                return [('next', None, s, p)]
            return consume(I, it, st, pc, at, f, mk('agg', ('array',)))
        # other collections: what they are made of, unordered contracts
        def f(item, acc, s, p, iv):
            s = dict(s)
            I.store(s, acc, mk('push', I.content(s, acc), item))
            return [('next', None, s, p)]
        r = consume(I, it, st, pc, at, f, mk('agg', ('array',)))
        if r is None: return None
        return mk('call', 'collect:' + to.split('<')[0], (I.reify(r[1], r[0]),)), r[1], r[2]
    if name in ('max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'last'):
        keyed = name in ('max', 'min', 'max_by_key', 'min_by_key')

        def f(item, acc, s, p, iv):
            if keyed:
                if len(args) > 1:
                    I.fresh += 1
                    s = dict(s)
                    s[('C', I.fresh)] = item
                    r = I.apply(args[1], [mk('ref', ('C', I.fresh), ())], s, p, at)
                    if not r: return []
                    k, s, p = val(I, r[1], r[0]), r[1], r[2]
                else:
                    k = val(I, s, item)
                x = mk('agg', ('tuple',), item, k)
            else:
                x = item
            s = dict(s)
            I.store(s, acc, mk('push', I.content(s, acc), x))
            return [('next', None, s, p)]
        r = consume(I, it, st, pc, at, f, mk('agg', ('array',)))
        if r is None: return None
        c = r[0]
        if c.op == 'collect' and (keyed or name == 'last' and not c.args[2]):
            iv, n, cs, x = c.args
            if keyed:
                idx = mk('argbest', name[:3], iv, n, cs, x.args[2])
                x = x.args[1]
            else:
                idx = sub(n, const(1))
            some_ = mk('any', iv, land(gt0(sub(n, iv)), *cs)) if cs else gt0(n)
            return ite(some_, some(subst(x, {iv: idx})), none()), r[1], r[2]
        extra = tuple(I.reify(r[1], a) for a in args[1:])
        return mk('best', name, r[0], extra), r[1], r[2]
    return NI


# ------------------------------------------------------------------ calls taken before inlining
DIRECT_EQ = True


def derived(prog, fn):
    return fn is not None and fn.d.get('derived')


def pre(I, op, name, fn, args, st, pc, at):
    if name == 'std::clone::Clone::clone':
        if fn is not None and fn.body is not None and getattr(I, 'inline_clone', False):
            return NI
        return I.content(st, args[0]), st, pc
    if name in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne'):
        tys = op.get('args') or ['?', '?']
        a = pointee(I, st, args[0], '&' + tys[0])
        b = pointee(I, st, args[1], '&' + (tys[1] if len(tys) > 1 else tys[0]))
        a, b = val(I, st, a), val(I, st, b)
        if a.op == 'agg' and a.args[0][0] == 'array' or b.op == 'agg' and b.args[0][0] == 'array':
            r = arr_eq(I, st, a, b)
        else:
            a, b = I.reify(st, a), I.reify(st, b)
            r = eqt(a, b)
        return (r if name.endswith('eq') else lnot(r)), st, pc
    return NI


def arr_eq(I, st, a, b):
    if a.op == 'agg' and b.op == 'agg' and len(a.args) == len(b.args) and a.args[0][0] == b.args[0][0] == 'array':
        return land(*[eqt(I.reify(st, val(I, st, x)), I.reify(st, val(I, st, y))) for x, y in zip(a.args[1:], b.args[1:])])
    if b.op == 'agg' and a.op != 'agg':
        a, b = b, a
    if a.op == 'agg' and b.op not in ('agg',):
        # array against an unknown sequence: same length and equal elements
        return land(eq0(sub(length(b), const(len(a.args) - 1))),
                    *[eqt(I.reify(st, val(I, st, x)), I.reify(st, val(I, st, proj(b, ('ix', const(i)))))) for i, x in enumerate(a.args[1:])])
    return eqt(I.reify(st, a), I.reify(st, b))


ARITH = {'Add': add, 'Sub': sub, 'Mul': mul, 'Div': div}


def isnum(ty):
    t = ty
    while t.startswith('&'):
        t = strip_ref(t)
    return t in INT or t in ('f64', 'f32')


def opt_split(v):
    return isv(v, 1)


def lib(I, op, name, fn, args, st, pc, at):
    A = args
    parts = name.rsplit('::', 2)
    last = parts[-1]
    # ---- arithmetic traits on types without a local body
    m = re.match(r'^std::ops::(Add|Sub|Mul|Div|Rem)::(add|sub|mul|div|rem)$', name)
    if m:
        a, b = val(I, st, A[0]), val(I, st, A[1])
        k = m.group(1)
        if k == 'Rem' or (k == 'Div' and op.get('self', '').lstrip('&') in INT):
            return I.binop(k, a, b, op.get('self', '').lstrip('&')), st, pc
        return ARITH[k](a, b), st, pc
    m = re.match(r'^std::ops::(Add|Sub|Mul|Div|Rem)Assign::\w+$', name)
    if m:
        a, b = val(I, st, A[0]), val(I, st, A[1])
        k = m.group(1)
        if k == 'Rem' or (k == 'Div' and op.get('self', '') in INT):
            v = I.binop(k, a, b, op.get('self', ''))
        else:
            v = ARITH[k](a, b)
        st = dict(st)
        I.store(st, A[0], v, pc, at)
        return UNIT, st, pc
    if name == 'std::ops::Neg::neg':
        return neg(val(I, st, A[0])), st, pc
    if name == 'std::ops::Not::not':
        return lnot(val(I, st, A[0])), st, pc
    if name.endswith('::Zero::zero') and not A:
        return const(0), st, pc
    if name.endswith('::One::one') and not A:
        return const(1), st, pc
    if name == 'std::default::Default::default':
        ty = op.get('self', '')
        if ty in INT or ty in ('f64', 'f32'):
            return const(0), st, pc
        if ty.startswith('std::vec::Vec<'):
            return mk('agg', ('array',)), st, pc
        return NI
    # ---- comparisons
    m = re.match(r'^std::cmp::PartialOrd::(lt|le|gt|ge)$', name)
    if m:
        ty = op.get('self', '')
        a, b = val(I, st, A[0]), val(I, st, A[1])
        while ty.startswith('&'):
            ty = strip_ref(ty)
        if ty in INT or ty in ('f64', 'f32'):
            return cmp_term({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[m.group(1)], a, b, ty), st, pc
        # through partial_cmp
        a, b = I.reify(st, a), I.reify(st, b)
        k = m.group(1)
        if k in ('gt', 'ge'):
            a, b = b, a
        lt = mk('lt', a, b)
        return (lt if k in ('lt', 'gt') else lor(lt, eqt(a, b))), st, pc
    if name in ('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp'):
        ty = op.get('self', '')
        a, b = val(I, st, A[0]), val(I, st, A[1])
        while ty.startswith('&'):
            ty = strip_ref(ty)
        a, b = I.reify(st, a), I.reify(st, b)
        c = mk('icmp', a, b) if ty in INT else mk('cmp', a, b)
        return (c if name.endswith('::cmp') else mk('optcmp', c, ty) if ty in ('f64', 'f32') else some(c)), st, pc
    if name in ('std::cmp::Ord::min', 'std::cmp::min', 'std::cmp::Ord::max', 'std::cmp::max', 'f64::min', 'f64::max'):
        a, b = A[0], A[1]
        if a is b:
            return a, st, pc
        ty = (op.get('args') or [op.get('self', '')])[0]
        o = 'min' if name.endswith('min') else 'max'
        if cval(a) is not None and cval(b) is not None:
            return const((min if o == 'min' else max)(cval(a), cval(b))), st, pc
        if ty in INT:
            t = ite(gt0(sub(b, a)), a, b) if o == 'min' else ite(gt0(sub(b, a)), b, a)
            if a.nn and b.nn: t.nn = True
            return t, st, pc
        return mk(o, frozenset([a, b])), st, pc
    if re.match(r'^(i64|i32|isize|f64|i128|i8|i16)::abs$', name):
        t = mk('abs', A[0]) if cval(A[0]) is None else const(abs(cval(A[0])))
        return t, st, pc
    if name == 'i64::unsigned_abs':
        return mk('abs', A[0]), st, pc
    m = re.match(r'^(f64|usize|i64|u64|i32|u32)::(powi|powf|pow|sqrt|sin|cos|tan|exp|ln|round|floor|ceil|count_ones|leading_zeros|trailing_zeros|is_nan|signum|div_ceil|saturating_sub|rem_euclid|mul_add|recip|hypot|abs_diff)$', name)
    if m:
        f = m.group(2)
        if f in ('powi', 'pow') and cval(A[1]) is not None and cval(A[1]).denominator == 1 and 0 <= cval(A[1]) <= 8:
            r = const(1)
            for _ in range(int(cval(A[1]))):
                r = mul(r, A[0])
            return r, st, pc
        if f == 'saturating_sub':
            return ite(gt0(sub(A[0], A[1])), sub(A[0], A[1]), const(0)), st, pc
        if f == 'mul_add':
            return add(mul(A[0], A[1]), A[2]), st, pc
        if f == 'recip':
            return div(const(1), A[0]), st, pc
        t = mk('fn1', f, tuple(A))
        if f in ('count_ones', 'leading_zeros', 'trailing_zeros', 'div_ceil', 'abs_diff'): t.nn = True
        return t, st, pc
    m = re.match(r'^(?:usize|u64|u32|i64|isize|i32)::(wrapping|checked|saturating|overflowing)_(add|sub|mul)$', name)
    if m and m.group(1) == 'wrapping':
        return {'add': add, 'sub': sub, 'mul': mul}[m.group(2)](A[0], A[1]), st, pc
    # ---- memory
    if name == 'std::mem::swap':
        a, b = I.content(st, A[0]), I.content(st, A[1])
        st = dict(st)
        I.store(st, A[0], b, pc, at)
        I.store(st, A[1], a, pc, at)
        return UNIT, st, pc
    if name == 'std::mem::replace':
        a = I.content(st, A[0])
        st = dict(st)
        I.store(st, A[0], A[1], pc, at)
        return a, st, pc
    if name == 'std::mem::take':
        a = I.content(st, A[0])
        st = dict(st)
        I.store(st, A[0], mk('agg', ('array',)), pc, at)
        return a, st, pc
    if name == 'std::mem::size_of':
        t = mk('sizeof', tuple(op.get('args') or ()))
        t.nn = True
        return t, st, pc
    if name in ('ptr::cast', 'ptr::cast_mut', 'ptr::cast_const', 'std::ptr::NonNull::as_ptr'):
        return A[0], st, pc
    if name in ('ptr::add', 'ptr::offset', 'ptr::wrapping_add'):
        return padd(A[0], A[1]), st, pc
    if name == 'ptr::sub':
        return padd(A[0], neg(A[1])), st, pc
    if name == 'std::ptr::NonNull::new':
        c = mk('isv', mk('nonnull', A[0]), 1)
        return ite(c, some(A[0]), none()), st, pc
    if name in ('std::ptr::write', 'ptr::write'):
        st = dict(st)
        I.store(st, A[0], A[1], pc, at)
        I.event('ptrwrite', None, (A[0], A[1]), pc, at)
        return UNIT, st, pc
    if name in ('std::ptr::read', 'ptr::read'):
        return I.content(st, A[0]), st, pc
    if name in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::convert::AsMut::as_mut'):
        self_ = op.get('self', '')
        if fn is None and (self_.startswith(('std::vec::Vec<', 'std::string::String', 'std::boxed::Box<', 'std::rc::Rc<')) or True):
            if self_.startswith(('std::boxed::Box<', 'std::rc::Rc<')) and I.content(st, A[0]).op == 'ref':
                return I.content(st, A[0]), st, pc
            return A[0], st, pc
        return NI
    if name in ('std::boxed::Box::new', 'std::rc::Rc::new'):
        return A[0], st, pc
    if name == 'std::boxed::Box::new_uninit':
        return mk('uninitbox'), st, pc
    if name.endswith('box_assume_init_into_vec_unsafe'):
        v = A[0]
        return unbox(I, st, v), st, pc
    if name in ('std::convert::From::from', 'std::convert::Into::into'):
        tys = op.get('args') or []
        ts = [t for t in tys]
        if len(ts) == 2 and (ts[0] == ts[1] or all(isnum(t) for t in ts)):
            return A[0], st, pc
        return NI
    # ---- slices and vectors
    base = name.rsplit('::', 1)[0]
    if base in ('slice', 'std::vec::Vec', 'std::collections::VecDeque', 'std::array', 'array') or name.startswith('slice::'):
        r = seq(I, last, op, A, st, pc, at, base)
        if r is not NI:
            return r
    if name == 'std::vec::from_elem':
        return mk('repeat', A[0], A[1]), st, pc
    if name in ('std::ops::Index::index', 'std::ops::IndexMut::index_mut') and fn is None:
        ity = (op.get('args') or ['', 'usize'])[-1]
        self_ = op.get('self', '')
        if self_.startswith('std::collections::HashMap'):
            return NI
        if ity in INT or ity == 'usize':
            n = length(I.content(st, A[0]))
            c = gt0(sub(n, A[1]))
            I.event('bounds', 'index', (c,), pc, at)
            return elem_ref(I, st, A[0], A[1]), st, pc
        rr = range_bounds(I, st, A[1], length(I.content(st, A[0])))
        if rr is None:
            return NI
        lo, hi = rr
        I.event('bounds', 'slice', (land(gt0(add(sub(length(I.content(st, A[0])), hi), const(1))), gt0(add(sub(hi, lo), const(1)))),), pc, at)
        r, p = I.target(A[0])
        return I.ref(r, I.push(p, ('slice', lo, hi))), st, pc
    if name == 'std::ops::RangeInclusive::new':
        return mk('rangeincl', A[0], A[1]), st, pc
    if name in ('std::ops::RangeInclusive::start', 'std::ops::RangeInclusive::end'):
        v = val(I, st, A[0])
        if v.op == 'rangeincl':
            I.fresh += 1
            root = ('C', I.fresh)
            st = dict(st)
            st[root] = v.args[0 if name.endswith('start') else 1]
            return mk('ref', root, ()), st, pc
        return NI
    if name in ('std::ops::Range::contains', 'std::ops::RangeInclusive::contains', 'std::ops::RangeBounds::contains'):
        v = val(I, st, A[0])
        x = val(I, st, A[1])
        rr = range_bounds(I, st, v, None)
        if rr is None: return NI
        ty = (op.get('args') or ['usize'])[0]
        lo, hi = rr
        return land(gt0(add(sub(x, lo), const(1))), gt0(sub(hi, x))), st, pc
    if name in ('std::ops::Range::is_empty',):
        v = val(I, st, A[0])
        if is_adt(v, RANGE):
            return lnot(gt0(sub(v.args[2], v.args[1]))), st, pc
        return lnot(gt0(sub(proj(v, ('f', 1)), proj(v, ('f', 0))))), st, pc
    if name == 'std::iter::ExactSizeIterator::len':
        v = val(I, st, A[0])
        it = as_iter(I, v)
        if it is None and op.get('self', '').startswith('std::ops::Range<'):
            return sub(proj(v, ('f', 1)), proj(v, ('f', 0))), st, pc
        n = it_len(I, st, it) if it is not None else None
        return (n, st, pc) if n is not None else NI
    # ---- iterators
    if name == 'std::iter::IntoIterator::into_iter':
        it = into_iter(I, st, A[0], op.get('self', ''))
        if it is None:
            if op.get('self', '').startswith('std::ops::Range<'):
                it = mk('it_range', proj(A[0], ('f', 0)), proj(A[0], ('f', 1)))
            else:
                it = A[0] if (A[0].op == 'agg' or fn is not None) else mk('it_opaque', A[0])
        return it, st, pc
    if name == 'std::iter::Iterator::next':
        r = it_next(I, op, A, st, pc, at)
        if r is not NI:
            return r
        return NI
    if name.startswith(('std::iter::Iterator::', 'std::iter::DoubleEndedIterator::')):
        r = adaptor(I, last, op, A, st, pc, at)
        if r is not NI:
            return r
        it = as_iter(I, A[0]) if A else None
        src = A[0] if A else None
        if it is None and A:
            if op.get('self', '').startswith('std::ops::Range<') and last in ('find', 'all', 'any', 'position', 'find_map'):
                c = I.content(st, A[0])
                a, b = proj(c, ('f', 0)), proj(c, ('f', 1))
                r = consumer(I, last, op, [mk('it_range', a, b)] + list(A[1:]), st, pc, at)
                if r is None or r is NI:
                    return r
                st = dict(r[1])
                if last == 'find':
                    nxt = ite(isv(r[0], 1), add(proj(r[0], ('f', 0)), const(1)), ite(gt0(sub(b, a)), b, a))
                else:
                    nxt = mk('itused', a)
                I.store(st, A[0], agg_adt(RANGE, 0, 'Range', nxt, b))
                return r[0], st, r[2]
            if op.get('self', '').startswith('std::ops::Range<'):
                it = mk('it_range', proj(A[0], ('f', 0)), proj(A[0], ('f', 1)))
            elif A[0].op == 'ref' and as_iter(I, I.content(st, A[0])) is not None:
                it = A[0]
            elif A[0].op == 'ref' and is_adt(I.content(st, A[0]), RANGE):
                it = A[0]
            elif last in CONSUMERS:
                it = mk('it_opaque', val(I, st, A[0]))
        if it is None:
            return NI
        return consumer(I, last, op, [it] + list(A[1:]), st, pc, at)
    if name == 'std::iter::FromIterator::from_iter':
        it = into_iter(I, st, A[0], (op.get('args') or [''])[-1]) or mk('it_opaque', A[0])
        return consumer(I, 'collect', {'args': [op.get('self', '')]}, [it], st, pc, at)
    if name == 'std::iter::Extend::extend':
        it = as_iter(I, A[1]) or into_iter(I, st, A[1], (op.get('args') or [''])[-1])
        if it is None: return NI
        return extend(I, A[0], it, st, pc, at)
    if name in ('std::iter::zip',):
        a, b = as_iter(I, A[0]), as_iter(I, A[1])
        if a is not None and b is not None:
            return mk('it_zip', a, b), st, pc
        return NI
    # ---- closures
    if name in ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once'):
        a = A[1]
        cargs = list(a.args[1:]) if a.op == 'agg' and a.args[0] == ('tuple',) else [proj(a, ('f', 0))]
        return I.apply(A[0], cargs, st, pc, at)
    # ---- Option / Result
    if base in ('std::option::Option', 'std::result::Result'):
        r = option(I, last, op, A, st, pc, at, base)
        if r is not NI:
            return r
    if name == 'std::ops::Try::branch':
        v = A[0]
        c = isv(v, 1) if op.get('self', '').startswith('std::option::Option') else lnot(isv(v, 1))
        CF = 'std::ops::ControlFlow'
        return ite(lnot(c), agg_adt(CF, 1, 'Break', mk('residual', v)), agg_adt(CF, 0, 'Continue', proj(v, ('f', 0)))), st, pc
    if name == 'std::ops::FromResidual::from_residual':
        if op.get('self', '').startswith('std::option::Option'):
            return none(), st, pc
        return mk('call', 'from_residual', (A[0],)), st, pc
    if name.startswith('std::cmp::Ordering::'):
        v = A[0]
        if last == 'reverse':
            if v.op in ('icmp', 'cmp'):
                return mk(v.op, v.args[1], v.args[0]), st, pc
            return mk('ordrev', v), st, pc
        if last in ('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne'):
            return {'is_lt': lambda: isv(v, 0), 'is_le': lambda: lnot(isv(v, 2)), 'is_gt': lambda: isv(v, 2), 'is_ge': lambda: lnot(isv(v, 0)),
                    'is_eq': lambda: isv(v, 1), 'is_ne': lambda: lnot(isv(v, 1))}[last](), st, pc
        if last == 'then':
            return ite(isv(v, 1), A[1], v), st, pc
        if last == 'then_with':
            p = dnf_and(pc, isv(v, 1))
            r = I.apply(A[1], [], st, p, at) if p else None
            if r is None: return v, st, pc
            return ite(isv(v, 1), r[0], v), st, pc
    if name in ('num::integer::gcd', 'num::gcd', 'num_integer::gcd'):
        return gcd_term(frozenset([A[0], A[1]])), st, pc
    if name in ('std::collections::HashMap::new', 'std::string::String::new'):
        return mk('empty', name), st, pc
    if name == 'std::alloc::Layout::array':
        return mk('layout_result', tuple(op.get('args') or ()), A[0]), st, pc
    if name == 'std::alloc::Layout::size':
        return mk('layout_size', I.reify(st, val(I, st, A[0]))), st, pc
    if name == 'std::hint::black_box' or name == 'std::convert::identity':
        return A[0], st, pc
    if name.startswith(('std::fmt::', 'core::fmt::')) or name == 'std::string::ToString::to_string' or name.startswith('std::io::'):
        v = mk('call', name, tuple(I.reify(st, a) for a in A))
        I.event('call', name, tuple(A) + (v,), pc, at, op)
        return v, st, pc
    return NI


CONSUMERS = ('for_each', 'sum', 'product', 'count', 'fold', 'all', 'any', 'find', 'position', 'collect', 'max', 'min', 'max_by', 'min_by',
             'max_by_key', 'min_by_key', 'last', 'find_map')


def padd(p, k):
    if p.op == 'ref' and p.args[1] and p.args[1][-1][0] == 'ix':
        return mk('ref', p.args[0], p.args[1][:-1] + (('ix', add(p.args[1][-1][1], k)),))
    if p.op == 'padd':
        return mk('padd', p.args[0], add(p.args[1], k))
    if p.op == 'ite':
        return ite(p.args[0], padd(p.args[1], k), padd(p.args[2], k))
    return mk('padd', p, k)


REBUILD['padd'] = padd


def unbox(I, st, v):
    """Vector built by the vec! macro: the array written into a fresh box."""
    if v.op == 'ref':
        return unbox(I, st, I.content(st, v))
    for root in (('D', v),):
        c = st.get(root)
        if c is not None:
            return inner_array(c)
    return inner_array(v)


def inner_array(c):
    n = 0
    while n < 8 and not (c.op == 'agg' and c.args[0][0] == 'array') and c.op in ('agg', 'upd', 'repeat') and c.op != 'repeat':
        n += 1
        if c.op == 'upd':
            c = c.args[2]
        elif len(c.args) == 2:
            c = c.args[1]
        else:
            break
    return c


def range_bounds(I, st, v, n):
    """(lo, hi) of a range value; n is the sequence length for open ends."""
    if is_adt(v, RANGE):
        return v.args[1], v.args[2]
    if v.op == 'rangeincl':
        return v.args[0], add(v.args[1], const(1))
    if is_adt(v, 'std::ops::RangeFrom') and n is not None:
        return v.args[1], n
    if is_adt(v, 'std::ops::RangeTo'):
        return const(0), v.args[1]
    if is_adt(v, 'std::ops::RangeToInclusive'):
        return const(0), add(v.args[1], const(1))
    if is_adt(v, 'std::ops::RangeFull') and n is not None:
        return const(0), n
    if v.op == 'it_range':
        return v.args[0], v.args[1]
    return None


def extend(I, ref, it, st, pc, at):
    def f(item, acc, s, p, iv):
        s = dict(s)
        I.store(s, acc, mk('push', I.content(s, acc), item))
        return [('next', None, s, p)]
    r = consume(I, it, st, pc, at, f, mk('agg', ('array',)))
    if r is None:
        return None
    st = dict(r[1])
    I.store(st, ref, seq_append(I.content(st, ref), r[0]), r[2], at)
    return UNIT, st, r[2]


def pushed(c, x):
    if c.op == 'agg' and c.args[0] == ('array',) and len(c.args) < 12:
        return mk('agg', ('array',), *(c.args[1:] + (x,)))
    return mk('push', c, x)


def seq_append(a, b):
    if a.op == 'agg' and a.args[0] == ('array',) and len(a.args) == 1:
        return b
    if b.op == 'agg' and b.args[0] == ('array',):
        for x in b.args[1:]:
            a = mk('push', a, x)
        return a
    return mk('append', a, b)


def order_of(I, f, st, pc, at, key=False):
    """What a comparison function answers on two elements sx and sy (None when it is not a pure function of them)."""
    refs = []
    s = dict(st)
    for nm in ('sx', 'sy'):
        I.fresh += 1
        s[('C', I.fresh)] = mk(nm)
        refs.append(mk('ref', ('C', I.fresh), ()))
    if not key:
        r = I.apply(f, refs, s, pc, at)
        return I.reify(r[1], val(I, r[1], r[0])) if r else None
    ks = []
    for x in refs:
        r = I.apply(f, [x], s, pc, at)
        if not r:
            return None
        ks.append(I.reify(r[1], val(I, r[1], r[0])))
    return mk('cmp', *ks)


def seq(I, m, op, A, st, pc, at, base):
    if m == 'new' or m == 'with_capacity':
        return mk('agg', ('array',)), st, pc
    if not A:
        return NI
    c = I.content(st, A[0]) if A[0].op in ('ref', 'arg', 'proj', 'ite', 'deref', 'call') else A[0]
    if m == 'len':
        return length(c), st, pc
    if m == 'is_empty':
        return eq0(length(c)), st, pc
    if m in ('iter', 'iter_mut'):
        return mk('it_slice', A[0]), st, pc
    if m in ('as_slice', 'as_mut_slice', 'as_ref', 'borrow'):
        return A[0], st, pc
    if m in ('as_ptr', 'as_mut_ptr'):
        r, p = I.target(A[0])
        return I.ref(r, I.push(p, ('ix', const(0)))), st, pc
    if m in ('push', 'push_back'):
        st = dict(st)
        I.store(st, A[0], pushed(c, A[1]), pc, at)
        I.event('push', None, (A[0], A[1]), pc, at)
        return UNIT, st, pc
    if m == 'push_front':
        st = dict(st)
        I.store(st, A[0], mk('pushfront', c, A[1]), pc, at)
        I.event('push', 'front', (A[0], A[1]), pc, at)
        return UNIT, st, pc
    if m == 'pop':
        st = dict(st)
        n = length(c)
        nn = eq0(n)
        last = proj(c, ('ix', sub(n, const(1)))) if c.op != 'push' else c.args[1]
        I.store(st, A[0], c.args[0] if c.op == 'push' else mk('popped', c), pc, at)
        I.event('pop', None, (A[0],), pc, at)
        return ite(nn, none(), some(last)), st, pc
    if m in ('first', 'last', 'first_mut', 'last_mut', 'front', 'back'):
        n = length(c)
        k = const(0) if m.startswith('f') else sub(n, const(1))
        return ite(eq0(n), none(), some(elem_ref(I, st, A[0], k))), st, pc
    if m in ('get', 'get_mut'):
        ity = (op.get('args') or ['', 'usize'])[-1]
        if 'Range' in ity:
            return NI
        return ite(gt0(sub(length(c), A[1])), some(elem_ref(I, st, A[0], A[1])), none()), st, pc
    if m in ('get_unchecked', 'get_unchecked_mut'):
        return elem_ref(I, st, A[0], A[1]), st, pc
    if m == 'contains':
        x = I.reify(st, val(I, st, A[1]))
        if c.op == 'agg' and c.args[0] == ('array',):
            return lor(*[eqt(I.reify(st, val(I, st, y)), x) for y in c.args[1:]]), st, pc
        return mk('isin', x, I.reify(st, c)), st, pc
    if m == 'swap':
        st = dict(st)
        i, j = A[1], A[2]
        x, y = proj(c, ('ix', i)), proj(c, ('ix', j))
        I.event('swap', None, (A[0], i, j), pc, at)
        I.store(st, A[0], upd(upd(c, ('ix', i), y), ('ix', j), x), pc, at)
        return UNIT, st, pc
    if m in ('rotate_left', 'rotate_right'):
        st = dict(st)
        n, k = length(c), A[1]
        I.fresh += 1
        iv = mk('iv', ('rot', I.fresh))
        if m == 'rotate_left':
            src = ite(gt0(sub(sub(n, k), iv)), add(iv, k), sub(add(iv, k), n))
        else:
            src = ite(gt0(sub(k, iv)), sub(add(iv, n), k), sub(iv, k))
        I.store(st, A[0], mk('collect', iv, n, frozenset(), proj(c, ('ix', src))), pc, at)
        return UNIT, st, pc
    if m == 'reverse':
        st = dict(st)
        I.store(st, A[0], mk('reversed', c), pc, at)
        return UNIT, st, pc
    if m in ('sort', 'sort_unstable', 'sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key'):
        st = dict(st)
        extra = tuple(I.reify(st, a) for a in A[1:])
        if A[1:]:
            o = order_of(I, A[1], st, pc, at, 'key' in m)
            if o is not None:
                extra = (o,)
                m = 'sort_by'
                if o.op in ('cmp', 'icmp') and o.args[0] is mk('sx') and o.args[1] is mk('sy'):
                    extra, m = (), 'sort'
        I.event('sort', m, tuple(A), pc, at, op)
        I.store(st, A[0], mk('sorted', c, m.replace('_unstable', ''), extra), pc, at)
        return UNIT, st, pc
    if m in ('append', 'extend_from_slice'):
        st = dict(st)
        d = I.content(st, A[1])
        I.event('append', None, (A[0], d), pc, at)
        I.store(st, A[0], seq_append(c, d), pc, at)
        if m == 'append':
            I.store(st, A[1], mk('agg', ('array',)))
        return UNIT, st, pc
    if m in ('reserve', 'shrink_to_fit'):
        return UNIT, st, pc
    if m == 'clear':
        st = dict(st)
        I.store(st, A[0], mk('agg', ('array',)), pc, at)
        return UNIT, st, pc
    if m == 'remove' or m == 'swap_remove':
        st = dict(st)
        I.store(st, A[0], mk('removed', c, A[1], m), pc, at)
        I.event('remove', m, (A[0], A[1]), pc, at)
        return proj(c, ('ix', A[1])), st, pc
    if m == 'insert':
        st = dict(st)
        I.store(st, A[0], mk('inserted', c, A[1], A[2]), pc, at)
        I.event('insert', None, (A[0], A[1], A[2]), pc, at)
        return UNIT, st, pc
    if m == 'resize' and len(A) == 3:
        st = dict(st)
        n, x, l = A[1], I.reify(st, A[2]), length(c)
        more = seq_append(c, mk('repeat', x, sub(n, l)))
        I.store(st, A[0], ite(gt0(sub(n, l)), more, ite(eq0(sub(n, l)), c, mk('truncated', c, n))), pc, at)
        return UNIT, st, pc
    if m == 'truncate':
        st = dict(st)
        I.store(st, A[0], mk('truncated', c, A[1]), pc, at)
        return UNIT, st, pc
    if m == 'retain':
        # elements x with f(&x)
        def f(item, acc, s, p, iv):
            r = I.apply(A[1], [item], s, p, at)
            if r is None: return []
            s2 = dict(r[1])
            cond = as_bool(r[0])
            cur = I.content(s2, acc)
            I.store(s2, acc, ite(cond, mk('push', cur, I.content(s2, item)), cur))
            return [('next', None, s2, r[2])]
        r = consume(I, mk('it_slice', A[0]), st, pc, at, f, mk('agg', ('array',)))
        if r is None: return None
        st = dict(r[1])
        I.store(st, A[0], r[0], r[2], at)
        return UNIT, st, r[2]
    if m == 'dedup':
        st = dict(st)
        I.store(st, A[0], mk('dedup', c), pc, at)
        return UNIT, st, pc
    if m in ('to_vec', 'into_boxed_slice', 'to_owned', 'into_vec'):
        return c, st, pc
    if m in ('binary_search', 'binary_search_by', 'binary_search_by_key', 'partition_point'):
        v = mk('bsearch', m, I.reify(st, c), tuple(I.reify(st, a) for a in A[1:]))
        I.event('bsearch', m, tuple(A) + (v,), pc, at, op)
        return v, st, pc
    if m == 'concat':
        return mk('concat', I.reify(st, c)), st, pc
    if m == 'fill':
        st = dict(st)
        I.store(st, A[0], mk('repeat', A[1], length(c)), pc, at)
        return UNIT, st, pc
    return NI


def adaptor(I, m, op, A, st, pc, at):
    it = as_iter(I, A[0]) if A else None
    if it is None and A:
        s = op.get('self', '')
        if s.startswith('std::ops::Range<'):
            it = mk('it_range', proj(A[0], ('f', 0)), proj(A[0], ('f', 1)))
        elif m in ('map', 'filter', 'zip', 'enumerate', 'rev', 'skip', 'take', 'chain', 'take_while', 'flatten', 'flat_map', 'filter_map', 'cloned', 'copied', 'by_ref', 'skip_while', 'inspect'):
            it = mk('it_opaque', A[0])
    if it is None:
        return NI
    if m == 'map': return mk('it_map', it, A[1]), st, pc
    if m == 'filter': return mk('it_filter', it, A[1]), st, pc
    if m == 'filter_map': return mk('it_filtermap', it, A[1]), st, pc
    if m == 'enumerate': return mk('it_enum', it), st, pc
    if m == 'rev': return mk('it_rev', it), st, pc
    if m == 'skip': return mk('it_skip', it, A[1]), st, pc
    if m == 'take': return mk('it_take', it, A[1]), st, pc
    if m == 'take_while': return mk('it_takewhile', it, A[1]), st, pc
    if m == 'flatten': return mk('it_flatten', it), st, pc
    if m == 'flat_map': return mk('it_flatmap', it, A[1]), st, pc
    if m in ('cloned', 'copied'):
        if it.op == 'it_slice':
            return mk('it_into', I.content(st, it.args[0])), st, pc
        return mk('it_map', it, mk('fnitem', 'deref', 0)), st, pc
    if m in ('zip', 'chain'):
        b = as_iter(I, A[1])
        if b is None:
            tys = op.get('args') or ['']
            b = into_iter(I, st, A[1], tys[-1])
        if b is None:
            b = mk('it_opaque', A[1])
        return mk('it_' + m, it, b), st, pc
    return NI


def option(I, m, op, A, st, pc, at, base):
    res = base.endswith('Result')
    v = A[0]
    if m in ('is_some', 'is_none', 'is_ok', 'is_err', 'as_ref', 'as_mut', 'take', 'insert', 'get_or_insert_with', 'as_deref', 'replace'):
        c = I.content(st, v)
    else:
        c = v
    good = lnot(isv(c, 1)) if res else isv(c, 1)
    x = proj(c, ('f', 0))
    if m == 'layout' and False:
        return NI
    if m in ('unwrap', 'expect'):
        if c.op == 'layout_result':
            return c, st, pc
        p = dnf_and(pc, good)
        bad = dnf_and(pc, lnot(good))
        if bad:
            I.event('panic', 'unwrap', (c,), bad, at)
        if not p:
            return None
        return x, st, p
    if m == 'unwrap_or':
        return ite(good, x, A[1]), st, pc
    if m == 'unwrap_or_default':
        return NI
    if m == 'unwrap_or_else':
        p = dnf_and(pc, lnot(good))
        if not p:
            return x, st, pc
        r = I.apply(A[1], [] if not res else [mk('proj', c, ('f', 0))], st, p, at)
        if r is None:
            return x, st, dnf_and(pc, good)
        return join2(I, good, x, st, dnf_and(pc, good), r)
    if m in ('is_some', 'is_ok'):
        return good, st, pc
    if m in ('is_none', 'is_err'):
        return lnot(good), st, pc
    if m == 'map':
        p = dnf_and(pc, good)
        if not p:
            return v, st, pc
        r = I.apply(A[1], [x], st, p, at)
        if r is None:
            return none(), st, dnf_and(pc, lnot(good))
        if res:
            return NI
        return join2(I, lnot(good), none(), st, dnf_and(pc, lnot(good)), (some(r[0]), r[1], r[2]))
    if m == 'map_or':
        p = dnf_and(pc, good)
        if not p: return A[1], st, pc
        r = I.apply(A[2], [x], st, p, at)
        if r is None: return A[1], st, dnf_and(pc, lnot(good))
        return join2(I, lnot(good), A[1], st, dnf_and(pc, lnot(good)), r)
    if m == 'and_then':
        p = dnf_and(pc, good)
        if not p: return v, st, pc
        r = I.apply(A[1], [x], st, p, at)
        if r is None: return none(), st, dnf_and(pc, lnot(good))
        return join2(I, lnot(good), none(), st, dnf_and(pc, lnot(good)), r)
    if m == 'ok_or' or m == 'ok_or_else' or m == 'ok':
        return NI
    if m == 'take':
        st = dict(st)
        I.store(st, v, none(), pc, at)
        return c, st, pc
    if m in ('as_ref', 'as_mut', 'as_deref'):
        r, p = I.target(v)
        return ite(good, some(I.ref(r, p + (('f', 0),))), none()), st, pc
    if m in ('cloned', 'copied'):
        return ite(good, some(I.content(st, x)), none()), st, pc
    if m == 'or':
        return ite(good, v, A[1]), st, pc
    if res:
        return NI
    if m == 'and':
        return ite(good, A[1], none()), st, pc
    if m == 'zip':
        both = land(good, isv(A[1], 1))
        return ite(both, some(mk('agg', ('tuple',), x, proj(A[1], ('f', 0)))), none()), st, pc
    if m == 'xor':
        c2 = isv(A[1], 1)
        return ite(land(good, lnot(c2)), v, ite(land(c2, lnot(good)), A[1], none())), st, pc
    if m in ('filter', 'is_some_and', 'is_none_or'):
        p = dnf_and(pc, good)
        other = {'filter': none(), 'is_some_and': FALSE, 'is_none_or': TRUE}[m]
        if not p: return other, st, pc
        r = I.apply(A[1], [mk('rv', x) if m == 'filter' else x], st, p, at)
        if r is None: return other, st, dnf_and(pc, lnot(good))
        return join2(I, lnot(good), other, st, dnf_and(pc, lnot(good)), (ite(r[0], v, none()), r[1], r[2]) if m == 'filter' else r)
    if m in ('or_else', 'map_or_else'):
        p, q = dnf_and(pc, good), dnf_and(pc, lnot(good))
        r1 = (v, st, p) if m == 'or_else' else I.apply(A[2], [x], st, p, at) if p else None
        r0 = I.apply(A[1], [], st, q, at) if q else None
        if r1 is None or not r1[2]:
            return r0
        if r0 is None:
            return r1
        return join2(I, good, r1[0], r1[1], r1[2], r0)
    return NI


def join2(I, c, v1, st1, p1, r):
    """Joins (v1, st1, p1) taken under c with r = (v, st, pc)."""
    if not p1:
        return r
    if not r[2]:
        return v1, st1, p1
    class F: pass
    F.key = 'join2'
    I.fresh += 1
    root = ('C', I.fresh, 'j')
    s1, s2 = dict(st1), dict(r[1])
    s1[root], s2[root] = v1, r[0]
    p, s = I.merge([(0, p1, s1), (1, r[2], s2)], F, I.fresh)
    v = s.pop(root)
    return v, s, p
