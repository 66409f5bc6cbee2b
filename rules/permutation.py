"""T08: cycles, permutations and their action."""
from spec import *
import absint, models

MOD = 'non_commutative::permutation::'
CYC, PERM, CPERM, VPERM = MOD + 'Cycle', MOD + 'Permutation', MOD + 'ConstPermutation<N>', MOD + 'VecPermutation'
GROUPS = (PERM, CPERM, VPERM)


def call(nm, *a):
    return mk('call', nm, tuple(a))


def outside(*names):
    """Primitives standing for operations of the module that have their own obligations."""
    names = set(names)

    def prim(I, op, name, fn, args, st, pc, at):
        if fn is None or fn.crate != 'alg' or fn.kind == 'closure':
            return NotImplemented
        s, t = fn.implself, (fn.trait or '').split('<')[0]
        key = None
        if not t and s == CYC and fn.name in ('from', 'map', 'is_valid'):
            key = 'cycle_' + fn.name
        elif not t and s == PERM and fn.name in ('from_disjoint_cycles', 'map', 'swap', 'swap_ranges_of_the_same_length'):
            key = fn.name
        elif not t and fn.name == 'unfixed_indeces_iter':
            key = 'unfixed'
        elif s in GROUPS and t == 'std::ops::Mul':
            key = 'gmul'
        elif s in GROUPS and t == 'std::ops::MulAssign':
            key = 'gmul_assign'
        elif s in GROUPS and t.endswith('Group') and fn.name in ('identity', 'inverse', 'inverse_of_gen', 'in_terms_of_gens'):
            key = fn.name
        if fn.name == 'next' and t.endswith('Iterator') and (I.content(st, args[0]).op.startswith('it')):
            return models.it_next(I, op, args, st, pc, at)
        if key is None or key not in names:
            return NotImplemented
        A = [I.reify(st, models.val(I, st, a)) for a in args]
        if key == 'unfixed':
            return mk('it_into', call('unfixed', A[0])), st, pc
        if key == 'gmul_assign':
            st = dict(st)
            I.store(st, args[0], call('gmul', A[0], A[1]), pc, at)
            return UNIT, st, pc
        v = call(key, *A)
        I.event('call', key, tuple(A) + (v,), pc, at, op)
        return v, st, pc
    return prim


CYCLE = outside('cycle_map', 'cycle_from')
ALL = outside('cycle_from', 'cycle_map', 'from_disjoint_cycles', 'map', 'swap', 'swap_ranges_of_the_same_length', 'unfixed', 'gmul', 'gmul_assign', 'identity', 'inverse', 'inverse_of_gen', 'in_terms_of_gens')
CALLS = ('cycle_map', 'cycle_from', 'map', 'swap', 'swap_ranges_of_the_same_length', 'unfixed', 'gmul', 'identity', 'inverse', 'inverse_of_gen', 'in_terms_of_gens', 'from_disjoint_cycles')
a0, a1 = mk('arg', 0), mk('arg', 1)


def final(r, i):
    return r.state.get(('P', i), mk('arg', i)) if r is not None and r.state is not None else None


def empty(t):
    return t.op == 'agg' and t.args == (('array',),)


class Perms:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.ck = Checker(prog, rep, (ALL,))
        self.raw = Checker(prog, rep, ())
        self.data = self.field(CYC, 'std::vec::Vec<usize>')
        self.cycles = self.field(PERM, 'std::vec::Vec<' + CYC + '>')
        self.ok = self.data is not None and self.cycles is not None

    def field(self, path, ty):
        adt = [a for a in self.prog.adts.values() if a['crate'] == 'alg' and a['path'] == path]
        fs = adt[0]['variants'][0]['fields'] if adt else []
        ok = len(fs) == 1 and fs[0]['ty'] == ty
        self.rep.require('type:' + path, bool(adt), 'the type is gone')
        if not ok:
            self.rep.count('undecided')
            return None
        self.rep.require('private:' + path, not fs[0]['pub'], 'the representation is public, so invalid values can be built anywhere')
        return 0

    def cyc(self, *xs):
        return agg(CYC, mk('agg', ('array',), *xs))

    def fn(self, what, **q):
        return self.ck.one(what, crate='alg', **q)

    def tr(self, what, ty, trait, name):
        fs = [f for f in self.prog.find(crate='alg', name=name, implself=ty) if (f.trait or '').split('<')[0].split('::')[-1] == trait and f.body is not None and f.kind != 'closure']
        self.rep.require('anchor:' + what, len(fs) == 1, 'expected exactly one definition of %s, found %d' % (what, len(fs)))
        return fs[0] if len(fs) == 1 else None


def agg(path, *xs):
    return absint.agg_adt(path, 0, path.split('::')[-1].split('<')[0], *xs)


def check_T08(prog, rep):
    rep.rule('value numbering of every constructor and operation of the permutation module; each result is compared, element by element at a '
             'symbolic position, with the definition; loops are compared through their loop-carried values; recursive calls stand for the definition (induction)')
    rep.assumptions += ['std Vec/slice/iterator contracts as stated in rules/models.py', 'values of the types were made by the constructors checked here (fields are private)']
    P = Perms(prog, rep)
    if not P.ok:
        return
    ck = P.ck
    for f in (cycle_from, cyclic, cycle_map, cycle_identity, cycle_order, disjoint, identity, perm_map, swaps, swap_same, from_cycle, product_of, powers, generators, action, tables, unfixed_iter):
        rep.group(f, P)


# -- cycles
def to_min(t, d, n, facts):
    """Other ways to name the position of the smallest element."""
    b = mk('iv', 'min')
    M = mk('argbest', 'min', b, n, frozenset(), proj(d, ('ix', b)))
    Mn = alpha(M)
    t = alpha(t)
    for _ in range(4):
        m = {}
        for x in subterms(t):
            if x.op == 'first':
                ls = [l for l in (x.args[1].args[0] if x.args[1].op in ('and', 'or') else [x.args[1]])]
                hit = eq0(sub(proj(d, ('ix', x.args[0])), proj(d, ('ix', Mn))))
                bound = gt0(sub(n, x.args[0]))
                if lnot(hit) in ls and all(l in (lnot(hit), bound, lnot(bound)) for l in ls):
                    # the elements are distinct and there are several
                    m[x] = ite(eq0(Mn), const(1), const(0))
                if hit in ls and all(l is hit or l is bound or l is lnot(bound) for l in ls):
                    m[x] = Mn
        if not m:
            break
        t = subst(t, m)
    return t, Mn


def distinct(rep, ck, fn, pc, what, elem_ok, skip):
    """Every way to return normally (but those that imply `skip`) has found no element twice."""
    rep.require('%s:%s' % (fn.label(), 'accepts'), any(skip is None or not contradictory(list(c) + [lnot(skip)]) for c in pc), 'nothing but the trivial input is accepted', ck.where(fn))
    for c in pc:
        fs = list(c)
        if skip is not None and (contradictory(fs + [lnot(skip)]) or entails(fs, skip)):
            continue
        tests = [l for l in fs if contains(l, lambda x: x.op in ('any', 'isin', 'call', 'callf', 'dedup', 'sorted', 'phi', 'first'))]
        key = '%s:%s' % (fn.label(), what)
        if not tests:
            rep.require(key, False, 'returns normally without looking for repeated elements, when %s' % show_case(c)[:300], ck.where(fn))
            continue
        good = bad = False
        for l in tests:
            neg_, g = (True, l.args[0]) if l.op == 'not' else (False, l)
            if g.op != 'any':
                continue
            ins = [x for x in subterms(g.args[1]) if x.op == 'isin']
            if not ins:
                continue
            ls = flat(g.args[1])
            if len(ins) == 1 and ins[0] in ls and neg_:
                good = True
            elif len(ins) == 1 and (ins[0] in ls or lnot(ins[0]) in ls):
                bad = True
        if good:
            rep.require(key, True, '')
        elif bad:
            rep.require(key, False, 'returns normally exactly when an element is repeated: %s' % show_case(c)[:300], ck.where(fn))
        else:
            rep.count('undecided')


def seen_loop(rep, ck, fn, r, elem):
    """The list of elements met so far grows with every element that passes."""
    for lid, L in r.interp.loop_objs.items():
        for k, v in L.next.items():
            if not isinstance(k, Term) or k.op != 'phi' or len(k.args) < 4 or k.args[3] != 'grow':
                continue
            tests = [x for bp, _ in L.backs for c in bp for l in c for x in subterms(l) if x.op == 'isin' and x.args[1] is k]
            if not tests:
                continue
            ok = v.op == 'push' and v.args[0] is k and all(v.args[1] is x.args[0] for x in tests) and empty(k.args[2])
            rep.require('%s:elements met so far' % fn.label(), ok, 'the list searched for repetitions is extended as %s' % show(v)[:300], ck.where(fn))


def cycle_from(P):
    rep, ck = P.rep, P.raw
    fn = P.fn('Cycle::from', name='from', implself=CYC, trait='')
    if fn is None:
        return
    r = ck.run(fn)
    n = length(a0)
    D = proj(r.ret, ('f', P.data))
    short = gt0(sub(const(2), n))
    for c in r.pc:
        fs = list(c)
        if contradictory(fs):
            continue
        if not contradictory(fs + [short]):
            D1 = to_min(D, a0, n, fs)[0]
            ck.same(fn, 'cycle of at most one element', subst(seq_len(D1), {x: mk('at', 'min') for x in subterms(D1) if x.op == 'argbest'}), const(0), [f for f in fs if not contains(f, lambda x: x.op in ('argbest', 'any'))] + [short])
        long_ = gt0(sub(n, const(1)))
        if contradictory(fs + [long_]):
            continue
        D2, M0 = to_min(D, a0, n, fs)
        M = mk('at', 'min')
        M.nn = True
        facts = [f for f in fs if not contains(f, lambda x: x.op in ('argbest', 'any'))] + [long_, gt0(sub(n, M)), gt0(add(M, const(1)))]

        def want(k):
            return ite(gt0(sub(sub(n, M), k)), proj(a0, ('ix', add(k, M))), proj(a0, ('ix', sub(add(k, M), n))))
        D2 = subst(D2, {M0: M})
        if contains(D2, lambda x: x.op == 'argbest' and x.args[2] is n):
            rep.require(fn.label() + ':smallest first', False, 'a cycle is stored as %s, not from its smallest element on' % show(D2)[:300], ck.where(fn))
            continue
        if not contains(D2, lambda x: x is M) and closed(D2):
            rep.require(fn.label() + ':smallest first', False, 'a cycle with several elements is stored as %s, not from its smallest element on' % show(D2)[:300], ck.where(fn))
            continue
        ck.seq(fn, 'elements from the smallest on', D2, n, want, facts, norm=lambda t, f: reduce_irem(subst(to_min(t, a0, n, f)[0], {M0: M}), f))
    distinct(rep, ck, fn, r.pc, 'no element twice', None, short)
    seen_loop(rep, ck, fn, r, None)


def cyclic(P):
    rep, ck = P.rep, P.raw
    a, b = proj(a0, ('f', 0)), proj(a0, ('f', 1))
    n = sub(b, a)
    for ty in (CYC, PERM):
        fn = P.fn(ty.split('::')[-1] + '::cyclic_from', name='cyclic_from', implself=ty, trait='')
        if fn is None:
            continue
        r = ck.run(fn)
        t = r.ret
        if ty == PERM:
            t = proj(t, ('f', P.cycles))
            ck.same(fn, 'number of cycles', seq_len(t), const(1), pc=r.pc)
            t = seq_el(t, const(0))
        D = proj(t, ('f', P.data))
        ck.same(fn, 'range of one element', seq_len(D), const(0), [eq0(sub(n, const(1)))])
        ck.seq(fn, 'the cycle of a range', D, n, lambda k: add(a, k), [gt0(sub(n, const(1)))])
        L = subst(seq_len(D), {})
        # an empty range gives the empty cycle: its length is not positive
        lo = [gt0(sub(const(1), n))]
        for fs, (x,) in cases([L], lo) or []:
            rep.require(fn.label() + ':empty range', entails(fs, gt0(sub(const(1), x))), 'an empty range gives a cycle of length %s' % show(x), ck.where(fn))


def cycle_map(P):
    rep, ck = P.rep, P.raw
    fn = P.fn('Cycle::map', name='map', implself=CYC, trait='')
    if fn is None:
        return
    r = ck.run(fn)
    d = proj(a0, ('f', P.data))
    n = length(d)
    iv = mk('iv', 's')
    hit = land(gt0(sub(n, iv)), eq0(sub(proj(d, ('ix', iv)), a1)))
    F, E = alpha(mk('first', iv, hit)), alpha(mk('any', iv, hit))
    t = alpha(r.ret)
    F0 = F
    F = mk('at', 'n')
    F.nn = True
    t = subst(t, {F0: F})
    for x in subterms(t):
        if x.op == 'any' and x is not E:
            b = x.args[0]
            here, inside = eq0(sub(proj(d, ('ix', b)), a1)), gt0(sub(n, b))
            if set(flat(x.args[1])) <= {here, inside, lnot(here)}:
                rep.require(fn.label() + ':position', False, 'the position used is the first with %s' % show(x.args[1])[:200], ck.where(fn))
                return
    for last in (True, False):
        facts = [E, gt0(sub(n, F)), eq0(sub(add(F, const(1)), n)) if last else gt0(sub(sub(n, const(1)), F))]
        t2 = t
        for x in [x for x in subterms(t) if x is E]:
            t2 = under(t2, E, True)
        t2 = reduce_irem(t2, facts)
        want = proj(d, ('ix', const(0) if last else add(F, const(1))))
        ck.same(fn, 'image of %s element' % ('the last' if last else 'an inner'), t2, want, facts)
    ck.same(fn, 'image of an element outside the cycle', under(t, E, False), a1, [lnot(E)])


def cycle_identity(P):
    ck = P.raw
    fn = P.fn('Cycle::identity', name='identity', implself=CYC, trait='')
    if fn is not None:
        ck.same(fn, 'length', seq_len(proj(ck.run(fn).ret, ('f', P.data))), const(0))


def cycle_order(P):
    """Disjoint cycles are ordered by their first (smallest) elements, the empty one comes first."""
    rep, ck = P.rep, P.raw
    fn = P.tr('Cycle::cmp', CYC, 'Ord', 'cmp')
    if fn is None:
        return
    r = ck.run(fn)
    x, y = (proj(a, ('f', P.data)) for a in (a0, a1))
    fx, fy = proj(x, ('ix', const(0))), proj(y, ('ix', const(0)))
    nx, ny = length(x), length(y)
    less, equal, greater = (absint.agg_adt('std::cmp::Ordering', i, n) for i, n in enumerate(('Less', 'Equal', 'Greater')))
    full = [gt0(nx), gt0(ny)]
    for nm, fs, want in (('empty first', [eq0(nx), gt0(ny)], less), ('empty second', [eq0(ny), gt0(nx)], greater),
                         ('smaller first element', full + [gt0(sub(fy, fx))], less), ('larger first element', full + [gt0(sub(fx, fy))], greater)):
        for fs2, (t,) in cases([r.ret], fs + [lnot(eq0(sub(a0, a1))), lnot(eq0(sub(x, y)))]) or []:
            v = order_value(t, fs2, fx, fy, less, equal, greater)
            if v is None:
                rep.count('undecided')
            else:
                rep.require('%s:%s' % (fn.label(), nm), v is want, 'cycles compare as %s where %s is required' % (show(v), show(want)), ck.where(fn))


def order_value(t, fs, fx, fy, less, equal, greater):
    if t in (less, equal, greater):
        return t
    if t.op in ('icmp', 'cmp') and len(t.args) >= 2:
        a, b = t.args[0], t.args[1]
        if (a is fx and b is fy) or (a is fy and b is fx):
            up = entails(fs, gt0(sub(b, a)))
            dn = entails(fs, gt0(sub(a, b)))
            return less if up else greater if dn else None
    return None


# -- permutations by cycles
def disjoint(P):
    rep, ck = P.rep, P.ck
    fn = P.fn('Permutation::from_disjoint_cycles', name='from_disjoint_cycles', implself=PERM, trait='')
    if fn is None:
        return
    prim = outside('cycle_from', 'unfixed', 'identity')
    ck = Checker(P.prog, rep, (prim,))
    r = ck.run(fn)
    T = proj(r.ret, ('f', P.cycles))
    inner, was_sorted, natural = T, 0, True

    def strip(t):
        nonlocal was_sorted, natural
        if t.op == 'sorted':
            was_sorted += 1
            natural = natural and not t.args[2]
            return strip(t.args[0])
        if t.op == 'ite':
            return ite(t.args[0], strip(t.args[1]), strip(t.args[2]))
        return t
    inner = strip(T)
    # without the sort two equal permutations may list their cycles differently
    if not was_sorted and contains(T, lambda x: x.op in UNDECIDED or x.op in ('phi', 'call') or x.op.startswith('inserted')):
        rep.count('undecided')
    elif not was_sorted:
        rep.require(fn.label() + ':cycles in order', False, 'the cycles are not put in order: %s' % show(T)[:300], ck.where(fn))
    elif natural:
        rep.require(fn.label() + ':cycles in order', True, '')
    else:
        rep.count('undecided')
    iv = mk('iv', 's')
    F = mk('collect', iv, length(a0), frozenset([gt0(length(proj(proj(a0, ('ix', iv)), ('f', P.data))))]), proj(a0, ('ix', iv)))
    F = alpha(F)
    inner = alpha(inner)
    some_ = gt0(mk('len', F))
    for fs, (t,) in cases([inner], []) or []:
        if contradictory(fs + [lnot(some_)]) or entails(fs, some_):
            ck.same(fn, 'non-empty cycles', t, F, fs)
        else:
            t = subst(t, {F: mk('agg', ('array',))})
            t = mk('agg', ('array',), t.args[1]) if t.op == 'push' and empty(t.args[0]) else t
            ck.same(fn, 'identity', t, mk('agg', ('array',), P.cyc()), fs)
    distinct(rep, ck, fn, r.pc, 'cycles are disjoint', None, None)
    seen_loop(rep, ck, fn, r, None)
    # what is_valid walks is what is returned
    walked = {x.args[1][0] for c in r.pc for l in c for x in subterms(l) if x.op == 'call' and x.args[0] == 'unfixed'}
    for w in walked:
        cs = strip(proj(w, ('f', P.cycles)))
        ck.same(fn, 'cycles examined', alpha(cs), inner)


def identity(P):
    fn = P.tr('Permutation::identity', PERM, 'Group', 'identity')
    if fn is None:
        return
    P.raw.same(fn, 'identity', proj(P.raw.run(fn).ret, ('f', P.cycles)), mk('agg', ('array',), P.cyc()))


def from_cycle(P):
    fn = P.fn('Permutation::from_cycle', name='from_cycle', implself=PERM, trait='')
    if fn is not None:
        P.ck.same(fn, 'cycles', proj(P.ck.run(fn).ret, ('f', P.cycles)), mk('agg', ('array',), a0))


def perm_map(P):
    rep, ck = P.rep, P.ck
    fn = P.fn('Permutation::map', name='map', implself=PERM, trait='')
    if fn is None:
        return
    r = Checker(P.prog, rep, (outside('cycle_map'),)).run(fn)
    t = alpha(r.ret)
    cs = proj(a0, ('f', P.cycles))
    anys = {c for x in subterms(t) for c in [x] if x.op == 'any'}
    tops = set()
    top_conds(t, tops)
    tops = [c for c in tops if c.op == 'any']
    if len(tops) != 1:
        if closed(t) and not contains(t, lambda x: x.op == 'any'):
            rep.require(fn.label() + ':image', False, 'the image %s does not depend on the cycles moving the point' % show(t)[:300], ck.where(fn))
        else:
            rep.count('undecided')
        return
    E = tops[0]
    b = E.args[0]
    img = call('cycle_map', proj(cs, ('ix', b)), a1)
    moved, member = lnot(eq0(sub(img, a1))), mk('isin', a1, proj(proj(cs, ('ix', b)), ('f', P.data)))
    bound = gt0(sub(length(cs), b))
    ls = set(flat(E.args[1]))
    if ls == {moved, bound} or ls == {member, bound}:
        F = mk('first', b, E.args[1])
        ck.same(fn, 'image under the cycle moving the point', under(t, E, True), call('cycle_map', proj(cs, ('ix', F)), a1), [E], calls=CALLS)
        ck.same(fn, 'image of a fixed point', under(t, E, False), a1, [lnot(E)], calls=CALLS)
    elif not contains(E, lambda x: x.op in UNDECIDED) and ls <= {moved, member, bound, lnot(moved), lnot(member), eq0(img)}:
        rep.require(fn.label() + ':image', False, 'the cycle applied is the first with %s' % show(E.args[1])[:300], ck.where(fn))
    else:
        rep.count('undecided')


def rng(a, b):
    return absint.agg_adt('std::ops::Range', 0, 'Range', a, b)


def ends(r):
    return proj(r, ('f', 0)), proj(r, ('f', 1))


def block_map(r1, r2, x):
    """Image of x when the blocks r1 and r2 trade places, keeping everything between in order."""
    (a, b), (c, d) = ends(r1), ends(r2)

    def go(a, b, c, d):
        inside = lambda lo, hi: land(gt0(sub(add(x, const(1)), lo)), gt0(sub(hi, x)))
        return ite(inside(a, b), add(x, sub(d, b)), ite(inside(b, c), add(x, sub(sub(d, c), sub(b, a))), ite(inside(c, d), sub(x, sub(c, a)), x)))
    some_ = land(gt0(sub(b, a)), gt0(sub(d, c)))
    return ite(some_, ite(gt0(add(sub(c, b), const(1))), go(a, b, c, d), go(c, d, a, b)), x)


def same_map(r1, r2, x):
    (a, b), (c, d) = ends(r1), ends(r2)
    inside = lambda lo, hi: land(gt0(sub(add(x, const(1)), lo)), gt0(sub(hi, x)))
    return ite(inside(a, b), add(x, sub(c, a)), ite(inside(c, d), sub(x, sub(c, a)), x))


def apply_perm(P, t, x, fn, obl):
    """Image of x under the permutation t stands for; None when t is not understood."""
    if t.op == 'call' and t.args[0] == 'gmul':
        y = apply_perm(P, t.args[1][1], x, fn, obl)
        return None if y is None else apply_perm(P, t.args[1][0], y, fn, obl)
    if t.op == 'call' and t.args[0] == 'identity':
        return x
    if t.op == 'call' and t.args[0] == 'swap':
        obl.append(('swap',) + t.args[1])
        return block_map(t.args[1][0], t.args[1][1], x)
    if t.op == 'call' and t.args[0] == 'swap_ranges_of_the_same_length':
        obl.append(('same',) + t.args[1])
        return same_map(t.args[1][0], t.args[1][1], x)
    if t.op == 'agg' and t.args[0][:2] == ('adt', PERM) and t.args[1] in (mk('agg', ('array',), P.cyc()), mk('agg', ('array',), call('identity'))):
        return x
    return None


def swaps(P):
    rep, ck = P.rep, P.ck
    fn = P.fn('Permutation::swap', name='swap', implself=PERM, trait='')
    if fn is None:
        return
    prim = outside('cycle_from', 'cycle_map', 'from_disjoint_cycles', 'swap', 'swap_ranges_of_the_same_length', 'gmul', 'identity')
    ck = Checker(P.prog, rep, (prim,))
    r = ck.run(fn)
    (a, b), (c, d) = ends(a0), ends(a1)
    ck.guard(fn, 'disjoint ranges', r.pc, lor(gt0(add(sub(c, b), const(1))), gt0(add(sub(a, d), const(1))), gt0(add(sub(a, b), const(1))), gt0(add(sub(c, d), const(1)))))
    x = mk('point', 'x')
    x.nn = True
    for y in (a, b, c, d):
        y.nn = True
    seen = 0
    for cj in r.pc:
        for fs, (t,) in cases([r.ret], list(cj)) or []:
            obl = []
            y = apply_perm(P, t, x, fn, obl)
            if y is None:
                if closed(t, ('call',)) and t.op == 'agg':
                    rep.require(fn.label() + ':image', False, 'gives %s when %s' % (show(t)[:200], show_case(fs)[:300]), ck.where(fn))
                else:
                    rep.count('undecided')
                continue
            seen += 1
            cs = cases([y, block_map(a0, a1, x)], fs, 3000)
            if cs is None:
                rep.count('undecided')
            for f2, (u, v) in cs or []:
                ck.same(fn, 'image of a point', u, v, f2)
            for o in obl:
                (p, q), (u, v) = ends(o[1]), ends(o[2])
                if o[0] == 'same':
                    rep.require(fn.label() + ':equal lengths', entails(fs, eq0(sub(sub(q, p), sub(v, u)))), 'exchanges ranges of different lengths %s and %s when %s' % (show(o[1]), show(o[2]), show_case(fs)[:300]), ck.where(fn))
                    rep.require(fn.label() + ':disjoint blocks', entails(fs, lor(gt0(add(sub(u, q), const(1))), gt0(add(sub(p, v), const(1))))), 'exchanges overlapping ranges %s and %s when %s' % (show(o[1]), show(o[2]), show_case(fs)[:300]), ck.where(fn))
                else:
                    # the recursion gets somewhere
                    before = lambda q, u: entails(fs, gt0(add(sub(u, q), const(1))))
                    smaller = before(b, c) and before(q, u) and entails(fs, gt0(sub(sub(d, a), sub(v, p))))
                    flipped = o[1] is a1 and o[2] is a0 and entails(fs, gt0(add(sub(a, d), const(1))))
                    rep.require(fn.label() + ':recursion', smaller or flipped, 'calls itself with %s and %s, which are not smaller, when %s' % (show(o[1]), show(o[2]), show_case(fs)[:300]), ck.where(fn))
    rep.count('swap_cases', seen)


def swap_same(P):
    rep, ck = P.rep, P.ck
    fn = P.fn('Permutation::swap_ranges_of_the_same_length', name='swap_ranges_of_the_same_length', implself=PERM, trait='')
    if fn is None:
        return
    r = Checker(P.prog, rep, (outside('cycle_from', 'from_disjoint_cycles'),)).run(fn)
    (a, b), (c, d) = ends(a0), ends(a1)
    n = sub(b, a)
    T = r.ret
    T = T.args[1][0] if T.op == 'call' and T.args[0] == 'from_disjoint_cycles' else proj(T, ('f', P.cycles))
    T = subst(T, {mk('min', frozenset([sub(b, a), sub(d, c)])): n})
    want = lambda k: call('cycle_from', mk('agg', ('array',), add(a, k), add(c, k)))
    got = seq_el(T, mk('iv', 'k'))
    if got.op == 'call' and got.args[0] == 'cycle_from' and got.args[1][0] is mk('agg', ('array',), add(c, mk('iv', 'k')), add(a, mk('iv', 'k'))):
        want = lambda k: call('cycle_from', mk('agg', ('array',), add(c, k), add(a, k)))
    ck.seq(fn, 'the exchanged pairs', T, n, want, [eq0(sub(sub(b, a), sub(d, c))), gt0(add(sub(c, b), const(1)))], calls=CALLS)


def product_of(P):
    """Multiplication: the cycles of self after other."""
    rep, ck = P.rep, P.ck
    fn = P.tr('Permutation::mul', PERM, 'Mul', 'mul')
    if fn is not None:
        r = Checker(P.prog, rep, (outside('cycle_from', 'from_disjoint_cycles', 'map', 'unfixed'),)).run(fn)
        mul_cycles(P, fn, r)
    for ty in GROUPS:
        fn = P.tr(ty.split('::')[-1] + '::product', ty, 'Product', 'product')
        if fn is None:
            continue
        r = ck.run(fn)
        fold(P, fn, r)


def after(x):
    return call('map', a0, call('map', a1, x))


def mul_cycles(P, fn, r):
    rep, ck = P.rep, P.ck
    t = r.ret
    lab = fn.label()
    if not (t.op == 'call' and t.args[0] == 'from_disjoint_cycles'):
        rep.count('undecided')
        return
    lo = r.interp.loop_objs
    prod = t.args[1][0]
    nxt = None
    if prod.op == 'phi' and prod.args[0] in lo:
        L = lo[prod.args[0]]
        nxt = L.next.get(prod)
        rep.require(lab + ':cycles collected', empty(prod.args[2]), 'the cycles of the product start from %s' % show(prod.args[2])[:200], ck.where(fn))
    if nxt is None or nxt.op != 'push' or nxt.args[0] is not prod or not (nxt.args[1].op == 'call' and nxt.args[1].args[0] == 'cycle_from'):
        if closed(prod):
            rep.require(lab + ':cycles collected', False, 'the product is made of %s' % show(prod)[:300], ck.where(fn))
        else:
            rep.count('undecided')
        return
    cyc = nxt.args[1].args[1][0]
    # the pool of points still to be placed
    pools = [k for k in L.next if isinstance(k, Term) and k.op == 'phi' and k is not prod and k.args[0] == prod.args[0] and contains(k.args[2], lambda x: x.op == 'call' and x.args[0] == 'unfixed')]
    if not pools and all(k is prod for k in L.next if isinstance(k, Term) and k.op == 'phi' and k.args[0] == prod.args[0]):
        rep.require(lab + ':placed points', False, 'the points of a finished cycle stay among the points left', ck.where(fn))
        return
    if len(pools) != 1:
        rep.count('undecided')
        return
    U = pools[0]
    both = {x.args[1][0] for x in subterms(U.args[2]) if x.op == 'call' and x.args[0] == 'unfixed'}
    rep.require(lab + ':all moved points', both == {a0, a1}, 'the points considered are those moved by %s' % ', '.join(sorted(show(x) for x in both)), ck.where(fn))
    # the loop goes on while points are left
    for bp, _ in L.backs:
        for c in bp:
            rest = [l for l in c if contains(l, lambda x: x is U)]
            some_ = gt0(length(U))
            if contradictory(list(c) + [lnot(some_)]):
                rep.require(lab + ':points left', all(entails([some_], l) for l in rest), 'the loop over the points left only goes on when %s' % ' and '.join(show(l)[:200] for l in rest), ck.where(fn))
            else:
                rep.require(lab + ':points left', False, 'the loop goes on without points left, when %s' % show_case(c)[:300], ck.where(fn))
    # the cycle of a point
    if cyc.op != 'phi' or cyc.args[0] not in lo:
        if closed(cyc, ()) or cyc.op == 'agg':
            rep.require(lab + ':cycle of a point', False, 'the cycle is %s' % show(cyc)[:300], ck.where(fn))
        else:
            rep.count('undecided')
        return
    I = lo[cyc.args[0]]
    start = cyc.args[2]
    x0 = start.args[1] if start.op == 'agg' and start.args[0] == ('array',) and len(start.args) == 2 else None
    step = I.next.get(cyc)
    elems = [k for k in I.next if isinstance(k, Term) and k.op == 'phi' and k is not cyc and k.args[0] == cyc.args[0]]
    if x0 is not None and step is not None and not elems:
        rep.require(lab + ':next point', False, 'the point whose image is taken stays the same along the cycle', ck.where(fn))
        return
    if x0 is None or step is None or len(elems) != 1:
        rep.count('undecided')
        return
    e = elems[0]
    ne = I.next[e]
    rep.require(lab + ':start', x0.op == 'proj' and x0.args[0] is U and e.args[2] in (x0, after(x0)), 'a cycle starts at %s and continues from %s' % (show(x0)[:200], show(e.args[2])[:200]), ck.where(fn))
    if e.args[2] is x0:
        want_next, want_push, cur = after(e), after(e), after(e)
    else:
        want_next, want_push, cur = after(e), e, e
    rep.require(lab + ':next point', ne is want_next, 'the point after x is %s, not the image of x under the right factor and then the left factor' % show(ne)[:300], ck.where(fn))
    rep.require(lab + ':points of the cycle', step.op == 'push' and step.args[0] is cyc and step.args[1] is want_push, 'the cycle grows by %s' % show(step)[-300:], ck.where(fn))
    for bp, _ in I.backs:
        for c in bp:
            stop = [l for l in c if contains(l, lambda x: x is e)]
            want = lnot(eq0(sub(cur, x0)))
            rep.require(lab + ':closing', stop == [want], 'the cycle goes on while %s' % ' and '.join(show(s)[:200] for s in stop), ck.where(fn))
    # placed points leave the pool
    nu = L.next[U]
    if nu.op == 'collect':
        iv, n, cs, v = nu.args
        ok = n is length(U) and v is proj(U, ('ix', iv)) and cs == frozenset([lnot(mk('isin', v, cyc))])
        rep.require(lab + ':placed points', ok, 'the points left are %s' % show(nu)[-300:], ck.where(fn))
    elif nu is U or nu is U.args[2] or not contains(nu, lambda x: x is cyc or x.op in UNDECIDED or x.op in ('phi', 'call', 'callf')):
        rep.require(lab + ':placed points', False, 'the points of a finished cycle stay among the points left: %s' % show(nu)[-200:], ck.where(fn))
    else:
        rep.count('undecided')


def fold(P, fn, r):
    rep, ck = P.rep, P.ck
    t = r.ret
    lab = fn.label()
    if t.op != 'phi' or t.args[0] not in r.interp.loop_objs:
        if closed(t, ()) or t.op == 'call' and t.args[0] in CALLS:
            rep.require(lab + ':product', False, 'the product of a sequence is %s' % show(t)[:200], ck.where(fn))
        else:
            rep.count('undecided')
        return
    L = r.interp.loop_objs[t.args[0]]
    nx = L.next.get(t)
    ck.same(fn, 'empty product', t.args[2], call('identity'), calls=CALLS)
    items = [x for x in subterms(nx) if x.op == 'item'] if nx is not None else []
    if nx is None or nx.op != 'call' or nx.args[0] != 'gmul' or len(set(items)) != 1:
        rep.count('undecided')
        return
    rep.require(lab + ':order of the factors', nx.args[1] == (items[0], t), 'each element is combined as %s, but later elements must act after earlier ones' % show(nx)[:300], ck.where(fn))


def powers(P):
    rep, ck = P.rep, P.ck
    fn = P.tr('Permutation::bitxor', PERM, 'BitXor', 'bitxor')
    if fn is not None:
        prim = outside('gmul', 'gmul_assign', 'identity', 'inverse')
        r = Checker(P.prog, rep, (prim, default_inverse)).run(fn)
        for nm, lit, base, n in (('zeroth power', [eq0(a1)], None, None), ('positive power', [gt0(a1)], a0, a1), ('negative power', [gt0(neg(a1))], call('inverse', a0), neg(a1))):
            for fs, (t,) in cases([r.ret], lit) or []:
                if base is None:
                    if t.op == 'prod' or t.op == 'phi':
                        # an empty product is the identity
                        t = call('identity') if t.op == 'prod' and contradictory(fs + list(t.args[1])) else t
                    ck.same(fn, nm, t, call('identity'), fs, calls=CALLS)
                    continue
                if t.op == 'prod':
                    iv, bs, v = t.args
                    cnt = {add(b.args[0], iv) for b in bs if b.op == 'gt0'}
                    ck.same(fn, nm + ': factor', v, base, fs, calls=CALLS)
                    if len(cnt) == 1 and len(bs) == 1:
                        ck.same(fn, nm + ': number of factors', next(iter(cnt)), n, fs)
                    else:
                        rep.count('undecided')
                elif closed(t, ()) or t.op == 'call' and t.args[0] in CALLS or t.op == 'arg':
                    rep.require('%s:%s' % (fn.label(), nm), False, '%s is %s' % (nm, show(t)[:200]), ck.where(fn))
                else:
                    rep.count('undecided')
    fn = ck.one('Group::inverse', crate='alg', name='inverse', pred=lambda f: (f.trait or '').endswith('Group') and not f.implself or (f.path or '').endswith('Group::inverse'))
    if fn is not None:
        r = Checker(P.prog, rep, ()).run(fn)
        t = r.ret
        if t.op == 'prod':
            iv, bs, v = t.args
            g = [x for x in subterms(v) if x.op == 'call' and x.args[0].endswith('in_terms_of_gens')]
            if len(set(g)) == 1 and v.op == 'call' and v.args[0].endswith('inverse_of_gen'):
                seq, n = g[0], length(g[0])
                ck.same(fn, 'factors', v.args[1][0], proj(seq, ('ix', sub(sub(n, const(1)), iv))), list(bs), calls=(seq.args[0],))
                rep.require(fn.label() + ':every generator', bs == frozenset([gt0(sub(n, iv))]), 'the factors range over %s' % ' and '.join(show(b) for b in bs), ck.where(fn))
            elif len(set(g)) == 1 and v.op == 'proj' and v.args[0] is g[0]:
                rep.require(fn.label() + ':factors', False, 'the generators are multiplied without being inverted', ck.where(fn))
            else:
                rep.count('undecided')
        else:
            rep.count('undecided')


def default_inverse(I, op, name, fn, args, st, pc, at):
    if fn is not None and fn.name == 'inverse' and ((fn.trait or '').endswith('Group') or fn.path.endswith('Group::inverse')):
        return call('inverse', I.reify(st, models.val(I, st, args[0]))), st, pc
    return NotImplemented


def generators(P):
    rep, ck = P.rep, P.ck
    fn = P.tr('Permutation::inverse_of_gen', PERM, 'Group', 'inverse_of_gen')
    if fn is not None:
        ck.same(fn, 'a transposition is its own inverse', ck.run(fn).ret, a0)
    fn = P.tr('Permutation::in_terms_of_gens', PERM, 'Group', 'in_terms_of_gens')
    if fn is None:
        return
    r = ck.run(fn)
    lab = fn.label()
    cs = proj(a0, ('f', P.cycles))
    pushes = []
    for lid, L in r.interp.loop_objs.items():
        for k, v in L.next.items():
            if isinstance(k, Term) and v is not None:
                pushes += [(lid, L, x) for x in subterms(v) if x.op == 'push' and x.args[1].op == 'call' and x.args[1].args[0] in ('from_disjoint_cycles', 'from_cycle', 'swap')]
    ivs = [L.iv for L in r.interp.loop_objs.values()]
    good = 0
    for lid, L, x in pushes:
        t = x.args[1]
        if t.args[0] != 'from_disjoint_cycles' or not (t.args[1][0].op in ('agg', 'push')):
            rep.count('undecided')
            continue
        arr = t.args[1][0]
        if seq_len(arr) is not const(1):
            rep.require(lab + ':one cycle each', False, 'a generator has the cycles %s' % show(arr)[:200], ck.where(fn))
            continue
        c = seq_el(arr, const(0))
        if not (c.op == 'call' and c.args[0] == 'cycle_from'):
            rep.count('undecided')
            continue
        d = c.args[1][0]
        n = seq_len(d)
        if cval(n) != 2:
            rep.require(lab + ':transpositions', False, 'a generator is the cycle %s, not a transposition' % show(d)[:200], ck.where(fn))
            continue
        u, v = seq_el(d, const(0)), seq_el(d, const(1))
        data = [y.args[0] for y in subterms(mk('agg', ('tuple',), u, v)) if y.op == 'proj' and y.args[1][0] == 'ix' and y.args[0].op == 'proj' and y.args[0].args[1] == ('f', P.data)]
        if not data or not all(y.op == 'proj' and y.args[1][0] == 'ix' and y.args[0] is data[0] for y in (u, v)):
            rep.count('undecided')
            continue
        first = proj(data[0], ('ix', const(0)))
        if u is not first and v is first:
            u, v = v, u
        rep.require(lab + ':first element of the cycle', u is first and v is not first, 'the generators of a cycle are the transpositions of %s and %s' % (show(u)[:150], show(v)[:150]), ck.where(fn))
        if u is first:
            k = v.args[1][1]
            conds_ = [l for bp, _ in L.backs for cc in bp for l in cc if contains(l, lambda y: y is L.iv)]
            ok = any(k is L.iv or k is add(L.iv, const(1)) for _ in [0])
            if not ok:
                rep.count('undecided')
            else:
                lim = gt0(sub(length(data[0]), k))
                itself = eq0(sub(u, v))
                trivial = lnot(itself) not in conds_ and not entails(conds_, gt0(k)) and k is L.iv and itself not in (TRUE, FALSE)
                if itself in conds_ or trivial and not [l for l in conds_ if l is not lim]:
                    rep.require(lab + ':two elements', False, 'a generator is made of the first element of the cycle and itself', ck.where(fn))
                extra = [l for l in conds_ if l is not lim and l is not lnot(eq0(sub(u, v))) and not entails([lim], l) and l is not gt0(k)]
                if extra:
                    rep.count('undecided')
                else:
                    rep.require(lab + ':every element', lim in conds_ or any(entails([l], lim) for l in conds_), 'not every element of the cycle gives a transposition', ck.where(fn))
                    good += 1
    idn = eq0(sub(a0, call('identity')))
    one = under(r.ret, idn, True)
    if one.op == 'agg':
        rep.require(lab + ':identity', one in (mk('agg', ('array',), a0), mk('agg', ('array',)), mk('agg', ('array',), call('identity'))), 'the identity is written as %s' % show(one)[:200], ck.where(fn))
    rest = under(r.ret, idn, False)
    rep.require(lab + ':other elements', not (rest.op == 'agg' and rest.args[0] == ('array',)), 'an element that is not the identity is written as %s' % show(rest)[:200], ck.where(fn))
    if not pushes:
        if closed(r.ret):
            rep.require(lab + ':generators', False, 'the generators are %s' % show(r.ret)[:200], ck.where(fn))
        else:
            rep.count('undecided')


def action(P):
    rep = P.rep
    ck = Checker(P.prog, rep, (ALL,))
    fns = [f for f in P.prog.find(crate='alg', name='gen_action_by') if f.body is not None and (f.implself or '').startswith('std::vec::Vec')]
    rep.require('anchor:Vec::gen_action_by', len(fns) == 1, 'the action of permutations on vectors is gone')
    if len(fns) == 1:
        fn = fns[0]
        r = ck.run(fn)
        st = final(r, 0)
        idn = eq0(sub(a1, call('identity')))
        u = call('unfixed', a1)
        i, j = proj(u, ('ix', const(0))), proj(u, ('ix', const(1)))
        n = length(a0)
        ck.same(fn, 'action of the identity', under(st, idn, True), a0, [idn], calls=CALLS)
        k = mk('elemindex', 'act')
        k.nn = True
        two = eq0(sub(length(u), const(2)))
        got = seq_el(under(under(st, idn, False), two, True), k)
        want = ite(eq0(sub(k, i)), proj(a0, ('ix', j)), ite(eq0(sub(k, j)), proj(a0, ('ix', i)), proj(a0, ('ix', k))))
        ck.same(fn, 'action of a transposition', got, want, [lnot(idn), lnot(eq0(sub(i, j))), two], calls=CALLS)
    fn = ck.one('Gset::action_by', crate='alg', name='action_by')
    if fn is not None:
        act(P, ck, fn, ck.run(fn), 0)
    for tr, nm, res in (('Shl', 'shl', None), ('ShlAssign', 'shl_assign', 0)):
        fs = [f for f in P.prog.find(crate='alg', name=nm) if f.body is not None and (f.implself or '').startswith('std::vec::Vec')]
        rep.require('anchor:Vec::' + nm, len(fs) == 1, 'the operator form of the action is gone')
        if len(fs) == 1:
            act(P, ck, fs[0], ck.run(fs[0]), res)


def act(P, ck, fn, r, res):
    """The generators of the element act one after the other, in order."""
    rep = P.rep
    t = r.ret if res is None else final(r, res)
    lab = fn.label()
    if t is a0:
        rep.require(lab + ':acts', False, 'the object is left as it was', ck.where(fn))
        return
    if t.op != 'phi' or t.args[0] not in r.interp.loop_objs:
        rep.count('undecided')
        return
    L = r.interp.loop_objs[t.args[0]]
    nx = L.next.get(t)
    rep.require(lab + ':starts from the object', t.args[2] is a0, 'the action starts from %s' % show(t.args[2])[:200], ck.where(fn))
    gens = {x for x in subterms(nx) if x.op == 'proj' and x.args[1][0] == 'ix' and x.args[0].op == 'call' and x.args[0].args[0].endswith('in_terms_of_gens')}
    if len(gens) != 1:
        rep.count('undecided')
        return
    g = next(iter(gens))
    if contains(g.args[1][1], lambda x: x.op in UNDECIDED):
        rep.count('undecided')
        return
    rep.require(lab + ':order of the generators', g.args[1][1] is L.iv, 'step k uses the generator with index %s' % show(g.args[1][1]), ck.where(fn))
    lim = gt0(sub(length(g.args[0]), L.iv))
    for bp, _ in L.backs:
        for c in bp:
            rep.require(lab + ':every generator', all(l is lim or not contains(l, lambda x: x is L.iv) for l in c) and lim in c, 'the generators used are those with %s' % show_case(c)[:200], ck.where(fn))


# -- permutations as tables
def padded(t, r):
    """A loop that pushes the next index until the lengths agree extends by fixed points."""
    m = {}
    lo = r.interp.loop_objs
    for x in set(subterms(t)):
        if x.op == 'phi' and len(x.args) == 3 and x.args[0] in lo and x.args[2].op == 'proj':
            nx = lo[x.args[0]].next.get(x)
            if nx is None:
                continue
            m[x] = nx
    return m


def pad_el(p, k):
    return ite(gt0(sub(length(p), k)), proj(p, ('ix', k)), k)


def tables(P):
    rep = P.rep
    raw = Checker(P.prog, rep, ())
    ck = P.ck
    fn = P.fn('permutation_mul_impl', name='permutation_mul_impl')
    if fn is not None:
        r = raw.run(fn)
        n = length(a0)
        raw.seq(fn, 'composition', final(r, 0), n, lambda k: proj(a1, ('ix', proj(mk('arg', 2), ('ix', k)))))
    for ty in (CPERM, VPERM):
        nm = ty.split('::')[-1].split('<')[0]
        for tr, name in (('Mul', 'mul'), ('MulAssign', 'mul_assign')):
            fn = P.tr(nm + '::' + name, ty, tr, name)
            if fn is None:
                continue
            r = raw.run(fn)
            t = proj(r.ret if tr == 'Mul' else final(r, 0), ('f', 0))
            p, q = proj(a0, ('f', 0)), proj(a1, ('f', 0))
            if ty == CPERM:
                raw.seq(fn, 'composition', t, mk('cparam', 'N'), lambda k: proj(p, ('ix', proj(q, ('ix', k)))))
            else:
                vec_mul(P, raw, fn, r, t, p, q)
        fn = P.tr(nm + '::inverse', ty, 'Group', 'inverse')
        if fn is not None:
            r = raw.run(fn)
            scatter(P, raw, fn, r, proj(r.ret, ('f', 0)), proj(a0, ('f', 0)))
        fn = P.tr(nm + '::identity', ty, 'Group', 'identity')
        if fn is not None:
            t = proj(raw.run(fn).ret, ('f', 0))
            n = mk('cparam', 'N') if ty == CPERM else seq_len(t)
            raw.seq(fn, 'identity', t, n, lambda k: k)
        fn = P.tr(nm + '::inverse_of_gen', ty, 'Group', 'inverse_of_gen')
        if fn is not None:
            t = ck.run(fn).ret
            if t.op == 'call' or t is a0:
                ck.same(fn, 'inverse', t, call('inverse', a0), calls=CALLS)
            else:
                rep.count('undecided')
        fn = P.fn(nm + '::order', name='order', implself=ty, trait='')
        if fn is not None:
            order(P, ck, fn, ck.run(fn), ty)
    fn = P.fn('VecPermutation::eval', name='eval', implself=VPERM, trait='')
    if fn is not None:
        raw.same(fn, 'image', raw.run(fn).ret, pad_el(proj(a0, ('f', 0)), a1))


def steps(t, x, L):
    """The length of a list that grows by one in every iteration, by the number of iterations."""
    return subst(t, {length(x): add(L.iv, length(x.args[2]))})


def vec_mul(P, ck, fn, r, t, p, q):
    rep = P.rep
    lo = r.interp.loop_objs
    lab = fn.label()
    phis = {x for x in subterms(t) if x.op == 'phi' and x.args[0] in lo and x.args[2] in (p, q)}
    n0, n1 = length(p), length(q)
    k = mk('elemindex', lab)
    k.nn = True
    for fs, small in (([gt0(sub(n1, n0))], p), ([gt0(add(sub(n0, n1), const(1)))], q)):
        ok = True
        ext = {}
        for x in phis:
            L = lo[x.args[0]]
            nx = L.next[x]
            for lit in fs:
                for c in [y for y in subterms(nx) if y.op in ('gt0',)]:
                    nx = under(nx, c, True) if entails(fs, c) else under(nx, c, False) if contradictory(fs + [c]) else nx
            if nx is x:
                ext[x] = None
            elif nx.op == 'push' and nx.args[0] is x:
                rep.require(lab + ':padding', steps(nx.args[1], x, L) is steps(length(x), x, L), 'the shorter table is extended by %s instead of the next fixed point' % show(nx.args[1])[:200], ck.where(fn))
                ext[x] = nx
            else:
                ok = False
        if not ok:
            rep.count('undecided')
            continue
        m = {}
        for x in phis:
            if ext[x] is not None:
                z = mk('padded', x.args[2])
                m[x] = z
                rep.require(lab + ':which is padded', x.args[2] is small, 'the longer table is extended', ck.where(fn))
            else:
                m[x] = x.args[2]
        # the loop only stops at equal lengths
        for x in phis:
            if ext[x] is None:
                continue
            L = lo[x.args[0]]
            oth = [y for y in phis if y is not x and y.args[0] == x.args[0]]
            lg = length(oth[0]) if oth else length(q if x.args[2] is p else p)
            for bp, _ in L.backs:
                for c in bp:
                    c = [f for f in c]
                    for g in [y for l in c for y in subterms(l) if y.op == 'gt0']:
                        if entails(fs, g): c = [under(l, g, True) for l in c]
                        elif contradictory(fs + [g]): c = [under(l, g, False) for l in c]
                    still = {y: y.args[2] for y in phis if ext.get(y) is None}
                    c = [subst(steps(l, x, L), still) for l in c]
                    want = subst(steps(gt0(sub(lg, length(x))), x, L), still)
                    rel = [l for l in c if contains(l, lambda y: y is L.iv)]
                    rep.require(lab + ':padding stops', rel == [want], 'the shorter table grows while %s' % ' and '.join(show(l)[:200] for l in rel), ck.where(fn))
        t2 = subst(t, m)
        z = [y for y in subterms(t2) if y.op == 'padded']
        t2 = expand_pads(t2, n1 if small is p else n0)
        ck.same(fn, 'length', deep_el(seq_len(t2)), n1 if small is p else n0, fs)
        got = deep_el(expand_pads(seq_el(t2, k), n1 if small is p else n0))
        pe = (lambda s, i: pad_el(s, i)) 
        want = pe(p, pe(q, k)) if small is p else proj(p, ('ix', pe(q, k)))
        if small is p:
            want = pe(p, proj(q, ('ix', k)))
        for f2, (u, v) in cases([got, want], fs + [gt0(sub(n1 if small is p else n0, k)), gt0(add(k, const(1))), lor(gt0(sub(add(k, const(1)), n1)), gt0(sub(n1, proj(q, ('ix', k)))))], 4000) or []:
            ck.same(fn, 'composition', u, v, f2)


def expand_pads(t, n):
    for _ in range(8):
        m = {}
        for x in subterms(t):
            if x.op == 'proj' and x.args[0].op == 'padded' and x.args[1][0] == 'ix':
                m[x] = pad_el(x.args[0].args[0], x.args[1][1])
            elif x.op == 'len' and x.args[0].op == 'padded':
                m[x] = n
        if not m:
            return t
        t = subst(t, m)
    return t


def scatter(P, ck, fn, r, t, p):
    """out[p[i]] = i for every i."""
    rep = P.rep
    lab = fn.label()
    lo = r.interp.loop_objs
    n = mk('cparam', 'N') if 'Const' in (fn.implself or '') else length(p)
    if t.op == 'phi' and t.args[0] in lo:
        L = lo[t.args[0]]
        nx = L.next.get(t)
        ck.same(fn, 'length', seq_len(t), n)
        if nx is None or nx.op != 'upd' or nx.args[0] is not t:
            rep.count('undecided')
            return
        rep.require(lab + ':inverse', nx.args[1] == ('ix', proj(p, ('ix', L.iv))) and nx.args[2] is L.iv, 'step i stores %s at %s' % (show(nx.args[2])[:200], show(nx.args[1][1])[:200]), ck.where(fn))
        for bp, _ in L.backs:
            for c in bp:
                lim = [l for l in c if l.op == 'gt0' and contains(l, lambda x: x is L.iv) and not contains(l, lambda x: x.op == 'proj' and x.args[1][0] == 'ix')]
                rep.require(lab + ':every point', gt0(sub(n, L.iv)) in lim, 'the points treated are those with %s' % ' and '.join(show(l) for l in lim), ck.where(fn))
        return
    if t.op == 'collect' or closed(t):
        k = mk('elemindex', 'inv')
        k.nn = True
        v = seq_el(t, k)
        if v.op == 'first':
            rep.count('undecided')
            return
        if closed(v):
            rep.require(lab + ':inverse', False, 'the inverse sends k to %s' % show(v)[:200], ck.where(fn))
            return
    rep.count('undecided')


def order(P, ck, fn, r, ty):
    """The number of factors until the power is the identity."""
    rep = P.rep
    lab = fn.label()
    t = r.ret
    fs = [x for x in subterms(t) if x.op == 'first']
    if len(fs) != 1:
        if closed(t):
            rep.require(lab + ':order', False, 'the order is %s' % show(t)[:200], ck.where(fn))
        else:
            rep.count('undecided')
        return
    F = fs[0]
    phis = {x for x in subterms(F.args[1]) if x.op == 'phi' and x.args[0] in r.interp.loop_objs}
    if len(phis) != 1:
        rep.count('undecided')
        return
    x = next(iter(phis))
    L = r.interp.loop_objs[x.args[0]]
    nx = L.next.get(x)
    if nx is None or nx.op != 'call' or nx.args[0] != 'gmul':
        rep.count('undecided')
        return
    rep.require(lab + ':powers', set(nx.args[1]) == {x, a0} and x.args[2] in (a0,), 'the powers start from %s and continue with %s' % (show(x.args[2])[:150], show(nx)[:200]), ck.where(fn))
    ck.same(fn, 'count', t, add(F, const(1)))
    c = F.args[1]
    if ty == CPERM:
        idn = eq0(sub(x, call('identity')))
        if not contains(c, lambda y: y.op == 'any'):
            rep.require(lab + ':until the identity', c is idn, 'the powers stop when %s' % show(c)[:200], ck.where(fn))
            return
    d = proj(x, ('f', 0))
    anys = [y for y in subterms(c) if y.op == 'any']
    if len(anys) == 1 and c in (anys[0], lnot(anys[0])):
        b = anys[0].args[0]
        n = length(d)
        moved = lnot(eq0(sub(proj(d, ('ix', b)), b)))
        rep.require(lab + ':until the identity', c is lnot(anys[0]) and set(flat(anys[0].args[1])) == {moved, gt0(sub(n, b))}, 'the powers stop when %s' % show(c)[:300], ck.where(fn))
    else:
        rep.count('undecided')


def unfixed_iter(P):
    """The points moved: all elements of all cycles, in order."""
    rep, ck = P.rep, P.raw
    fn = P.fn('Permutation::unfixed_indeces_iter', name='unfixed_indeces_iter')
    nx = ck.one('UnfixedIndexIter::next', crate='alg', name='next', pred=lambda f: 'UnfixedIndexIter' in (f.implself or '') or 'UnfixedIndexIter' in (f.traitref or ''))
    if fn is None or nx is None:
        return
    r = ck.run(fn)
    cs = ((('f', P.cycles),))
    fields = r.ret.args[1:] if r.ret.op == 'agg' else ()
    outer = inner = None
    for i, x in enumerate(fields):
        if x.op == 'it_skip' and x.args[1] is const(1) and x.args[0].op == 'it_slice' and x.args[0].args[0].args[1] == cs:
            outer = i
        if x.op == 'it_slice' and x.args[0].op == 'ref' and x.args[0].args[1] == cs + (('ix', const(0)), ('f', P.data)):
            inner = i
    if outer is None or inner is None or len(fields) != 2:
        if len(fields) == 2 and all(x.op in ('it_skip', 'it_slice') for x in fields):
            rep.require(fn.label() + ':start', False, 'iteration starts with %s' % ', '.join(show(x)[:150] for x in fields), ck.where(fn))
        else:
            rep.count('undecided')
        return
    rep.require(fn.label() + ':start', True, '')
    r = ck.run(nx)
    I, O = proj(a0, ('f', inner)), proj(a0, ('f', outer))
    ni = [x for x in subterms(r.ret) if x.op == 'call' and x.args[0] == 'std::iter::Iterator::next']
    def rv_of(x):
        return x.args[1][0].args[0] if x.args[1] and x.args[1][0].op == 'rv' else None
    nin = [x for x in set(ni) if rv_of(x) is I]
    non = [x for x in set(ni) if rv_of(x) is O]
    if len(nin) != 1 or len(non) > 1:
        rep.count('undecided')
        return
    X = nin[0]
    t1 = under(r.ret, isv(X, 1), True)
    ck.same(nx, 'next element of the current cycle', t1, absint.some(mk('deref', proj(X, ('f', 0)))), [isv(X, 1)], calls=('std::iter::Iterator::next',))
    if not non:
        rep.require(nx.label() + ':next cycle', False, 'the iteration ends with the current cycle', ck.where(nx))
        return
    Y = non[0]
    t2 = under(under(r.ret, isv(X, 1), False), isv(Y, 1), False)
    ck.same(nx, 'end', t2, absint.none(), [lnot(isv(X, 1)), lnot(isv(Y, 1))], calls=('std::iter::Iterator::next',))
    t3 = under(under(r.ret, isv(X, 1), False), isv(Y, 1), True)
    d = proj(mk('deref', proj(Y, ('f', 0))), ('f', P.data))
    full = gt0(length(d))
    uses = lambda t: contains(t, lambda x: x is Y)
    rep.require(nx.label() + ':first element of the next cycle', uses(t3), 'after a cycle has ended the iteration gives %s, not an element of the next cycle' % show(t3)[:200], ck.where(nx))
    rest = under(under(proj(final(r, 0), ('f', inner)), isv(X, 1), False), isv(Y, 1), True)
    rep.require(nx.label() + ':rest of the next cycle', uses(rest), 'after a cycle has ended the iteration goes on with %s, not with the next cycle' % show(rest)[:200], ck.where(nx))
    ck.same(nx, 'first element of the next cycle', under(t3, full, True), absint.some(proj(d, ('ix', const(0)))), [lnot(isv(X, 1)), isv(Y, 1), full], calls=('std::iter::Iterator::next',))
