"""T09: the bit pool keeps its counter and its bits in step, rejects out-of-range indices and unequal lengths."""
from spec import *
import absint

OPSET = 'util'


def final(r, i):
    return r.state.get(('P', i), mk('arg', i)) if r is not None and r.state is not None else None


class Pool:
    def __init__(self, ck):
        self.ck = ck
        self.ok = False
        f = lambda n, **k: ck.one('BinaryPool::' + n, crate='util', name=n, implself=k.get('implself', 'BinaryPool'), trait='')
        self.fns = {n: f(n) for n in ('new', 'from', 'resize', 'add', 'remove', 'union', 'intersection', 'fill', 'len', 'n_elements', 'contains', 'is_subset_of', 'is_full', 'iter')}
        if any(v is None for v in self.fns.values()):
            return
        self.r = {n: ck.run(fn) for n, fn in self.fns.items()}

        def fld(n):
            t = self.r[n].ret
            return t.args[1][1] if t.op == 'proj' and t.args[0] is mk('arg', 0) and t.args[1][0] == 'f' else None
        self.L, self.N = fld('len'), fld('n_elements')
        ck.rep.require('BinaryPool:accessors', self.L is not None and self.N is not None and self.L != self.N,
                       'len() and n_elements() do not return two distinct fields of the pool')
        adt = [a for k, a in ck.prog.adts.items() if a['crate'] == 'util' and a['path'].split('::')[-1] == 'BinaryPool']
        self.D = None
        if adt:
            fs = adt[0]['variants'][0]['fields']
            c = [i for i, x in enumerate(fs) if x['ty'].startswith('std::vec::Vec<u')]
            if len(c) == 1:
                self.D = c[0]
        ck.rep.require('BinaryPool:words', self.D is not None, 'the pool has no single field holding its words')
        self.ok = self.L is not None and self.N is not None and self.D is not None

    def f(self, t, w):
        return proj(t, ('f', {'L': self.L, 'N': self.N, 'D': self.D}[w]))


def words(x):
    return mk_idiv(x, 64), mk_irem(x, 64)


def mk_idiv(a, n):
    t = mk('idiv', a, const(n)); t.nn = True
    return t


def mk_irem(a, n):
    t = mk('irem', a, const(n)); t.nn = True
    return t


def bit(P, pool, i):
    w, b = words(i)
    return mk('bit', proj(P.f(pool, 'D'), ('ix', w)), b)


def spec_set(P, pool, i, v):
    """(len, count, words) after setting bit i of pool to v."""
    w, b = words(i)
    d = P.f(pool, 'D')
    cell = proj(d, ('ix', w))
    was = mk('bit', cell, b)
    cell.nn = True
    n = P.f(pool, 'N')
    n2 = ite(was, n, add(n, const(1))) if v is TRUE else ite(was, sub(n, const(1)), n)
    return {'L': P.f(pool, 'L'), 'N': n2, 'D': upd(d, ('ix', w), setbit(cell, b, v))}


def check_T09(prog, rep):
    rep.rule('value numbering of every pool operation, compared field by field with its set-theoretic meaning; '
             'path predicates of normal return must imply the index and length guards')
    rep.assumptions += ['std Vec/slice/iterator contracts as stated in rules/models.py', 'integer overflow does not occur in counts (they are bounded by the length)']
    ck = Checker(prog, rep)
    P = Pool(ck)
    if not P.ok:
        return
    a0, a1 = mk('arg', 0), mk('arg', 1)
    for n in ('add', 'remove', 'contains'):
        fn, r = P.fns[n], P.r[n]
        ck.guard(fn, 'index below length', r.pc, gt0(sub(P.f(a0, 'L'), a1)))
    for n, v in (('add', TRUE), ('remove', FALSE)):
        fn, r = P.fns[n], P.r[n]
        st = final(r, 0)
        want = spec_set(P, a0, a1, v)
        for w, nm in (('L', 'length'), ('N', 'number of elements'), ('D', 'bits')):
            ck.value(fn, nm + ' afterwards', P.f(st, w), want[w], pc=r.pc)
    r = P.r['contains']
    ck.value(P.fns['contains'], 'result', r.ret, bit(P, a0, a1), pc=r.pc)
    ck.value(P.fns['contains'], 'pool unchanged', final(r, 0), a0)
    for n in ('union', 'intersection', 'is_subset_of'):
        fn, r = P.fns[n], P.r[n]
        ck.guard(fn, 'equal lengths', r.pc, eq0(sub(P.f(a0, 'L'), P.f(a1, 'L'))))
    d0, d1 = P.f(a0, 'D'), P.f(a1, 'D')
    iv = mk('iv', 's')
    sets = {'union': 'bitor', 'intersection': 'bitand'}
    for n, o in sets.items():
        fn, r = P.fns[n], P.r[n]
        cell = mk(o, tuple(sorted((proj(d0, ('ix', iv)), proj(d1, ('ix', iv))), key=skey)))
        bd = frozenset([gt0(sub(length(d0), iv)), gt0(sub(length(d1), iv))])
        want = mk('fmap', d0, (((iv,), bd, ('ix', iv), cell),))
        got = P.f(r.ret, 'D')
        # the words of pools of equal length are equally many: either bound suffices
        same = eq0(sub(length(d0), length(d1)))
        ok = words_combined(got, d0, d1, o)
        if ok is None:
            rep.count('undecided')
        else:
            rep.require('%s:words' % fn.label(), ok, 'a word of the result is not the %s of the two words at the same position: %s' % (o, show(got)[:400]), ck.where(fn))
        ck.value(fn, 'length', P.f(r.ret, 'L'), P.f(a0, 'L'), facts=[eq0(sub(P.f(a0, 'L'), P.f(a1, 'L')))])
        # the counter is recomputed from the combined words
        c = P.f(r.ret, 'N')
        good = counts_words(ck, c, got)
        if good is None:
            rep.count('undecided')
        else:
            rep.require('%s:counter' % fn.label(), good, 'the element count is not recomputed from the combined words: %s' % show(c)[:300], ck.where(fn))
    fn, r = P.fns['is_subset_of'], P.r['is_subset_of']
    subset(ck, P, fn, r, d0, d1, a0, a1)
    fn, r = P.fns['is_full'], P.r['is_full']
    ck.value(fn, 'result', r.ret, eq0(sub(P.f(a0, 'N'), P.f(a0, 'L'))))
    # construction
    fn, r = P.fns['new'], P.r['new']
    ck.value(fn, 'length', P.f(r.ret, 'L'), a0)
    ck.value(fn, 'count', P.f(r.ret, 'N'), const(0))
    zero_words(ck, fn, P.f(r.ret, 'D'), a0)
    fn, r = P.fns['from'], P.r['from']
    loop_of_set(ck, P, fn, r, r.ret, mk('arg', 1), mk('arg', 0), 'from')
    d1_ = P.f(P.r['new'].ret, 'D')
    d2_ = [x.args[2] for x in subterms(P.f(r.ret, 'D')) if x.op == 'phi' and x.args[2].op == 'repeat']
    if d1_.op == 'repeat' and len(d2_) == 1:
        # equality compares the words: sets of one length have one number of words
        ck.value(fn, 'number of words', d2_[0].args[1], d1_.args[1])
    fn, r = P.fns['fill'], P.r['fill']
    if r.pc is not None and not any(x.op in UNDECIDED for c in r.pc for l in c for x in subterms(l)):
        rep.require(fn.label() + ':accepted', any(not c for c in r.pc), 'filling is rejected unless %s' % show(absint.dnf_term(r.pc))[:300], ck.where(fn))
    loop_of_set(ck, P, fn, r, final(r, 0), None, None, 'fill')
    for e in r.events:
        if e.kind != 'panic':
            continue
        for c in e.pc:
            m = {proj(x, ('f', P.L)): P.f(a0, 'L') for l in c for x in subterms(l) if x.op == 'phi' and x.args[2] is a0}
            c = [subst(l, m) for l in c]
            if any(x.op in UNDECIDED for l in c for x in subterms(l)):
                rep.count('undecided')
            else:
                rep.require(fn.label() + ':accepted', any(l is FALSE for l in c) or contradictory(c), 'filling is rejected when %s' % show_case(c)[:300], ck.where(fn))
    fn, r = P.fns['resize'], P.r['resize']
    st = final(r, 0)
    grow = gt0(sub(a1, P.f(a0, 'L')))
    ck.value(fn, 'length', P.f(st, 'L'), a1, facts=[grow])
    ck.value(fn, 'count', P.f(st, 'N'), P.f(a0, 'N'))
    resized(ck, P, fn, st, a0, a1, grow)
    counter_helper(ck, P)
    # iteration
    fn = ck.one('BinaryPoolIter::next', crate='util', name='next', pred=lambda f: 'BinaryPoolIter' in (f.implself or '') or 'BinaryPoolIter' in (f.traitref or ''))
    if fn is not None:
        pool_iter(ck, P, fn)
    labeled(ck, P)
    rep.count('operations', len(P.fns))
    rep.floor('operations', 14)


def words_combined(got, d0, d1, o):
    if got.op != 'fmap':
        return False if closed(got) else None
    a = alpha(got)
    if len(a.args[1]) != 1 or a.args[0] is not d0:
        return None if a.args[0] is not d0 and a.args[0] is not d1 else (None if len(a.args[1]) != 1 else None)
    ivs, bs, key, v = a.args[1][0]
    if key[0] != 'ix' or len(ivs) != 1 or key[1] is not ivs[0]:
        return None
    iv = ivs[0]
    x, y = proj(d0, ('ix', iv)), proj(d1, ('ix', iv))
    want = mk(o, tuple(sorted((x, y), key=skey)))
    allowed = {gt0(sub(length(d0), iv)), gt0(sub(length(d1), iv))}
    return v is want and bs <= allowed


def counts_words(ck, c, words):
    """c is the sum over all words of their number of ones."""
    if c.op != 'sum':
        if not contains(c, lambda x: x.op in UNDECIDED or x.op in ('sum', 'first')):
            return False
        return None
    iv, bs, v = c.args
    lim = gt0(sub(length(words), iv))
    lim0 = frozenset(bs)
    if v.op == 'fn1' and v.args[0] == 'count_ones':
        return v.args[1][0] is proj(words, ('ix', iv)) and lim0 == frozenset([lim])
    # a helper with its own loop over the bits of the word
    if contains(v, lambda x: x is proj(words, ('ix', iv))):
        return lim0 == frozenset([lim])
    if v.op == 'first' or contains(v, lambda x: x.op in UNDECIDED):
        other = [x for x in subterms(v) if x.op == 'proj' and x.args[1][0] == 'ix']
        return False if other else None
    return False


def closed(t):
    return not any(x.op in UNDECIDED or x.op in ('call', 'first', 'phi') for x in subterms(t))


def zero_words(ck, fn, d, n):
    if d.op != 'repeat':
        ck.rep.count('undecided')
        return
    ck.value(fn, 'words', d.args[0], const(0))
    k = d.args[1]
    lo = add(mk_idiv(n, 64), const(1))
    ok = entails([], gt0(add(sub(k, lo), const(1))))
    alt = mk('idiv', add(n, const(63)), const(64))
    alt2 = mk('fn1', 'div_ceil', (n, const(64)))
    ck.rep.require(fn.label() + ':room', ok or k is alt or k is alt2, '%s words are not enough for %s bits' % (show(k), show(n)), ck.where(fn))


def subset(ck, P, fn, r, d0, d1, a0, a1):
    t = r.ret
    key = fn.label() + ':result'
    if t.op != 'not' or t.args[0].op != 'any':
        if contains(t, lambda x: x.op in ('phi', 'join', 'first')) or t.op != 'any' and contains(t, lambda x: x.op == 'any'):
            ck.rep.count('undecided')
        else:
            ck.rep.require(key, False, 'the answer does not depend on all words: ' + show(t)[:300], ck.where(fn))
        return
    a = alpha(t.args[0])
    iv, body = a.args
    x, y = proj(d0, ('ix', iv)), proj(d1, ('ix', iv))
    bd = {gt0(sub(length(d0), iv)), gt0(sub(length(d1), iv))}
    lits = set(body.args[0]) if body.op == 'and' else {body}
    rest = lits - bd
    xy = mk('bitand', tuple(sorted((x, y), key=skey)))
    orr = mk('bitor', tuple(sorted((x, y), key=skey)))
    ny = mk('bitand', tuple(sorted((x, mk('bitnot', y)), key=skey)))
    good = [lnot(eqt(xy, x)), lnot(eqt(orr, y)), lnot(eq0(ny)), gt0(ny)]
    ck.rep.require(key, len(lits - rest) >= 1 and len(rest) == 1 and next(iter(rest)) in good,
                   'the words are not compared for inclusion over their whole length: %s' % show(t)[:300], ck.where(fn))


def loop_of_set(ck, P, fn, r, t, items, n, nm):
    """The result is built by adding every item of a sequence (or every index) to an empty or given pool."""
    if t is None:
        ck.rep.require(fn.label() + ':returns', False, 'never returns', ck.where(fn))
        return
    cnt, wd = P.f(t, 'N'), P.f(t, 'D')
    loops = [x for x in subterms(t) if x.op == 'phi']
    lids = {x.args[0] for x in loops}
    if not lids and closed(t):
        ck.rep.require(fn.label() + ':adds', False, 'adds nothing: %s' % show(t)[:300], ck.where(fn))
        return
    if len(lids) != 1:
        ck.rep.count('undecided')
        return
    if items is not None:
        for x in loops:
            # the pool the items are added to is empty and large enough
            if x in subterms(cnt) and len([y for y in subterms(cnt) if y.op == 'phi']) == 1:
                ck.value(fn, 'starts with no element', x.args[2] if not is_adt(x.args[2], 'BinaryPool') else P.f(x.args[2], 'N'), const(0))
            if x in subterms(wd) and len([y for y in subterms(wd) if y.op == 'phi']) == 1 and x not in subterms(cnt):
                zero_words(ck, fn, x.args[2] if not is_adt(x.args[2], 'BinaryPool') else P.f(x.args[2], 'D'), n)
        cs = cases([t], [gt0(length(items))]) or []
        for fs, (u,) in cs:
            if closed(u):
                ck.rep.require(fn.label() + ':adds', False, 'adds nothing in the case %s' % show_case(fs), ck.where(fn))
    lid = lids.pop()
    L = r.interp.loop_objs.get(lid)
    if L is None:
        return
    whole = [x for x in loops if not x.args[1][1] or x.args[1][0][0] == 'P' and x.args[1][1] == ()]
    ph = {}
    for w in 'LND':
        c = [x for x in subterms(P.f(t, w)) if x.op == 'phi']
        if len(c) == 1:
            ph[w] = c[0]
    if whole:
        base = whole[0]
        nxt = L.next.get(base)
        if nxt is None:
            return
        got = {w: P.f(nxt, w) for w in 'LND'}
        pool = base
    else:
        if 'N' not in ph or 'D' not in ph:
            ck.rep.count('undecided')
            return
        fields = [None] * 3
        fields[P.L] = n if n is not None else const(0)
        fields[P.N], fields[P.D] = ph['N'], ph['D']
        pool = mk('agg', ('adt', 'BinaryPool', 0, 'BinaryPool'), *fields)
        got = {'N': L.next.get(ph['N']), 'D': L.next.get(ph['D'])}
    item = None
    # the item added: read it off the bit that is set
    sets = [x for x in subterms(got['D']) if x.op == 'setbit'] if got.get('D') is not None else []
    item = proj(items, ('ix', L.iv)) if items is not None else L.iv
    want = spec_set(P, pool, item, TRUE)
    base = frozenset()
    facts = list(frozenset.intersection(*[c for bp, _ in L.backs for c in bp])) if L.backs else []
    for w, nm2 in (('N', 'number of elements'), ('D', 'bits')):
        if got.get(w) is not None:
            ck.value(fn, 'each step: ' + nm2, got[w], want[w], facts=facts)
    lim = gt0(sub(length(items), L.iv)) if items is not None else None
    if items is None and L.real:
        ck.rep.require(fn.label() + ':in bounds', entails([l for l in L.real], gt0(sub(P.f(mk('arg', 0), 'L'), L.iv))), 'an index at or beyond the length is added: %s' % show_case(L.real), ck.where(fn))
    if lim is not None:
        bad = [l for l in facts if contains(l, lambda x: x is L.iv) and (L.real is None or l in L.real) and l is not lim]
        ck.rep.require(fn.label() + ':all items', lim in facts and not bad, 'not every listed index is added: ' + show_case(facts), ck.where(fn))


def resized(ck, P, fn, st, a0, a1, grow):
    d = alpha(P.f(st, 'D'))
    d = under(d, grow, True) if contains(d, lambda x: x is grow or x is lnot(grow)) else d
    d0 = P.f(a0, 'D')
    parts = []
    for x in subterms(d):
        if x.op == 'append' and x.args[0] is d0 and x.args[1].op == 'collect':
            parts.append(x.args[1])
    if not parts:
        if d is d0:
            ck.rep.require(fn.label() + ':room', False, 'growing the pool adds no words', ck.where(fn))
        else:
            ck.rep.count('undecided')
        return
    c = parts[0]
    ck.rep.require(fn.label() + ':new words empty', c.args[3] is const(0), 'new words are not zero: ' + show(c), ck.where(fn))
    total = add(length(d0), c.args[1])
    ck.rep.require(fn.label() + ':room', entails([], gt0(sub(total, mk_idiv(a1, 64)))) or entails([], gt0(sub(add(total, const(1)), mk_idiv(add(a1, const(63)), 64)))),
                   '%s words do not hold %s bits' % (show(total), show(a1)), ck.where(fn))


def counter_helper(ck, P):
    """A local helper counting the ones of a word does so by clearing the lowest set bit each round."""
    for fn in ck.prog.find(crate='util', name='count_ones'):
        r = ck.run(fn)
        if r is None or r.ret is None:
            continue
        t = r.ret
        if t.op == 'fn1' and t.args[0] == 'count_ones':
            ck.rep.require(fn.label() + ':ones', t.args[1][0] is mk('arg', 0), 'counts something else: ' + show(t), ck.where(fn))
            continue
        if t.op != 'first':
            if t.op in ('poly', 'int') and not any(x.op in ('phi', 'sum') for m, _ in to_poly(t).items() for x, e in m):
                ck.rep.require(fn.label() + ':ones', False, 'is not the number of ones: ' + show(t), ck.where(fn))
            else:
                ck.rep.count('undecided')
            continue
        iv, cond = t.args
        phis = [x for x in subterms(cond) if x.op == 'phi']
        if len(phis) != 1:
            ck.rep.count('undecided')
            continue
        ph = phis[0]
        nxt = r.interp.loop_objs[ph.args[0]].next.get(ph)
        one = const(1)
        good = {mk('bitand', tuple(sorted((ph, sub(ph, one)), key=skey)))}
        ck.rep.require(fn.label() + ':ones', nxt in good and cond is eq0(ph) and ph.args[2] is mk('arg', 0),
                       'a round does not clear exactly the lowest set bit: next = %s until %s' % (show(nxt), show(cond)), ck.where(fn))


def pool_iter(ck, P, fn):
    r = ck.run(fn)
    if r is None or r.ret is None:
        return
    t = alpha(r.ret)
    # next() yields the first remaining index whose bit is set
    anys = [x for x in subterms(t) if x.op == 'any']
    some_ = [x for x in subterms(t) if x.op == 'first']
    if t.op != 'ite' or not anys or not some_:
        ck.rep.count('undecided')
        return
    for x in anys + some_:
        lits = set(x.args[1].args[0]) if x.args[1].op == 'and' else {x.args[1]}
        bits = [l for l in lits if l.op == 'bit']
        neg_ = [l for l in lits if l.op == 'not' and l.args[0].op == 'bit']
        idx = None
        ok = len(bits) == 1 and not neg_ and len(lits) == 2
        ck.rep.require(fn.label() + ':condition', ok, 'does not stop exactly at the set bits: ' + show(x)[:300], ck.where(fn))
    item = proj(t, ('f', 0))
    c = [x for x in subterms(item) if x.op == 'first']
    if len(c) == 1:
        start = sub(item, c[0])
        b = [x for x in subterms(c[0].args[1]) if x.op == 'bit'][0]
        # the bit tested is the one at the index handed out
        w, k = words(add(start, c[0].args[0]))
        ck.rep.require(fn.label() + ':item', b.args[1] is k and b.args[0].args[1][1] is w, 'the index handed out is not the one tested', ck.where(fn))
        st = alpha(final(r, 0))
        rng = [x for x in subterms(st) if is_adt(x, 'std::ops::Range')]
        if len(rng) == 1:
            anyc = t.args[0]
            nx = rng[0].args[1]
            if nx.op == 'ite' and nx.args[0] is anyc:
                ck.rep.require(fn.label() + ':advances', nx.args[1] is add(item, const(1)), 'the next search does not start right after the index handed out', ck.where(fn))


def labeled(ck, P):
    prog, rep = ck.prog, ck.rep
    a0, a1 = mk('arg', 0), mk('arg', 1)
    adt = [a for a in prog.adts.values() if a['crate'] == 'util' and a['path'].split('::')[-1] == 'LabeledSet']
    if not adt:
        rep.require('anchor:LabeledSet', False, 'no labelled set')
        return
    fs = adt[0]['variants'][0]['fields']
    S = [i for i, x in enumerate(fs) if 'BinaryPool' in x['ty']]
    Lb = [i for i, x in enumerate(fs) if x['ty'].startswith('std::vec::Vec<')]
    if len(S) != 1 or len(Lb) != 1:
        rep.count('undecided')
        return
    S, Lb = S[0], Lb[0]
    iv = mk('iv', 's')
    lab = proj(a0, ('f', Lb))
    cond = land(gt0(sub(length(lab), iv)), eqt(proj(lab, ('ix', iv)), a1))
    pos = mk('first', iv, cond)
    for n, v in (('add', TRUE), ('remove', FALSE)):
        fn = ck.one('LabeledSet::' + n, crate='util', name=n, pred=lambda f: (f.implself or '').startswith('LabeledSet<') and not f.trait)
        if fn is None:
            continue
        r = ck.run(fn)
        st = final(r, 0)
        if st is None:
            continue
        want = spec_set(P, proj(a0, ('f', S)), pos, v)
        pc = frozenset(frozenset(alpha(l) for l in c) for c in r.pc)
        ck.guard(fn, 'registered label', pc, alpha(mk('any', iv, cond)))
        for w, nm in (('N', 'number of elements'), ('D', 'bits'), ('L', 'length')):
            ck.value(fn, nm, P.f(proj(st, ('f', S)), w), want[w])
        ck.value(fn, 'labels', proj(st, ('f', Lb)), lab)
    fn = ck.one('LabeledSet::new', crate='util', name='new', pred=lambda f: (f.implself or '').startswith('LabeledSet<'))
    if fn is not None:
        r = ck.run(fn)
        ck.value(fn, 'labels', proj(r.ret, ('f', Lb)), a0)
        ck.value(fn, 'length', P.f(proj(r.ret, ('f', S)), 'L'), length(a0))
