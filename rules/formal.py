"""T10: formal sums (lin_alg::Vector), their merging sum, and modules given by invariants."""
from spec import *
import absint, models

VEC = 'lin_alg::Vector<Coeff, Basis>'
MODULE = 'lin_alg::Module<Coeff>'
a0, a1 = mk('arg', 0), mk('arg', 1)
NEXT = 'std::iter::Iterator::next'


def call(nm, *a):
    return mk('call', nm, tuple(a))


def is_vec(s):
    return (s or '').startswith(('lin_alg::Vector<', 'alg::lin_alg::Vector<'))


def vops(level):
    """Operations of formal sums below the given level, as terms of the module they generate."""
    def prim(I, op, name, fn, args, st, pc, at):
        if fn is None or fn.crate != 'alg' or fn.kind == 'closure' or not is_vec(fn.implself):
            return NotImplemented
        t = (fn.trait or '').split('<')[0].split('::')[-1]
        ref = fn.traitref or ''
        A = [I.reify(st, models.val(I, st, a)) for a in args]
        lv, v = None, None
        if t == 'Neg':
            lv, v = 1, lambda: neg(A[0])
        elif t == 'Mul':
            lv, v = 1, lambda: mul(A[0], A[1])
        elif t == 'From' and ref.endswith('From<Basis>>'):
            lv, v = 1, lambda: call('generator', A[0])
        elif t == 'Add' and 'Add<' not in ref:
            lv, v = 2, lambda: add(A[0], A[1])
        elif t == 'Sub' and 'Sub<' not in ref:
            lv, v = 3, lambda: sub(A[0], A[1])
        elif t == 'Add':
            lv, v = 4, lambda: add(A[0], call('generator', A[1]))
        elif t == 'Sub':
            lv, v = 4, lambda: sub(A[0], call('generator', A[1]))
        elif t == 'From' and ('From<[' in ref or 'Vec<' in ref):
            lv, v = 4, lambda: call('generators', A[0])
        elif not t and fn.name == 'zero':
            lv, v = 1, lambda: const(0)
        if lv is None or lv >= level:
            return NotImplemented
        return v(), st, pc
    return prim


def merging(I, op, name, fn, args, st, pc, at):
    """merge_by, which has its own obligations."""
    if fn is None or fn.crate != 'alg' or fn.name != 'merge_by' or fn.kind == 'closure':
        return NotImplemented
    o = models.order_of(I, args[2], st, pc, at)
    if o is None:
        return NotImplemented
    def content(x):
        x = I.reify(st, models.val(I, st, x))
        return x.args[0] if x.op == 'it_into' else x
    return mk('it_into', mk('call', 'merge_by', (content(args[0]), content(args[1]), o))), st, pc


def expand(t):
    """Sums over a known number of terms."""
    for _ in range(6):
        m = {}
        for x in subterms(t):
            if x.op in ('sum', 'prod') and len(x.args[1]) == 1:
                iv = x.args[0]
                b = next(iter(x.args[1]))
                n = add(b.args[0], iv) if b.op == 'gt0' else None
                k = cval(n) if n is not None else None
                if k is not None and 0 <= k <= 8:
                    vs = [subst(x.args[2], {iv: const(i)}) for i in range(int(k))]
                    r = const(0) if x.op == 'sum' else const(1)
                    for v in vs:
                        r = add(r, v) if x.op == 'sum' else mul(r, v)
                    m[x] = r
        if not m:
            return t
        t = subst(t, m)
    return t


def check_T10(prog, rep):
    rep.rule('value numbering of every operation of formal sums: results are compared with the free module on the basis, the merging sum through its loop-carried values; '
             'comparison functions handed to sorting and merging are summarised and compared with the order on the basis')
    rep.assumptions += ['std Vec/slice/iterator/sort contracts as stated in rules/models.py', 'the order of the basis is total on the elements that meet (partial_cmp answers)']
    for f in (elementwise, operators, generators, coefficient, merge, merging_sum, modules, derived):
        rep.group(f, prog, rep)


def find(rep, prog, what, trait, name, tail=None, implself=VEC):
    fs = [f for f in prog.find(crate='alg', name=name, implself=implself) if f.body is not None and f.kind != 'closure'
          and ((f.trait or '').split('<')[0].split('::')[-1] == trait if trait else not f.trait) and (tail is None or tail(f.traitref or ''))]
    rep.require('anchor:' + what, len(fs) == 1, 'expected exactly one definition of %s, found %d' % (what, len(fs)))
    return fs[0] if len(fs) == 1 else None


def data(t):
    return proj(t, ('f', 0))


def pairs(ck, fn, what, got, n, el, facts=(), pc=None):
    """got is the sequence of length n of pairs el(k)."""
    rep = ck.rep
    k = mk('elemindex', fn.label())
    k.nn = True
    got = deep_el(got)
    ck.same(fn, what + ': number of terms', deep_el(seq_len(got)), n, facts, pc)
    fs = list(facts) + [gt0(sub(n, k))]
    e = seq_el(got, k)
    c, b = el(k)
    ck.same(fn, what + ': coefficients', deep_el(proj(e, ('f', 0))), c, fs, pc)
    ck.same(fn, what + ': basis elements', deep_el(proj(e, ('f', 1))), b, fs, pc)


def elementwise(prog, rep):
    ck = Checker(prog, rep, ())
    d = data(a0)
    n = length(d)
    at = lambda k: proj(d, ('ix', k))
    F = lambda *a, **k: find(rep, prog, *a, **k)
    fn = F('Vector::zero', '', 'zero')
    if fn is not None:
        ck.same(fn, 'number of terms', seq_len(data(ck.run(fn).ret)), const(0))
    fn = F('Vector::len', '', 'len')
    if fn is not None:
        ck.same(fn, 'number of terms', ck.run(fn).ret, n)
    fn = F('Vector::neg', 'Neg', 'neg')
    if fn is not None:
        r = ck.run(fn)
        pairs(ck, fn, 'negative', data(r.ret), n, lambda k: (neg(proj(at(k), ('f', 0))), proj(at(k), ('f', 1))), pc=r.pc)
        ck.guard(fn, 'every sum is accepted', [frozenset()] if r.pc == [frozenset()] else r.pc, TRUE)
    fn = F('Vector::mul', 'Mul', 'mul')
    if fn is not None:
        r = ck.run(fn)
        z = eq0(a1)
        pairs(ck, fn, 'multiple', data(under(r.ret, z, False)), n, lambda k: (mul(proj(at(k), ('f', 0)), a1), proj(at(k), ('f', 1))), [lnot(z)])
        ck.same(fn, 'zero multiple', seq_len(data(under(r.ret, z, True))), const(0), [z])
    fn = F('Vector::div', 'Div', 'div')
    if fn is not None:
        r = ck.run(fn)
        z = eq0(a1)
        ck.guard(fn, 'division by zero is rejected', r.pc, lnot(z))
        pairs(ck, fn, 'quotient', data(under(r.ret, z, False)), n, lambda k: (div(proj(at(k), ('f', 0)), a1), proj(at(k), ('f', 1))), [lnot(z)])
    fn = F('Vector::remove', '', 'remove')
    if fn is not None:
        ck.same(fn, 'removed term', ck.run(fn).ret, at(a1))


def operators(prog, rep):
    F = lambda *a, **k: find(rep, prog, *a, **k)
    g = lambda x: call('generator', x)
    for what, tr, nm, lv, tail, want in (
            ('Vector + Vector', 'Add', 'add', 2, lambda s: 'Add<' not in s, add(a0, a1)),
            ('Vector - Vector', 'Sub', 'sub', 3, lambda s: 'Sub<' not in s, sub(a0, a1)),
            ('Vector + element', 'Add', 'add', 4, lambda s: 'Add<' in s, add(a0, g(a1))),
            ('Vector - element', 'Sub', 'sub', 4, lambda s: 'Sub<' in s, sub(a0, g(a1)))):
        fn = F(what, tr, nm, tail)
        if fn is None:
            continue
        ck = Checker(prog, rep, (vops(lv),))
        r = ck.run(fn)
        ck.same(fn, what, expand(r.ret), want, pc=r.pc, calls=('generator',))
    # the operators on basis elements
    n = 0
    for fn in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.label())):
        ref = fn.traitref or ''
        t = (fn.trait or '').split('<')[0]
        if fn.kind == 'closure' or fn.body is None or not t.startswith('std::ops::') or fn.crate == 'alg':
            continue
        out = fn.body['locals'][0]['ty']
        if 'lin_alg::Vector<' not in out or is_vec(fn.implself):
            continue
        ck = Checker(prog, rep, (vops(9),))
        vec2 = fn.body['argc'] == 2 and is_vec(fn.body['locals'][2]['ty'])
        t = t.split('::')[-1]
        y = a1 if vec2 else g(a1)
        want = {'Add': lambda: add(g(a0), y), 'Sub': lambda: sub(g(a0), y), 'Neg': lambda: neg(g(a0)), 'Mul': lambda: mul(a0, y)}.get(t)
        if want is None:
            continue
        n += 1
        r = ck.run(fn)
        ck.same(fn, 'formal ' + {'Add': 'sum', 'Sub': 'difference', 'Neg': 'negative', 'Mul': 'multiple'}[t], expand(r.ret), want(), pc=r.pc, calls=('generator',))
    rep.require('floor:formal operators', n >= 8, 'only %d operators making formal sums of basis elements are left' % n)


def generators(prog, rep):
    F = lambda *a, **k: find(rep, prog, *a, **k)
    raw = Checker(prog, rep, ())
    fn = F('Vector::from(element)', 'From', 'from', lambda s: s.endswith('From<Basis>>'))
    if fn is not None:
        pairs(raw, fn, 'one element', data(raw.run(fn).ret), const(1), lambda k: (const(1), a0))
    ck = Checker(prog, rep, (vops(4),))
    for what, tail in (('Vector::from(array)', lambda s: 'From<[' in s), ('Vector::from(Vec)', lambda s: 'From<std::vec::Vec' in s)):
        fn = F(what, 'From', 'from', tail)
        if fn is not None:
            whole(ck, fn, ck.run(fn).ret, a0)
    fn = F('Vector::from_iter', 'FromIterator', 'from_iter')
    if fn is not None:
        ck = Checker(prog, rep, (vops(9),))
        t = ck.run(fn).ret
        if t.op == 'call' and t.args[0] == 'generators':
            s = t.args[1][0]
            whole_source(ck, fn, s)
        else:
            s = [x for x in subterms(t) if x.op == 'collect']
            whole(ck, fn, t, s[0] if len(s) == 1 else None)


def whole_source(ck, fn, s):
    if s.op == 'collect':
        plain = all(l.op == 'more' for l in s.args[2]) and s.args[3].op == 'item'
        if plain:
            ck.rep.require(fn.label() + ':every element', True, '')
            return
        if all(x.op not in UNDECIDED for x in subterms(s)):
            ck.rep.require(fn.label() + ':every element', False, 'the elements summed are %s' % show(s)[:300], ck.where(fn))
            return
    ck.rep.count('undecided')


def whole(ck, fn, t, src):
    """t is the sum of the generators of all elements of src."""
    rep = ck.rep
    key = fn.label() + ':sum of the elements'
    if src is None or t.op != 'sum':
        if closed(t):
            rep.require(key, False, 'the elements give %s' % show(t)[:300], ck.where(fn))
        else:
            rep.count('undecided')
        return
    iv, bs, v = t.args
    x = proj(src, ('ix', iv))
    if v.op == 'call' and v.args[0] == 'generator' and contains(v, lambda y: y is src):
        rep.require(key, v.args[1] == (x,), 'the terms are %s' % show(v)[:200], ck.where(fn))
    elif v.op == 'agg' and seq_len(data(v)) is const(1):
        e = seq_el(data(v), const(0))
        rep.require(key, proj(e, ('f', 0)) is const(1) and proj(e, ('f', 1)) is x, 'the terms are %s' % show(v)[:200], ck.where(fn))
    elif closed(v, ()):
        rep.require(key, False, 'the terms are %s' % show(v)[:200], ck.where(fn))
    else:
        rep.count('undecided')
    rep.require(fn.label() + ':every element', bs == frozenset([gt0(sub(length(src), iv))]), 'the elements summed are those with %s' % ' and '.join(show(b) for b in bs), ck.where(fn))


def coefficient(prog, rep):
    ck = Checker(prog, rep, ())
    fn = find(rep, prog, 'Vector::index', 'Index', 'index')
    if fn is None:
        return
    r = ck.run(fn)
    d = data(a0)
    iv = mk('iv', 's')
    lab = fn.label()
    E = mk('isin?',)
    t = I_content(r, r.ret)
    F = [x for x in subterms(t) if x.op == 'first']
    if len(set(F)) != 1:
        if closed(t):
            rep.require(lab + ':coefficient', False, 'the coefficient is %s' % show(t)[:300], ck.where(fn))
        else:
            rep.count('undecided')
        return
    f = F[0]
    b = f.args[0]
    ls = set(flat(f.args[1]))
    hit = eq0(sub(proj(proj(d, ('ix', b)), ('f', 1)), a1))
    bound = gt0(sub(length(d), b))
    if ls == {hit, bound} or ls == {hit}:
        rep.require(lab + ':coefficient', t is proj(proj(d, ('ix', f)), ('f', 0)), 'the coefficient is %s' % show(t)[:300], ck.where(fn))
    elif all(closed(l) for l in ls):
        rep.require(lab + ':coefficient', False, 'the term used is the first with %s' % show(f.args[1])[:300], ck.where(fn))
    else:
        rep.count('undecided')


def I_content(r, t):
    if t.op == 'ref' and t.args[0][0] == 'P':
        v = mk('arg', t.args[0][1])
        for e in t.args[1]:
            v = proj(v, e)
        return v
    if t.op == 'ite':
        return ite(t.args[0], I_content(r, t.args[1]), I_content(r, t.args[2]))
    return t


# ---------------------------------------------------------------- merging
def merge(prog, rep):
    ck = Checker(prog, rep, ())
    raw = [f for f in prog.find(crate='alg', name='next') if f.body is not None and 'Merge<' in (f.implself or '')]
    by = [f for f in prog.find(crate='alg', name='merge_by') if f.body is not None and f.kind != 'closure']
    if not raw and not by:
        return          # sums are formed without this helper; what they do is looked at there
    rep.require('anchor:merge', len(raw) == 1 and len(by) == 1, 'the merging iterator is only partly there')
    if len(raw) != 1 or len(by) != 1:
        return
    adt = [a for a in prog.adts.values() if a['crate'] == 'alg' and a['path'].startswith('lin_alg::Merge')]
    fs = adt[0]['variants'][0]['fields'] if adt else []
    ix = {}
    for i, f in enumerate(fs):
        k = {'std::option::Option<T>': 'curr', 'bool': 'side', 'I': 'i', 'J': 'j', 'F': 'f'}.get(f['ty'])
        if k is None or k in ix:
            rep.count('undecided')
            return
        ix[k] = i
    if len(ix) != 5:
        rep.count('undecided')
        return
    fld = {k: proj(a0, ('f', i)) for k, i in ix.items()}
    fn = raw[0]
    r = ck.run(fn)
    fin = r.state.get(('P', 0), a0)
    curr, side = fld['curr'], fld['side']
    some_, held = isv(curr, 1), proj(curr, ('f', 0))
    nxt = {k: call(NEXT, mk('rv', fld[k])) for k in 'ij'}
    post = {k: None for k in 'ij'}
    lab = fn.label()
    ok_calls = (NEXT,)

    def want(s):
        """s: the held element is from j (True) or i."""
        return ('i', 'j') if s else ('j', 'i')
    # nothing held: nothing left
    t = under(r.ret, some_, False)
    ck.same(fn, 'end', t, absint.none(), [lnot(some_)])
    for s in (True, False):
        oth, own = want(s)
        X, Y = nxt[oth], nxt[own]

        def spec(t):
            t = under(under(t, some_, True), side, s)
            return simplify(t, {some_: True, side: s}) if t is not side else TRUE if s else FALSE
        ret, st = spec(r.ret), spec(fin)
        nm = 'held from %s' % ('j' if s else 'i')
        has = isv(X, 1)
        # the other side is empty
        f0 = [some_, lnot(has), side if s else lnot(side)]
        t = simplify(ret, {has: False, side: s})
        ck.same(fn, nm + ', other side empty: element', t, absint.some(held), f0, calls=ok_calls)
        c = simplify(proj(st, ('f', ix['curr'])), {has: False, side: s})
        ck.same(fn, nm + ', other side empty: next held', c, Y, f0, calls=ok_calls)
        sd = simplify(proj(st, ('f', ix['side'])), {has: False, side: s})
        ck.same(fn, nm + ', other side empty: side', sd, TRUE if s else FALSE, f0, calls=ok_calls)
        own_after = simplify(proj(st, ('f', ix[own])), {has: False, side: s})
        rep.require('%s:%s' % (lab, nm + ', other side empty: advances'), own_after is not fld[own], 'the side the next element is taken from does not move on', ck.where(fn))
        # both sides
        x = proj(X, ('f', 0))
        tests = [y for y in subterms(simplify(ret, {has: True, side: s})) if y.op == 'callf']
        tests = sorted(set(tests), key=lambda y: y.id)
        if len(tests) != 1:
            v = simplify(ret, {has: True, side: s})
            if not tests and v.op == 'agg':
                rep.require('%s:%s' % (lab, nm), False, 'the smaller element is not looked for: %s' % show(v)[:200], ck.where(fn))
            else:
                rep.count('undecided')
            continue
        T = tests[0]
        av = [y.args[0] if y.op == 'rv' else y for y in T.args[1]]
        av = [simplify(y, {has: True, side: s}) for y in av]
        if len(av) != 2 or {av[0], av[1]} != {x, held}:
            if all(closed(y, ()) or y.op == 'proj' for y in av):
                rep.require('%s:%s' % (lab, nm + ': compared'), False, 'the elements compared are %s' % ', '.join(show(y)[:150] for y in av), ck.where(fn))
            else:
                rep.count('undecided')
            continue
        fwd = av[0] is x
        for k, rel in ((0, 'less'), (1, 'equal'), (2, 'greater')):
            # outcome of comparing the other element with the held one
            code = k if fwd else 2 - k
            facts = {has: True, side: s}
            for kk in range(3):
                facts[mk('isv', T, kk)] = kk == code
            e = simplify(ret, facts)
            h = simplify(proj(st, ('f', ix['curr'])), facts)
            sd = simplify(proj(st, ('f', ix['side'])), facts)
            first, second, keep = (x, held, s) if k == 0 else (held, x, not s)
            w = '%s, other %s' % (nm, rel)
            if k == 1 and e is absint.some(x):
                first, second, keep = x, held, s
            fl = [some_, has]
            ck.same(fn, w + ': element', e, absint.some(first), fl, calls=ok_calls)
            ck.same(fn, w + ': next held', h, absint.some(second), fl, calls=ok_calls)
            ck.same(fn, w + ': side', sd, TRUE if keep else FALSE, fl, calls=ok_calls)
            mv = simplify(proj(st, ('f', ix[oth])), facts)
            rep.require('%s:%s' % (lab, w + ': advances'), mv is not fld[oth] and simplify(proj(st, ('f', ix[own])), facts) is fld[own], 'not exactly the other side moves on', ck.where(fn))
    fn = by[0]
    r = ck.run(fn)
    t = r.ret
    nx = {'i': call(NEXT, mk('rv', a0)), 'j': call(NEXT, mk('rv', a1))}
    if t.op != 'agg' and t.op != 'ite':
        rep.count('undecided')
        return
    for s in (True, False):
        for e in (True, False):
            facts = {isv(nx['i'], 1): e, isv(nx['j'], 1): s}
            v = simplify(t, facts)
            if v.op != 'agg':
                rep.count('undecided')
                continue
            c, d = simplify(proj(v, ('f', ix['curr'])), facts), simplify(proj(v, ('f', ix['side'])), facts)
            I, J = simplify(proj(v, ('f', ix['i'])), facts), simplify(proj(v, ('f', ix['j'])), facts)
            took = 'j' if contains(c, lambda y: y is nx['j']) else 'i' if contains(c, lambda y: y is nx['i']) else None
            if took is None and c.op == 'agg' and c.args[0][2] == 0:
                took = 'i' if d is FALSE else 'j'
            key = '%s:start, %s, %s' % (fn.label(), 'j has elements' if s else 'j empty', 'i has elements' if e else 'i empty')
            if took is None and d in (TRUE, FALSE) and contains(c, lambda y: y.op == 'post') and contains(c, lambda y: y is nx['j'] or y.op == 'call' and y.args[0] == NEXT):
                rep.require(key, False, 'the second element of a side is taken for the first', ck.where(fn))
                continue
            if took is None or d not in (TRUE, FALSE):
                rep.count('undecided')
                continue
            other_empty = {'i': not s, 'j': not e}[took]
            own_has = {'i': e, 'j': s}[took]
            rep.require(key, own_has or other_empty, 'nothing is held though there are elements', ck.where(fn))
            rep.require(key + ': side', d is (TRUE if took == 'j' else FALSE), 'the element held is from %s but noted as from the other side' % took, ck.where(fn))
            keep = {'i': J, 'j': I}[took]
            touched = contains(keep, lambda y: y.op in ('post', 'iterstate'))
            rep.require(key + ': rest', not touched or other_empty, 'an element of the other side is lost', ck.where(fn))


def simplify(t, facts):
    """t with the truth of some conditions known."""
    for _ in range(4):
        t0 = t
        m = {}
        for x in subterms(t):
            if x in facts:
                m[x] = TRUE if facts[x] else FALSE
        if m:
            t = subst(t, m)
        if t is t0:
            break
    return t


# ---------------------------------------------------------------- sum
def order_ok(o, key):
    """o compares key(sx) with key(sy)."""
    if o.op in ('cmp', 'icmp') and len(o.args) == 2:
        return o.args[0] is key(mk('sx')) and o.args[1] is key(mk('sy'))
    return False


def merging_sum(prog, rep):
    fn = find(rep, prog, 'Vector::sum', 'Sum', 'sum')
    if fn is None:
        return
    ck = Checker(prog, rep, (merging,))
    r = ck.run(fn)
    lab = fn.label()
    O = data(r.ret)
    lo = r.interp.loop_objs
    where = ck.where(fn)
    if O.op != 'phi' or O.args[0] not in lo:
        if closed(O, ()):
            rep.require(lab + ':terms', False, 'the terms of a sum are %s' % show(O)[:300], where)
        else:
            rep.count('undecided')
        return
    L = lo[O.args[0]]
    nx = L.next.get(O)
    rep.require(lab + ':starts empty', O.args[2] is mk('agg', ('array',)), 'the terms start from %s' % show(O.args[2])[:200], where)
    works = [k for k in L.next if isinstance(k, Term) and k.op == 'phi' and k is not O and k.args[0] == O.args[0] and contains(nx, lambda x: x is k)]
    if nx is None or len(works) != 1:
        if nx is not None and not works and closed(nx, ()):
            rep.require(lab + ':terms', False, 'each round adds %s' % show(nx)[:300], where)
        else:
            rep.count('undecided')
        return
    W = works[0]
    basis = lambda x: proj(proj(x, ('f', 0)), ('f', 1))
    head = proj(W, ('ix', const(0)))
    # the rounds go on while summands are left
    for bp, _ in L.backs:
        for c in bp:
            some_ = gt0(length(W))
            on = [l for l in c if contains(l, lambda x: x is W)]
            rep.require(lab + ':rounds', contradictory(list(c) + [lnot(some_)]) and all(entails([some_], l) or contains(l, lambda x: x.op in ('more', 'item', 'call', 'phi') and x is not W) for l in on), 'the rounds go on while %s' % show_case(c)[:300], where)
    # the result of a round
    pushes = [x for x in subterms(nx) if x.op == 'push' and x.args[0] is O]
    if len(set(pushes)) != 1:
        if not pushes:
            rep.require(lab + ':terms', False, 'no term is ever added: %s' % show(nx)[:200], where)
        else:
            rep.count('undecided')
        return
    term = pushes[0].args[1]
    total, b = proj(term, ('f', 0)), proj(term, ('f', 1))
    b_ok = b is basis(head)
    rep.require(lab + ':basis element', b_ok, 'the basis element of the term is %s' % show(b)[-200:], where)
    zero = eq0(total)
    keep = under(nx, zero, False)
    drop = under(nx, zero, True)
    rep.require(lab + ':vanishing terms', drop is O, 'a term with coefficient zero is kept: %s' % show(nx)[:100], where)
    rep.require(lab + ':terms kept', keep is pushes[0], 'a term is only added when %s' % (show(keep.args[0])[:200] if keep.op == 'ite' else show(keep)[:200]), where)
    # how many summands start with this basis element
    # how many summands start with this basis element
    firsts = [x for x in subterms(total) if x.op == 'first']
    coeff = lambda k: proj(proj(proj(W, ('ix', k)), ('f', 0)), ('f', 0))
    sums = sorted({x for x in subterms(total) if x.op == 'sum'}, key=lambda x: x.id)
    N = None
    z = mk('at', 'work')
    if len(sums) == 1 and to_poly(total).get(((sums[0], 1),), 0) != 1:
        rep.require(lab + ':coefficient', False, 'the coefficient is %s' % show(subst(total, {W: z}))[:300], where)
        return
    if len(sums) == 1:
        S = sums[0]
        iv, bs, v = S.args
        rest = sub(total, S)
        bounds = {add(x.args[0], iv) for x in bs if x.op == 'gt0' and contains(x.args[0], lambda y: y is iv)}
        fs = [x for x in bounds if x.op == 'first' or any(y.op == 'first' for y in subterms(x))]
        if v is coeff(add(iv, const(1))) and rest is coeff(const(0)):
            N = {add(x, const(1)) for x in fs}
        elif v is coeff(iv) and rest is const(0):
            N = set(fs)
        elif all(x.op not in UNDECIDED for x in subterms(subst(total, {W: z}))):
            rep.require(lab + ':coefficient', False, 'the coefficient is %s' % show(rest)[-200:] + ' plus the sum of %s' % show(v)[-200:], where)
            return
        rest_b = [x for x in bs if not any(add(x.args[0], iv) in fs for _ in [0])]
    elif not sums and closed(subst(total, {W: z}), ()):
        rep.require(lab + ':coefficient', False, 'the coefficient is %s' % show(total)[-200:], where)
        return
    if not N or len(N) != 1:
        rep.count('undecided')
        return
    n = N.pop()
    if n.op != 'first':
        k0 = [x for x in subterms(n) if x.op == 'first']
        if k0 and len(to_poly(n)) <= 2 and k0[0] is not n:
            rep.require(lab + ':coefficient', False, 'the number of summands added up is %s' % show(n)[-100:], where)
        else:
            rep.count('undecided')
        return
    iv = n.args[0]
    same_ = eq0(sub(basis(proj(W, ('ix', iv))), basis(head)))
    inside = gt0(sub(length(W), iv))
    stop = n.args[1]
    ls = set(stop.args[0]) if stop.op == 'or' else {stop}
    if ls <= {lnot(same_), lnot(inside)} and lnot(same_) in ls:
        rep.require(lab + ':equal basis elements', True, '')
    elif all(x.op not in UNDECIDED for x in subterms(subst(stop, {W: z}))):
        rep.require(lab + ':equal basis elements', False, 'summands are added up until %s' % show(stop)[-300:], where)
        return
    else:
        rep.count('undecided')
        return
    for e in r.events:
        if e.kind == 'panic':
            empties = [x for c in e.pc for l in c for x in subterms(l) if x.op == 'item' and l in (eq0(length(data(x))), gt0(sub(const(1), length(data(x)))))]
            rep.require(lab + ':empty summands', not empties, 'a summand without terms is not accepted', where)
    rest_of_work(ck, fn, lab, L, W, n, basis, where)
    starting_work(ck, fn, lab, W, basis, where)


def strip_sorted(ck, lab, t, basis, what, where):
    """The list under a sort by the first basis element."""
    k = 0
    while t.op == 'sorted':
        if len(t.args[2]) == 1:
            o = t.args[2][0]
            ok = order_ok(o, basis)
            if ok or o.op in ('cmp', 'icmp') or (o.op == 'agg'):
                ck.rep.require(lab + ':%s in order' % what, ok, 'the summands are sorted by %s' % show(o)[:200], where)
            else:
                ck.rep.count('undecided')
        else:
            ck.rep.count('undecided')
        t = t.args[0]
        k += 1
    return t, k


def starting_work(ck, fn, lab, W, basis, where):
    rep = ck.rep
    t, k = strip_sorted(ck, lab, W.args[2], basis, 'first elements', where)
    closed_ = lambda x: not contains(x, lambda y: y.op in UNDECIDED or y.op == 'call')
    rep.require(lab + ':first elements in order', k > 0 or t.op not in ('collect', 'phi', 'append'), 'the summands are not sorted by their first basis element', where)
    if t.op == 'collect':
        iv, n, cs, v = t.args
        items = {x for x in subterms(v) if x.op == 'item'}
        if len(items) == 1:
            d = data(next(iter(items)))
            first, rest = proj(v, ('f', 0)), proj(v, ('f', 1))
            rep.require(lab + ':first terms', first is proj(d, ('ix', const(0))), 'a summand starts with %s' % show(first)[:200], where)
            rep.require(lab + ':other terms', rest is mk('it_skip', mk('it_into', d), const(1)) or rest.op not in ('it_skip', 'it_into'), 'a summand goes on with %s' % show(rest)[:200], where)
            other = [l for l in cs if l.op != 'more' and l is not gt0(length(d))]
            rep.require(lab + ':every summand', not other, 'only summands with %s take part' % ' and '.join(show(l)[:200] for l in other), where)
            return
    rep.count('undecided')


def rest_of_work(ck, fn, lab, L, W, n, basis, where):
    """After a round: the summands not used, and the used ones without their first term, in order."""
    rep = ck.rep
    nw = L.next[W]
    und = lambda: rep.count('undecided')
    t = nw
    t, k = strip_sorted(ck, lab, t, basis, 'next round', where)
    if t.op == 'call' and t.args[0] == 'merge_by':
        X, Y, o = t.args[1]
        ok = order_ok(o, basis)
        if ok or o.op in ('cmp', 'icmp'):
            rep.require(lab + ':next round in order', ok, 'the summands are merged by %s' % show(o)[:200], where)
        else:
            und()
        merged = True
    elif t.op == 'append':
        X, Y = t.args
        merged = False
        rep.require(lab + ':next round in order', k > 0, 'the summands left and the summands used are not put in order', where)
    else:
        if not contains(t, lambda x: x.op in UNDECIDED) and (t is W or not contains(t, lambda x: x.op in ('call', 'it_opaque', 'phi') and x is not W)):
            rep.require(lab + ':next round', False, 'the next round starts with %s' % show(t)[:300], where)
        else:
            und()
        return
    sides = []
    for s in (X, Y):
        s, kk = strip_sorted(ck, lab, s, basis, 'advanced summands', where)
        sides.append((s, kk))
    rest = [s for s in sides if is_rest(s[0], W)]
    used = [s for s in sides if not is_rest(s[0], W)]
    if len(rest) != 1 or len(used) != 1:
        und()
        return
    if merged:
        s, kk = used[0]
        rep.require(lab + ':advanced summands in order', kk > 0 or not s.op in ('append', 'collect', 'ite', 'agg'), 'the summands used are merged with the others without being sorted', where)
    skip = rest_from(rest[0][0], W)
    if skip is None:
        und()
    else:
        ck.same(fn, 'first summand not used', norm_first(skip, n), norm_first(n, n), [gt0(mk('at', 'n'))], calls=())
    advanced(ck, fn, lab, used[0][0], W, n, where)


def norm_first(t, n):
    z = mk('at', 'n')
    z.nn = True
    return subst(t, {n: z})


def is_rest(t, W):
    if t.op == 'it_skip':
        return is_rest(t.args[0], W)
    return t is W or t.op == 'slice' and t.args[0] is W or t.op in ('it_into', 'iterstate', 'it_slice', 'skipped') and contains(t, lambda x: x is W) or t.op == 'collect' and t.args[3].op == 'proj' and t.args[3].args[0] is W


def rest_from(t, W):
    """Index in W of the first element of t."""
    if t is W or t.op == 'it_into' and t.args[0] is W:
        return const(0)
    if t.op == 'it_skip':
        k = rest_from(t.args[0], W)
        return None if k is None else add(k, t.args[1])
    if t.op == 'collect' and not t.args[2] and t.args[3].op == 'proj':
        return subst(t.args[3].args[1][1], {t.args[0]: const(0)})
    if t.op == 'slice':
        return t.args[1]
    return None


def advanced(ck, fn, lab, t, W, n, where):
    """Each of the first n summands, without its first term, when it has another one."""
    rep = ck.rep
    def entry(v, cs, k, what):
        its = proj(proj(W, ('ix', k)), ('f', 1))
        X = call(NEXT, mk('rv', its))
        has = isv(X, 1)
        first, rest = proj(v, ('f', 0)), proj(v, ('f', 1))
        rep.require(lab + ':%s: next term' % what, first is proj(X, ('f', 0)), 'a used summand goes on with %s' % show(first)[-200:], where)
        rep.require(lab + ':%s: rest' % what, contains(rest, lambda x: x is its) and rest is not its, 'the rest of a used summand is %s' % show(rest)[-200:], where)
        rep.require(lab + ':%s: kept' % what, set(cs) == {has}, 'a used summand stays when %s' % (' and '.join(show(c)[:150] for c in cs) or 'always'), where)
    parts = []
    def split(t):
        if t.op == 'append':
            split(t.args[0])
            split(t.args[1])
        else:
            parts.append(t)
    split(t)
    lo = mk('at', 'n')
    lo.nn = True
    covered = const(0)
    for p in parts:
        if p.op == 'ite' and p.args[2].op == 'agg' and len(p.args[2].args) == 1 and p.args[1].op == 'agg' and len(p.args[1].args) == 2:
            entry(p.args[1].args[1], [p.args[0]], covered, 'first summand')
            covered = add(covered, const(1))
        elif p.op == 'ite' and p.args[1].op == 'agg' and len(p.args[1].args) == 1 and p.args[2].op == 'agg' and len(p.args[2].args) == 2:
            entry(p.args[2].args[1], [lnot(p.args[0])], covered, 'first summand')
            covered = add(covered, const(1))
        elif p.op == 'collect':
            iv, m, cs, v = p.args
            entry(v, cs, add(iv, covered), 'further summands')
            covered = add(covered, m)
        elif p.op == 'agg' and len(p.args) == 1:
            continue
        else:
            if p.op == 'agg' or p.op == 'phi' and len(parts) == 1 and False:
                rep.require(lab + ':used summands', False, 'the used summands go on as %s' % show(p)[-200:], where)
            else:
                rep.count('undecided')
            return
    ck.same(fn, 'number of used summands', norm_first(covered, n), lo, [gt0(lo)])


# ---------------------------------------------------------------- modules
def modules(prog, rep):
    ck = Checker(prog, rep, ())
    adt = [a for a in prog.adts.values() if a['crate'] == 'alg' and a['path'].startswith('lin_alg::Module')]
    fs = adt[0]['variants'][0]['fields'] if adt else []
    rk = [i for i, f in enumerate(fs) if f['ty'] == 'usize']
    ed = [i for i, f in enumerate(fs) if f['ty'].startswith('std::vec::Vec<(')]
    if len(rk) != 1 or len(ed) != 1 or len(fs) != 2:
        rep.count('undecided')
        return
    R, E = (lambda t: proj(t, ('f', rk[0]))), (lambda t: proj(t, ('f', ed[0])))
    F = lambda nm: find(rep, prog, 'Module::' + nm, '', nm, implself=MODULE)
    fn = F('new')
    if fn is not None:
        r = ck.run(fn)
        ck.same(fn, 'rank', R(r.ret), a0, pc=r.pc)
        iv = mk('iv', 's')
        x = proj(a1, ('ix', iv))
        want = alpha(mk('collect', iv, length(a1), frozenset([lnot(eq0(sub(proj(x, ('f', 0)), const(1))))]), x))
        ck.same(fn, 'divisors other than one', alpha(E(r.ret)), want, pc=r.pc)
    fn = F('trivial')
    if fn is not None:
        r = ck.run(fn)
        ck.same(fn, 'rank', R(r.ret), const(0))
        ck.same(fn, 'divisors', seq_len(E(r.ret)), const(0))
    fn = F('is_zero')
    if fn is not None:
        r = ck.run(fn)
        truth(ck, fn, 'zero', r, land(eq0(R(a0)), eq0(length(E(a0)))))
    fn = F('is_isomorphic_to')
    if fn is not None:
        r = ck.run(fn)
        truth(ck, fn, 'isomorphic', r, land(eq0(sub(R(a0), R(a1))), eq0(sub(E(a0), E(a1)))))


def truth(ck, fn, what, r, want):
    """The answer is the truth of want."""
    got = r.ret
    for c in r.pc:
        for v in (True, False):
            w = want if v else lnot(want)
            ways = [sorted(w.args[0], key=lambda x: x.id)] if w.op == 'and' else [[x] for x in sorted(w.args[0], key=lambda x: x.id)] if w.op == 'or' else [[w]]
            for fs, (g,) in [x for y in ways for x in cases([got], list(c) + y) or []]:
                if g in (TRUE, FALSE):
                    ck.rep.require('%s:%s' % (fn.label(), what), (g is TRUE) == v, 'answers %s when %s' % ('yes' if g is TRUE else 'no', show_case(fs)[:300]), ck.where(fn))
                elif entails(fs, g if v else lnot(g)):
                    ck.rep.require('%s:%s' % (fn.label(), what), True, '')
                elif closed(g):
                    ck.rep.require('%s:%s' % (fn.label(), what), False, 'answers %s where %s is required' % (show(g)[:200], show(w)[:200]), ck.where(fn))
                else:
                    ck.rep.count('undecided')


def derived(prog, rep):
    """Formal sums are equal when their terms are, and copies have the same terms."""
    ck = Checker(prog, rep, ())
    fn = find(rep, prog, 'Vector::eq', 'PartialEq', 'eq')
    if fn is not None:
        truth(ck, fn, 'equal terms', ck.run(fn), eq0(sub(data(a0), data(a1))))
    fn = find(rep, prog, 'Vector::clone', 'Clone', 'clone')
    if fn is not None:
        ck.same(fn, 'copy', data(ck.run(fn).ret), data(a0))
