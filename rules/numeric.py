"""T29: the defining identities of the numerical kernels, over exact real numbers."""
import itertools, os
from fractions import Fraction
from spec import *
from matdom import *
from matops import operators, kind, is_m, method
from snf import madd, mscale, callee
import absint, models

VERBOSE = bool(os.environ.get('VDEBUG'))
ONE = const(1)
KERNELS = ('householder_vec', 'lu', 'givens_rotation', 'real_spectrum_of_two_by_two', 'hessenberg_form', 'qr', 'symmetric_qr', 'spectrum', 'spectrum_symmetric', 'two_norm',
           'francis_step', 'raw_francis_step', 'raw_qr', 'householder_tridiagonalization', 'implicit_symmetric_qr_with_wilkinson_shift', 'extract_householder_vecs', 'solve',
           'gram_schmidt_without_normalize', 'gram_schmidt_coeff_update')


def level(prog, skip=()):
    """Matrix arithmetic as terms over blocks (decided by T07 and T27); the other kernels are opaque."""
    arith = {fn: (o, asg, ks) for fn, o, asg, ks in operators(prog)}

    def combine(o, a, b, ks):
        if is_m(ks[0]) and is_m(ks[1]):
            return {'Add': madd, 'Sub': lambda x, y: mk('msub', x, y), 'Mul': lambda x, y: mk('mmul', x, y)}[o](a, b)
        if o == 'Mul':
            return mscale(a, b) if is_m(ks[0]) else mscale(b, a)
        if o == 'Div' and is_m(ks[0]):
            return mk('mdiv', a, b)
        return None

    def prim(I, op, name, fn, args, st, pc, at):
        if fn is None or fn.crate != 'alg' or fn.kind == 'closure':
            return NotImplemented
        s = fn.implself
        if fn in arith:
            o, asg, ks = arith[fn]
            a, b = (I.reify(st, models.val(I, st, x)) if is_m(k) else models.val(I, st, x) for x, k in zip(args, ks))
            v = combine(o, a, b, ks)
            if v is None:
                return NotImplemented
            if is_m(ks[0]) and is_m(ks[1]):
                pc = need(pc, [(msize(a, 1), msize(b, 0))] if o == 'Mul' else [(msize(a, 0), msize(b, 0)), (msize(a, 1), msize(b, 1))])
                if not pc:
                    return None
            if not asg:
                return v, st, pc
            r = target_ref(I, st, args[0])
            if r is None:
                return NotImplemented
            st = dict(st)
            I.store(st, r, v, pc, at)
            return tup(), st, pc
        if (fn.trait or '').split('<')[0].endswith('ops::Neg') and kind(fn.body['locals'][1]['ty']) in ('mat', 'sub') and fn.body['argc'] == 1:
            return mscale(I.reify(st, models.val(I, st, args[0])), const(-1)), st, pc
        if not (is_mat(s) or is_sub(s)) or fn.trait:
            return NotImplemented
        if fn.name == 'identity':
            return mk('mident', args[0]), st, pc
        if fn.name == 'dot':
            a, b = (I.reify(st, models.val(I, st, x)) for x in args)
            pc = need(pc, [(msize(a, 0), ONE), (msize(b, 1), ONE), (msize(a, 1), msize(b, 0))])
            return (mk('mdot', a, b), st, pc) if pc else None
        if fn.name in ('write', 'write_and_move') and is_sub(s):
            r = target_ref(I, st, args[0])
            if r is None:
                return NotImplemented
            v, old = I.reify(st, models.val(I, st, args[1])), I.reify(st, models.val(I, st, args[0]))
            pc = need(pc, [(msize(old, 0), msize(v, 0)), (msize(old, 1), msize(v, 1))])
            if not pc:
                return None
            st = dict(st)
            I.store(st, r, v, pc, at)
            return tup(), st, pc
        if fn.name in KERNELS and fn.name not in skip:
            return kernel(I, fn, args, st, pc, at)
        return NotImplemented
    return prim


def need(pc, pairs):
    """The path predicate where the sizes agree (a mismatch panics: T02)."""
    for a, b in pairs:
        pc = absint.dnf_and(pc, eq0(sub(a, b)))
    return pc


def kernel(I, fn, args, st, pc, at):
    """An opaque kernel: an owned or borrowed matrix gives a term, a mutably borrowed one is replaced."""
    vs = []
    for k, x in enumerate(args):
        vs.append(I.reify(st, models.val(I, st, x)))
    square = ('lu', 'hessenberg_form', 'qr', 'symmetric_qr', 'spectrum', 'spectrum_symmetric', 'raw_qr', 'francis_step', 'raw_francis_step', 'extract_householder_vecs', 'solve')
    shape = [(msize(vs[0], 0), msize(vs[0], 1))] if fn.name in square else [(msize(vs[0], 1), ONE)] if fn.name in ('householder_vec', 'two_norm') else []
    if fn.name == 'solve':
        shape.append((msize(vs[0], 1), msize(vs[1], 0)))
    pc = need(pc, shape)
    if not pc:
        return None
    if fn.name == 'householder_vec':
        return tup(mk('hvec', vs[0]), mk('hbeta', vs[0])), st, pc
    res = mk('call', fn.name, tuple(vs))
    ty = fn.body['locals'][1]['ty'] if fn.body['argc'] else ''
    if ty.startswith('&mut'):
        r = target_ref(I, st, args[0])
        if r is None:
            return NotImplemented
        st = dict(st)
        I.store(st, r, mk('kpost', fn.name, vs[0], tuple(vs[1:])), pc, at)
    return res, st, pc


# ------------------------------------------------------------------ sums in normal form
def bound(k):
    t = mk('sb', k)
    t.nn = True
    return t


_fresh = [0]


def is_b(x):
    return x.op == 'sb'


def bounds_of(t):
    return {x for x in subterms(t) if is_b(x)}


def unpack(x):
    """A sum atom with fresh bound variables: (ranges, body)."""
    rs, body = x.args
    m = {}
    out = []
    for k, n in enumerate(rs):
        _fresh[0] += 1
        b = bound(1000000 + _fresh[0])
        m[bound(k)] = b
        out.append((b, n))
    return out, subst(body, m)


def mono_term(fs, c=1):
    return from_poly({tuple(sorted(((x, e) for x, e in fs.items() if e), key=lambda xe: skey(xe[0]))): Fraction(c)})


def nsum(n, f):
    """The sum of f(k) for k below n, in normal form: coefficients taken out, independent sums apart, bound variables renamed."""
    if n is const(1):
        return f(const(0))
    if is_const(n) and 0 <= cval(n) <= 4:
        r = const(0)
        for k in range(int(cval(n))):
            r = add(r, f(const(k)))
        return r
    _fresh[0] += 1
    b = bound(1000000 + _fresh[0])
    out = const(0)
    for mono, c in to_poly(f(b)).items():
        out = add(out, scale(one_sum(b, n, dict(mono)), c))
    return out


def one_sum(b, n, fs):
    free, vs, inner = {}, [(b, n)], {}
    work = list(fs.items())
    while work:
        x, e = work.pop()
        if not contains(x, lambda y: y is b):
            free[x] = free.get(x, 0) + e
        elif x.op == 'nsum' and e > 0:
            for _ in range(int(e)):
                bs, body = unpack(x)
                vs += bs
                for m2, c2 in to_poly(body).items():
                    for y, e2 in m2:
                        inner[y] = inner.get(y, 0) + e2
        else:
            inner[x] = inner.get(x, 0) + e
    if not inner:
        return mul(n, mono_term(free))
    # connected components
    bv = {v for v, _ in vs}
    groups = [({v}, {}) for v, _ in vs]
    for x, e in inner.items():
        use = bounds_of(x) & bv
        hit = [g for g in groups if g[0] & use]
        if not hit:
            free[x] = free.get(x, 0) + e
            continue
        new = set().union(*[g[0] for g in hit]), {}
        for g in hit:
            new[1].update(g[1])
            groups.remove(g)
        new[1][x] = new[1].get(x, 0) + e
        groups.append(new)
    r = mono_term(free)
    rng = dict(vs)
    for g, gs in groups:
        if not gs:
            for v in g:
                r = mul(r, rng[v])
            continue
        best = None
        for p in itertools.permutations(sorted(g, key=skey)):
            m = {v: bound(k) for k, v in enumerate(p)}
            t = mk('nsum', tuple(subst(rng[v], m) for v in p), subst(mono_term(gs), m))
            key = repr(skey(t))
            if best is None or key < best[0]:
                best = key, t
        r = mul(r, best[1])
    return r


# ------------------------------------------------------------------ elements
def nel(t, i, j):
    o = t.op
    if o == 'ite':
        return ite(scal(t.args[0]), nel(t.args[1], i, j), nel(t.args[2], i, j))
    if o == 'mident':
        return ite(eq0(sub(i, j)), const(1), const(0))
    if o == 'mtr':
        return nel(t.args[0], j, i)
    if o == 'mview':
        return nel(t.args[0], add(t.args[1], i), add(t.args[3], j))
    if o == 'madd':
        return add(nel(t.args[0], i, j), nel(t.args[1], i, j))
    if o == 'msub':
        return sub(nel(t.args[0], i, j), nel(t.args[1], i, j))
    if o == 'mscale':
        return mul(nel(t.args[0], i, j), scal(t.args[1]))
    if o == 'mdiv':
        return div(nel(t.args[0], i, j), scal(t.args[1]))
    if o == 'mmul':
        a, b = t.args
        return nsum(scal(msize(a, 1)), lambda k: mul(nel(a, i, k), nel(b, k, j)))
    if o == 'mconst':
        return scal(t.args[2])
    if o == 'upd' and t.args[1][0] == 'ix2':
        _, a, b = t.args[1]
        a, b = scal(a), scal(b)
        return ite(land(eq0(sub(i, a)), eq0(sub(j, b))), scal(t.args[2]), nel(t.args[0], i, j))
    if o == 'upd' and t.args[1][0] == 'view':
        r0, r1, c0, c1 = (scal(x) for x in t.args[1][1:])
        b, v = t.args[0], t.args[2]
        inside = []
        for x, lo, hi, n in ((i, r0, r1, msize(b, 0)), (j, c0, c1, msize(b, 1))):
            if sub(hi, lo) is const(1):
                inside.append(eq0(sub(x, lo)))
                continue
            if lo is not const(0):
                inside.append(gt0(add(sub(x, lo), const(1))))
            if hi is not scal(n):
                inside.append(gt0(sub(hi, x)))
        return ite(land(*inside), nel(v, sub(i, r0), sub(j, c0)), nel(b, i, j))
    if o == 'fmap':
        r = nel(t.args[0], i, j)
        for ivs, bs, key, v in t.args[1]:
            s = solve_entry(ivs, bs, key, v, i, j)
            if s is None:
                return mk('proj', t, ('ix2', i, j))
            r = ite(s[0], scal(s[1]), r)
        return r
    return proj(t, ('ix2', i, j))


NBUILT = ('upd', 'mtr', 'mview', 'mconst', 'ite', 'madd', 'msub', 'mscale', 'mident', 'mdiv', 'mmul', 'fmap')


def scal(t, memo=None):
    """A scalar with every element, dot product and sum in normal form."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    o = t.op
    if o == 'mdot':
        a, b = t.args
        r = nsum(scal(msize(a, 1)), lambda k: mul(nel(a, const(0), k), nel(b, k, const(0))))
    elif o == 'proj' and t.args[1][0] == 'ix2':
        r = nel(t.args[0], scal(t.args[1][1]), scal(t.args[1][2])) if t.args[0].op in NBUILT else t
    elif o == 'sum':
        iv, bs, v = t.args
        r = t
        bs = list(bs)
        if len(bs) == 1 and bs[0].op == 'gt0':
            n = add(bs[0].args[0], iv)
            if not contains(n, lambda x: x is iv):
                r = nsum(scal(n), lambda k: scal(subst(v, {iv: k})))
    elif o == 'poly':
        r = const(0)
        for mono, c in t.args[0]:
            x = const(c)
            for a, e in mono:
                y = scal(a, memo)
                if e > 0:
                    for _ in range(int(e)):
                        x = mul(x, y)
                else:
                    for _ in range(int(-e)):
                        x = div(x, y)
            r = add(r, x)
    elif o == 'nsum':
        bs, body = unpack(t)
        r = scal(body, memo)
        for b, n in reversed(bs):
            r = nsum(scal(n, memo), lambda k: subst(r, {b: k}))
    elif o == 'poly_inv':
        r = div(const(1), scal(t.args[0], memo))
    elif o in ('int', 'iv', 'arg', 'sb', 'row', 'col', 'pos', 'msize', 'hvec', 'hbeta'):
        r = t
    else:
        m = {}
        for x in children(t):
            y = scal(x, memo) if x.op not in NBUILT or x.op == 'ite' or o in ('gt0', 'eq0', 'not', 'and', 'or', 'le', 'lt', 'fn1', 'abs') else x
            if y is not x:
                m[x] = y
        r = subst(t, m) if m else t
    memo[t] = r
    return r


# ------------------------------------------------------------------ identities of rational expressions with square roots
def vanish(t, roots=()):
    """Numerator of t with square roots reduced; None when it does not fit."""
    for _ in range(40):
        p = to_poly(t)
        if len(p) > 4000:
            return None
        low, invs = {}, {}
        for mono in p:
            for x, e in mono:
                if e < 0:
                    low[x] = min(low.get(x, 0), e)
                if x.op == 'poly_inv':
                    invs[x] = max(invs.get(x, 0), e)
        if low:
            m = tuple(sorted(((x, -e) for x, e in low.items()), key=lambda z: skey(z[0])))
            t = big(p, {m: Fraction(1)})
            continue
        if invs:
            I, k = sorted(invs.items(), key=lambda z: skey(z[0]))[0]
            out = {}
            for mono, c in p.items():
                d = dict(mono)
                e = d.pop(I, 0)
                q = {tuple(sorted(d.items(), key=lambda z: skey(z[0]))): c}
                for _ in range(int(k - e)):
                    q = to_poly(big(q, to_poly(I.args[0])))
                for m2, c2 in q.items():
                    out[m2] = out.get(m2, 0) + c2
            t = from_poly(out)
            continue
        ch, out = False, {}
        for mono, c in p.items():
            d = dict(mono)
            q = None
            for x in list(d):
                if x.op == 'fn1' and x.args[0] == 'sqrt' and d[x] >= 2:
                    d[x] -= 2
                    if not d[x]:
                        del d[x]
                    q = to_poly(big({tuple(sorted(d.items(), key=lambda z: skey(z[0]))): c}, to_poly(x.args[1][0])))
                    break
            if q is None:
                q = {mono: c}
            else:
                ch = True
            for m2, c2 in q.items():
                out[m2] = out.get(m2, 0) + c2
        t = from_poly(out)
        if not ch:
            return t
    return None


def big(pa, pb):
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            d = dict(m1)
            for x, e in m2:
                d[x] = d.get(x, 0) + e
            m = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda xe: skey(xe[0])))
            p[m] = p.get(m, 0) + c1 * c2
    return from_poly(p)


P_, Q_ = mk('row', 'num'), mk('col', 'num')
NOT = UNDECIDED | {'phi', 'first', 'ite', 'fmap', 'upd', 'callf', 'mul', 'iv'}


def opaque(t, ivs=()):
    return contains(t, lambda x: x.op in NOT and x not in ivs or x.op == 'call' and callee(x) not in KERNELS or x.op == 'call' and not isinstance(x.args[0], str))


def dense(name, m, n):
    return mk('mnew', m, n, name)


class K:
    def __init__(self, ck, fn, r):
        self.ck, self.fn, self.r, self.rep = ck, fn, r, ck.rep
        self.loops = r.interp.loop_objs
        self.unify = {}

    def say(self, what, ok, msg=''):
        self.rep.require('%s:%s' % (self.fn.label(), what), ok, msg, self.ck.where(self.fn))

    def unk(self, why=''):
        self.rep.count('undecided')
        if VERBOSE:
            print('UNDECIDED', self.fn.label(), why[:400])

    def same(self, what, got, want, facts=(), ivs=(), say=True):
        """got = want as exact real expressions, in every case (one of them, if several are given)."""
        wants = want if isinstance(want, list) else [want]
        got, *wants = (scal(subst(z, self.unify)) for z in [got] + wants)
        cs = cases([got] + wants, list(facts))
        if cs is None:
            self.unk(what + ': too many cases')
            return None
        for fs, (g, *ws) in cs:
            if contradictory(fs):
                continue
            ok, open_ = False, None
            for w in ws:
                d = vanish(sub(scal(g), scal(w)))
                if d is None:
                    open_ = 'too large'
                    continue
                if d is const(0) or forced_zero(d, fs):
                    ok = True
                    break
                d2 = vanish(merge(d, fs))
                if d2 is const(0):
                    ok = True
                    break
                if opaque(d2, ivs) or any(opaque(f, ivs) for f in fs):
                    open_ = '%s when %s' % (show(d2)[:300], show_case(fs)[:200])
            if ok:
                continue
            if open_:
                self.unk('%s: %s' % (what, open_))
                return None
            if say:
                self.say(what, False, 'it is %s where %s is required (case: %s)' % (show(g)[:300], show(ws[0])[:300], show_case(fs)[:400]))
            return False
        if say:
            self.say(what, True)
        return True

    def loop_of(self, root):
        """[(loop, phi, next)] of the loops that carry the given variable as a whole."""
        out = []
        for lid, L in self.loops.items():
            for k, v in L.next.items():
                if isinstance(k, Term) and k.op == 'phi' and k.args[1] == root:
                    out.append((L, k, v))
        return out

    def limits(self, L, hard=False):
        """The numbers of rounds a loop is left after (hard: the first round in which it panics)."""
        if not L.backs:
            return []
        common = frozenset.intersection(*[c for bp, _ in L.backs for c in bp])
        out = []
        for l in common:
            if L.real is not None and (l in L.real) == hard:
                continue
            for f in flat(l):
                if f.op == 'gt0' and to_poly(f.args[0]).get(((L.iv, 1),), 0) == -1:
                    n = add(f.args[0], L.iv)
                    if not contains(n, lambda x: x is L.iv):
                        out.append(n)
        return out

    def runs(self, what, L, ok, need, facts=()):
        """The loop makes at least the wanted number of rounds: one of the limits in ok."""
        ls = self.limits(L)
        if not ls or any(opaque(l) for l in ls):
            return self.unk('limits of ' + what)
        fs = list(facts)
        good = all(any(entails(fs, gt0(add(sub(l, o), ONE))) for o in ok) for l in ls)
        over = [(l, h) for l in ls for h in self.limits(L, True) if not opaque(h) and entails(fs, gt0(sub(l, h)))]
        self.say(what + ' rounds', not over, 'round %s fails' % ', '.join(show(h)[:100] for l, h in over))
        self.say(what, good, 'the loop makes %s rounds where %s are needed' % (', '.join(show(l)[:100] for l in ls), show(need)[:100]))


def merge(d, fs):
    """d with elements at provably equal positions identified."""
    els = sorted({x for x in subterms(d) if x.op == 'proj' and x.args[1][0] == 'ix2'}, key=skey)
    m = {}
    for k, x in enumerate(els):
        for y in els[:k]:
            if x.args[0] is y.args[0] and all(u is v or forced_zero(sub(u, v), fs) for u, v in zip(x.args[1][1:], y.args[1][1:])):
                m[x] = m.get(y, y)
                break
    return subst(d, m) if m else d


def get(prog, rep, ck, name, owner, facts, skip=None):
    fn = method(prog, rep, '%s::%s' % (owner, name), name, owner)
    if fn is None:
        return None
    c = ck if skip is None else MatChecker(prog, rep, (level(prog, skip),), None, 80000, 20)
    r = c.run(fn)
    if r is None or r.ret is None:
        return None
    rep.count('kernels')
    P_.nn = Q_.nn = True
    ck.accepts(fn, 'accepts', {frozenset(flat(finite(land(*c)))) for c in r.pc}, facts)
    ck.inside(fn, r, facts)
    return K(ck, fn, r)


def sq(x):
    return mul(x, x)


def sqrt(x):
    return mk('fn1', 'sqrt', (x,))


a0, a1 = mk('arg', 0), mk('arg', 1)


def square(least):
    return [eq0(sub(msize(a0, 0), msize(a0, 1))), gt0(sub(msize(a0, 0), const(least - 1)))]


# ------------------------------------------------------------------ scalars
def givens(prog, rep, ck):
    k = get(prog, rep, ck, 'givens_rotation', 'Matrix', [])
    if k is None:
        return
    t = k.r.ret
    if t.op != 'agg' or len(t.args) != 3:
        return k.unk('not a pair')
    cs = cases([t.args[1], t.args[2]], [])
    if cs is None:
        return k.unk('cases')
    n = 0
    for fs, (c, s) in cs:
        if c is ONE and s is const(0):
            # only for a negligible second entry
            small = [f for f in fs if f.op in ('lt', 'le') and (f.args[0] is mk('abs', a1) or f.args[0] is sq(a1)) and is_const(f.args[1]) and abs(cval(f.args[1])) <= Fraction(1, 10 ** 8)]
            zero = [f for f in fs if f.op == 'eq0' and contains(f, lambda x: x is a1)]
            if not small and not zero and not any(opaque(f) for f in fs):
                k.say('no rotation', False, 'nothing is rotated when %s' % show_case(fs)[:200])
            n += 1
            continue
        n += 1
        one, ann = vanish(sub(add(sq(c), sq(s)), ONE)), vanish(add(mul(s, a0), mul(c, a1)))
        for what, d, msg in (('unit', one, 'c^2 + s^2 differs from 1'), ('annihilates', ann, 'the rotated second entry is not zero')):
            if d is None or d is not const(0) and opaque(d):
                k.unk(what)
            else:
                k.say(what + ' %d' % n, d is const(0), '%s by %s / ... in the case %s' % (msg, show(d)[:200], show_case(fs)[:300]))
        # no division by the smaller of the two
        den = {x for y in (c, s) for m in to_poly(y) for x, e in m if e < 0} | {x for y in (c, s) for z in subterms(y) if z.op == 'fn1' for m in to_poly(z.args[1][0]) for x, e in m if e < 0}
        for d in den & {a0, a1}:
            o = a1 if d is a0 else a0
            A, B = mk('abs', d), mk('abs', o)
            apart = False
            for f in fs:
                g, pos = (f.args[0], False) if f.op == 'not' else (f, True)
                if g.op in ('le', 'lt'):
                    lo, hi = g.args if pos else g.args[::-1]
                    apart |= hi is A and (lo is B or is_const(lo) and (cval(lo) > 0 or cval(lo) == 0 and (g.op == 'lt') == pos))
                apart |= g is eq0(d) and not pos
            if not apart and any(opaque(f) for f in fs):
                k.unk('divisor')
            else:
                k.say('divisor %d' % n, apart, 'it divides by %s, which can be zero in the case %s' % (show(d), show_case(fs)[:200]))
    rep.count('givens cases', n)


def householder(prog, rep, ck):
    k = get(prog, rep, ck, 'householder_vec', 'Matrix', [gt0(msize(a0, 0)), eq0(sub(msize(a0, 1), ONE))])
    if k is None:
        return
    r, fn = k.r, k.fn
    n = msize(a0, 0)
    x0 = nel(a0, const(0), const(0))
    x = lambda i: nel(a0, i, const(0))
    sig = nsum(sub(n, ONE), lambda j: sq(x(add(j, ONE))))
    S, B = mk('arg', 'sigma'), mk('arg', 'x0')
    if any(not entails(list(c), gt0(sub(const(2), msize(a0, 1)))) for c in r.pc):
        k.say('column only', False, 'a matrix with several columns is accepted')
    t = r.ret
    if t.op != 'agg' or len(t.args) != 3:
        return k.unk('not a pair')
    P_.nn = True
    v, beta = scal(t.args[1]) if False else t.args[1], scal(t.args[2])
    v0, vp = nel(v, const(0), const(0)), nel(v, P_, const(0))
    base = [gt0(P_), gt0(sub(n, P_)), gt0(n), eq0(sub(msize(a0, 1), ONE))]
    done = 0
    for sign in (-1, 0, 1):
        for zero in (True, False):
            m = {}

            def settle(e):
                e = scal(e)
                e = subst(e, {sig: S, x0: B})
                mm = {}
                for y in subterms(e):
                    if y.op in ('le', 'lt') and all(z in (B, const(0)) for z in y.args):
                        vals = [sign if z is B else 0 for z in y.args]
                        mm[y] = TRUE if (vals[0] <= vals[1] if y.op == 'le' else vals[0] < vals[1]) else FALSE
                    elif y.op == 'eq0' and y.args[0] is S:
                        mm[y] = TRUE if zero else FALSE
                    elif y.op == 'eq0' and y.args[0] is B:
                        mm[y] = TRUE if sign == 0 else FALSE
                    elif y.op in ('le', 'lt') and all(z in (S, const(0)) for z in y.args):
                        vals = [(0 if zero else 1) if z is S else 0 for z in y.args]
                        mm[y] = TRUE if (vals[0] <= vals[1] if y.op == 'le' else vals[0] < vals[1]) else FALSE
                e = resubst(e, mm)
                return e
            es = [settle(e) for e in (v0, vp, beta)]
            cs = cases(es, base)
            if cs is None:
                return k.unk('cases')
            for fs, (e0, ep, b) in cs:
                if contradictory(fs):
                    continue
                z = {S: const(0)} if zero else {}
                if sign == 0:
                    z[B] = const(0)
                e0, ep, b = (subst(y, z) for y in (e0, ep, b))
                xp = x(P_)
                s_ = const(0) if zero else S
                b_ = const(0) if sign == 0 else B
                if any(opaque(y) for y in (e0, ep, b)):
                    k.unk('householder %s %s' % (sign, zero))
                    continue
                # ep = w * x_p
                w = div(ep, xp)
                if contains(w, lambda y: y is xp) and not zero:
                    k.say('multiple', False, 'the reflection vector is not a multiple of the input beyond its first entry: %s' % show(ep)[:200])
                    continue
                done += 1
                tag = '%s, %s' % ({-1: 'negative', 0: 'zero', 1: 'positive'}[sign], 'rest zero' if zero else 'rest not zero')
                k.say('first entry (%s)' % tag, vanish(sub(e0, ONE)) is const(0), 'the reflection vector starts with %s' % show(e0)[:200])
                ww = const(0) if zero else w
                q = add(ONE, mul(sq(ww), s_))
                orth = vanish(mul(b, sub(mul(b, q), const(2))))
                k.say('orthogonal (%s)' % tag, orth is const(0), 'b (b v.v - 2) is not zero but %s / ...' % show(orth)[:300])
                norm = s_ if sign == 0 else add(sq(b_), s_)
                u = mul(const(sign), b_) if zero else sqrt(norm)
                first = add(b_, mul(ww, s_))
                res = vanish(sub(sub(b_, mul(b, first)), u))
                k.say('reflects to the norm (%s)' % tag, res is const(0), 'the first entry of the reflected input differs from its norm by %s / ...' % show(res)[:300])
                if not zero:
                    ann = vanish(sub(ONE, mul(mul(b, ww), first)))
                    k.say('annihilates (%s)' % tag, ann is const(0), 'the other entries of the reflected input are not zero: %s' % show(ann)[:300])
    rep.count('householder cases', done)
    rep.floor('householder cases', 6)


def resubst(t, m):
    """t with conditions replaced, gates folded."""
    return subst(t, m) if m else t


def two_by_two(prog, rep, ck):
    k = get(prog, rep, ck, 'real_spectrum_of_two_by_two', 'SubMatrix', [eq0(sub(msize(a0, 0), const(2))), eq0(sub(msize(a0, 1), const(2)))])
    if k is None:
        return
    e = lambda i, j: nel(a0, const(i), const(j))
    tr, det = add(e(0, 0), e(1, 1)), sub(mul(e(0, 0), e(1, 1)), mul(e(0, 1), e(1, 0)))
    cs = cases([k.r.ret], [])
    if cs is None:
        return k.unk('cases')
    disc = sub(mul(sq(tr), const(Fraction(1, 4))), det)
    for fs, (t,) in cs:
        some = t.op == 'agg' and 'Some' in str(t.args[0])
        none = t.op == 'agg' and 'None' in str(t.args[0])
        if not some and not none:
            k.unk('neither')
            continue
        # sign of the discriminant in this case
        sg = set()
        for s in (-1, 0, 1):
            ok = True
            for f in fs:
                g, want = (f.args[0], False) if f.op == 'not' else (f, True)
                if g.op in ('le', 'lt'):
                    q = vanish(sub(g.args[1], g.args[0]))
                    c = ratio(q, disc)
                    if c is None:
                        ok = None
                        break
                    val = s * (1 if c > 0 else -1)
                    if (val >= 0 if g.op == 'le' else val > 0) != want:
                        ok = False
                        break
            if ok is None:
                sg = None
                break
            if ok:
                sg.add(s)
        if sg is None:
            if any(opaque(f) for f in fs):
                k.unk('condition')
            else:
                k.say('decides by the discriminant: ' + ('some' if some else 'none'), False, 'it decides by %s' % show_case(fs)[:300])
        else:
            k.say('decides by the discriminant: ' + ('some' if some else 'none'), sg <= {0, 1} if some else sg <= {-1}, 'a block with %s discriminant %s' % (
                ' or '.join({-1: 'negative', 0: 'zero', 1: 'positive'}[s] for s in sorted(sg)), 'is given real eigenvalues' if some else 'is reported to have none'))
        if some:
            l, m = proj(t.args[1], ('f', 0)), proj(t.args[1], ('f', 1))
            k.same('sum is the trace', add(l, m), tr)
            k.same('product is the determinant', mul(l, m), det)


def ratio(p, q):
    p, q = to_poly(p), to_poly(q)
    if set(p) != set(q) or not p:
        return None
    rs = {p[m] / q[m] for m in p}
    return rs.pop() if len(rs) == 1 else None


def norms(prog, rep, ck):
    for name in ('two_norm', 'frobenius_norm', 'one_norm', 'inf_norm'):
        k = get(prog, rep, ck, name, 'SubMatrix', [gt0(msize(a0, 0)), gt0(msize(a0, 1))] + ([eq0(sub(msize(a0, 1), ONE))] if name == 'two_norm' else []))
        if k is None:
            continue
        m, n = msize(a0, 0), msize(a0, 1)
        e = lambda i, j: nel(a0, i, j)
        if name == 'two_norm':
            k.same('value', k.r.ret, sqrt(nsum(m, lambda i: sq(e(i, const(0))))), [eq0(sub(n, ONE))])
            k.say('columns only', all(entails(list(c), eq0(sub(n, ONE))) for c in k.r.pc), 'a matrix with several columns is accepted')
        elif name == 'frobenius_norm':
            k.same('value', k.r.ret, sqrt(nsum(m, lambda i: nsum(n, lambda j: sq(e(i, j))))))
        else:
            t = k.r.ret
            ls = [(L, p, v) for L in k.loops.values() for p, v in L.next.items() if isinstance(p, Term) and p is t]
            if not ls or t.op != 'phi':
                k.unk('not a maximum')
                continue
            L, p, v = ls[0]
            k.say('starts at zero', p.args[2] is const(0), 'the maximum starts at %s' % show(p.args[2])[:100])
            ab = lambda i, j: mk('abs', e(i, j))
            want = nsum(m, lambda i: ab(i, L.iv)) if name == 'one_norm' else nsum(n, lambda j: ab(L.iv, j))
            axis_n = n if name == 'one_norm' else m
            k.runs('all lines', L, [axis_n], axis_n)
            J, M = mk('pos', 'line'), mk('arg', 'max')
            J.nn = True
            cs = cases([scal(subst(v, {L.iv: J, p: M}))], [])
            want, p = subst(want, {L.iv: J}), M
            for fs, (x,) in cs or []:
                if x is p:
                    continue
                k.same('line sum', x, want, ())
                big_ = []
                for f in fs:
                    g, w = (f.args[0], False) if f.op == 'not' else (f, True)
                    if g.op in ('le', 'lt') and p in g.args:
                        left = g.args[0] is p
                        big_.append(left == w)
                if not big_ or opaque(x):
                    k.unk('max')
                else:
                    k.say('takes the larger', all(big_), 'the smaller of two line sums is kept')


def finite(t):
    """t with quantifiers over a few known rounds written out."""
    m = {}
    for x in subterms(t):
        if x.op != 'any':
            continue
        iv, c = x.args
        lim = None
        for l in flat(c):
            if l.op == 'gt0':
                n = add(l.args[0], iv)
                if is_const(n) and cval(n) <= 4:
                    lim = int(cval(n)) if lim is None else min(lim, int(cval(n)))
        if lim is not None:
            m[x] = lor(*[subst(c, {iv: const(j)}) for j in range(lim)]) if lim > 0 else FALSE
    return finite(subst(t, m)) if m else t


# ------------------------------------------------------------------ loops over steps
def carrier(k, root, init=None):
    """The loop that carries the matrix at root and its phi, outermost first."""
    ls = [(L, p, v) for L, p, v in k.loop_of(root) if init is None or p.args[2] is init]
    return ls


def fresh(L, p, v, m, n, name='X'):
    """One round from an arbitrary matrix of the given shape: (round, before, after)."""
    J, X = mk('pos', 'round'), dense(name, m, n)
    J.nn = True
    return J, X, subst(v, {p: X, L.iv: J})


def agree(k, what, facts, got, wants):
    """got equals one of the wanted expressions (alternatives for the same effect)."""
    rs = []
    for w in wants:
        r = k.same(what, got, w, facts, say=False)
        if r is True:
            k.say(what, True)
            return w
        rs.append(r)
    if None not in rs:
        k.same(what, got, wants[0], facts)
    return None


def lu(prog, rep, ck):
    k = get(prog, rep, ck, 'lu', 'SubMatrix', square(1), skip=('lu',))
    if k is None:
        return
    n = msize(a0, 0)
    k.say('square only', all(entails(list(c), eq0(sub(n, msize(a0, 1)))) for c in k.r.pc), 'a matrix that is not square is accepted')
    t = k.r.state.get(('P', 0))
    ls = [(L, p, v) for L, p, v in k.loop_of(t.args[1] if t is not None and t.op == 'phi' else None) if p is t]
    if not ls or t.args[2] is not a0:
        return k.unk('not a loop over the matrix')
    L, p, v = ls[0]
    J, X, w = fresh(L, p, v, n, n)
    base = [gt0(sub(n, P_)), gt0(sub(n, Q_)), gt0(sub(sub(n, J), ONE))]
    x = lambda i, j: nel(X, i, j)
    got = nel(w, P_, Q_)
    low, right, on = gt0(sub(P_, J)), gt0(sub(Q_, J)), eq0(sub(Q_, J))
    want = ite(low, ite(on, div(x(P_, J), x(J, J)), ite(right, sub(x(P_, Q_), div(mul(x(P_, J), x(J, Q_)), x(J, J))), x(P_, Q_))), x(P_, Q_))
    k.same('elimination step', got, want, base)
    k.runs('elimination', L, [sub(n, ONE)], sub(n, ONE), [eq0(sub(n, msize(a0, 1)))])


def det(prog, rep, ck):
    for owner in ('Matrix', 'SubMatrix'):
        k = get(prog, rep, ck, 'det', owner, [gt0(msize(a0, 0)), gt0(msize(a0, 1))])
        if k is None:
            continue
        m, n = msize(a0, 0), msize(a0, 1)
        F = mk('kpost', 'lu', a0, ())
        cs = cases([k.r.ret], [])
        if cs is None:
            k.unk('cases')
            continue
        for fs, (t,) in cs:
            sq_ = entails(fs, eq0(sub(m, n)))
            if not sq_:
                if entails(fs, lnot(eq0(sub(m, n)))):
                    k.say('zero unless square', t is const(0), 'the determinant of a matrix that is not square is %s' % show(t)[:200])
                else:
                    k.unk('shape')
                continue
            if t.op == 'prod':
                iv, bs, e = t.args
                lim = [add(b.args[0], iv) for b in bs if b.op == 'gt0']
                ok = len(lim) == 1 and any(lim[0] is z for z in (m, n))
                k.say('factors', ok or opaque(lim[0]) if lim else False, 'the product has %s factors' % ', '.join(show(z)[:80] for z in lim))
                J = mk('pos', 'round')
                J.nn = True
                k.same('diagonal of the factorisation', subst(e, {iv: J}), nel(F, J, J), [gt0(sub(n, J)), eq0(sub(m, n))])
            elif opaque(t):
                k.unk('not a product')
            else:
                k.say('diagonal of the factorisation', False, 'the determinant is %s' % show(t)[:200])


def solve(prog, rep, ck):
    k = get(prog, rep, ck, 'solve', 'Matrix', square(1) + [eq0(sub(msize(a0, 0), msize(a1, 0))), eq0(sub(msize(a1, 1), ONE))])
    if k is None:
        return
    n = msize(a0, 0)
    F = mk('kpost', 'lu', a0, ())
    t = k.r.ret
    for c in (0, 1):
        k.same('shape %d' % c, msize(t, c), msize(a1, c))
    back = [(L, p, v) for L in k.loops.values() for p, v in L.next.items() if p is t]
    if not back:
        return k.unk('not a backward loop')
    L2, p2, v2 = back[0]
    fwd = [(L, p, v) for L in k.loops.values() for p, v in L.next.items() if isinstance(p, Term) and p.op == 'phi' and p is not p2 and p.args[2] is a1 and contains(p2.args[2], lambda y: y is p)]
    if not fwd:
        return k.unk('not a forward loop')
    L1, p1, v1 = fwd[0]
    l = lambda i, j: nel(F, i, j)
    same_size = [eq0(sub(n, msize(a0, 1))), eq0(sub(n, msize(a1, 0))), gt0(sub(n, ONE))]
    # forward: row R loses the sum over the rows before
    for what, L, p, v, sgn in (('forward', L1, p1, v1, 1), ('backward', L2, p2, v2, -1)):
        J, X, w = fresh(L, p, v, n, ONE)
        x = lambda i: nel(X, i, const(0))
        forms = []
        firsts = (ONE, const(0)) if sgn == 1 else (sub(n, const(2)), sub(n, ONE))
        ls = k.limits(L)
        base = same_size + [gt0(sub(n, P_)), gt0(sub(sub(n, J), ONE))] + [gt0(sub(subst(z, {p: X}), J)) for z in ls]
        for f in firsts:
            R = add(f, scale(J, sgn))
            s = nsum(R, lambda c: mul(l(R, c), x(c))) if sgn == 1 else nsum(sub(sub(n, R), ONE), lambda c: mul(l(R, add(add(c, R), ONE)), x(add(add(c, R), ONE))))
            e = sub(x(R), s)
            forms.append(ite(eq0(sub(P_, R)), e if sgn == 1 else div(e, l(R, R)), x(P_)))
        hit = agree(k, what + ' step', base, nel(w, P_, const(0)), forms)
        if hit is None:
            continue
        late = hit is forms[0]
        need = sub(n, ONE) if late else n
        k.runs(what, L, [need], need, same_size)
        if sgn == -1:
            Y = dense('Y', n, ONE)
            got = nel(subst(p2.args[2], {p1: Y}), P_, const(0))
            y = lambda i: nel(Y, i, const(0))
            last = sub(n, ONE)
            want = ite(eq0(sub(P_, last)), div(y(last), l(last, last)), y(P_)) if late else y(P_)
            k.same('last row', got, want, same_size + [gt0(sub(n, P_))])


def reflected(x, v, b, r0, n, c0, left):
    """x with the reflection I - b v v' applied to n of its rows (or columns) from r0, in the columns (or rows) c0 accepts."""
    h = lambda i: nel(v, i, const(0))

    def y(i, j):
        a, o = (i, j) if left else (j, i)
        at = lambda c: x(add(r0, c), j) if left else x(i, add(r0, c))
        s = nsum(n, lambda c: mul(h(c), at(c)))
        return ite(land(gt0(add(sub(a, r0), ONE)), gt0(sub(add(r0, n), a)), c0(o)), sub(x(i, j), mul(b, mul(h(sub(a, r0)), s))), x(i, j))
    return y


def loop_result(k, t, init, what, short):
    """t is the loop's matrix, or its initial value where `short` holds."""
    cs = cases([t], [])
    if cs is None:
        return k.unk('cases of the result')
    found = None
    for fs, (x,) in cs:
        if contradictory(fs):
            continue
        if x is init and (entails(fs, short) or not any(True for _ in fs)):
            if not fs:
                k.say(what + ' happens', False, 'the matrix is left as it is')
            continue
        if x is init:
            if not any(opaque(f) for f in fs):
                k.say(what + ' happens', False, 'the matrix is left as it is when %s' % show_case(fs)[:200])
            return None
        if x.op != 'phi' or x.args[2] is not init or found not in (None, x):
            return k.unk('not one loop over the matrix: %s' % show(x)[:100])
        found = x
    for L, p, v in k.loop_of(found.args[1]) if found is not None else []:
        if p is found:
            return L, p, v
    return None


def hessenberg(prog, rep, ck):
    k = get(prog, rep, ck, 'hessenberg_form', 'SubMatrix', square(1), skip=('hessenberg_form',))
    if k is None:
        return
    n = msize(a0, 0)
    k.say('square only', all(entails(list(c), eq0(sub(n, msize(a0, 1)))) for c in k.r.pc), 'a matrix that is not square is accepted')
    got = loop_result(k, k.r.state.get(('P', 0)), a0, 'reduction', gt0(sub(const(3), n)))
    if got is None:
        return
    L, p, v = got
    k.unify = {msize(a0, 1): n}
    J, X, w = fresh(L, p, v, n, n)
    base = [gt0(sub(n, P_)), gt0(sub(n, Q_)), gt0(sub(sub(n, J), const(2)))]
    x = lambda i, j: nel(X, i, j)
    J1 = add(J, ONE)
    col = mk('mview', X, J1, n, J, J1)
    h, b, m = mk('hvec', col), mk('hbeta', col), sub(n, J1)
    forms = []
    for c0 in (J, const(0)):
        y = reflected(x, h, b, J1, m, lambda c: gt0(add(sub(c, c0), ONE)), True)
        forms.append(reflected(y, h, b, J1, m, lambda c: TRUE, False)(P_, Q_))
    agree(k, 'reflection from both sides', base, nel(subst(w, k.unify), P_, Q_), forms)
    k.runs('reduction', L, [sub(n, const(2))], sub(n, const(2)), [eq0(sub(n, msize(a0, 1)))])


def tridiagonal(prog, rep, ck):
    k = get(prog, rep, ck, 'householder_tridiagonalization', 'SubMatrix', square(2), skip=('householder_tridiagonalization',))
    if k is None:
        return
    n = msize(a0, 0)
    got = loop_result(k, k.r.state.get(('P', 0)), a0, 'reduction', gt0(sub(const(3), n)))
    if got is None:
        return
    L, p, v = got
    k.unify = {msize(a0, 1): n}
    J, X, w_ = fresh(L, p, v, n, n)
    w_ = subst(w_, k.unify)
    J1, m = add(J, ONE), sub(sub(n, J), ONE)
    col = mk('mview', X, J1, n, J, J1)
    hv, hb = mk('hvec', col), mk('hbeta', col)
    base = [gt0(sub(n, P_)), gt0(sub(n, Q_)), gt0(sub(sub(n, J), const(2)))]
    b, sg = ite(eq0(hb), const(2), hb), ite(eq0(hb), const(-1), ONE)
    h = lambda i: nel(hv, i, const(0))
    pv = lambda j: mul(b, nsum(m, lambda c: mul(nel(X, add(J1, j), add(J1, c)), h(c))))
    vp = nsum(m, lambda c: mul(h(c), pv(c)))
    w = lambda j: sub(pv(j), mul(scale(b, Fraction(1, 2)), mul(h(j), vp)))
    el = nel(w_, P_, Q_)
    i, j = sub(P_, J1), sub(Q_, J1)
    low = [gt0(add(i, ONE)), gt0(add(j, ONE))]
    upd_ = add(mul(h(i), w(j)), mul(h(j), w(i)))
    x = lambda a, c: nel(X, a, c)
    for tag, extra, swap in (('diagonal', [eq0(sub(P_, Q_))], None), ('above', [gt0(sub(Q_, P_))], None), ('below', [gt0(sub(P_, Q_))], None)):
        if tag == 'diagonal':
            forms = [sub(x(P_, P_), scale(mul(h(i), w(i)), 2))]
        else:
            forms = [sub(x(P_, Q_), upd_), sub(x(Q_, P_), upd_)]
        agree(k, 'reflection from both sides, %s' % tag, base + low + extra, el, forms)
    nrm = mul(sg, mk('call', 'two_norm', (col,)))
    for tag, r, c in (('below', J1, J), ('right of', J, J1)):
        k.same('entry %s the diagonal' % tag, nel(w_, r, c), nrm, base)
    a1_ = mk('arg', 1)
    k.same('stored reflection', nel(w_, add(P_, add(J, const(2))), J), h(add(P_, ONE)), base + [a1_, gt0(sub(sub(n, add(J, const(2))), P_))])
    for tag, extra in (('rows', [gt0(sub(J, P_))]), ('columns', [gt0(sub(J, Q_))]), ('corner', [eq0(sub(P_, J)), eq0(sub(Q_, J))])):
        k.same('finished %s kept' % tag, el, x(P_, Q_), base + extra)
    k.runs('reduction', L, [sub(n, const(2))], sub(n, const(2)), [eq0(sub(n, msize(a0, 1)))])


def extract(prog, rep, ck):
    k = get(prog, rep, ck, 'extract_householder_vecs', 'SubMatrix', square(1))
    if k is None:
        return
    n = msize(a0, 0)
    k.say('square only', all(entails(list(c), eq0(sub(n, msize(a0, 1)))) for c in k.r.pc), 'a matrix that is not square is accepted')
    k.unify = {msize(a0, 1): n}
    rest = mk('call', 'extract_householder_vecs', (mk('mview', a0, ONE, n, ONE, n),))
    for c in (0, 1):
        k.same('shape %d' % c, msize(k.r.ret, c), add(n, ONE), square(1))
    k.unify.update({mk('msize', rest, 0): n, mk('msize', rest, 1): n})
    t = subst(finite(k.r.ret), k.unify)
    # the part after the first reflection, in the coordinates beyond the first
    x = lambda i: nel(a0, i, const(0))
    g0 = lambda j, tail, lim: ite(eq0(j), ONE, x(sub(j, ONE)))

    def want(i, j, q, N):
        w = lambda c: ite(eq0(c), ONE, x(sub(c, ONE)))
        s = div(const(2), add(ONE, nsum(N, lambda c: sq(x(c)))))
        qw = lambda i: ite(eq0(i), ONE, nsum(N, lambda c: mul(q(sub(i, ONE), c), x(c))))
        base = ite(eq0(i), ite(eq0(j), ONE, const(0)), ite(eq0(j), const(0), q(sub(i, ONE), sub(j, ONE))))
        return sub(base, mul(s, mul(qw(i), w(j))))
    for tag, facts, q, N in (('one reflection', [eq0(sub(n, ONE))], lambda i, j: ONE, ONE), ('several reflections', [gt0(sub(n, ONE))], lambda i, j: nel(rest, i, j), n)):
        P2, Q2 = (P_, Q_) if N is n else (const(0), const(0))
        for a, b in itertools.product((0, 1), repeat=2):
            pos = [gt0(sub(add(n, ONE), P2)), gt0(sub(add(n, ONE), Q2))]
            i = add(P2, ONE) if a else const(0)
            j = add(Q2, ONE) if b else const(0)
            fs = facts + ([gt0(sub(n, P2))] if a else []) + ([gt0(sub(n, Q2))] if b else [])
            k.same('%s, %s' % (tag, ('corner', 'first row', 'first column', 'rest')[2 * a + b]), nel(t, i, j), want(i, j, q, N), fs)


def component(k, term):
    """The value a loop carries as a scalar phi: (loop, phi, next)."""
    for L in k.loops.values():
        for p, v in L.next.items():
            if p is term:
                return L, p, v
    return None


def rotation_step(prog, rep, ck):
    k = get(prog, rep, ck, 'implicit_symmetric_qr_with_wilkinson_shift', 'SubMatrix', square(2), skip=('implicit_symmetric_qr_with_wilkinson_shift',))
    if k is None:
        return
    n = msize(a0, 0)
    t = k.r.state.get(('P', 0))
    if t is None or t.op != 'phi' or t.args[2] is not a0:
        return k.unk('not a loop over the matrix')
    L, p, v = component(k, t)
    k.unify = {msize(a0, 1): n}
    calls = sorted({x for x in subterms(v) if x.op == 'call' and x.args[0] == 'givens_rotation'}, key=skey)
    if len(calls) != 1:
        return k.unk('%d rotations in a round' % len(calls))
    xt, zt = calls[0].args[1]
    xs, zs = component(k, xt), component(k, zt)
    if xs is None or zs is None or xs[0] is not L or zs[0] is not L:
        return k.unk('the pair to be rotated is not carried by the loop')
    C, S = mk('arg', 'cosine'), mk('arg', 'sine')
    J, X, w = fresh(L, p, v, n, n)
    at = {p: X, L.iv: J}
    call = subst(calls[0], at)
    rot = {proj(call, ('f', 0)): C, proj(call, ('f', 1)): S}
    w = subst(finite(w), k.unify)
    e = lambda i, j: subst(scal(nel(w, i, j)), rot)
    x = lambda i, j: nel(X, i, j)
    J1, J2 = add(J, ONE), add(J, const(2))
    base = [gt0(sub(n, P_)), gt0(sub(n, Q_)), gt0(sub(n, J1))]
    row = {J: lambda j: sub(mul(C, x(J, j)), mul(S, x(J1, j))), J1: lambda j: add(mul(S, x(J, j)), mul(C, x(J1, j)))}

    def both(i, j):
        f = row[i]
        return sub(mul(C, f(J)), mul(S, f(J1))) if j is J else add(mul(S, f(J)), mul(C, f(J1)))
    col = {J: lambda i: sub(mul(C, x(i, J)), mul(S, x(i, J1))), J1: lambda i: add(mul(S, x(i, J)), mul(C, x(i, J1)))}
    for a in (J, J1):
        na = 'first' if a is J else 'second'
        for b in (J, J1):
            k.same('corner %s %s' % (na, 'first' if b is J else 'second'), e(a, b), both(a, b), base)
        for tag, pos, extra in (('before', sub(J, ONE), [gt0(J)]), ('after', J2, [gt0(sub(n, J2))])):
            k.same('%s row %s' % (na, tag), e(a, pos), row[a](pos), base + extra)
            k.same('%s column %s' % (na, tag), e(pos, a), col[a](pos), base + extra)
        for tag, pos, extra in (('far before', Q_, [gt0(sub(sub(J, ONE), Q_))]), ('far after', Q_, [gt0(sub(Q_, J2))])):
            k.same('%s row %s' % (na, tag), e(a, Q_), [x(a, Q_), row[a](Q_)], base + extra)
            k.same('%s column %s' % (na, tag), e(Q_, a), [x(Q_, a), col[a](Q_)], base + extra)
    for r_, rf in (('above', gt0(sub(J, P_))), ('below', gt0(sub(P_, J1)))):
        for c_, cf in (('left', gt0(sub(J, Q_))), ('right', gt0(sub(Q_, J1)))):
            k.same('rest, %s %s' % (r_, c_), e(P_, Q_), x(P_, Q_), base + [rf, cf])
    # the next pair
    W = dense('W', n, n)
    nx = lambda z: subst(subst(finite(subst(z[2], at)), k.unify), {w: W})
    more = base + [gt0(sub(sub(n, J), const(2)))]
    k.same('next pair, first', nx(xs), nel(W, J1, J), more)
    k.same('next pair, second', nx(zs), nel(W, J2, J), more)
    m = lambda i, j: nel(a0, i, j)
    l1, l2 = sub(n, ONE), sub(n, const(2))
    d, b = scale(sub(m(l2, l2), m(l1, l1)), Fraction(1, 2)), m(l1, l2)
    r_ = sqrt(add(sq(d), sq(b)))
    got = subst(xs[1].args[2], k.unify)
    sgn = ite(mk('le', const(0), scal(d)), ONE, const(-1))
    for f in {y for y in subterms(scal(got)) if y.op in ('le', 'lt')}:
        q = vanish(sub(f.args[1], f.args[0]))
        c = ratio(q, d)
        if c is not None:
            sgn = ite(f, const(1 if c > 0 else -1), const(-1 if c > 0 else 1))
    shift = sub(m(l1, l1), div(sq(b), add(d, mul(sgn, r_))))
    k.same('first pair, shifted corner', got, sub(m(const(0), const(0)), shift), [gt0(l1)])
    k.same('first pair, entry below', subst(zs[1].args[2], k.unify), m(ONE, const(0)), [gt0(l1)])
    k.runs('rotations', L, [l1], l1, [eq0(sub(n, msize(a0, 1)))])
    op = component(k, k.r.ret)
    if op is None or op[0] is not L:
        return k.unk('the rotations are not collected by the loop')
    Y = dense('Y', l1, const(2))
    o = subst(finite(subst(op[2], dict(at, **{}) | {op[1]: Y})), k.unify)
    eo = lambda i, j: subst(scal(nel(o, i, j)), rot)
    w1 = mk('arg', 1)
    k.same('recorded cosine', eo(J, const(0)), C, [w1, gt0(sub(l1, J))])
    k.same('recorded sine', eo(J, ONE), S, [w1, gt0(sub(l1, J))])
    for tag, f in (('earlier', gt0(sub(J, P_))),):
        k.same('%s records kept' % tag, eo(P_, Q_), nel(Y, P_, Q_), [f, gt0(sub(const(2), Q_))])


def reflectors(k, w, size):
    """The only reflector in the term and its argument's entries."""
    hs = sorted({x for x in subterms(w) if x.op == 'hvec'}, key=skey)
    if len(hs) != 1:
        return None
    A = hs[0].args[0]
    if msize(A, 0) is not const(size):
        return None
    return hs[0], [scal(nel(A, const(c), const(0))) for c in range(size)]


def double_shift(prog, rep, ck):
    k = get(prog, rep, ck, 'raw_francis_step', 'SubMatrix', square(3), skip=('raw_francis_step',))
    if k is None:
        return
    n = msize(a0, 0)
    k.say('square only', all(entails(list(c), eq0(sub(n, msize(a0, 1)))) for c in k.r.pc), 'a matrix that is not square is accepted')
    k.unify = {msize(a0, 1): n}
    t = finite(subst(k.r.state.get(('P', 0)), k.unify))
    ls = sorted({x for x in subterms(t) if x.op == 'phi' and x.args[1] == ('P', 0) or x.op == 'phi' and x.args[2] is a0}, key=skey)
    ls = [z for z in (component(k, x) for x in ls) if z is not None and z[1].args[2] is a0]
    if len(ls) != 1:
        return k.unk('not one loop over the matrix')
    L, p, v = ls[0]
    J, X, w = fresh(L, p, v, n, n)
    at = {p: X, L.iv: J}
    w = subst(finite(w), k.unify)
    sq_ = [eq0(sub(n, msize(a0, 1)))]
    x = lambda i, j: nel(X, i, j)

    def step(tag, w, size, at0, base, ends):
        rf = reflectors(k, w, size)
        if rf is None:
            k.unk(tag + ': not one reflector')
            return None
        hv, xyz = rf
        H, B = dense('H', const(size), ONE), mk('arg', 'beta')
        w = subst(w, {hv: H, mk('hbeta', hv.args[0]): B})
        h = lambda c: nel(H, const(c), const(0))
        blk = [add(at0, const(c)) for c in range(size)]

        def Y(i, j):
            if i not in blk:
                return x(i, j)
            s = const(0)
            for c in range(size):
                s = add(s, mul(h(c), x(blk[c], j)))
            return sub(x(i, j), mul(mul(B, h(blk.index(i))), s))

        def Z(i, j):
            if j not in blk:
                return Y(i, j)
            s = const(0)
            for c in range(size):
                s = add(s, mul(h(c), Y(i, blk[c])))
            return sub(Y(i, j), mul(mul(B, h(blk.index(j))), s))
        for i, itag, ifs in [(b, 'row %d' % c, []) for c, b in enumerate(blk)] + [(P_, 'rows above', [gt0(sub(at0, P_))])] + ends[0]:
            for j, jtag, jfs in [(b, 'column %d' % c, []) for c, b in enumerate(blk)] + ends[1]:
                want = [Z(i, j)]
                if 'far' in itag or 'far' in jtag:
                    want.append(x(i, j))
                k.same('%s, %s, %s' % (tag, itag, jtag), nel(w, i, j), want, base + ifs + jfs)
        return xyz
    n3 = sub(n, const(3))
    J3 = add(J, const(3))
    base = [gt0(sub(n, add(J, const(2)))), gt0(sub(n, P_)), gt0(sub(n, Q_)), gt0(sub(n, const(2)))]
    xyz = step('step', w, 3, J, base, ([(J3, 'next row', [gt0(sub(n, J3))]), (P_, 'rows far below', [gt0(sub(P_, J3))])],
                                      [(sub(J, ONE), 'column before', [gt0(J)]), (Q_, 'columns far before', [gt0(sub(sub(J, ONE), Q_))]), (Q_, 'columns after', [gt0(sub(add(Q_, ONE), J3))])]))
    k.runs('steps', L, [sub(n, const(2))], sub(n, const(2)), sq_)
    if xyz is None:
        return
    # what is reflected
    back = {J: L.iv}
    comps = []
    for z in L.next:
        if isinstance(z, Term) and z.op == 'phi' and z is not p and any(contains(e, lambda y: y is z) for e in xyz):
            comps.append(z)
    order = [e if e in comps else None for e in (subst(e, back) for e in xyz)]
    if None in order:
        return k.unk('the reflected vector is not carried by the loop')
    W = dense('W', n, n)
    for c, z in enumerate(order):
        _, _, nxt = component(k, z)
        # the element read back belongs to the matrix after the step
        r = add(J, const(c + 1))
        k.same('next vector, entry %d' % c, subst(subst(finite(subst(nxt, at)), k.unify), {w: W}), nel(W, r, J), base + [gt0(sub(n, r))])
    m = lambda i, j: nel(a0, const(i) if isinstance(i, int) else i, const(j) if isinstance(j, int) else j)
    l1, l2 = sub(n, ONE), sub(n, const(2))
    s = add(m(l2, l2), m(l1, l1))
    d = sub(mul(m(l2, l2), m(l1, l1)), mul(m(l2, l1), m(l1, l2)))
    firsts = [add(sub(add(sq(m(0, 0)), mul(m(0, 1), m(1, 0))), mul(s, m(0, 0))), d), mul(m(1, 0), sub(add(m(0, 0), m(1, 1)), s)), mul(m(1, 0), m(2, 1))]
    for c, z in enumerate(order):
        k.same('first vector, entry %d' % c, subst(z.args[2], k.unify), firsts[c], [gt0(sub(n, const(2)))])
    last = subst(t, {p: X})
    rest = step('last step', last, 2, l2, [gt0(sub(n, P_)), gt0(sub(n, Q_)), gt0(sub(n, const(2)))], ([], [(n3, 'column before', []), (Q_, 'columns far before', [gt0(sub(n3, Q_))])]))
    for c, e in enumerate(rest or []):
        k.same('last vector, entry %d' % c, e, order[c])


def gram_schmidt(prog, rep, ck):
    for name, unit in (('gram_schmidt', True), ('gram_schmidt_without_normalize', False)):
        k = get(prog, rep, ck, name, 'Matrix', [gt0(msize(a0, 0)), gt0(msize(a0, 1))], skip=(name,))
        if k is None:
            continue
        m, n = msize(a0, 0), msize(a0, 1)
        outer = component(k, k.r.ret) if k.r.ret.op == 'phi' else None
        if k.r.ret is a0:
            k.say('projection', False, 'the columns are left as they are')
        elif outer is None:
            k.unk('not a loop over the columns')
        if outer is None:
            continue
        L, p, v = outer
        inner = [z for z in (component(k, y) for y in sorted({y for y in subterms(v) if y.op == 'phi' and y.args[2] is p}, key=skey)) if z is not None]
        if not inner and not contains(v, lambda y: y.op == 'mdot' or y.op == 'call' and not isinstance(y.args[0], str)):
            k.say('projection', False, 'nothing is subtracted from a column')
            continue
        if len(inner) != 1:
            k.unk('%d loops over the columns before' % len(inner))
            continue
        M, q, u = inner[0]
        J, X, w = fresh(L, p, v, m, n)
        I, Y = mk('pos', 'inner'), dense('Y', m, n)
        I.nn = True
        q2 = subst(q, {p: X, L.iv: J})
        u = subst(subst(u, {q: Y, M.iv: I}), {p: X, L.iv: J})
        w = subst(w, {q2: Y})
        y = lambda i, j: nel(Y, i, j)
        dot = lambda a, b: nsum(m, lambda c: mul(y(c, a), y(c, b)))
        rows = [gt0(sub(m, P_)), gt0(sub(n, Q_))]
        hit = None
        for i in (add(J, ONE), J):
            c = div(dot(i, I), dot(I, I))
            forms = [sub(y(P_, i), mul(c, y(P_, I)))] + ([sub(y(P_, i), mul(dot(i, I), y(P_, I)))] if unit else [])
            base = rows + [gt0(sub(n, i)), gt0(sub(i, I))]
            want = [ite(eq0(sub(Q_, i)), f, y(P_, Q_)) for f in forms]
            r = k.same('projection', nel(u, P_, Q_), want, base, say=False)
            if r:
                hit = i
                break
        if hit is None:
            i = add(J, ONE)
            k.same('projection', nel(u, P_, Q_), [ite(eq0(sub(Q_, i)), sub(y(P_, i), mul(dot(i, I), mul(y(P_, I), ONE if unit else div(ONE, dot(I, I))))), y(P_, Q_))], rows + [gt0(sub(n, i)), gt0(sub(i, I))])
            continue
        k.say('projection', True)
        i = hit
        ls = [subst(l, {p: X, L.iv: J}) for l in k.limits(M)]
        if not ls or any(opaque(l) for l in ls):
            k.unk('limits of the projections')
        else:
            k.say('all columns before', all(entails([gt0(sub(n, i))], gt0(add(sub(l, i), ONE))) for l in ls) and not any(entails([gt0(sub(n, i))], gt0(sub(l, i))) for l in ls), 'column %s is made orthogonal to %s columns' % (show(i), ', '.join(show(l)[:80] for l in ls)))
        nrm = lambda Z, c: mk('call', 'two_norm', (mk('mview', Z, const(0), m, c, add(c, ONE)),))
        want = ite(eq0(sub(Q_, i)), div(y(P_, i), nrm(Y, i)), y(P_, Q_)) if unit else y(P_, Q_)
        k.same('length', nel(w, P_, Q_), want, rows + [gt0(sub(n, i))])
        late = i is not J
        z = lambda a, b: nel(a0, a, b)
        first = z(P_, Q_) if not unit or not late else ite(eq0(Q_), div(z(P_, const(0)), nrm(a0, const(0))), z(P_, Q_))
        k.same('first column', nel(p.args[2], P_, Q_), first, rows)
        need = sub(n, ONE) if late else n
        k.runs('columns', L, [need], need, [gt0(n)])


def inverse_iteration(prog, rep, ck):
    """Where a linear system with the matrix less a multiple of the identity is solved for an eigenvector."""
    for name in ('spectrum_with_invariant_space', 'spectrum_with_invariant_space_symmetric', 'spectrum_with_n_smallest_eigenvecs_symmetric', 'spectrum_with_n_th_eigenvec_symmetric'):
        k = get(prog, rep, ck, name, 'Matrix', square(1) + ([gt0(sub(msize(a0, 0), a1))] if '_n_th_' in name else [gt0(add(sub(msize(a0, 0), a1), ONE))] if '_n_smallest_' in name else []))
        if k is None:
            continue
        n = msize(a0, 0)
        k.unify = {msize(a0, 1): n}
        spec = 'spectrum_symmetric' if name.endswith('symmetric') else 'spectrum'
        lam = mk('call', spec, (a0,))
        t = k.r.ret
        if t.op != 'agg' or len(t.args) != 3:
            k.unk('not a pair')
            continue
        one = name.endswith('n_th_eigenvec_symmetric')
        values = nel(lam, mk('arg', 1), const(0)) if one else lam
        if opaque(t.args[1]):
            k.unk('values')
        else:
            k.say('eigenvalues', t.args[1] is values, 'the values returned are %s' % show(t.args[1])[:200])
        src = t.args[2]
        J = mk('pos', 'round')
        J.nn = True
        fs = [gt0(sub(n, P_)), gt0(sub(n, Q_))]
        at = {}
        if not one:
            outer = component(k, src) if src.op == 'phi' else None
            if outer is None:
                k.unk('not a loop over the eigenvalues')
                continue
            L, p, v = outer
            X = dense('X', n, n)
            at = {p: X, L.iv: J}
            src = subst(v, at)
            fs.append(gt0(sub(n, J)))
        idx = mk('arg', 1) if one else J
        systems = sorted({x.args[1][0] for x in subterms(src) if x.op == 'call' and x.args[0] == 'solve'}, key=skey)
        if not systems:
            k.unk('no linear system')
            continue
        want = sub(nel(a0, P_, Q_), ite(eq0(sub(P_, Q_)), nel(lam, idx, const(0)), const(0)))
        for c, A in enumerate(systems):
            k.same('shifted matrix %d' % c, nel(A, P_, Q_), want, fs)


def coefficients(prog, rep, ck):
    """The helper that computes the Gram-Schmidt coefficients; private, so it may be absent."""
    if not any(f.name == 'gram_schmidt_coeff_update' and f.body and f.crate == 'alg' for f in prog.fns.values()):
        return rep.count('undecided')
    a2 = mk('arg', 2)
    m, n = msize(a1, 0), msize(a1, 1)
    shape = [gt0(m), gt0(n), eq0(sub(m, msize(a2, 0))), eq0(sub(n, msize(a2, 1))), eq0(sub(n, msize(a0, 0))), eq0(sub(n, msize(a0, 1)))]
    k = get(prog, rep, ck, 'gram_schmidt_coeff_update', 'Matrix', shape)
    if k is None:
        return
    t = k.r.state.get(('P', 0))
    b = lambda A, i, j: nel(A, i, j)
    q = div(nsum(m, lambda c: mul(b(a1, c, P_), b(a2, c, Q_))), nsum(m, lambda c: mul(b(a2, c, Q_), b(a2, c, Q_))))
    k.unify = {msize(a0, 0): n, msize(a0, 1): n, msize(a2, 0): m, msize(a2, 1): n}
    k.same('coefficient', nel(t, P_, Q_), q, [gt0(sub(n, P_)), gt0(sub(P_, Q_))])


def check_T29(prog, rep):
    rep.rule('summaries of the numerical kernels as expressions over exact real numbers, with sums in normal form; the defining identity of each kernel is decided by rational arithmetic with square roots')
    ck = MatChecker(prog, rep, (level(prog),), None, 80000, 20)
    for part in PARTS:
        rep.group(part, prog, rep, ck)
    rep.floor('kernels', len(PARTS))


PARTS = [givens, householder, two_by_two, norms, lu, det, solve, hessenberg, tridiagonal, extract, rotation_step, double_shift, gram_schmidt, coefficients, inverse_iteration]
