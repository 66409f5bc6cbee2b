"""T05: rational numbers are always in lowest terms and their arithmetic is exact."""
from spec import *
import absint

RAT = 'commutative::Rational'
OPS = {'std::ops::Add': add, 'std::ops::Sub': sub, 'std::ops::Mul': mul, 'std::ops::Div': div}
ASSIGN = {'std::ops::AddAssign': add, 'std::ops::SubAssign': sub, 'std::ops::MulAssign': mul, 'std::ops::DivAssign': div}


def base_trait(fn):
    return (fn.trait or '').split('<')[0]


def algebra(I, op, name, fn, args, st, pc, at):
    """Arithmetic on rationals seen from outside: field operations on numbers."""
    if fn is None or fn.implself != RAT:
        return NotImplemented
    import models
    A = [models.val(I, st, a) for a in args]
    t = base_trait(fn)
    if t in OPS:
        return OPS[t](A[0], A[1]), st, pc
    if t in ASSIGN:
        st = dict(st)
        I.store(st, args[0], ASSIGN[t](A[0], A[1]), pc, at)
        return UNIT, st, pc
    if t == 'std::ops::Neg':
        return neg(A[0]), st, pc
    if fn.name == 'zero' and t.endswith('Zero'):
        return const(0), st, pc
    if fn.name == 'one' and t.endswith('One'):
        return const(1), st, pc
    if not fn.trait and fn.name == 'new':
        return div(A[0], A[1]), st, pc
    if not fn.trait and fn.name == 'from':
        return A[0], st, pc
    if not fn.trait and fn.name == 'abs':
        x = mk('abs', A[0])
        x.nn = True
        return x, st, pc
    return NotImplemented


class Rat:
    def __init__(self, ck):
        self.ck, self.ok = ck, False
        adt = [a for a in ck.prog.adts.values() if a['crate'] == 'alg' and a['path'] == RAT]
        num = ck.one('Rational::get_numerator', crate='alg', name='get_numerator', implself=RAT)
        den = ck.one('Rational::get_denominator', crate='alg', name='get_denominator', implself=RAT)
        if not adt or not num or not den:
            return

        def fld(fn):
            t = ck.run(fn).ret
            return t.args[1][1] if t.op == 'proj' and t.args[0] is mk('arg', 0) and t.args[1][0] == 'f' else None
        self.N, self.D = fld(num), fld(den)
        ck.rep.require('Rational:accessors', self.N is not None and self.D is not None and self.N != self.D,
                       'the numerator and denominator accessors do not return two distinct fields')
        fs = adt[0]['variants'][0]['fields']
        b = [i for i, f in enumerate(fs) if f['ty'] == 'bool']
        if len(fs) != 3 or len(b) != 1 or self.N is None or self.D is None:
            ck.rep.count('undecided')
            return
        self.S = b[0]
        ck.rep.require('Rational:fields private', not any(f['pub'] for f in fs), 'a field of the rational type is public, so values out of lowest terms can be made anywhere')
        self.ok = True

    def f(self, t, w):
        return proj(t, ('f', {'N': self.N, 'D': self.D, 'S': self.S}[w]))

    def exact(self, t, memo=None):
        """Exact divisions by a gcd of the dividend become field divisions."""
        memo = {} if memo is None else memo
        if t in memo:
            return memo[t]
        if t.op == 'poly':
            r = const(0)
            for m, c in t.args[0]:
                q = mk('int', c)
                for x, e in m:
                    y = self.exact(x, memo)
                    for _ in range(abs(e)):
                        q = mul(q, y) if e > 0 else div(q, y)
                r = add(r, q)
        elif t.op == 'idiv' and t.args[1].op == 'gcd' and t.args[0] in t.args[1].args[0]:
            r = div(self.exact(t.args[0], memo), t.args[1])
        else:
            r = t
        memo[t] = r
        return r

    def value(self, t):
        n, d = self.exact(self.f(t, 'N')), self.exact(self.f(t, 'D'))
        s = self.f(t, 'S')
        return mul(ite(s, const(1), const(-1)), div(n, d))

    def orders(self, facts):
        """Comparisons of non-negative rationals among the facts, cross-multiplied."""
        out = []
        for f in facts:
            neg_, g = (True, f.args[0]) if f.op == 'not' else (False, f)
            if g.op == 'lt' and len(g.args) == 2:
                a, b = g.args
                if self.f(a, 'S') is TRUE and self.f(b, 'S') is TRUE:
                    x = sub(mul(self.f(b, 'N'), self.f(a, 'D')), mul(self.f(a, 'N'), self.f(b, 'D')))
                    out.append(lnot(gt0(x)) if neg_ else gt0(x))
            if g.op == 'eq0' and not neg_:
                p = to_poly(g.args[0])
                ms = list(p.items())
                if len(ms) == 2 and {ms[0][1], ms[1][1]} == {1, -1} and all(len(m) == 1 and m[0][1] == 1 for m, _ in ms):
                    a, b = ms[0][0][0][0], ms[1][0][0][0]
                    if self.f(a, 'S') is TRUE and self.f(b, 'S') is TRUE and a.op == 'upd':
                        out.append(eq0(sub(mul(self.f(b, 'N'), self.f(a, 'D')), mul(self.f(a, 'N'), self.f(b, 'D')))))
        return out


def arg_facts(R, fn):
    """Arguments that are rationals are in lowest terms."""
    out = []
    for i, t in enumerate(fn.d['inputs']):
        if t.lstrip('&').replace('mut ', '').strip() == RAT:
            out.append(gt0(R.f(mk('arg', i), 'D')))
            R.f(mk('arg', i), 'N').nn = True
            R.f(mk('arg', i), 'D').nn = True
    return out


def is_given(t):
    return t.op == 'arg' or (t.op == 'proj' and is_given(t.args[0]))


def canonical(R, t, facts):
    """None when the value is in lowest terms, a reason otherwise, 'unk' when the form is not recognised."""
    if is_given(t):
        return None
    n, d, s = R.f(t, 'N'), R.f(t, 'D'), R.f(t, 'S')
    for x in (n, d, s):
        if any(y.op in UNDECIDED for y in subterms(x)):
            return 'unk'
    zero = n is const(0) or entails(facts, eq0(n))
    nz = (cval(n) or 0) > 0 or entails(facts, gt0(n))
    if zero:
        if not (cval(d) == 1 or entails(facts, eq0(sub(d, const(1))))):
            return 'zero keeps the denominator %s' % show(d)
        if s is not TRUE and s not in facts:
            return 'zero keeps the sign %s' % show(s)
        return None
    if n.op == 'proj' and d.op == 'proj' and n.args[0] is d.args[0] and is_given(n.args[0]) and n is R.f(n.args[0], 'N') and d is R.f(n.args[0], 'D'):
        if s is TRUE or s is R.f(n.args[0], 'S') or nz:
            return None
        return 'zero may get the sign %s' % show(s)
    if cval(d) == 1:
        return None if nz or s is TRUE else 'zero may get the sign %s' % show(s)
    if n.op == 'int' and d.op == 'int':
        import math
        return None if d.args[0] > 0 and math.gcd(int(n.args[0]), int(d.args[0])) == 1 else 'the constant %s/%s is not in lowest terms' % (show(n), show(d))
    if n.op == 'idiv' and d.op == 'idiv' and n.args[1] is d.args[1] and n.args[1].op == 'gcd' and n.args[1].args[0] == frozenset((n.args[0], d.args[0])):
        if s is TRUE or entails(facts, gt0(n.args[0])) or entails(facts, lnot(eq0(n.args[0]))) or lnot(eq0(n.args[0])) in facts:
            return None
        return 'zero may get the sign %s' % show(s)
    return 'numerator %s and denominator %s are not both divided by their greatest common divisor' % (show(n)[:200], show(d)[:200])


def check_T05(prog, rep):
    ck = Checker(prog, rep, budget=60000)
    rep.rule('every public operation that yields a rational yields one in lowest terms with a positive denominator and a non-negative zero, given that its arguments are')
    rep.rule('the number an operation yields is the exact sum, difference, product, quotient, negative or absolute value of its arguments, as rational functions of their fields')
    rep.rule('comparison orders rationals by value; compound assignment and iterated sums and products agree with the binary operations')
    rep.assumptions.append('fixed-width products and sums do not overflow (debug builds panic, release builds wrap)')
    R = Rat(ck)
    if not R.ok:
        return
    a0, a1 = mk('arg', 0), mk('arg', 1)

    def get(name, trait=''):
        q = dict(crate='alg', name=name, implself=RAT)
        return ck.one('Rational::' + name, pred=lambda f: (base_trait(f).endswith(trait) if trait else not f.trait)
                      and not any('lin_alg' in i for i in f.d['inputs']), **q)

    # ---- lowest terms and exact value of the representation-level operations
    v0, v1 = R.value(a0), R.value(a1)
    table = [('add', 'std::ops::Add', add(v0, v1)), ('mul', 'std::ops::Mul', mul(v0, v1)), ('div', 'std::ops::Div', div(v0, v1)),
             ('neg', 'std::ops::Neg', neg(v0)), ('abs', '', None), ('new', '', None), ('from', '', None),
             ('zero', 'Zero', const(0)), ('one', 'One', const(1))]
    for name, trait, want in table:
        fn = get(name, trait)
        if fn is None:
            continue
        one_op(R, ck, fn, name, want)
    # ---- outside view
    ck2 = Checker(prog, rep, prims=[algebra])
    for name, trait, f in (('sub', 'std::ops::Sub', sub), ('add_assign', 'AddAssign', add), ('sub_assign', 'SubAssign', sub),
                           ('mul_assign', 'MulAssign', mul), ('div_assign', 'DivAssign', div)):
        fn = get(name, trait)
        if fn is None:
            continue
        r = ck2.run(fn)
        if r is None or r.state is None:
            continue
        got = r.ret if name == 'sub' else r.state.get(('P', 0), a0)
        if is_adt(got, RAT) or got.op == 'upd':
            # written out on the fields instead of through the operators
            one_op(R, ck, fn, name, {'sub': sub(v0, v1)}.get(name) or {add: add(v0, v1), sub: sub(v0, v1), mul: mul(v0, v1), div: div(v0, v1)}[f], got)
            continue
        ck2.value(fn, 'value', got, f(a0, a1))
    for name, trait, kind in (('sum', 'std::iter::Sum', 'sum'), ('product', 'std::iter::Product', 'prod')):
        fn = get(name, trait)
        if fn is None:
            continue
        r = ck2.run(fn)
        if r is not None and r.ret is not None:
            fold(ck2, fn, r, kind)
    fn = get('into', 'Into')
    if fn is not None:
        r = ck.run(fn)
        q = div(mk('cast', 'f64', R.f(a0, 'N')), mk('cast', 'f64', R.f(a0, 'D')))
        ck.value(fn, 'value', r.ret, ite(R.f(a0, 'S'), q, neg(q)))
    # ---- order
    fn = get('cmp', 'std::cmp::Ord')
    if fn is not None:
        order(R, ck, fn)
    fn = get('partial_cmp', 'std::cmp::PartialOrd')
    if fn is not None:
        r = ck2.run(fn) if False else Checker(prog, rep, opaque=lambda f: f.name == 'cmp').run(fn)
        t = r.ret
        ok = is_adt(t, 'std::option::Option') or (t.op == 'agg' and t.args[0][-1] == 'Some')
        inner = t.args[1] if ok and len(t.args) > 1 else None
        rep.require(fn.label() + ':agrees with cmp', inner is not None and inner.op in ('call', 'cmp', 'icmp') and _cmp_args(inner) == (a0, a1),
                    'partial comparison is not the total comparison of the same two numbers: ' + show(t)[:200], ck.where(fn))
    # ---- stores to the fields stay inside the operations checked above
    for fn in prog.fns.values():
        if fn.body is None or fn.crate == 'alg' and fn.d.get('modpath', '').startswith('commutative'):
            continue
        for b in fn.body['blocks']:
            for s in b.get('stmts', []):
                txt = str(s)
                if "'Rational'" in txt and 'agg' in txt:
                    rep.require(fn.label() + ':makes a rational', False, 'a rational is built directly from its fields', ck.where(fn))


def _cmp_args(t):
    a = t.args[1] if t.op == 'call' else t.args
    out = []
    for x in a:
        while isinstance(x, Term) and x.op in ('rv', 'rvalue'):
            x = x.args[0]
        out.append(x)
    return tuple(out)


def one_op(R, ck, fn, name, want, got=None):
    rep = ck.rep
    r = ck.run(fn)
    if r is None or r.ret is None:
        rep.require(fn.label() + ':returns', r is None, 'never returns', ck.where(fn))
        return
    got = got if got is not None else r.ret
    base = arg_facts(R, fn)
    a0, a1 = mk('arg', 0), mk('arg', 1)
    if name == 'new':
        want = div(a0, a1)
        base += []
    if name == 'from':
        want = a0
    if name == 'abs':
        want = div(R.f(a0, 'N'), R.f(a0, 'D'))
    if name in ('new', 'div'):
        nz = lnot(eq0(a1)) if name == 'new' else gt0(R.f(a1, 'N'))
        # a zero divisor never yields a number: with it, no return condition is satisfiable
        fs = [lnot(nz)]
        if name == 'div':
            fs += [eq0(sub(R.f(a1, 'D'), const(1))), R.f(a1, 'S'), gt0(R.f(a0, 'D'))]
        bad = False
        for c in r.pc:
            c2 = [subst(subst_facts(l, fs), {mk('isv', a1, 0): TRUE}) for l in c]
            if any(l is FALSE for l in c2) or contradictory(fs + [l for l in c2 if l is not TRUE]):
                continue
            bad = True
        rep.require(fn.label() + ':zero divisor rejected', not bad, 'a zero divisor does not always panic', ck.where(fn))
        base.append(nz)
    conds_ = [list(c) for c in r.pc] or [[]]
    n = 0
    for c in conds_:
        facts = base + c
        if contradictory(facts):
            continue
        cs = cases([got], facts)
        if cs is None:
            rep.count('undecided')
            continue
        for fs, (t,) in cs:
            fs = fs + R.orders(fs)
            if contradictory(fs):
                continue
            n += 1
            why = canonical(R, t, fs)
            if why == 'unk':
                rep.count('undecided')
                continue
            rep.require(fn.label() + ':lowest terms', why is None, 'in the case %s: %s' % (show_case(fs)[:300], why), ck.where(fn))
            if want is None or why is not None:
                continue
            same_value(R, ck, fn, t, want, fs, name)
    rep.count('cases', n)


def subst_facts(l, fs):
    m = {}
    for f in fs:
        m[f] = TRUE
        m[lnot(f)] = FALSE
        if f.op in ('proj',):
            m[f] = TRUE
    return subst(l, m)


def same_value(R, ck, fn, t, want, fs, name):
    rep = ck.rep
    got = R.value(t)
    d = sub(got, want)
    # remaining gates: signs and absolute values of machine integers
    cs = cases([d], fs)
    if cs is None:
        rep.count('undecided')
        return
    for f2, (x,) in cs:
        for sgn in sign_cases(x, f2):
            f3, y = sgn
            f3 = f3 + R.orders(f3)
            if contradictory(f3):
                continue
            y = R.exact(y)
            for x0 in sorted({a for a in subterms(y) if a.op in ('arg', 'proj')}, key=skey):
                if entails(f3, eq0(x0)) and safe_subst(y, x0) is not None:
                    y = safe_subst(y, x0)
                    break
            zero = y is const(0)
            if not zero:
                for f in f3:
                    if f.op == 'eq0':
                        y2 = subst_eq(f.args[0], y)
                        if y2 is const(0):
                            zero = True
                    z = lnot(f)
                    if z.op == 'gt0' and z.args[0].nn:     # not (x > 0): x is 0
                        if safe_subst(y, z.args[0]) is const(0):
                            zero = True
            if not zero and any(s.op in UNDECIDED for s in subterms(y)):
                rep.count('undecided')
                continue
            if not zero and f_zero(y, f3, R):
                zero = True
            rep.require(fn.label() + ':exact value', zero, 'in the case %s the value is off by %s' % (show_case(f3)[:300], show(y)[:300]), ck.where(fn))
    # an unsigned difference must not be negative
    n = R.f(t, 'N')
    src = n.args[0] if n.op == 'idiv' else n
    p = to_poly(src)
    if any(c < 0 for c in p.values()) and not any(x.op in ('abs',) for x in subterms(src)):
        q = R.exact(src)
        g = [x for x in subterms(q) if x.op == 'gcd']
        for x in sorted(set(g), key=skey):
            if contains(q, lambda z: z is x):
                q = mul(q, x)
        goal = gt0(add(q, const(1)))
        rep.require(fn.label() + ':difference not negative', entails(fs, goal), 'the larger absolute value is not the one subtracted from in the case %s' % show_case(fs)[:300], ck.where(fn))


def safe_subst(y, x):
    try:
        return subst(y, {x: const(0)})
    except Exception:
        return None


def f_zero(y, fs, R=None):
    """y is zero once an equation among the facts is solved for one of its unknowns (coefficients being non-zero monomials)."""
    eqs = []
    for f in fs:
        g = lnot(f)
        if f.op == 'eq0':
            eqs.append(f.args[0])
        elif g.op == 'gt0' and nonneg_poly(g.args[0]):
            eqs.append(g.args[0])
    for e in eqs:
        p = to_poly(R.exact(e) if R else e)
        atoms_ = {x for m in p for x, k in m if k > 0}
        for x in sorted(atoms_, key=skey):
            co, rest, ok = {}, {}, True
            for m, c in p.items():
                d = dict(m)
                k = d.pop(x, 0)
                if k == 0:
                    rest[m] = c
                elif k == 1:
                    co[tuple(sorted(d.items(), key=lambda a: skey(a[0])))] = c
                else:
                    ok = False
            if not ok or len(co) != 1 or any(contains(a, lambda z: z is x) for m in rest for a, _ in m):
                continue
            (m, c), = co.items()
            a = from_poly({m: c})
            v = neg(div(from_poly(rest), a))
            try:
                if subst(y, {x: v}) is const(0):
                    return True
            except Exception:
                pass
    return False


def nonneg_poly(p):
    return all(c >= 0 and all(nonneg(x) for x, _ in m) for m, c in to_poly(p).items())


def sign_cases(x, fs):
    """|a| is a or -a."""
    ab = sorted({y for y in subterms(x) if y.op == 'abs'}, key=skey)
    out = [(list(fs), x)]
    for a in ab:
        nxt = []
        for f, t in out:
            v = a.args[0]
            for cond, val in ((gt0(add(v, const(1))), v), (gt0(neg(v)), neg(v))):
                f2 = f + [cond]
                m = {a: val}
                f3 = [subst(l, m) for l in f2]
                if any(l is FALSE for l in f3) or contradictory([l for l in f3 if l is not TRUE]):
                    continue
                nxt.append(([l for l in f3 if l is not TRUE], subst(t, m)))
        out = nxt
    return out


def fold(ck, fn, r, kind):
    """The result of an iterated operation: every item, combined once, starting from the neutral element."""
    t = alpha(r.ret)
    key = fn.label() + ':fold'
    if t.op == kind:
        iv, bs, v = t.args
        rest = [b for b in bs if not contains(b, lambda x: x.op in ('len', 'more', 'itlen', 'count'))]
        ck.rep.require(key, v.op in ('proj', 'item') and not rest, 'not the %s of all items: %s' % (kind, show(t)[:200]), ck.where(fn))
        return
    if any(x.op in ('phi', 'join', 'item') for x in subterms(t)):
        ck.rep.count('undecided')
        ck.rep.require(key + ' neutral', not (t.op == 'phi' and cval(t.args[2]) not in (None, 0 if kind == 'sum' else 1)), 'starts from %s' % show(t), ck.where(fn))
        return
    ck.rep.require(key, False, 'not the %s of all items: %s' % (kind, show(t)[:200]), ck.where(fn))


def order(R, ck, fn):
    rep = ck.rep
    r = ck.run(fn)
    if r is None or r.ret is None:
        return
    a0, a1 = mk('arg', 0), mk('arg', 1)
    base = arg_facts(R, fn)
    S0, S1 = R.f(a0, 'S'), R.f(a1, 'S')
    cross = [mul(R.f(a0, 'N'), R.f(a1, 'D')), mul(R.f(a1, 'N'), R.f(a0, 'D'))]
    cs = cases([r.ret], base)
    if cs is None:
        rep.count('undecided')
        return
    for fs, (t,) in cs:
        for s0 in (True, False):
            for s1 in (True, False):
                f2 = fs + [S0 if s0 else lnot(S0), S1 if s1 else lnot(S1)]
                if contradictory(f2):
                    continue
                u = under(under(t, S0, s0), S1, s1)
                if s0 != s1:
                    # zero is never negative
                    want = 2 if s0 else 0
                    ok = u.op == 'agg' and u.args[0][2] == want
                    rep.require(fn.label() + ':signs differ', ok, 'orders a %s number %s' % ('non-negative' if s0 else 'negative', show(u)), ck.where(fn))
                    continue
                if u.op not in ('icmp', 'cmp'):
                    if any(x.op in UNDECIDED for x in subterms(u)):
                        rep.count('undecided')
                    else:
                        rep.require(fn.label() + ':same sign', False, 'equal signs are ordered %s' % show(u)[:200], ck.where(fn))
                    continue
                x, y = (R.exact(z) for z in u.args)
                lo, hi = cross if s0 else cross[::-1]
                ok = sub(mul(x, hi), mul(y, lo)) is const(0)
                rep.require(fn.label() + ':same sign', ok, 'compares %s with %s when both are %s' % (show(x), show(y), 'non-negative' if s0 else 'negative'), ck.where(fn))
