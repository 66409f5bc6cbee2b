"""T26: integer Euclidean division, normal associates, primality, greatest common divisors and Bezout coefficients."""
from spec import *
import absint, itertools, rational

INTS = ('isize', 'i8', 'i16', 'i32', 'i64', 'i128')
FIELDS = ('f64', rational.RAT)


def pid(ck, t, name):
    return ck.one('%s::%s' % (t, name), crate='alg', name=name, implself=t, trait='PID')


def check_T26(prog, rep):
    ck = Checker(prog, rep)
    rep.rule('integer division with remainder: dividend = divisor*quotient + remainder and 0 <= remainder < |divisor| on every returning path, for all six integer types')
    rep.rule('the normal associate is the absolute value together with the unit of the sign; over a field it is the value itself with unit one')
    rep.rule('gcd and Bezout recursion: every call preserves the ideal / the linear-combination invariant, the base case returns the normal associate')
    a0, a1 = mk('arg', 0), mk('arg', 1)
    for t in INTS:
        fn = pid(ck, t, 'euclid_div')
        if fn is not None:
            division(ck, fn)
        fn = pid(ck, t, 'simplify')
        if fn is not None:
            r = ck.run(fn)
            if r is not None:
                neg_ = gt0(neg(a0))
                ck.value(fn, 'unit', proj(r.ret, ('f', 0)), ite(neg_, const(-1), const(1)), pc=r.pc)
                ck.value(fn, 'associate', unabs(proj(r.ret, ('f', 1))), ite(neg_, neg(a0), a0), pc=r.pc)
        fn = pid(ck, t, 'is_prime')
        if fn is not None:
            prime(ck, fn)
        prime_factors(prog, ck, t)
        for n, v, tr in (('zero', 0, 'Zero'), ('one', 1, 'One')):
            fn = ck.one('%s::%s' % (t, n), crate='alg', name=n, implself=t, trait=tr)
            if fn is not None:
                ck.value(fn, 'value', ck.run(fn).ret, const(v))
    ck2 = Checker(prog, rep, prims=[rational.algebra])
    for t in FIELDS:
        fn = pid(ck, t, 'euclid_div')
        if fn is not None:
            r = ck2.run(fn)
            ck.value(fn, 'quotient', proj(r.ret, ('f', 0)), div(a0, a1))
            ck.value(fn, 'remainder', proj(r.ret, ('f', 1)), const(0))
        fn = pid(ck, t, 'simplify')
        if fn is not None:
            r = ck2.run(fn)
            ck.value(fn, 'unit times associate', mul(proj(r.ret, ('f', 0)), proj(r.ret, ('f', 1))), a0)
        for n, v, tr in (('zero', 0, 'Zero'), ('one', 1, 'One')):
            fn = ck.one('%s::%s' % (t, n), crate='alg', name=n, implself=t, trait=tr)
            if fn is not None:
                ck.value(fn, 'value', ck2.run(fn).ret if t == 'f64' else ck2.run(fn).ret if not is_adt(ck2.run(fn).ret, t) else const(v), const(v))
    fn = ck.one('PID::divides', crate='alg', name='divides', path='commutative::PID::divides')
    if fn is not None:
        r = ck.run(fn)
        want = None
        c = [x for x in subterms(r.ret) if x.op == 'call' and x.args[0].endswith('PID::euclid_div')]
        ok = len(c) == 1 and c[0].args[1] == (a1, a0) and r.ret is eq0(proj(c[0], ('f', 1)))
        if c:
            rep.require(fn.label() + ':remainder zero', ok, 'a divides n is not "n leaves remainder zero by a": %s' % show(r.ret), ck.where(fn))
        else:
            rep.count('undecided')
    recursion(ck, prog)


def unabs(t):
    m = {}
    for x in subterms(t):
        if x.op == 'abs':
            v = x.args[0]
            m[x] = ite(gt0(neg(v)), neg(v), v)
    return subst(t, m) if m else t


def division(ck, fn):
    rep = ck.rep
    r = ck.run(fn)
    if r is None or r.ret is None:
        return
    a0, a1 = mk('arg', 0), mk('arg', 1)
    q0, r0 = mk('idiv', a0, a1), mk('irem', a0, a1)
    # the one quotient that does not fit the type panics
    lim = {}
    for x in subterms(mk('agg', ('tuple',), r.ret, absint.dnf_term(r.pc))):
        if x.op == 'eq0' and any(m == () and abs(c) > 100 for m, c in to_poly(x.args[0]).items()):
            lim[x] = FALSE
    ret = subst(r.ret, lim)
    for c in r.pc:
        c = [subst(l, lim) for l in c]
        if any(l is FALSE for l in c):
            continue
        cs = cases([proj(ret, ('f', 0)), proj(ret, ('f', 1))], [l for l in c if l is not TRUE])
        if cs is None:
            rep.count('undecided')
            continue
        for fs, (q, m) in cs:
            for d in (gt0(a1), gt0(neg(a1))):
                f2 = fs + [d]
                absd = a1 if d is gt0(a1) else neg(a1)
                # truncated division: |remainder| < |divisor|, remainder has the sign of the dividend
                f2 += [gt0(sub(absd, r0)), gt0(add(absd, r0))]
                if contradictory(f2):
                    continue
                if any(x.op in UNDECIDED for t in (q, m) for x in subterms(t)):
                    rep.count('undecided')
                    continue
                q_, m_ = expand(q, a0, a1, d is gt0(a1)), expand(m, a0, a1, d is gt0(a1))
                if q_ is None or m_ is None:
                    rep.count('undecided')
                    continue
                f2 = [subst(f, {r0: sub(a0, mul(q0, a1))}) for f in f2]
                if any(f is FALSE for f in f2) or contradictory([f for f in f2 if f is not TRUE]):
                    continue
                f2 = [f for f in f2 if f is not TRUE]
                q_, m_ = (subst(x, {r0: sub(a0, mul(q0, a1))}) for x in (q_, m_))
                ident = subst(sub(add(mul(a1, q_), m_), a0), {r0: sub(a0, mul(q0, a1))})
                if ident is not const(0) and entails(f2, eq0(sub(ident, const(0)))):
                    ident = const(0)
                for f in f2:
                    if f.op == 'eq0':
                        ident = subst_eq(f.args[0], ident)
                rep.require(fn.label() + ':identity', ident is const(0), 'divisor*quotient + remainder differs from the dividend by %s in the case %s' % (show(ident), show_case(f2)[:300]), ck.where(fn))
                rep.require(fn.label() + ':remainder not negative', entails(f2, gt0(add(m_, const(1)))), 'the remainder %s may be negative in the case %s' % (show(m_), show_case(f2)[:300]), ck.where(fn))
                rep.require(fn.label() + ':remainder small', entails(f2, gt0(sub(absd, m_))), 'the remainder %s may reach |divisor| in the case %s' % (show(m_), show_case(f2)[:300]), ck.where(fn))


def expand(t, a0, a1, pos):
    """Library Euclidean division and absolute values."""
    m = {}
    for x in subterms(t):
        if x.op == 'abs' and x.args[0] is a1:
            m[x] = a1 if pos else neg(a1)
        if x.op in ('call', 'fn1', 'fn2') and 'euclid' in str(x.args[0]):
            return None
    return subst(t, m) if m else t


def prime(ck, fn):
    r = ck.run(fn)
    if r is None or r.ret is None:
        return
    a0 = mk('arg', 0)
    n = ite(gt0(neg(a0)), neg(a0), a0)
    got = unabs(r.ret)
    for facts, v in (([gt0(neg(a0))], neg(a0)), ([gt0(add(a0, const(1)))], a0)):
        cs = cases([got], facts)
        if cs is None:
            ck.rep.count('undecided')
            continue
        iv = mk('iv', 'p')
        want = land(lnot(eq0(v)), lnot(eq0(sub(v, const(1)))),
                    lnot(mk('any', iv, land(gt0(sub(v, add(iv, const(2)))), eq0(mk('irem', v, add(iv, const(2))))))))
        for fs, (t,) in cs:
            t, w = alpha(under_all(t, fs)), alpha(under_all(want, fs))
            if t is w:
                ck.rep.require(fn.label() + ':primality', True, '')
                continue
            an = [x for x in subterms(t) if x.op == 'any']
            if any(x.op in UNDECIDED for x in subterms(t)) or any(nonlinear(x) for x in an):
                ck.rep.count('undecided')
                continue
            res = decide_eq(t, w, fs)
            ck.rep.require(fn.label() + ':primality', res[0] != 'ne', 'a number is called prime when %s, in the case %s' % (show(t)[:300], show_case(fs)), ck.where(fn))


def prime_factors(prog, ck, t):
    fn = pid(ck, t, 'n_prime_factors')
    if fn is None:
        return
    rep = ck.rep
    a0, n = mk('arg', 0), mk('sym', 'n')

    def prim(I, op, name, f, args, st, pc, at):
        if f is not None and f.name == 'is_prime' and len(args) == 1:
            return mk('isprime', absint_val(I, st, args[0])), st, pc
        if f is not None and f.name == 'simplify' and len(args) == 1 and args[0] is a0:
            return mk('agg', ('tuple',), mk('sym', 'unit'), n), st, pc
        return NotImplemented
    c2 = Checker(ck.prog, rep, prims=[prim])
    r = c2.run(fn)
    if r is None or r.ret is None:
        return
    p0 = [x for x in subterms(r.ret) if x.op == 'isprime' and x.args[0] in (a0, n)]
    cs = cases([r.ret], [])
    if cs is None or not p0:
        rep.count('undecided')
        return
    for fs, (t,) in cs:
        t = under_all(t, fs)
        if any(c in p0 for c in fs):
            ck.value(fn, 'a prime has one prime factor', t, const(1), fs)
            continue
        if t.op == 'poly' and any(x.op == 'sum' for x in subterms(t)):
            rep.require(fn.label() + ':factors', False, 'the count is %s' % show(t)[:300], ck.where(fn))
            continue
        if t.op != 'sum' or t.args[2].op != 'first':
            if t.op in ('sum', 'int'):
                rep.require(fn.label() + ':factors', False, 'the count is %s' % show(t)[:300], ck.where(fn))
            else:
                rep.count('undecided')
            continue
        iv, bs, v = t.args
        rep.require(fn.label() + ':primes only', mk('isprime', iv) in bs, 'divisors that are not prime are counted: %s' % show(t)[:300], ck.where(fn))
        rest = [b for b in bs if b is not mk('isprime', iv) and b is not eq0(mk('irem', n, iv)) and not (b.op == 'gt0' and not contains(b, lambda y: y.op not in ('int', 'poly', 'sym', 'iv', 'gt0')))]
        if rest:
            odd = [b for b in rest if lnot(b) is eq0(mk('irem', n, iv)) or b is lnot(mk('isprime', iv)) or contains(b, lambda y: y.op in ('irem', 'idiv'))]
            if odd:
                rep.require(fn.label() + ':divisors', False, 'the primes counted are those with %s' % show(odd[0]), ck.where(fn))
            else:
                rep.count('undecided')
        phis = [x for x in subterms(v.args[1]) if x.op == 'phi']
        if len(phis) != 1:
            rep.count('undecided')
            continue
        ph = phis[0]
        L = r.interp.loop_objs.get(ph.args[0])
        nx = L.next.get(ph) if L is not None else None
        if nx is None:
            rep.count('undecided')
            continue
        rep.require(fn.label() + ':multiplicity', lnot(v.args[1]) is eq0(mk('irem', ph, iv)) and ph.args[2] is n and nx is mk('idiv', ph, iv),
                    'the multiplicity of a prime p counts the steps x -> %s from %s until %s' % (show(nx), show(ph.args[2]), show(v.args[1])), ck.where(fn))


def absint_val(I, st, a):
    import models
    return models.val(I, st, a)


def nonlinear(x):
    b = x.args[0]
    for l in flat(x.args[1]):
        if l.op == 'gt0' and any(y.op not in ('arg', 'bv', 'iv', 'int', 'poly', 'gt0') for y in subterms(l)):
            return True
        if l.op == 'gt0':
            for m, c in to_poly(l.args[0]).items():
                d = sum(e for y, e in m if contains(y, lambda z: z is b))
                if d > 1:
                    return True
    return False


def under_all(t, fs):
    for f in fs:
        g = f.args[0] if f.op == 'not' else f
        t = under(t, g, f.op != 'not')
    return t


def recursion(ck, prog):
    rep = ck.rep
    a0, a1 = mk('arg', 0), mk('arg', 1)
    for name in ('gcd', 'bezout_identity'):
        fn = ck.one(name, crate='alg', name=name, pred=lambda f: f.path.startswith('commutative::') and not f.implself)
        if fn is None:
            continue
        helpers = [f for f in prog.fns.values() if f.crate == 'alg' and f.path.startswith('commutative::') and not f.implself and f.kind != 'closure' and f.key != fn.key]
        c2 = Checker(prog, rep, opaque=lambda f: f in helpers)
        r = c2.run(fn)
        if r is None or r.ret is None:
            continue
        rec = fn
        if r.ret.op == 'call' and any(h.label() == r.ret.args[0] for h in helpers):
            rec = [h for h in helpers if h.label() == r.ret.args[0]][0]
            start = r.ret.args[1]
            r = c2.run(rec)
        elif name == 'bezout_identity':
            rep.count('undecided')
            continue
        calls_ = {x for x in subterms(r.ret) if x.op == 'call' and x.args[0] == rec.label()}
        if len(calls_) != 1:
            rep.count('undecided')
            continue
        cs = cases([r.ret], [])
        if cs is None:
            rep.count('undecided')
            continue
        rep.require(rec.label() + ':stops', any(t.op != 'call' for fs, (t,) in cs), 'every path recurs', ck.where(rec))
        for fs, (t,) in cs:
            if name == 'gcd':
                step_gcd(ck, fn, rec, fs, t)
        if name == 'bezout_identity':
            if len(start) != 6:
                rep.count('undecided')
                continue
            best = None
            for p in itertools.permutations(range(2, 6)):
                # the two numbers passed on are the combinations passed with them
                c = [start[i] for i in p]
                if start[0] is not add(mul(a0, c[0]), mul(a1, c[2])) or start[1] is not add(mul(a0, c[1]), mul(a1, c[3])):
                    continue
                errs = [e for fs, (t,) in cs for e in step_bezout(rec, fs, t, p)]
                if best is None or len(errs) < len(best):
                    best = errs
            rep.require(rec.label() + ':start', best is not None, 'the recursion does not start from two numbers and their combinations: %s' % show(start), ck.where(fn))
            if best is not None:
                if any(e == 'unk' for e in best):
                    rep.count('undecided')
                else:
                    rep.require(rec.label() + ':linear combination', not best, '; '.join(best)[:600], ck.where(rec))


def rem_to_poly(t, fs):
    """Remainders of the division contract written as dividend - quotient*divisor."""
    for _ in range(4):
        m = {}
        for x in subterms(t):
            if x.op == 'proj' and x.args[1] == ('f', 1) and x.args[0].op == 'call' and x.args[0].args[0].endswith('euclid_div'):
                n, d = x.args[0].args[1]
                m[x] = sub(n, mul(proj(x.args[0], ('f', 0)), d))
        if not m:
            return t
        t = subst(t, m)
    return t


def step_gcd(ck, fn, rec, fs, t):
    rep = ck.rep
    a0, a1 = mk('arg', 0), mk('arg', 1)
    if t.op == 'call' and t.args[0] == rec.label():
        x, y = (rem_to_poly(z, fs) for z in t.args[1])
        q = [z for z in subterms(t) if z.op == 'call' and z.args[0].endswith('euclid_div')]
        ok = False
        for u, v in ((x, y), (y, x)):
            for b, c in ((a0, a1), (a1, a0)):
                d = sub(v, c)
                if u is b and all(any(z is b for z, e in m) for m in to_poly(d)):
                    ok = True
        for i, z in ((0, a0), (1, a1)):
            if lnot(eq0(z)) in fs:
                # the number whose vanishing stops the recursion
                rep.require(rec.label() + ':descends', t.args[1][i] not in (a0, a1), 'the recursion on %s never reaches zero' % show(t.args[1]), ck.where(rec))
        rep.require(rec.label() + ':same divisors', ok, 'gcd(a, b) is taken from gcd%s' % show(t.args[1]), ck.where(rec))
    else:
        ok = t.op == 'proj' and t.args[1] == ('f', 1) and t.args[0].op == 'call' and t.args[0].args[0].endswith('simplify')
        if not ok and (t.op in ('call', 'abs') or any(z.op in UNDECIDED for z in subterms(t))):
            rep.count('undecided')
            return
        arg = t.args[0].args[1][0] if ok else None
        other = {a0: a1, a1: a0}.get(arg)
        rep.require(rec.label() + ':base', ok and other is not None and entails(fs, eq0(other)), 'stops with %s in the case %s' % (show(t), show_case(fs)), ck.where(rec))


def unit_squares(t, u):
    """u*u = 1 in a polynomial."""
    out = {}
    for m, c in to_poly(t).items():
        m2 = tuple((x, e) for x, e in ((x, e % 2 if x is u else e) for x, e in m) if e)
        out[m2] = out.get(m2, 0) + c
    return from_poly({m: c for m, c in out.items() if c})


def step_bezout(rec, fs, t, p):
    x1, x2, y1, y2 = (mk('arg', i) for i in p)
    a, b = mk('arg', 0), mk('arg', 1)
    A_, B_ = mk('sym', 'A'), mk('sym', 'B')
    if t.op == 'call' and t.args[0] == rec.label():
        n = [rem_to_poly(z, fs) for z in t.args[1]]
        q = {z for z in subterms(mk('agg', ('tuple',), *n)) if z.op == 'proj' and z.args[0].op == 'call' and z.args[0].args[0].endswith('euclid_div')}
        m = {z: mk('sym', 'q', i) for i, z in enumerate(sorted(q, key=skey))}
        n = [subst(z, m) for z in n]
        N = dict(zip(p, (n[i] for i in p)))
        inv = {a: add(mul(A_, x1), mul(B_, y1)), b: add(mul(A_, x2), mul(B_, y2))}
        out = []
        for w, (u, v) in (('first', (p[0], p[2])), ('second', (p[1], p[3]))):
            val = n[0] if w == 'first' else n[1]
            d = subst(sub(val, add(mul(A_, N[u]), mul(B_, N[v]))), inv)
            if d is not const(0):
                out.append('the %s number passed on is not the combination passed with it (off by %s)' % (w, show(d)))
        return out
    if t.op == 'agg' and len(t.args) == 4:
        u = mk('sym', 'unit')      # 1 or -1

        def go(z):
            for _ in range(3):
                m = {}
                for s in subterms(z):
                    if s.op == 'proj' and s.args[0].op == 'call' and s.args[0].args[0].endswith('simplify'):
                        m[s] = u if s.args[1] == ('f', 0) else mul(s.args[0].args[1][0], u)
                z = subst(z, m)
                m = {}
                for s in subterms(z):
                    if s.op == 'proj' and s.args[0].op == 'call' and s.args[0].args[0].endswith('euclid_div'):
                        k, d = s.args[0].args[1]
                        if d is u:
                            m[s] = mul(k, u) if s.args[1] == ('f', 0) else const(0)
                        elif not contains(k, lambda y: y.op == 'call') and not contains(d, lambda y: y.op == 'call'):
                            m[s] = mk('sym', 'division', s.args[1], k, d)
                z = subst(z, m)
            return unit_squares(z, u)
        g, x, y = (go(z) for z in t.args[1:])
        if any(z.op == 'call' for w in (g, x, y) for z in subterms(w)):
            return ['unk']
        d = subst(sub(g, add(mul(A_, x), mul(B_, y))), {b: add(mul(A_, x2), mul(B_, y2)), a: add(mul(A_, x1), mul(B_, y1))})
        out = []
        if unit_squares(d, u) is not const(0):
            out.append('the result (%s) is not the combination returned with it (off by %s)' % (show(t)[:200], show(d)))
        if not entails(fs, eq0(a)) and not entails(fs, eq0(b)):
            out.append('stops before a remainder is zero')
        if g is not mul(b, u) and g is not mul(a, u):
            out.append('returns %s as the divisor' % show(g))
        return out
    return ['unk']
