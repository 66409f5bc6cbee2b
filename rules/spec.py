"""Comparing computed summaries with specifications: case analysis over gate conditions + normal forms."""
import re
from terms import *
from absint import *
import absint, terms

UNDECIDED = {'phi', 'join', 'undef', 'uninit', 'iterstate', 'iteradv', 'iterstate2', 'rvalue', 'deref_unknown', 'post', 'rank', 'count', 'itused', 'it_opaque',
             'bin', 'un', 'constv', 'item', 'more', 'frow', 'fcol', 'transmute', 'sorted_unknown'}


def conds(t, out, seen):
    """Atomic gate conditions in t."""
    for x in subterms(t, seen):
        if x.op == 'ite':
            latoms(x.args[0], out)
        elif x.op in ('and', 'or', 'not') or is_bool(x):
            latoms(x, out)


def latoms(c, out):
    if c.op in ('and', 'or'):
        for x in c.args[0]:
            latoms(x, out)
    elif c.op == 'not':
        latoms(c.args[0], out)
    elif c.op == 'ite':
        latoms(c.args[0], out)
        latoms(c.args[1], out)
        latoms(c.args[2], out)
    elif c.op != 'bool':
        out.add(orient(c)[0] if c.op == 'gt0' else c)


def under(t, c, val, memo=None):
    """t simplified with the atomic condition c fixed."""
    m = {c: TRUE if val else FALSE}
    n = lnot(c)
    m[n] = FALSE if val else TRUE
    t2 = subst(t, m)
    if c.op == 'eq0' and val:
        t2 = subst_eq(c.args[0], t2)
    if c.op == 'bit':
        d, k = c.args
        t2 = subst(t2, {mk('setbit', d, k, TRUE if val else FALSE): d})
    return t2


def subst_eq(p, t):
    pp = to_poly(p)
    lin = [(m[0][0], c) for m, c in pp.items() if len(m) == 1 and m[0][1] == 1]
    for x, c in sorted(lin, key=lambda xc: skey(xc[0]), reverse=True):
        rest = from_poly({m: -k / c for m, k in pp.items() if m != ((x, 1),)})
        if contains(rest, lambda y: y is x):
            continue
        return subst(t, {x: rest})
    return t


def infeasible(facts):
    lin = [f for f in facts if f.op in ('gt0', 'eq0')]
    return lin_implies(lin, FALSE_LIN) if lin else False


FALSE_LIN = None


def contradictory(facts):
    fs = frozenset()
    for f in facts:
        fs = conj_add(fs, f)
        if fs is None:
            return True
    rows = [f for f in facts if f.op in ('gt0', 'eq0')]
    if not rows:
        return False
    g = mk('gt0', const(0))        # 0 > 0, unsatisfiable goal
    if lin_implies(rows, g):
        return True
    for f in facts:
        if f.op == 'not' and f.args[0].op == 'eq0' and lin_implies(rows, f.args[0]):
            return True
    return False


BINDERS = {'argbest', 'sum', 'prod', 'collect', 'any', 'cmap', 'fmap', 'first'}


def binders_of(t):
    if t.op == 'fmap':
        return None
    return (t.args[0],)


def alpha(t, memo=None):
    """Renames loop indices bound by summaries to canonical names, shifts them to start at zero offset."""
    memo = {} if memo is None else memo

    def maxbv(xs):
        d = -1
        for x in xs:
            for y in subterms(x):
                if y.op == 'bv':
                    d = max(d, y.args[0])
        return d

    def bv(k):
        b = mk('bv', k)
        b.nn = True
        return b

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        if isinstance(x, frozenset):
            return frozenset(go(a) for a in x)
        if not isinstance(x, Term):
            return x
        if x in memo:
            return memo[x]
        if x.op == 'fmap':
            init = go(x.args[0])
            es = []
            for ivs, bs, key, v in x.args[1]:
                es.append(canon_entry(ivs, frozenset(go(b) for b in bs), go(key), go(v)))
            r = mk('fmap', init, tuple(sorted(es, key=skey)))
        elif x.op in ('sum', 'prod'):
            iv, bs, v = x.args[0], frozenset(go(b) for b in x.args[1]), go(x.args[2])
            # conditions selecting the summand join the bounds
            neutral = const(0) if x.op == 'sum' else const(1)
            ch = True
            while ch and v.op == 'ite':
                ch = False
                if v.args[2] is neutral:
                    bs, v, ch = bs | set(flat(v.args[0])), v.args[1], True
                elif v.args[1] is neutral:
                    bs, v, ch = bs | set(flat(lnot(v.args[0]))), v.args[2], True
            r = binder1(x.op, iv, (bs, v), maxbv(list(bs) + [v]))
            if not contains(r, lambda y: y.op == 'bv' and y.args[0] == r.args[0].args[0]) if False else False:
                pass
        elif x.op in ('any', 'first'):
            r = binder1(x.op, x.args[0], (go(x.args[1]),), maxbv([go(x.args[1])]))
        elif x.op == 'collect':
            iv, n, cs, v = x.args[0], go(x.args[1]), frozenset(go(c) for c in x.args[2]), go(x.args[3])
            r = binder1('collect', iv, (n, cs, v), maxbv([n, v] + list(cs)))
        elif x.op == 'argbest':
            iv, n, cs, v = x.args[1], go(x.args[2]), frozenset(go(c) for c in x.args[3]), go(x.args[4])
            b = bv(maxbv([n, v] + list(cs)) + 1)
            r = mk('argbest', x.args[0], b, n, frozenset(subst(c, {iv: b}) for c in cs), subst(v, {iv: b}))
        elif x.op == 'poly' or x.op not in BINDERS:
            m = {}
            for a in direct(x):
                g = go(a)
                if g is not a:
                    m[a] = g
            r = subst(x, m) if m else x
        else:
            r = x
        memo[x] = r
        return r

    def direct(x):
        out = []

        def w(a):
            if isinstance(a, Term): out.append(a)
            elif isinstance(a, (tuple, frozenset)):
                for b in a: w(b)
        for a in x.args:
            w(a)
        return out

    def binder1(op, iv, parts, d):
        b = bv(d + 1)
        memo2 = {}
        return mk(op, b, *[ (frozenset(subst(y, {iv: b}) for y in p) if isinstance(p, frozenset) else subst(p, {iv: b})) for p in parts])

    def canon_entry(ivs, bs, key, v):
        d = maxbv(list(bs) + [v] + [k for k in key[1:]])
        ivs = list(ivs)
        m = {}
        newb = []
        n = d + 1
        for c in range(1, len(key)):
            e = key[c]
            for iv in ivs:
                co = to_poly(e).get(((iv, 1),), 0)
                if co in (1, -1) and iv not in m and not any(contains(sub(e, scale(iv, co)), lambda q: q is z) for z in ivs):
                    b = bv(n)
                    n += 1
                    expr = scale(sub(b, sub(e, scale(iv, co))), co)    # iv in terms of the coordinate
                    m[iv] = expr
                    newb.append(gt0(add(expr, const(1))))
                    break
        for iv in ivs:
            if iv not in m:
                m[iv] = bv(n)
                n += 1
        f = lambda t: subst(t, m)
        bs2 = set()
        for b in list(f(x) for x in bs) + newb:
            if b is not TRUE:
                bs2.add(b)
        return tuple(sorted((bv_ for bv_ in set(x for t in m.values() for x in subterms(t) if x.op == 'bv' and x.args[0] > d)), key=skey)), frozenset(bs2), tuple([key[0]] + [f(k) for k in key[1:]]), f(v)
    return go(t)


def decide_eq(a, b, facts=(), depth=0, budget=None):
    """'eq', 'ne' (with a witness case) or 'unk'."""
    if depth == 0:
        a, b = alpha(a), alpha(b)
    budget = budget if budget is not None else [4000]
    budget[0] -= 1
    if budget[0] < 0:
        return 'unk', facts
    if a is b:
        return 'eq', None
    # a fixed condition for both
    cs = set()
    top_conds(a, cs)
    top_conds(b, cs)
    cs = [c for c in cs if True]
    if not cs:
        # leaf
        if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            for x, y in zip(a.args[1:], b.args[1:]):
                r = decide_eq(x, y, facts, depth + 1, budget)
                if r[0] != 'eq':
                    return r
            return 'eq', None
        d = sub(a, b) if not is_bool(a) and not is_bool(b) and a.op not in ('agg', 'bool') and b.op not in ('agg', 'bool') else None
        if d is not None and d.op == 'int' and d.args[0] == 0:
            return 'eq', None
        if d is not None and d.op != 'int' and forced_zero(d, facts):
            return 'eq', None
        if a.op == 'proj' and b.op == 'proj' and a.args[0] is b.args[0] and a.args[1][0] == b.args[1][0] and len(a.args[1]) == len(b.args[1]) and a.args[1][0] in ('ix', 'ix2') \
                and all(x is y or forced_zero(sub(x, y), facts) for x, y in zip(a.args[1][1:], b.args[1][1:])):
            return 'eq', None
        inner = set()
        conds(a, inner, set())
        conds(b, inner, set())
        inner = {c for c in inner if not has_bound(c)}
        if inner and depth < 14:
            cs = list(inner)
        else:
            if any(x.op in UNDECIDED for x in subterms(a)) or any(x.op in UNDECIDED for x in subterms(b)):
                return 'unk', facts
            return 'ne', tuple(facts)
    if depth > 16:
        return 'unk', facts
    c = sorted(cs, key=skey)[0]
    res = 'eq', None
    for v in (True, False):
        lit = c if v else lnot(c)
        f2 = list(facts) + [lit]
        if contradictory(f2):
            continue
        a2, b2 = under(a, c, v), under(b, c, v)
        if a2 is a and b2 is b and not (is_bool(a) or is_bool(b)):
            if any(x.op in UNDECIDED for x in subterms(a)) or any(x.op in UNDECIDED for x in subterms(b)):
                return 'unk', facts
            return 'ne', tuple(facts)
        r = decide_eq(a2, b2, f2, depth + 1, budget)
        if r[0] == 'ne':
            return r
        if r[0] == 'unk':
            res = r
    return res


def forced_zero(d, facts):
    if d.op == 'int':
        return d.args[0] == 0
    rows = [f for f in facts if f.op in ('gt0', 'eq0')]
    return bool(rows) and lin_implies(rows, eq0(d))


def has_bound(c):
    return contains(c, lambda x: x.op == 'iv')


def top_conds(t, out):
    while t.op == 'upd' or (t.op == 'proj'):
        if t.op == 'upd':
            top_conds(t.args[2], out)
        t = t.args[0]
    if t.op == 'ite':
        latoms(t.args[0], out)
    elif t.op in ('and', 'or', 'not', 'gt0', 'eq0', 'lt', 'le', 'isv', 'any', 'eq', 'bit', 'isin'):
        latoms(t, out)
    elif t.op == 'poly':
        for m, _ in t.args[0]:
            for x, _ in m:
                if x.op == 'ite':
                    latoms(x.args[0], out)


def implies(dnf, goal, extra=()):
    """Every disjunct of a path predicate implies the goal condition."""
    for c in dnf:
        fs = list(c) + list(extra)
        if contradictory(fs):
            continue
        if not entails(fs, goal):
            return False, c
    return True, None


def entails(fs, goal, depth=0):
    if goal is TRUE or goal in fs:
        return True
    if goal is FALSE:
        return contradictory(fs)
    if goal.op == 'and':
        return all(entails(fs, g, depth) for g in goal.args[0])
    # split disjunctions among the facts
    for f in fs:
        if f.op == 'or' and depth < 6:
            rest = [x for x in fs if x is not f]
            return all(contradictory(rest + [d]) or entails(rest + flat(d), goal, depth + 1) for d in f.args[0])
    if goal.op == 'or':
        if any(entails(fs, g, depth) for g in goal.args[0]):
            return True
        # assume all but one false
        gs = list(goal.args[0])
        return depth < 6 and any(entails(fs + [lnot(h) for h in gs if h is not g], g, depth + 1) for g in gs)
    lin = [f for f in fs if f.op in ('gt0', 'eq0')]
    if goal.op in ('gt0', 'eq0'):
        return lin_implies(lin, goal)
    if goal.op == 'not' and goal.args[0].op == 'eq0':
        return lin_implies(lin, gt0(goal.args[0].args[0])) or lin_implies(lin, gt0(neg(goal.args[0].args[0]))) or contradictory(fs + [goal.args[0]])
    return contradictory(fs + [lnot(goal)])


def flat(d):
    return list(d.args[0]) if d.op == 'and' else [d]


def cases(ts, facts=(), limit=400):
    """Case analysis: yields (facts, simplified terms) with no gate left at the top of the terms (binders aside)."""
    out, stack, n = [], [(list(facts), list(ts))], 0
    while stack:
        fs, ts = stack.pop()
        n += 1
        if n > limit:
            return None
        cs = set()
        for t in ts:
            inner = set()
            conds(t, inner, set())
            cs |= {c for c in inner if not has_bound(c) and not contains(c, lambda x: x.op == 'bv')}
        done = False
        for c in sorted(cs, key=lambda c: (not (c in fs or lnot(c) in fs), any(x.op == 'ite' for x in subterms(c)), skey(c))):
            if c in fs or lnot(c) in fs:
                ts2 = [under(t, c, c in fs) for t in ts]
                if ts2 != ts:
                    stack.append((fs, ts2))
                    done = True
                    break
                continue
            # conditions over conditions come later
            for v in (True, False):
                f2 = fs + [c if v else lnot(c)]
                if not contradictory(f2):
                    stack.append((f2, [under(t, c, v) for t in ts]))
            done = True
            break
        if not done:
            out.append((fs, ts))
    return out


def show_case(facts):
    return ' and '.join(sorted(show(f) for f in (facts or ()))) or 'always'


# ------------------------------------------------------------------ convenience
def A(i, *path):
    """Argument i (what it points to), then fields."""
    t = mk('arg', i)
    for p in path:
        t = proj(t, ('f', p) if isinstance(p, int) else p)
    return t


class Checker:
    """Runs the interpreter on functions and files obligations with a report."""

    def __init__(self, prog, rep, prims=(), opaque=None, budget=20000, max_depth=12):
        self.prog, self.rep, self.prims, self.opaque, self.budget, self.max_depth = prog, rep, prims, opaque, budget, max_depth
        self.cache = {}

    def run(self, fn, **kw):
        if fn.key not in self.cache:
            try:
                r = absint.analyse(self.prog, fn, self.prims, kw.get('opaque', self.opaque), budget=kw.get('budget', self.budget), max_depth=kw.get('max_depth', self.max_depth))
            except GiveUp as e:
                self.rep.count('gave_up')
                r = None
            self.cache[fn.key] = r
            self.rep.analysed(fn)
        return self.cache[fn.key]

    def where(self, fn):
        return '%s:%s' % (fn.file, fn.line)

    def one(self, what, **q):
        """The single function matching q; a missing anchor is a violation (fail closed)."""
        fs = self.prog.find(**q)
        fs = [f for f in fs if f.body is not None and f.kind != 'closure']
        self.rep.require('anchor:' + what, len(fs) == 1, 'expected exactly one definition of %s, found %d' % (what, len(fs)))
        return fs[0] if len(fs) == 1 else None

    def value(self, fn, what, got, want, facts=(), pc=None):
        if pc is None:
            r, w = decide_eq(got, want, list(facts))
        else:
            r, w = 'eq', None
            for c in sorted(pc, key=skey):
                if contradictory(list(facts) + list(c)):
                    continue
                r1, w1 = decide_eq(got, want, list(facts) + list(c))
                if r1 == 'ne':
                    r, w = r1, w1
                    break
                if r1 == 'unk':
                    r = 'unk'
        key = '%s:%s' % (fn.label(), what)
        if r == 'unk':
            self.rep.count('undecided')
            return None
        self.rep.require(key, r == 'eq', '%s is %s where %s is required (case: %s)' % (what, show(got)[:500], show(want)[:500], show_case(w)[:500]), self.where(fn))
        return r == 'eq'

    def same(self, fn, what, got, want, facts=(), pc=None, calls=(), keyfn=None):
        """Like value, but a difference only counts when every part of `got` is understood:
        nothing opaque in it that the requirement does not itself mention."""
        r, w = 'eq', None
        for c in (sorted(pc, key=skey) if pc is not None else [frozenset()]):
            fs = list(facts) + list(c)
            if contradictory(fs):
                continue
            r1, w1 = decide_eq(got, want, fs)
            if r1 == 'ne':
                r, w = r1, w1
                break
            if r1 == 'unk':
                r = 'unk'
        if r == 'ne':
            known = set(subterms(alpha(want)))
            for x in subterms(alpha(got)):
                if x not in known and (x.op in UNDECIDED or x.op in ('first', 'phi', 'best', 'argbest', 'callf', 'bsearch') or x.op == 'call' and x.args[0] not in calls):
                    r = 'unk'
                    break
        if r == 'unk':
            self.rep.count('undecided')
            return None
        self.rep.require('%s:%s' % (fn.label(), what), r == 'eq', '%s is %s where %s is required (case: %s)' % (what, show(got)[:500], show(want)[:500], show_case(w)[:500]), self.where(fn))
        return r == 'eq'

    def seq(self, fn, what, got, n, el, facts=(), pc=None, calls=(), norm=None):
        """got is the sequence of length n with elements el(k)."""
        k = mk('elemindex', fn.label())
        k.nn = True
        nf = norm or (lambda t, fs: t)
        a = self.same(fn, what + ': length', nf(deep_el(seq_len(got)), list(facts)), n, facts, pc, calls)
        fs = list(facts) + [gt0(sub(n, k)), gt0(add(k, const(1)))]
        b = self.same(fn, what + ': elements', nf(deep_el(seq_el(got, k)), fs), el(k), fs, pc, calls)
        return a and b

    def guard(self, fn, what, pc, goal, extra=()):
        ok, c = implies(pc, goal, extra)
        self.rep.require('%s:%s' % (fn.label(), what), ok, 'returns normally without %s being established: %s' % (what, show_case(c)[:600] if c is not None else ''), self.where(fn))
        return ok


# ------------------------------------------------------------------ sequences, whatever they are built with
def seq_len(t):
    if t.op == 'append':
        return add(seq_len(t.args[0]), seq_len(t.args[1]))
    if t.op == 'push':
        return add(seq_len(t.args[0]), const(1))
    if t.op in ('upd', 'fmap', 'reversed', 'sorted'):
        return seq_len(t.args[0])
    if t.op == 'ite':
        return ite(t.args[0], seq_len(t.args[1]), seq_len(t.args[2]))
    if t.op == 'collect' and not t.args[2]:
        return t.args[1]
    if t.op == 'truncated':
        n = seq_len(t.args[0])
        return ite(gt0(sub(n, t.args[1])), t.args[1], n)
    return length(t)


def seq_el(t, k):
    """Element k of the sequence t (k is assumed to be in range)."""
    o = t.op
    if o == 'ite':
        return ite(t.args[0], seq_el(t.args[1], k), seq_el(t.args[2], k))
    if o == 'agg' and t.args[0] == ('array',) and len(t.args) > 1:
        c = cval(k)
        if c is not None and 0 <= c < len(t.args) - 1:
            return t.args[1 + int(c)]
        r = t.args[-1]
        for i in range(len(t.args) - 3, -1, -1):
            r = ite(eq0(sub(k, const(i))), t.args[1 + i], r)
        return r
    if o == 'append':
        n = seq_len(t.args[0])
        return ite(gt0(sub(n, k)), seq_el(t.args[0], k), seq_el(t.args[1], sub(k, n)))
    if o == 'push':
        n = seq_len(t.args[0])
        if n is const(0):
            return t.args[1]
        return ite(gt0(sub(n, k)), seq_el(t.args[0], k), t.args[1])
    if o == 'collect' and not t.args[2]:
        return subst(t.args[3], {t.args[0]: k})
    if o == 'repeat':
        return t.args[0]
    if o == 'truncated':
        return seq_el(t.args[0], k)
    if o == 'reversed':
        return seq_el(t.args[0], sub(sub(seq_len(t.args[0]), const(1)), k))
    if o == 'slice':
        return seq_el(t.args[0], add(t.args[1], k))
    if o == 'upd' and t.args[1][0] == 'ix':
        return ite(eq0(sub(k, t.args[1][1])), t.args[2], seq_el(t.args[0], k))
    if o == 'fmap':
        r = seq_el(t.args[0], k)
        for ivs, bs, key, v in t.args[1]:
            if len(ivs) != 1 or key[0] != 'ix':
                return proj(t, ('ix', k))
            iv, e = ivs[0], key[1]
            co = to_poly(e).get(((iv, 1),), 0)
            rest = sub(e, scale(iv, co))
            if co not in (1, -1) or contains(rest, lambda x: x is iv):
                return proj(t, ('ix', k))
            m = {iv: scale(sub(k, rest), co)}
            r = ite(land(gt0(add(m[iv], const(1))), *[subst(b, m) for b in bs]), subst(v, m), r)
        return r
    return proj(t, ('ix', k))


SEQS = ('agg', 'append', 'push', 'collect', 'repeat', 'reversed', 'slice', 'upd', 'fmap', 'ite')


def deep_el(t, memo=None):
    """Rewrites every element access to a built sequence."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    m = {}
    for x in subterms(t):
        if x is not t and x.op == 'proj' and x.args[1][0] == 'ix' and x.args[0].op in SEQS:
            y = seq_el(x.args[0], x.args[1][1])
            if y is not x:
                m[x] = deep_el(y, memo)
        elif x is not t and x.op == 'len' and x.args[0].op in SEQS:
            y = seq_len(x.args[0])
            if y is not x:
                m[x] = deep_el(y, memo)
    r = subst(t, m) if m else t
    if r.op == 'proj' and r.args[1][0] == 'ix' and r.args[0].op in SEQS:
        y = seq_el(r.args[0], r.args[1][1])
        if y is not r:
            r = deep_el(y, memo)
    memo[t] = r
    return r


def reduce_irem(t, facts):
    """x mod n where the facts bound x below n (or n <= x < 2n)."""
    for _ in range(6):
        m = {}
        for x in subterms(t):
            if x.op == 'irem' and len(x.args) == 2:
                a, n = x.args
                if entails(list(facts), gt0(sub(n, a))) and (nonneg(a) or entails(list(facts), gt0(add(a, const(1))))):
                    m[x] = a
                elif entails(list(facts), gt0(sub(add(a, const(1)), n))) and entails(list(facts), gt0(sub(scale(n, 2), a))):
                    m[x] = sub(a, n)
        if not m:
            return t
        t = subst(t, m)
    return t


def closed(t, extra=()):
    """Nothing in t stands for something the analysis could not express."""
    return not any(x.op in UNDECIDED or x.op in ('call', 'callf', 'first', 'phi', 'best', 'argbest') or x.op in extra for x in subterms(t))
