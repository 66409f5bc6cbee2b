"""T06: the transformation matrices of the Smith normal form."""
import itertools, os
from fractions import Fraction
from spec import *
from matdom import *
from matops import operators, kind, is_m
import absint, models

VERBOSE = bool(os.environ.get('VDEBUG'))


def overwrite(m, r0, r1, c0, c1, v):
    return mk('upd', m, ('view', r0, r1, c0, c1), v)


def row(m, r):
    return mview(m, r, add(r, const(1)), const(0), msize(m, 1))


def col(m, c):
    return mview(m, const(0), msize(m, 0), c, add(c, const(1)))


def put_row(m, r, v):
    return overwrite(m, r, add(r, const(1)), const(0), msize(m, 1), v)


def put_col(m, c, v):
    return overwrite(m, const(0), msize(m, 0), c, add(c, const(1)), v)


def madd(a, b):
    return mk('madd', a, b)


def mscale(a, c):
    return mk('mscale', a, c)


def change(name, m, i, j, c):
    if name == 'row_operation':
        return put_row(m, i, madd(row(m, i), mscale(row(m, j), c)))
    if name == 'col_operation':
        return put_col(m, i, madd(col(m, i), mscale(col(m, j), c)))
    if name == 'swap_rows':
        return put_row(put_row(m, i, row(m, j)), j, row(m, i))
    if name == 'swap_cols':
        return put_col(put_col(m, i, col(m, j)), j, col(m, i))


RING = ('bezout_identity', 'euclid_div', 'divides', 'gcd')


def level(prog):
    """Matrix operations by their contracts (decided by T07 and T27)."""
    arith = {fn: (o, asg, ks) for fn, o, asg, ks in operators(prog)}

    def prim(I, op, name, fn, args, st, pc, at):
        short = (name or '').split('::')[-1]
        if short in RING:
            return mk('call', short, tuple(I.reify(st, models.val(I, st, x)) for x in args)), st, pc
        if fn is None or fn.crate != 'alg' or fn.kind == 'closure':
            return NotImplemented
        s = fn.implself
        if fn in arith:
            o, asg, ks = arith[fn]
            if asg:
                return NotImplemented
            a, b = (I.reify(st, models.val(I, st, x)) if is_m(k) else models.val(I, st, x) for x, k in zip(args, ks))
            if is_m(ks[0]) and is_m(ks[1]):
                if o == 'Add':
                    return madd(a, b), st, pc
                if o == 'Sub':
                    return mk('msub', a, b), st, pc
                return mk('mmul', a, b), st, pc
            if o != 'Mul':
                return NotImplemented
            return (mscale(a, b) if is_m(ks[0]) else mscale(b, a)), st, pc
        if not (is_mat(s) or is_sub(s)) or fn.trait:
            return NotImplemented
        if fn.name == 'identity':
            return mk('mident', args[0]), st, pc
        if fn.name in ('row_operation', 'col_operation', 'swap_rows', 'swap_cols'):
            r = target_ref(I, st, args[0])
            if r is None:
                return NotImplemented
            m = I.content(st, r)
            a = [models.val(I, st, x) for x in args[1:]] + [None]
            st = dict(st)
            I.store(st, r, change(fn.name, m, a[0], a[1], a[2]), pc, at)
            return tup(), st, pc
        if fn.name in ('write', 'write_and_move') and is_sub(s):
            r = target_ref(I, st, args[0])
            if r is None:
                return NotImplemented
            v = I.reify(st, models.val(I, st, args[1]))
            st = dict(st)
            I.store(st, r, v, pc, at)
            return tup(), st, pc
        return NotImplemented
    return prim


# ------------------------------------------------------------------ elements
def melx(t, i, j):
    """Element (i, j) of a matrix built by row and column operations."""
    o = t.op
    if o == 'ite':
        return ite(t.args[0], melx(t.args[1], i, j), melx(t.args[2], i, j))
    if o == 'mident':
        return ite(eq0(sub(i, j)), const(1), const(0))
    if o == 'mtr':
        return melx(t.args[0], j, i)
    if o == 'mview':
        return melx(t.args[0], add(t.args[1], i), add(t.args[3], j))
    if o == 'madd':
        return add(melx(t.args[0], i, j), melx(t.args[1], i, j))
    if o == 'msub':
        return sub(melx(t.args[0], i, j), melx(t.args[1], i, j))
    if o == 'mscale':
        return mul(melx(t.args[0], i, j), t.args[1])
    if o == 'mconst':
        return t.args[2]
    if o == 'upd' and t.args[1][0] == 'ix2':
        _, a, b = t.args[1]
        return ite(land(eq0(sub(i, a)), eq0(sub(j, b))), t.args[2], melx(t.args[0], i, j))
    if o == 'upd' and t.args[1][0] == 'view':
        _, r0, r1, c0, c1 = t.args[1]
        b, v = t.args[0], t.args[2]
        inside = []
        for x, lo, hi, n in ((i, r0, r1, msize(b, 0)), (j, c0, c1, msize(b, 1))):
            if sub(hi, lo) is const(1):
                inside.append(eq0(sub(x, lo)))
                continue
            if lo is not const(0):
                inside.append(gt0(add(sub(x, lo), const(1))))
            if hi is not n:
                inside.append(gt0(sub(hi, x)))
        return ite(land(*inside), melx(v, sub(i, r0), sub(j, c0)), melx(b, i, j))
    return proj(t, ('ix2', i, j))


BUILT = ('upd', 'mtr', 'mview', 'mconst', 'ite', 'madd', 'msub', 'mscale', 'mident')


def deepx(t, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    m = {}
    for x in subterms(t):
        if x.op == 'proj' and x.args[1][0] == 'ix2' and x.args[0].op in BUILT:
            y = melx(x.args[0], x.args[1][1], x.args[1][2])
            if y is not x:
                m[x] = deepx(y, memo) if y is not t else y
    r = subst(t, m) if m else t
    memo[t] = r
    return r


# ------------------------------------------------------------------ the steps
NAMES = ('matrix', 'row transformation', 'inverse row transformation', 'column transformation', 'inverse column transformation')
P_, Q_, S_ = mk('row', 'snf'), mk('col', 'snf'), mk('row2', 'snf')


def spine(e):
    """(number of overwriting layers, base, first gate on the way or None)."""
    n = 0
    while True:
        if e.op == 'upd' and e.args[1][0] in ('ix2', 'view'):
            e, n = e.args[0], n + 1
        elif e.op == 'ite':
            return n, e, e.args[0]
        else:
            return n, e, None


def peel(e, n):
    for _ in range(n):
        e = e.args[0]
    return e


def callee(t):
    return t.args[0].split('::')[-1] if t.op == 'call' and isinstance(t.args[0], str) else ''


class Pairing:
    def __init__(self, ck, fn, r):
        self.ck, self.rep, self.fn, self.r = ck, ck.rep, fn, r
        self.loops = r.interp.loop_objs
        self.done = set()
        self.nsteps = 0
        self.env = {}
        self.n0, self.n1 = msize(mk('arg', 0), 0), msize(mk('arg', 0), 1)
        self.sizes = ((self.n0, self.n1), (self.n0, self.n0), (self.n0, self.n0), (self.n1, self.n1), (self.n1, self.n1))

    def say(self, what, ok, msg=''):
        self.rep.require('%s:%s' % (self.fn.label(), what), ok, msg, self.ck.where(self.fn))

    # -------------------------------------------------------------- the walk along the history
    def walk(self, T, env, facts, depth=0):
        if depth > 60:
            self.rep.count('undecided')
            return
        sp = [spine(e) for e in T]
        for n, b, c in sp:
            if c is not None:
                for v in (True, False):
                    f2 = facts + [c if v else lnot(c)]
                    if not contradictory(f2):
                        self.walk([under(e, c, v) for e in T], env, f2, depth + 1)
                return
        lids = [b.args[0] for _, b, _ in sp if b.op == 'phi' and b.args[0] in self.loops and b.args[0] not in env]
        lid = max(lids) if lids else None
        cur = lid if lid is not None else (env[-1] if env else None)
        opts = []
        for n, b, _ in sp:
            opts.append([n] if cur is None or b.op == 'phi' and b.args[0] == cur else list(range(n + 1)))
        bad = None
        for m in itertools.product(*opts):
            B = [peel(e, k) for e, k in zip(T, m)]
            res = self.step(T, B, facts, env)
            if res[0] == 'eq':
                bad = None
                break
            if bad is None or bad[0] != 'unk':
                bad = res if bad is None or res[0] == 'unk' else bad
        if bad is not None:
            if bad[0] == 'unk':
                self.rep.count('undecided')
                if VERBOSE:
                    print('UNDECIDED', bad[1][:300])
            else:
                self.say('steps:' + bad[2], False, bad[1])
            return
        self.rep.count('steps')
        self.nsteps += 1
        self.rep.require('%s:step %d' % (self.fn.label(), self.nsteps), True, '')
        if lid is not None:
            init = [b.args[2] if b.op == 'phi' and b.args[0] == lid else b for b in B]
            self.loop(lid, B, init, env)
            return self.walk(init, env, self.outer(facts), depth + 1)
        if not env:
            for k, b in enumerate(B):
                want = mk('arg', 0) if k == 0 else mk('mident', self.sizes[k][0])
                if b.op in UNDECIDED:
                    self.rep.count('undecided')
                else:
                    self.say('start:' + NAMES[k], b is want, 'the %s starts as %s' % (NAMES[k], show(b)[:200]))

    def outer(self, facts):
        return facts

    def loop(self, lid, B, init, env):
        if lid in self.done:
            return
        self.done.add(lid)
        self.env[lid] = env
        L = self.loops[lid]
        self.rep.count('loops')
        nxt = []
        for k, (b, i) in enumerate(zip(B, init)):
            if b.op == 'phi' and b.args[0] == lid:
                own = [h for h in L.next if isinstance(h, Term) and h.op == 'phi' and h.args[1] == b.args[1]]
                nxt.append(L.next[own[0]] if own else b)
            else:
                nxt.append(mk('phi', lid, ('same', k), i, 'elem'))
        dep = self.r.interp.loop_dep(L)
        paths = [c for bp, _ in L.backs for c in bp]
        for ctx in sorted({frozenset(l for l in c if not dep(l)) for c in paths}, key=skey):
            facts = list(frozenset.intersection(*[c for c in paths if ctx <= c]))
            T = nxt
            for l in sorted(ctx, key=skey):
                T = [under(e, l.args[0], False) if l.op == 'not' else under(e, l, True) for e in T]
            self.walk(T, env + (lid,), facts)

    # -------------------------------------------------------------- one step
    def step(self, T, B, facts, env):
        """How the five matrices change from B to T."""
        if all(e is b for e, b in zip(T, B)):
            return 'eq', ''
        sym = [mk('mnew', s[0], s[1], 'snf%d' % k) for k, s in enumerate(self.sizes)]
        E = []
        for e, b, s in zip(T, B, sym):
            m = {b: s}
            for b2, s2 in zip(B, sym):
                m.setdefault(b2, s2)
            E.append(subst(e, m))
        fs = [deepx(subst(f, {B[0]: sym[0]})) for f in facts]
        E, fs = abstract(E, fs, [self.loops[l].iv for l in env])
        fs = [g for f in fs for g in flat(f)]
        fs = [f for f in fs if f.op in ('gt0', 'eq0', 'not', 'and', 'or')] + [gt0(sub(self.n0, P_)), gt0(sub(self.n1, Q_))]
        w = Step(self, E, sym, fs)
        w.iv = [mk('pos', k, 'snf') for k in range(len(env))]
        res = w.check()
        if res[0] == 'eq':
            res = w.values()
        if res[0] == 'ne' and any(x.op == 'call' and callee(x) not in RING for t in E for x in subterms(t)):
            return 'unk', 'positions that could not be expressed'
        return res


def abstract(E, fs, ivs):
    """Positions found by a search become fresh indices."""
    m = {}
    for iv in ivs:
        m[iv] = mk('pos', len(m), 'snf')
        m[iv].nn = True
    for t in list(E) + list(fs):
        for x in subterms(t):
            if x.op in ('first', 'phi') and x not in m and not (len(x.args) > 3 and x.args[3] == 'elem'):
                y = mk('pos', len(m), 'snf')
                y.nn = True
                m[x] = y
    # outermost first
    m = {x: y for x, y in m.items()}
    return [subst(e, m) for e in E], [subst(f, m) for f in fs]


class Step:
    def __init__(self, P, E, sym, facts):
        self.P, self.E, self.sym, self.facts = P, E, sym, facts
        for t in (P_, Q_, S_):
            t.nn = True
        self.el = lambda k, i, j: deepx(melx(self.E[k], i, j))

    # ---------------------------------------------------------- Bezout facts
    def collect(self, ts):
        """[(gcd, x, y, s, t, a, b)] of the Bezout identities in sight, with the quotients by the gcd."""
        out, seen = [], set()
        for t in ts:
            for x in subterms(t):
                if callee(x) == 'bezout_identity' and x not in seen:
                    seen.add(x)
                    a, b = x.args[1]
                    g = proj(x, ('f', 0))
                    q = lambda u: proj(mk('call', 'euclid_div', (u, g)), ('f', 0))
                    out.append((g, proj(x, ('f', 1)), proj(x, ('f', 2)), q(a), q(b), a, b, x))
        return out

    def norm(self, t, sub_=None):
        """t modulo the Bezout identities: s*x + t*y = 1, a = s*g, b = t*g."""
        bez = self.collect([t])
        if sub_ is not None:
            t, bez = sub_(t), [c[:5] + (sub_(c[5]), sub_(c[6]), c[7]) for c in bez]
        for _ in range(6):
            p = to_poly(t)
            out, ch = {}, False
            for mono, c in p.items():
                d = dict(mono)
                for g, x, y, s, u, a, b, call in bez:
                    r = None
                    if x in d and s in d:
                        r = take(d, (x, s))
                        terms = [(r, c), (give(r, (y, u)), -c)]
                    elif a in d and a.op == 'proj':
                        r = take(d, (a,))
                        terms = [(give(r, (s, g)), c)]
                    elif b in d and b.op == 'proj':
                        r = take(d, (b,))
                        terms = [(give(r, (u, g)), c)]
                    if r is not None:
                        ch = True
                        for mm, cc in terms:
                            k = tuple(sorted(mm.items(), key=lambda z: skey(z[0])))
                            out[k] = out.get(k, 0) + cc
                        break
                else:
                    out[mono] = out.get(mono, 0) + c
            t = from_poly({k: c for k, c in out.items() if c})
            if not ch:
                return t
        return t


def take(d, fs):
    d = dict(d)
    for f in fs:
        d[f] -= 1
        if not d[f]:
            del d[f]
    return d


def give(d, fs):
    d = dict(d)
    for f in fs:
        d[f] = d.get(f, 0) + 1
    return d


def linear(t, base, fixed, which):
    """{index: coefficient} when t is a combination of elements of base with one fixed coordinate; None otherwise."""
    out = {}
    for mono, c in to_poly(t).items():
        d = dict(mono)
        es = [x for x in d if x.op == 'proj' and x.args[0] is base and x.args[1][0] == 'ix2']
        es = [x for x in es if x.args[1][1 + (1 - which)] is fixed]
        if len(es) != 1 or d[es[0]] != 1:
            return None
        k = es[0].args[1][1 + which]
        rest = take(d, (es[0],))
        co = from_poly({tuple(sorted(rest.items(), key=lambda z: skey(z[0]))): c})
        out[k] = add(out[k], co) if k in out else co
    return out


def check(self):
    E, sym = self.E, self.sym
    P, Q, S = P_, Q_, S_
    Z = mk('free', 'snf')
    rowR, colC = self.el(1, P, Z), self.el(3, Z, Q)
    res = 'eq', ''
    # the two pairs of inverse transformations
    for what, k, i, left in (('row', 1, 2, True), ('column', 3, 4, False)):
        # rows: op' = L.op, inv' = inv.M, L.M = 1; columns: op' = op.R, inv' = N.inv, N.R = 1
        a, b = (self.el(k, P, Z), self.el(i, Z, S)) if left else (self.el(i, P, Z), self.el(k, Z, S))
        ka, kb = (k, i) if left else (i, k)
        n = self.P.n0 if left else self.P.n1
        cs = cases([a, b], [gt0(sub(n, P)), gt0(sub(n, S))] + self.facts)
        if cs is None:
            res = 'unk', 'too many cases'
            continue
        for fs, (ta, tb) in cs:
            fa, fb = linear(ta, sym[ka], Z, 0), linear(tb, sym[kb], Z, 1)
            if fa is None or fb is None:
                if any(contains(t, lambda x: x.op in UNDECIDED) for t in (ta, tb)):
                    res = 'unk', 'not a combination: %s / %s' % (show(ta)[:200], show(tb)[:200])
                    continue
                return 'ne', 'the new %s transformation has the element %s, not a combination of the old %ss' % (what, show(ta if fa is None else tb)[:200], what), what + ' combination'
            tot = const(0)
            for x, cx in fa.items():
                for y, cy in fb.items():
                    tot = add(tot, ite(eq0(sub(x, y)), mul(cx, cy), const(0)))
            c2 = cases([tot, ite(eq0(sub(P, S)), const(1), const(0))], fs)
            if c2 is None:
                res = 'unk', 'too many cases'
                continue
            for f2, (u, v) in c2:
                if contradictory(f2):
                    continue
                d = self.norm(sub(u, v))
                if d is not const(0) and not forced_zero(d, f2):
                    if contains(d, lambda x: x.op in UNDECIDED):
                        res = 'unk', show(d)
                        continue
                    return ('ne', 'the change of the %s transformation and the change of its inverse do not cancel: their product differs from the identity by %s when %s' % (what, show(d)[:2000], show_case(f2)[:1500]),
                            what + ' inverse')
    # the matrix itself
    cs = cases([rowR, colC, self.el(0, P, Q)], self.facts)
    if cs is None:
        return 'unk', 'too many cases'
    for fs, (tr, tc, ta) in cs:
        if contradictory(fs):
            continue
        fr, fc = linear(tr, sym[1], Z, 0), linear(tc, sym[3], Z, 1)
        if fr is None or fc is None:
            res = 'unk', 'no combination'
            continue
        want = const(0)
        for x, cx in fr.items():
            for y, cy in fc.items():
                want = add(want, mul(mul(cx, cy), proj(sym[0], ('ix2', x, y))))
        d = self.norm(sub(ta, want))
        if d is const(0) or forced_zero(d, fs) or self.same_elements(d, fs):
            continue
        d2 = self.norm(self.zeros(d, fs))
        if d2 is const(0) or self.same_elements(d2, fs):
            continue
        if self.off_row(fs):
            continue
        if contains(d2, lambda x: x.op in UNDECIDED):
            res = 'unk', show(d2)
            continue
        self.last = fs + [ta, tr, tc]
        return 'ne', 'the matrix is not changed by the row and column transformations that are recorded: an element differs by %s when %s' % (show(d2)[:300], show_case(fs)[:1500]), 'matrix'
    return res


def same_elements(self, d, fs):
    """d vanishes once elements at equal positions are identified."""
    els = sorted({x for x in subterms(d) if x.op == 'proj' and x.args[1][0] == 'ix2' and x.args[0] is self.sym[0]}, key=skey)
    m = {}
    for k, x in enumerate(els):
        for y in els[:k]:
            if all(u is v or forced_zero(sub(u, v), fs) for u, v in zip(x.args[1][1:], y.args[1][1:])):
                m[x] = m.get(y, y)
                break
    return bool(m) and self.norm(subst(d, m)) is const(0)


def zeros(self, d, fs):
    """Elements left of, or above, the pivot block are zero."""
    m = {}
    for i, j in self.pivots(d):
        for mono in to_poly(d):
            for x, _ in mono:
                if x.op == 'proj' and x.args[0] is self.sym[0]:
                    a, b = x.args[1][1:]
                    ge = lambda u, v: entails(fs, gt0(add(sub(u, v), const(1))))
                    lt = lambda u, v: entails(fs, gt0(sub(v, u)))
                    if ge(a, i) and lt(b, j) or lt(a, i) and ge(b, j):
                        m[x] = const(0)
    p = {}
    for mono, c in to_poly(d).items():
        if not any(x in m for x, _ in mono):
            p[mono] = c
    return from_poly(p)


def pivots(self, d):
    out = []
    for g, x, y, s, u, a, b, call in self.collect([d]):
        if a.op == 'proj' and a.args[0] is self.sym[0]:
            out.append(a.args[1][1:])
    return out


def off_row(self, fs):
    """The step overwrites single elements of one row, and the element in question lies in another."""
    e, rows = self.E[0], []
    while e.op == 'upd':
        if e.args[1][0] != 'ix2':
            return False
        rows.append(e.args[1][1])
        e = e.args[0]
    return bool(rows) and all(entails(fs, lnot(eq0(sub(P_, r)))) for r in rows)




def read(self, t):
    return t.args[1][1:] if t.op == 'proj' and t.args[0] is self.sym[0] and t.args[1][0] == 'ix2' else None


def values(self):
    """What the step achieves: the gcd at the pivot, zeros and remainders at the entries it works on."""
    ends = [self.el(k, P_, Q_) for k in range(1)] + [self.el(1, P_, Q_), self.el(3, P_, Q_)]
    bez = self.collect(ends)
    gs = {c[0] for c in bez}
    todo = []           # (row, column, wanted value, what, diagonal?)
    targets = []        # (pivot position, target position)
    diag = []
    for g, x, y, s, u, a, b, call in bez:
        la, lb = self.read(a), self.read(b)
        if la and lb:
            todo += [(la, g, 'the pivot becomes the gcd', None), (lb, const(0), 'the other entry becomes zero', None)]
            targets.append((la, lb))
        else:
            # both numbers mix entries: the matrix is diagonal at this point
            ra, rb = self.read(self.diagonal(a)), self.read(self.diagonal(b))
            if not ra or not rb:
                return 'unk', 'not entries: %s, %s' % (show(a)[:100], show(b)[:100])
            diag.append((ra[0], rb[0], g))
            targets.append((ra, rb))
    for t in ends:
        for x in subterms(t):
            if callee(x) == 'euclid_div' and x.args[1][1] not in gs:
                X, Y = x.args[1]
                lx, ly = self.read(X), self.read(Y)
                if lx and ly:
                    todo.append((lx, sub(X, mul(proj(x, ('f', 0)), Y)), 'the entry becomes the remainder', None))
                    targets.append((ly, lx))
    for r, s, g in diag:
        todo += [((r, r), g, 'the earlier diagonal entry becomes the gcd', self.diagonal)]
        todo += [((P_, Q_), const(0), 'the matrix stays diagonal', self.diagonal)]
    for (i, j), want, what, sb in todo:
        fs = self.facts + ([lnot(eq0(sub(P_, Q_)))] if i is P_ else [])
        cs = cases([self.el(0, i, j), want], fs)
        if cs is None:
            return 'unk', 'too many cases'
        for f2, (got, w) in cs:
            if contradictory(f2):
                continue
            d = self.norm(sub(got, w), (lambda t: self.diagonal(t, f2)) if sb else None)
            if d is const(0) or forced_zero(d, f2) or self.same_elements(d, f2):
                continue
            if contains(d, lambda x: x.op in UNDECIDED):
                return 'unk', show(d)
            return 'ne', '%s, but it differs by %s' % (what, show(d)[:300]), 'value: ' + what
    return self.ranges(targets)


def diagonal(self, t, fs=()):
    """t for a diagonal matrix."""
    p = {}
    for mono, c in to_poly(t).items():
        zero = False
        for x, _ in mono:
            l = self.read(x)
            if l:
                d = sub(l[0], l[1])
                zero |= d is not const(0) and (entails(list(fs) + self.facts, gt0(d)) or entails(list(fs) + self.facts, gt0(neg(d))) or lnot(eq0(d)) in fs)
        if not zero:
            p[mono] = c
    return from_poly(p)


def ranges(self, targets):
    """The entries a step works on run over everything beyond the pivot."""
    n = self.P.n0, self.P.n1
    e, rows = self.E[0], []
    while e.op == 'upd':
        if e.args[1][0] == 'ix2':
            rows.append(e.args[1][1])
        e = e.args[0]
    for r in rows + [p[0] for p, _ in targets if p[0] is p[1]]:
        if any(isinstance(to_poly(sub(r, iv)).get((), 0), (int, Fraction)) and set(to_poly(sub(r, iv))) == {()} for iv in self.iv[:1]):
            return 'ne', 'the rows worked on start at %s' % show(sub(r, self.iv[0])), 'range'
    for f in self.facts:
        if f.op == 'not' and callee(f.args[0]) == 'divides':
            u, v = (self.read(x) for x in f.args[0].args[1])
            if u and v and (v, u) in targets and (u, v) not in targets:
                return 'ne', 'the step is taken unless %s divides %s, not the other way round' % (show(f.args[0].args[1][0])[-60:], show(f.args[0].args[1][1])[-60:]), 'test'
    for (i, j), (k, l) in targets:
        for ax, (u, v) in enumerate(((i, k), (j, l))):
            if u is v:
                continue
            iv = [x for x in self.iv if contains(v, lambda y: y is x) and not contains(u, lambda y: y is x)]
            if len(iv) != 1 or to_poly(sub(v, iv[0])) and contains(sub(v, iv[0]), lambda y: y is iv[0]):
                continue
            if sub(v, iv[0]) is not add(u, const(1)):
                return 'ne', 'the entries worked on start %s, not just beyond the pivot' % show(sub(sub(v, iv[0]), u)), 'range'
            for f in self.facts:
                if f.op == 'gt0' and contains(f, lambda y: y is iv[0]):
                    if entails([gt0(sub(n[ax], v))], f) or i is j and k is l and entails([gt0(sub(m, v)) for m in n], f):
                        continue
                    # the same limit as the one of the pivot
                    if any(subst(g, {u: v}) is f for g in self.facts if g is not f):
                        continue
                    return 'ne', 'the entries worked on stop where %s fails, before the end' % show(f)[:200], 'range'
    return 'eq', ''


Step.read, Step.values, Step.diagonal, Step.ranges = read, values, diagonal, ranges
Step.check, Step.same_elements, Step.zeros, Step.pivots, Step.off_row = check, same_elements, zeros, pivots, off_row


def elements(t):
    return [x for x in subterms(t) if x.op == 'proj' and x.args[1][0] == 'ix2']


def implied(facts, l):
    cs = cases([l.args[0]], facts)
    return cs is None or all(contradictory(fs) or entails(fs, gt0(t)) for fs, (t,) in cs)


def searches(self):
    """Every search runs from the pivot (or just beyond it) to the end of its axis, and every loop to its natural end."""
    n = self.n0, self.n1
    terms, pivots, counters = set(), [], []
    for lid in self.done:
        L = self.loops[lid]
        for k, v in L.next.items():
            if isinstance(k, Term):
                terms.add(v)
                if k.op == 'phi' and not (len(k.args) > 3):
                    counters.append((k, v, L))
        terms |= {l for bp, _ in L.backs for c in bp for l in c}
    sub_ = set()
    for t in terms:
        sub_ |= set(subterms(t))
    for x in sub_:
        if callee(x) == 'euclid_div' and x.args[1][1].op == 'proj' and x.args[1][1].args[1][0] == 'ix2':
            pivots.append(x.args[1][1].args[1][1:])
    starts = [{p[0] for p in pivots}, {p[1] for p in pivots}]
    for p in pivots:
        for q in p:
            for mono, c in to_poly(q).items():
                if len(mono) == 1 and mono[0][0].op == 'iv' and c != 1:
                    self.say('counter: step', False, 'the pivot moves on by %s' % c)
    for k, v, L in counters:
        for p in pivots:
            for q in p:
                d = to_poly(sub(v, q))
                if contains(q, lambda y: y is k) and set(d) == {()} and d[()] != 1:
                    self.say('counter: step', False, 'the pivot moves on by %s' % d[()])
        for ax in (0, 1):
            if any(v is add(p, const(1)) for p in list(starts[ax])):
                starts[ax].add(k)
                self.say('counter %d starts at 0' % ax, k.args[2] is const(0), 'the pivot starts at %s' % show(k.args[2])[:100])
    done = 0
    for x in sorted(sub_, key=skey):
        if x.op not in ('any', 'first') or x.args[0].args[0] in self.done:
            continue
        iv, lits = x.args[0], flat(x.args[1])
        reads = [(l, e, ax) for l in lits for e in elements(l) for ax in (0, 1) if contains(e.args[1][1 + ax], lambda y: y is iv) and not (e.args[0].op in BUILT and False)]
        reads = [(l, e, ax) for l, e, ax in reads if l.op != 'gt0']
        if not reads:
            continue
        done += 1
        inside = [gt0(sub(n[ax], e.args[1][1 + ax])) for _, e, ax in reads]
        for l in lits:
            if l.op == 'gt0' and contains(l, lambda y: y is iv) and not implied(inside, l):
                self.say('search: end', False, 'a search stops where %s fails, before the end of the matrix' % show(l)[:200])
        both = {ax for _, _, ax in reads} == {0, 1}
        for l, e, ax in reads:
            pos = e.args[1][1 + ax]
            start = subst(pos, {iv: const(0)})
            if sub(pos, iv) is not start:
                continue
            other = e.args[1][2 - ax]
            divs = [y for y in subterms(l) if callee(y) == 'divides' and contains(y.args[1][1], lambda z: z is e)]
            if both and len({e2 for _, e2, _ in reads}) == 1:
                ok = start is const(0)
            elif divs:
                u = divs[0].args[1][0]
                if u.op != 'proj' or u.args[1][0] != 'ix2':
                    continue
                ok = start is add(u.args[1][1 + ax], const(1))
            else:
                found = [s_ for s_ in starts[ax] | set().union(*[set(subterms(s_)) for s_ in starts[ax]] or [set()]) if s_.op in ('phi', 'iv') or s_ in starts[ax]]
                ok = start in found or start is add(other, const(1)) or any(start is s_ for s_ in found)
            self.say('search: start', ok, 'a search on axis %d of %s starts at %s' % (ax, show(e)[:100], show(start)[:100])) if not ok else None
    for lid in self.done:
        L = self.loops[lid]
        if self.env.get(lid) != ():
            continue
        common = frozenset.intersection(*[c for bp, _ in L.backs for c in bp]) if L.backs else ()
        idx = {L.iv} | {k for k in L.next if isinstance(k, Term) and k.op == 'phi' and len(k.args) == 3}
        for l in common:
            if l.op != 'gt0':
                continue
            for x in subterms(l):
                if x.op == 'first' and not x.args[0].args[0] in self.done:
                    for t in flat(x.args[1]):
                        if t.op == 'not' and t.args[0].op == 'eq0' and any(e is t.args[0].args[0] and e.args[1][1] is e.args[1][2] is x.args[0] for e in elements(t)):
                            self.say('loop: end', False, 'the loop stops at the first non-zero diagonal entry')
            for v in idx:
                if contains(l, lambda y: y is v) and to_poly(l.args[0]).get(((v, 1),), 0) == -1:
                    cs = cases([add(l.args[0], v)], [])
                    for fs, (lim,) in cs or []:
                        p = to_poly(lim)
                        if len(p) == 2 and () in p and any(m and p[m] == 1 and m[0][1] == 1 and (m[0][0] in n or m[0][0].op == 'first') for m in p):
                            self.say('loop: end', False, 'the loop stops at %s' % show(lim)[:200])
    self.rep.count('searches', done)


Pairing.searches = searches


def check_T06(prog, rep):
    rep.rule('value numbering of the Smith normal form with row and column operations as overwritten blocks; along the loops every step of the matrix and its four transformations is compared with one pair of '
             'elementary transformations and their inverses')
    ck = MatChecker(prog, rep, (level(prog),), lambda f: f.name in RING, 80000, 20)
    from matops import method
    fn = method(prog, rep, 'Matrix::smith_normal_form', 'smith_normal_form', 'Matrix')
    if fn is None:
        return
    r = ck.run(fn)
    if r is None:
        return
    t = r.ret
    if t.op != 'agg' or len(t.args) != 6:
        rep.count('undecided')
        return
    ri, ro, m, co, ci = t.args[1:]
    p = Pairing(ck, fn, r)
    p.walk([m, ro, ri, co, ci], (), [])
    p.searches()
    rep.floor('searches', 6)
    rep.floor('steps', 8)
    rep.floor('loops', 6)
