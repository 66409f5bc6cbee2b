"""Abstract domain of dense matrices.

A matrix (owned, or a view) is a term with two sizes and elements addressed by `ix2` coordinates; views and
transposes of a reference compose into the coordinates.  Only the storage layer (allocation, raw addressing,
the fat pointer) is replaced; it has its own obligations (storage.py).  Every operation above it is analysed
from its MIR.
"""
import re
from spec import *
import absint, models
import spec as _spec


def is_mat(s):
    return bool(s) and s.lstrip('&').replace('mut ', '').startswith(('lin_alg::Matrix<', 'alg::lin_alg::Matrix<'))


def is_sub(s):
    return bool(s) and s.lstrip('&').replace('mut ', '').startswith(('lin_alg::SubMatrix<', 'alg::lin_alg::SubMatrix<'))


def mpush(I, base, path, el):
    """Path with the coordinates of a view composed into the access that follows."""
    path = tuple(path)
    while path and path[-1][0] in ('tr', 'view'):
        last = path[-1]
        if el[0] == 'ix2':
            if last[0] == 'tr':
                el = ('ix2', el[2], el[1])
            else:
                el = ('ix2', add(last[1], el[1]), add(last[3], el[2]))
        elif el[0] == 'view':
            if last[0] == 'tr':
                # a view of a transpose is the transpose of a view
                path = path[:-1]
                p = mpush(I, base, path, ('view', el[3], el[4], el[1], el[2]))
                return p + (('tr',),)
            el = ('view', add(last[1], el[1]), add(last[1], el[2]), add(last[3], el[3]), add(last[3], el[4]))
        elif el[0] == 'tr':
            if last[0] == 'tr':
                return path[:-1]
            break
        path = path[:-1]
    return path + (el,)


def index_range(v, n):
    """(start, end) of an index value on an axis of n elements; None when not understood."""
    if absint.is_adt(v, 'std::ops::Range'):
        return v.args[1], v.args[2]
    if absint.is_adt(v, 'std::ops::RangeFrom'):
        return v.args[1], n
    if absint.is_adt(v, 'std::ops::RangeFull'):
        return const(0), n
    if absint.is_adt(v, 'std::ops::RangeTo'):
        return const(0), v.args[1]
    if absint.is_adt(v, 'std::ops::RangeToInclusive'):
        return const(0), add(v.args[1], const(1))
    if v.op == 'rangeincl':
        return v.args[0], add(v.args[1], const(1))
    return None


def axis(v, ty, n):
    if ty == 'usize':
        return v, add(v, const(1))
    return index_range(v, n)


def target_ref(I, st, a):
    """The reference through which a matrix is reached (through any number of references)."""
    for _ in range(6):
        if a.op == 'ite':
            return None
        c = I.content(st, a)
        if c.op == 'ref':
            a = c
            continue
        return a
    return None


def idx_types(fn):
    """The two index types of an Index implementation."""
    m = re.search(r'Index(?:Mut)?<\((.*)\)>', fn.traitref or '')
    if not m:
        return None
    parts, depth, cur = [], 0, ''
    for ch in m.group(1):
        if ch == ',' and depth == 0:
            parts.append(cur.strip())
            cur = ''
            continue
        depth += ch == '<'
        depth -= ch == '>'
        cur += ch
    parts.append(cur.strip())
    return parts if len(parts) == 2 else None



def storage(target=None):
    """Replaces the storage layer (not the function under scrutiny itself)."""
    def prim(I, op, name, fn, args, st, pc, at):
        if fn is None or fn.crate != 'alg' or fn.kind == 'closure' or fn is target:
            return NotImplemented
        s = fn.implself
        tr = (fn.trait or '').split('<')[0].split('::')[-1]
        if is_mat(s):
            if tr in ('Deref', 'DerefMut'):
                return args[0], st, pc
            if tr == 'Drop':
                return tup(), st, pc
            if tr == 'Clone' and fn.name == 'clone':
                return I.reify(st, models.val(I, st, args[0])), st, pc
            if tr:
                return NotImplemented
            if fn.name == 'size':
                m = models.val(I, st, args[0])
                return tup(msize(m, 0), msize(m, 1)), st, pc
            if fn.name == 'new':
                I.event('mnew', None, (args[0], args[1]), pc, at)
                I.fresh += 1
                return mk('mnew', args[0], args[1], I.fresh), st, pc
            if fn.name == 'zero':
                return mk('mconst', args[0], args[1], const(0)), st, pc
            if fn.name == 'transpose':
                return mtr(args[0]), st, pc
            if fn.name == 'write':
                return store_raw(I, args, st, pc, at)
            return NotImplemented
        if is_sub(s):
            if tr in ('Index', 'IndexMut'):
                return index(I, fn, args, st, pc, at)
            if tr:
                return NotImplemented
            if fn.name in ('size', 'size_as_range'):
                m = models.val(I, st, args[0])
                if fn.name == 'size':
                    return tup(msize(m, 0), msize(m, 1)), st, pc
                R = lambda n: absint.agg_adt('std::ops::Range', 0, 'Range', const(0), n)
                return tup(R(msize(m, 0)), R(msize(m, 1))), st, pc
            if fn.name == 'transpose':
                r = target_ref(I, st, args[0])
                if r is None:
                    return NotImplemented
                root, path = I.target(r)
                return I.ref(root, mpush(I, None, path, ('tr',))), st, pc
            if fn.name == 'as_matrix':
                return I.reify(st, models.val(I, st, args[0])), st, pc
            return NotImplemented
        return NotImplemented
    return prim


def store_raw(I, args, st, pc, at):
    r = target_ref(I, st, args[0])
    if r is None:
        return NotImplemented
    ix = models.val(I, st, args[1])
    i, j = proj(ix, ('f', 0)), proj(ix, ('f', 1))
    m = I.content(st, r)
    I.event('rawwrite', None, (i, j, m, args[2]), pc, at)
    root, path = I.target(r)
    st = dict(st)
    I.store(st, I.ref(root, mpush(I, None, path, ('ix2', i, j))), args[2], pc, at)
    return tup(), st, pc


def index(I, fn, args, st, pc, at):
    tys = idx_types(fn)
    r = target_ref(I, st, args[0])
    if tys is None or r is None:
        return NotImplemented
    m = I.content(st, r)
    ix = models.val(I, st, args[1])
    a, b = proj(ix, ('f', 0)), proj(ix, ('f', 1))
    n0, n1 = msize(m, 0), msize(m, 1)
    root, path = I.target(r)
    if tys == ['usize', 'usize']:
        I.event('index', None, (a, b, m), pc, at)
        p = dnf_and2(pc, [gt0(sub(n0, a)), gt0(sub(n1, b))])
        return I.ref(root, mpush(I, m, path, ('ix2', a, b))), st, p
    ra, rb = axis(a, tys[0], n0), axis(b, tys[1], n1)
    if ra is None or rb is None:
        return NotImplemented
    I.event('view', None, ra + rb + (m,), pc, at)
    cs = []
    for (lo, hi), n in ((ra, n0), (rb, n1)):
        if hi is not n:
            cs.append(gt0(add(sub(n, hi), const(1))))
        if lo is not const(0):
            cs.append(gt0(add(sub(hi, lo), const(1))))
    p = dnf_and2(pc, cs)
    z = const(0)
    if ra[0] is z and rb[0] is z and ra[1] is n0 and rb[1] is n1:
        return r, st, p
    return I.ref(root, mpush(I, m, path, ('view',) + ra + rb)), st, p


def dnf_and2(pc, cs):
    for c in cs:
        pc = absint.dnf_and(pc, c)
    return pc


tup = absint.tup


# ------------------------------------------------------------------ elements
def mel(t, i, j):
    """Element (i, j) of a matrix built by updates (the coordinates are assumed to be in range)."""
    o = t.op
    if o == 'ite':
        return ite(t.args[0], mel(t.args[1], i, j), mel(t.args[2], i, j))
    if o == 'mtr':
        return mel(t.args[0], j, i)
    if o == 'mview':
        return mel(t.args[0], add(t.args[1], i), add(t.args[3], j))
    if o == 'mconst':
        return t.args[2]
    if o == 'upd' and t.args[1][0] == 'ix2':
        _, a, b = t.args[1]
        return ite(land(eq0(sub(i, a)), eq0(sub(j, b))), t.args[2], mel(t.args[0], i, j))
    if o == 'fmap':
        r = mel(t.args[0], i, j)
        for ivs, bs, key, v in t.args[1]:
            s = solve_entry(ivs, bs, key, v, i, j)
            if s is None:
                return proj(t, ('ix2', i, j))
            r = ite(s[0], s[1], r)
        return r
    if o == 'mmul':
        return proj(t, ('ix2', i, j))
    return proj(t, ('ix2', i, j))


def solve_entry(ivs, bs, key, v, i, j):
    if key[0] != 'ix2':
        return None
    es, xs = [key[1], key[2]], [i, j]
    left = list(ivs)
    m = {}
    conds = []
    ch = True
    while left and ch:
        ch = False
        for c in (0, 1):
            e = subst(es[c], m) if m else es[c]
            occ = [iv for iv in left if contains(e, lambda x: x is iv)]
            if len(occ) == 1:
                iv = occ[0]
                co = to_poly(e).get(((iv, 1),), 0)
                rest = sub(e, scale(iv, co))
                if co not in (1, -1) or contains(rest, lambda x: x is iv):
                    return None
                m[iv] = scale(sub(xs[c], rest), co)
                left.remove(iv)
                ch = True
                break
    if left:
        return None
    for iv in ivs:
        conds.append(gt0(add(m[iv], const(1))))
    for c in (0, 1):
        e = subst(es[c], m)
        if e is not xs[c]:
            conds.append(eq0(sub(e, xs[c])))
    for b in bs:
        conds.append(subst(b, m))
    return land(*conds), subst(v, m)


MATS = ('fmap', 'upd', 'mtr', 'mview', 'mconst', 'ite')


def deep_mel(t, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    m = {}
    for x in subterms(t):
        if x.op == 'proj' and x.args[1][0] == 'ix2' and x.args[0].op in MATS:
            y = mel(x.args[0], x.args[1][1], x.args[1][2])
            if y is not x:
                m[x] = deep_mel(y, memo) if y is not t else y
    r = subst(t, m) if m else t
    memo[t] = r
    return r


class MatChecker(Checker):
    def __init__(self, prog, rep, prims=None, opaque=None, budget=20000, max_depth=12):
        self._own = prims
        super().__init__(prog, rep, (), opaque, budget, max_depth)

    def run(self, fn, **kw):
        self.prims = tuple(self._own or ()) + (storage(fn),)
        return super().run(fn, **kw)

    def mat(self, fn, what, got, m, n, el, facts=(), pc=None, calls=()):
        """got is the m x n matrix with elements el(i, j)."""
        a = self.same(fn, what + ': rows', msize(got, 0), m, facts, pc, calls)
        b = self.same(fn, what + ': columns', msize(got, 1), n, facts, pc, calls)
        i, j = mk('row', fn.label()), mk('col', fn.label())
        i.nn = j.nn = True
        fs = list(facts) + [gt0(sub(m, i)), gt0(sub(n, j))]
        e = deep_mel(mel(got, i, j))
        if contains(e, lambda x: x.op == 'mnew'):
            left = self.fresh_left(e, fs, pc)
            if left is True:
                self.rep.require('%s:%s' % (fn.label(), what + ': every element is written'), False, 'an element of the new matrix keeps its uninitialised value: %s' % show(e)[:300], self.where(fn))
                return False
            if left is None:
                self.rep.count('undecided')
                return None
        return self.same(fn, what + ': elements', e, el(i, j), fs, pc, calls)

    def truth(self, fn, what, r, want, facts=()):
        """The answer is the truth of want (both read up to the order of independent quantifiers)."""
        got, want = norm2(deep_mel(r.ret)), norm2(want)
        return self.same(fn, what, got, want, facts, r.pc)

    def accepts(self, fn, what, pc, facts):
        """No input with the given facts is turned away: the path predicate holds for all of them."""
        key = '%s:%s' % (fn.label(), what)
        goal = lor(*[land(*c) for c in pc]) if pc else FALSE
        got = simplify_bool(goal, list(facts))
        if got is TRUE or entails(list(facts), got):
            self.rep.require(key, True, '')
            return True
        if all(y.op not in UNDECIDED and y.op not in ('phi', 'first', 'argbest', 'call', 'callf') for y in subterms(got)) and not quantified(got):
            self.rep.require(key, False, 'it also requires %s' % show(got)[:300], self.where(fn))
            return False
        self.rep.count('undecided')
        return None

    def inside(self, fn, r, facts):
        """Every element access of an accepted input lies inside the matrix it addresses."""
        bad, n = None, 0
        for e in r.events:
            if e.kind == 'index':
                a, b, m = e.data[0], e.data[1], e.data[2]
                goals = [gt0(sub(msize(m, 0), a)), gt0(sub(msize(m, 1), b)), gt0(add(a, const(1))), gt0(add(b, const(1)))]
            elif e.kind == 'rawwrite':
                a, b, m = e.data[0], e.data[1], e.data[2]
                goals = [gt0(sub(msize(m, 0), a)), gt0(sub(msize(m, 1), b)), gt0(add(a, const(1))), gt0(add(b, const(1)))]
            elif e.kind == 'view':
                r0, r1, c0, c1, m = e.data
                goals = [gt0(add(sub(msize(m, 0), r1), const(1))), gt0(add(sub(msize(m, 1), c1), const(1))), gt0(add(sub(r1, r0), const(1))), gt0(add(sub(c1, c0), const(1)))]
            else:
                continue
            n += 1
            for g in goals:
                if g is TRUE:
                    continue
                for c in e.pc:
                    fs = list(facts) + list(c) + self.ivs_nonneg(list(c) + [g])
                    if contradictory(fs) or entails(fs, g):
                        continue
                    if affine(g) and all(affine(f) or f.op not in ('gt0', 'eq0') for f in fs) and all(closed_cond(f) for f in fs):
                        bad = bad or (g, c)
                    else:
                        self.rep.count('undecided')
        self.rep.require('%s:element accesses are inside the matrix' % fn.label(), bad is None,
                         'an access needs %s, which fails in the case: %s' % ((show(bad[0])[:200], show_case(bad[1])[:300]) if bad else ('', '')), self.where(fn))
        self.rep.count('element accesses', n)

    def ivs_nonneg(self, ts):
        out = set()
        for t in ts:
            for x in subterms(t):
                if x.op in ('iv', 'msize', 'len'):
                    out.add(gt0(add(x, const(1))))
        return sorted(out, key=skey)

    def pointwise(self, fn, what, r, root, other, facts=()):
        """In-place elementwise operation: every store to (p, q) combines it with element (p, q) of the other operand, once."""
        for e in r.events:
            if e.kind != 'store' or e.data[0].op != 'ref' or e.data[0].args[0] != root:
                continue
            path = e.data[0].args[1]
            if not path or path[-1][0] != 'ix2':
                continue
            _, p, q = path[-1]
            v = e.data[1]
            for L in e.loops:
                if not contains(p, lambda x: x is L.iv) and not contains(q, lambda x: x is L.iv):
                    self.rep.require('%s:%s' % (fn.label(), what + ': each element once'), False, 'element (%s, %s) is stored in every iteration of a loop over %s' % (show(p), show(q), show(L.iv)), self.where(fn))
            for x in subterms(v):
                if x.op == 'proj' and x.args[1][0] == 'ix2' and other is not None and x.args[0] is other:
                    for d in (sub(x.args[1][1], p), sub(x.args[1][2], q)):
                        if d is not const(0) and affine(d) and not any(forced_zero(d, list(facts) + list(c)) for c in e.pc):
                            self.rep.require('%s:%s' % (fn.label(), what + ': matching elements'), False,
                                             'element (%s, %s) is combined with element (%s, %s)' % (show(p), show(q), show(x.args[1][1]), show(x.args[1][2])), self.where(fn))

    def fresh_left(self, e, fs, pc):
        """Whether a feasible case leaves an uninitialised element in e."""
        for c in (pc if pc is not None else [frozenset()]):
            cs = cases([e], fs + list(c))
            if cs is None:
                return None
            for f, (t,) in cs:
                if contradictory(f):
                    continue
                if contains(t, lambda x: x.op == 'mnew'):
                    return True if closed_cond(t) and all(closed_cond(x) for x in f) else None
        return False


def affine(t):
    if t.op in ('gt0', 'eq0'):
        t = t.args[0]
    if t.op == 'not':
        return affine(t.args[0])
    return all(len(m) <= 1 and all(p == 1 and x.op in ('iv', 'msize', 'len', 'arg', 'cparam', 'row', 'col') for x, p in m) for m in to_poly(t))


def quantified(t):
    return contains(t, lambda x: x.op in ('any', 'sum', 'prod'))


def simplify_bool(t, facts):
    """t without the conjuncts the facts already give."""
    t = alpha(t)
    facts = [alpha(f) for f in facts]
    if t.op == 'and':
        return land(*[simplify_bool(x, facts) for x in t.args[0]])
    if t.op == 'or':
        return lor(*[simplify_bool(x, facts) for x in t.args[0]])
    if entails(facts, t):
        return TRUE
    return t


def closed_cond(x):
    return all(y.op not in UNDECIDED and y.op not in ('phi', 'first', 'argbest', 'call', 'callf') for y in subterms(x))


DUMP = (storage(None),)


def dump(I, op, name, fn, args, st, pc, at):
    return DUMP[0](I, op, name, fn, args, st, pc, at)


# ------------------------------------------------------------------ nested quantifiers
def norm2(t):
    """Nested sums and searches over independent ranges, in one order."""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        m = {}
        for y in children(x):
            g = go(y)
            if g is not y:
                m[y] = g
        r = subst(x, m) if m else x
        r = swap(r)
        memo[x] = r
        return r

    def swap(x):
        if x.op == 'any':
            iv, ls = x.args[0], flat(x.args[1])
            inn = [l for l in ls if l.op == 'any']
            if len(inn) == 1:
                jv, js = inn[0].args[0], flat(inn[0].args[1])
                rest = [l for l in ls if l is not inn[0]]
                bo = [l for l in rest if contains(l, lambda q: q is iv) or True]
                bi = [l for l in js if not contains(l, lambda q: q is iv)]
                bx = [l for l in js if contains(l, lambda q: q is iv)]
                # both nestings: conditions on one index only stay with that index
                one = mk('any', iv, land(*(bo + [mk('any', jv, land(*(bi + bx)))])))
                two = mk('any', jv, land(*(bi + [mk('any', iv, land(*(bo + bx)))])))
                return min((one, two), key=lambda q: repr(skey(alpha(q))))
        if x.op == 'sum' and x.args[2].op == 'sum':
            iv, bs, inner = x.args
            jv, js, v = inner.args
            if not any(contains(l, lambda q: q is iv) for l in js):
                two = mk('sum', jv, js, mk('sum', iv, bs, v))
                return min((x, two), key=lambda q: repr(skey(alpha(q))))
        return x
    return go(t)


def children(x):
    out = []

    def w(a):
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, (tuple, frozenset)):
            for b in a:
                w(b)
    for a in x.args:
        w(a)
    return out
