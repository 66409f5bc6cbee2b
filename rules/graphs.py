"""T11: graphs are sets of edges; T20: cube factors and edge paths."""
from spec import *
import absint, models
from fractions import Fraction
from absint import dnf_and

G_ADT = 'graph::RawSimpleGraph'
a0, a1, a2 = mk('arg', 0), mk('arg', 1), mk('arg', 2)


def fields(prog, path, crate='topo_spaces'):
    for a in prog.adts.values():
        if a['crate'] == crate and a['path'] == path:
            return [f['ty'] for f in a['variants'][0]['fields']]
    return None


class Layout:
    def __init__(self, prog):
        fs = fields(prog, G_ADT) or []
        d = [i for i, t in enumerate(fs) if 'BinaryPool' in t]
        n = [i for i, t in enumerate(fs) if t == 'usize']
        b = [i for i, t in enumerate(fs) if t == 'bool']
        self.ok = len(d) == len(n) == len(b) == 1
        if self.ok:
            self.D, self.N, self.T = d[0], n[0], b[0]

    def data(self, g): return proj(g, ('f', self.D))
    def nv(self, g): return proj(g, ('f', self.N))
    def chosen(self, g): return proj(g, ('f', self.T))
    def edge(self, g, i, j): return joined(self.data(g), i, j)


def truth_of(c):
    if is_bool(c):
        return c
    if c.op == 'ite':
        t, e = truth_of(c.args[1]), truth_of(c.args[2])
        return lor(land(c.args[0], t), land(lnot(c.args[0]), e))
    return mk('bit', c, const(0))


def joined(d, i, j):
    """The pair {i, j} is in the set of edges d."""
    if i is j:
        return FALSE
    return mk('bit', mk('adj', d, frozenset((i, j))), const(0))


def pool_ops(I, op, name, fn, args, st, pc, at):
    """The bit-set as a set of indices (T09)."""
    if fn is None or fn.crate != 'util' or not (fn.implself or '').endswith('BinaryPool') or fn.trait or fn.kind == 'closure':
        return NotImplemented
    if fn.name in ('contains', 'add', 'remove'):
        p, i = I.reify(st, models.val(I, st, args[0])), models.val(I, st, args[1])
        if fn.name == 'contains':
            return truth_of(proj(p, ('ix', i))), st, pc
        st = dict(st)
        I.store(st, args[0], absint.upd(p, ('ix', i), TRUE if fn.name == 'add' else FALSE))
        return unit(), st, pc
    if fn.name == 'len':
        p = I.reify(st, models.val(I, st, args[0]))
        while p.op == 'upd':
            p = p.args[0]
        return p.args[1] if p.op == 'repeat' else length(p), st, pc
    if fn.name == 'new':
        return mk('repeat', FALSE, models.val(I, st, args[0])), st, pc
    if fn.name == 'n_elements':
        return mk('call', 'count', (I.reify(st, models.val(I, st, args[0])),)), st, pc
    if fn.name == 'is_full':
        p = I.reify(st, models.val(I, st, args[0]))
        return mk('bit', mk('full', p), const(0)), st, pc
    return NotImplemented


def unit():
    return mk('agg', ('tuple',))


def graph_ops(L, level=2):
    """The operations of RawSimpleGraph on its set of edges, for the functions built from them."""
    def prim(I, op, name, fn, args, st, pc, at):
        if fn is None or fn.crate != 'topo_spaces' or fn.kind == 'closure':
            return NotImplemented
        if (fn.implself or '').startswith('graph::AdjacentVerticesIter') and fn.name == 'next':
            return models.it_next(I, op, args, st, pc, at)
        if fn.implself != G_ADT or fn.trait:
            return NotImplemented
        V = lambda k: models.val(I, st, args[k])
        g = lambda: behind(I, st, args[0])
        if fn.name in ('contains', 'add_edge', 'remove_edge'):
            G, i, j = g(), V(1), V(2)
            I.event('pair', fn.name, (i, j, L.nv(G)), pc, at)
            pc = dnf_and(dnf_and(pc, gt0(sub(j, i))), gt0(sub(L.nv(G), j)))
            if not pc:
                return None
            if fn.name == 'contains':
                return L.edge(G, i, j), st, pc
            st = dict(st)
            I.store(st, args[0], absint.setpath(G, (('f', L.D), ('ix2', i, j)), TRUE if fn.name == 'add_edge' else FALSE))
            return unit(), st, pc
        if fn.name == 'n_vertices':
            return L.nv(g()), st, pc
        if fn.name == 'n_edges':
            return mk('call', 'n_edges', (L.data(g()),)), st, pc
        if fn.name == 'adjacent_vertices_iter':
            return adj_iter(I, L, g(), V(1)), st, pc
        if level >= 3:
            if fn.name == 'maximal_tree_contains':
                G, e = g(), I.reify(st, V(1))
                i, j = minmax(proj(e, ('ix', const(0)))), minmax(proj(e, ('ix', const(1))))
                I.event('pair', fn.name, (i, j, L.nv(G)), pc, at)
                pc = dnf_and(dnf_and(dnf_and(pc, gt0(sub(j, i))), gt0(sub(L.nv(G), j))), L.chosen(G))
                if not pc:
                    return None
                return mk('bit', mk('intree', L.data(G), frozenset((i, j))), const(0)), st, pc
            if fn.name == 'swap':
                G, i, j = g(), V(1), V(2)
                st = dict(st)
                I.store(st, args[0], absint.upd(G, ('f', L.D), mk('swapped', L.data(G), frozenset((i, j)))))
                return unit(), st, pc
        return NotImplemented
    return prim


def behind(I, st, a):
    """The value behind a reference, also one that is not known to point anywhere in particular."""
    if a.op in ('ref', 'ite'):
        return I.reify(st, models.val(I, st, a))
    return I.reify(st, I.content(st, a))


def minmax(t):
    """The smaller or greater of two sorted numbers."""
    m = {}
    for x in subterms(t):
        if x.op == 'proj' and x.args[0].op == 'sorted' and x.args[1][0] == 'ix' and cval(x.args[1][1]) in (0, 1):
            c = x.args[0].args[0]
            if c.op == 'agg' and len(c.args) == 3 and c.args[0][0] == 'array':
                p, q = c.args[1], c.args[2]
                lo, hi = ite(gt0(sub(q, p)), p, q), ite(gt0(sub(q, p)), q, p)
                m[x] = lo if cval(x.args[1][1]) == 0 else hi
    return subst(t, m) if m else t


def adj_iter(I, L, G, v):
    I.fresh += 1
    k = mk('at', 'adj%d' % I.fresh)
    k.nn = True
    return mk('it_such', mk('it_range', const(0), L.nv(G)), k, L.edge(G, k, v))


class _Lay:
    """For tools/dump.py."""
    l = None

    def __call__(self, I, *a):
        if self.l is None:
            self.l = Layout(I.prog)
        return graph_ops(self.l)(I, *a)


gops = _Lay()


def again(I, op, name, fn, args, st, pc, at):
    return NotImplemented


# ------------------------------------------------------------------ sets of edges after loops
class Sets:
    """Membership of a pair of vertices in what a function made of a set of edges, as a condition on the set before."""

    def __init__(self, r):
        self.r = r
        self.busy = set()

    def member(self, d, x, y):
        if x is y:
            return FALSE
        if d.op == 'upd' and d.args[1][0] == 'ix2':
            m = self.match(d.args[1][1], d.args[1][2], x, y)
            rest = self.member(d.args[0], x, y)
            if d.args[2] is TRUE:
                return lor(m, rest)
            if d.args[2] is FALSE:
                return land(lnot(m), rest)
            return None
        if d.op == 'ite':
            a, b = self.member(d.args[1], x, y), self.member(d.args[2], x, y)
            if a is None or b is None:
                return None
            c = self.resolve(d.args[0])
            return None if c is None else lor(land(c, a), land(lnot(c), b))
        if d.op == 'phi':
            return self.loop(d, x, y)
        if d.op == 'fmap':
            m = self.member(d.args[0], x, y)
            if m is None:
                return None
            vs = {e[3] for e in d.args[1]}
            hit = FALSE
            for ivs, bs, key, v in d.args[1]:
                if len(ivs) != 1 or key[0] != 'ix2':
                    return None
                h = self.hit(ivs[0], [bs], key[1], key[2], x, y)
                if h is None:
                    return None
                hit = lor(hit, h)
            return lor(m, hit) if vs == {TRUE} else land(m, lnot(hit)) if vs == {FALSE} else None
        if d.op in UNDECIDED or d.op in ('call', 'post'):
            return None
        return joined(d, x, y)

    def match(self, p, q, x, y):
        def eq(a, b):
            return eq0(sub(a, b))
        return lor(land(eq(p, x), eq(q, y)), land(eq(p, y), eq(q, x)))

    def loop(self, d, x, y):
        L = self.r.interp.loop_objs.get(d.args[0])
        n = L.next.get(d) if L is not None else None
        if n is None or d in self.busy:
            return None
        self.busy.add(d)
        try:
            ws = []

            def peel(n, cs):
                if n is d:
                    return True
                if n.op == 'upd' and n.args[1][0] == 'ix2':
                    ws.append((cs, n.args[1][1], n.args[1][2], n.args[2]))
                    return peel(n.args[0], cs)
                if n.op == 'ite':
                    return peel(n.args[1], cs + [n.args[0]]) and peel(n.args[2], cs + [lnot(n.args[0])])
                return False
            if not peel(n, []):
                return None
            vs = {w[3] for w in ws}
            if len(vs) != 1 or next(iter(vs)) not in (TRUE, FALSE):
                return None
            hit = FALSE
            clauses = [c for bp, _ in L.backs for c in bp]
            for cs, p, q, v in ws:
                h = self.hit(L.iv, [frozenset(c) | frozenset(cs) for c in clauses], p, q, x, y)
                if h is None:
                    return None
                hit = lor(hit, h)
            m = self.member(d.args[2], x, y)
            if m is None:
                return None
            return lor(m, hit) if TRUE in vs else land(m, lnot(hit))
        finally:
            self.busy.discard(d)

    def hit(self, iv, clauses, p, q, x, y):
        """Some round that satisfies one of the clauses touches the pair {x, y}."""
        out = FALSE
        for cond, p1, q1 in pair_split(p, q):
            for cl in clauses:
                ls = list(cl) + ([cond] if cond is not TRUE else [])
                for s, t in ((x, y), (y, x)):
                    k = None
                    for e, w in ((p1, s), (q1, t)):
                        co = to_poly(e).get(((iv, 1),), 0)
                        if co in (1, -1) and not contains(sub(e, scale(iv, co)), lambda z: z is iv):
                            k = scale(sub(w, sub(e, scale(iv, co))), co)
                            break
                    if k is not None:
                        m = {iv: k}
                        c = land(*([subst(l, m) for l in ls] + [eq0(sub(subst(p1, m), s)), eq0(sub(subst(q1, m), t)), gt0(add(k, const(1)))]))
                    elif not contains(p1, lambda z: z is iv) and not contains(q1, lambda z: z is iv):
                        c = land(eq0(sub(p1, s)), eq0(sub(q1, t)), mk('any', iv, land(*ls)))
                    else:
                        return None
                    c = self.resolve(c)
                    if c is None:
                        return None
                    out = lor(out, c)
        return out

    def resolve(self, t):
        """Every question about a set of edges is put to the set before."""
        m = {}
        for x in subterms(t):
            if x.op == 'bit' and x.args[0].op == 'adj':
                d, ps = x.args[0].args
                ps = sorted(ps, key=skey)
                if len(ps) == 1:
                    m[x] = FALSE
                elif d.op in ('upd', 'phi', 'fmap', 'ite'):
                    v = self.member(d, *ps)
                    if v is None:
                        return None
                    m[x] = v
        return subst(t, m) if m else t


def pair_split(p, q):
    if p.op == 'ite' and q.op == 'ite' and p.args[0] is q.args[0] and p.args[1] is q.args[2] and p.args[2] is q.args[1]:
        return [(TRUE, p.args[1], p.args[2])]
    for t in (p, q):
        if t.op == 'ite':
            out = []
            for v in (True, False):
                c = t.args[0] if v else lnot(t.args[0])
                for c2, a, b in pair_split(under(p, t.args[0], v), under(q, t.args[0], v)):
                    out.append((land(c, c2), a, b))
            return out
    return [(TRUE, p, q)]


def condition(ck, fn, what, got, want, facts=(), text=None):
    """Two conditions are equivalent under the facts."""
    if got is None:
        ck.rep.count('undecided')
        return None
    key = '%s:%s' % (fn.label(), what)
    cs = cases([got, want], list(facts))
    if cs is None:
        ck.rep.count('undecided')
        return None
    ok = True
    for fs, (g, w) in cs:
        if contradictory(fs):
            continue
        def same():
            if g is w:
                return True
            if w is TRUE:
                return entails(fs, g)
            if w is FALSE:
                return entails(fs, lnot(g))
            if g is TRUE:
                return entails(fs, w)
            if g is FALSE:
                return entails(fs, lnot(w))
            return entails(fs + [g], w) and entails(fs + [w], g)
        if same():
            continue
        if not understood(g) or not understood(land(*[f for f in fs if f not in facts])):
            ok = None
            continue
        ck.rep.require(key, False, '%s: %s where %s is required, when %s' % (text or what, show(g)[:300], show(w)[:200], show_case([f for f in fs if f not in facts])[:300]), ck.where(fn))
        return False
    if ok is None:
        ck.rep.count('undecided')
        return None
    ck.rep.require(key, True, '')
    return True


def understood(t):
    return not contains(t, lambda x: x.op in UNDECIDED or x.op in ('phi', 'call', 'callf', 'first', 'best', 'iterstate', 'post'))


# ------------------------------------------------------------------ T11
def check_T11(prog, rep):
    rep.rule('every operation is summarised over a symbolic set of edges: membership of a symbolic pair of vertices afterwards, and every '
             'answer, is compared as a condition on the set before; the numbering of pairs by the bit-set is a bijection by successor identities')
    rep.assumptions += ['the bit-set is a set of indices (T09)', 'machine integers do not overflow']
    L = Layout(prog)
    rep.require('anchor:RawSimpleGraph', L.ok, 'RawSimpleGraph does not consist of a bit-set, a number of vertices and a flag')
    if not L.ok:
        return
    rep.group(numbering, prog, rep, L)
    rep.group(neighbours, prog, rep, L)
    rep.group(queries, prog, rep, L)
    rep.group(changes, prog, rep, L)
    rep.group(edges, prog, rep, L)
    rep.group(chain, prog, rep, L)
    rep.group(labelled, prog, rep)
    rep.group(weighted, prog, rep)
    rep.group(subdivision, prog, rep, L)
    rep.floor('operations', 8)


def find(ck, nm, self=G_ADT, trait=''):
    ck.rep.count('operations')
    return ck.one(self.split('::')[-1] + '::' + nm, crate='topo_spaces', name=nm, implself=self, trait=trait)


def maybe(prog, nm, self=G_ADT, trait=''):
    fs = [f for f in prog.find(crate='topo_spaces', name=nm, implself=self, trait=trait) if f.body is not None and f.kind != 'closure']
    return fs[0] if len(fs) == 1 else None


def halves(t):
    """x / 2 of a polynomial that is even for all integers, exactly."""
    m = {}
    for x in subterms(t):
        if x.op == 'idiv' and cval(x.args[1]) == 2:
            p = to_poly(x.args[0])
            vs = sorted({v for mo in p for v, _ in mo}, key=skey)
            if all(c == int(c) for c in p.values()) and len(vs) <= 6:
                even = True
                for k in range(2 ** len(vs)):
                    at = {v: (k >> i) & 1 for i, v in enumerate(vs)}
                    tot = 0
                    for mo, c in p.items():
                        f = int(c)
                        for v, e in mo:
                            f *= at[v] ** e
                        tot += f
                    if tot % 2:
                        even = False
                if even:
                    m[x] = scale(x.args[0], Fraction(1, 2))
    return subst(t, m) if m else t


def numbering(prog, rep, L):
    """Pairs i < j of vertices are numbered one to one from 0 to the size of the bit-set."""
    ck = Checker(prog, rep, (pool_ops,))
    fns = {n: find(ck, n) for n in ('contains', 'add_edge', 'remove_edge', 'new', 'n_edges', 'n_vertices')}
    if any(f is None for f in fns.values()):
        return
    rs = {n: ck.run(f) for n, f in fns.items()}
    if any(r is None for r in rs.values()):
        return
    for nm, r in rs.items():
        if not r.pc:
            rep.require(fns[nm].label() + ':accepts', False, 'it never returns', ck.where(fns[nm]))
            return
    i, j = a1, a2
    base = [gt0(sub(a2, a1)), gt0(sub(L.nv(a0), a2))]
    # what index a question is about
    r, fn = rs['contains'], fns['contains']
    X = None
    g = settled(r.ret, base)
    got = [((), (g,))]
    if True:
        if g.op == 'bit' and g.args[0].op == 'proj' and g.args[0].args[0] is L.data(a0) and g.args[0].args[1][0] == 'ix':
            X = g.args[0].args[1][1]
    if X is None:
        if got and all(closed(g) and not contains(g, lambda x: x.op == 'bit') for _, (g,) in got):
            rep.require(fn.label() + ':answer', False, 'the answer is %s' % show(r.ret)[:200], ck.where(fn))
        else:
            rep.count('undecided')
        return
    # the wrong order is rejected, or means the same edge
    rev = [gt0(sub(a1, a2))]
    for nm in ('contains', 'add_edge', 'remove_edge'):
        f, r2 = fns[nm], rs[nm]
        rep.require(f.label() + ':accepts', any(not contradictory(base + list(c)) and all(entails(base, l) for l in c) for c in r2.pc),
                    'an edge i < j is rejected', ck.where(f))
        for c in r2.pc:
            for extra, text in ((rev, 'the greater vertex first'), ([eq0(sub(a1, a2))], 'a vertex with itself')):
                fs = extra + list(c)
                if contradictory(fs):
                    continue
                Y = subst_swap(X)
                if nm == 'contains':
                    v = bit_at(L, a0, Y) if extra is rev else FALSE
                    condition(ck, f, text, r2.ret, v, fs)
                else:
                    d = L.data(r2.state.get(('P', 0), a0))
                    w = absint.upd(L.data(a0), ('ix', Y), TRUE if nm == 'add_edge' else FALSE) if extra is rev else L.data(a0)
                    ck.same(f, text, d, w, fs)
    for nm, v in (('add_edge', TRUE), ('remove_edge', FALSE)):
        f, r2 = fns[nm], rs[nm]
        st = r2.state.get(('P', 0), a0)
        ck.same(f, 'edges afterwards', L.data(st), absint.upd(L.data(a0), ('ix', X), v), base)
        ck.same(f, 'vertices afterwards', L.nv(st), L.nv(a0), base)
        ck.same(f, 'choice of the tree', L.chosen(st), L.chosen(a0), base)
    ck.same(fns['contains'], 'graph unchanged', rs['contains'].state.get(('P', 0), a0), a0, base)
    # new
    f, r = fns['new'], rs['new']
    d = L.data(r.ret)
    ck.same(f, 'number of vertices', L.nv(r.ret), a0)
    condition(ck, f, 'no tree is chosen', L.chosen(r.ret), FALSE)
    size = None
    if d.op == 'repeat':
        rep.require(f.label() + ':empty', d.args[0] is FALSE, 'a new graph has edges', ck.where(f))
        size = subst(d.args[1], {a0: mk('at', 'n')})
    else:
        rep.count('undecided')
    ck.same(fns['n_vertices'], 'answer', rs['n_vertices'].ret, L.nv(a0))
    ck.same(fns['n_edges'], 'answer', rs['n_edges'].ret, mk('call', 'count', (L.data(a0),)))
    # the numbering
    n = mk('at', 'n')
    n.nn = True
    Xn = subst(X, {L.nv(a0): n})
    fn = fns['contains']
    f_ = lambda p, q: halves(subst(Xn, {a1: p, a2: q}))
    one = const(1)
    z = lambda t: t is const(0)
    same = lambda x, y: z(halves(sub(x, y)))
    sz = halves(size) if size is not None else None
    cols = z(f_(const(0), one)) and same(f_(add(i, one), j), add(f_(i, j), one)) and same(f_(const(0), add(j, one)), add(f_(sub(j, one), j), one)) \
        and (sz is None or same(add(f_(sub(n, const(2)), sub(n, one)), one), sz))
    rows = z(f_(const(0), one)) and same(f_(i, add(j, one)), add(f_(i, j), one)) and same(f_(add(i, one), add(i, const(2))), add(f_(i, sub(n, one)), one)) \
        and (sz is None or same(add(f_(sub(n, const(2)), sub(n, one)), one), sz))
    if cols or rows:
        rep.require(fn.label() + ':numbering', True, '')
        return
    wit = None
    for m in range(2, 7):
        seen = {}
        cap = number(subst(size, {n: const(m)})) if size is not None else None
        for q in range(m):
            for p in range(q):
                v = number(subst(subst(Xn, {a1: const(p), a2: const(q)}), {n: const(m)}))
                if v is None or wit:
                    continue
                if v in seen:
                    wit = 'the edges %s and %s of a graph with %d vertices share the index %d' % (seen[v], (p, q), m, v)
                elif cap is not None and not 0 <= v < cap:
                    wit = 'the edge %s of a graph with %d vertices has the index %s of %s' % ((p, q), m, v, cap)
                seen[v] = (p, q)
    if wit:
        rep.require(fn.label() + ':numbering', False, wit, ck.where(fn))
    else:
        rep.count('undecided')


def number(t):
    """The value of a constant term with integer division."""
    for _ in range(6):
        v = cval(t)
        if v is not None:
            return v
        m = {}
        for x in subterms(t):
            if x.op == 'idiv':
                p, q = cval(x.args[0]), cval(x.args[1])
                if p is not None and q is not None and q != 0 and p >= 0:
                    m[x] = const(int(p) // int(q))
        if not m:
            return None
        t = subst(t, m)
    return None


def settled(t, facts):
    """t under the facts, as far as they decide its gates."""
    for _ in range(8):
        cs = set()
        conds(t, cs, set())
        for c in sorted(cs, key=skey):
            if entails(list(facts), c):
                u = under(t, c, True)
            elif entails(list(facts), lnot(c)):
                u = under(t, c, False)
            else:
                continue
            if u is not t:
                t = u
                break
        else:
            return t
    return t


def accepted(ck, fn, r, base):
    """Every pair the function asks its graph about is one of vertices i < j of the graph."""
    for e in r.events:
        if e.kind != 'pair':
            continue
        i, j, n = e.data
        ivs = {l.iv: mk('at', 'v%d' % k) for k, l in enumerate(e.loops) if l.iv is not None}
        for v in ivs.values():
            v.nn = True
        i, j = subst(i, ivs), subst(j, ivs)
        for c in e.pc:
            fss = [base + [subst(l, ivs) for l in c]]
            for l in fss[0]:
                d = None
                if l.op == 'bit' and l.args[0].op == 'adj' and len(l.args[0].args[1]) == 2:
                    p, q = sorted(l.args[0].args[1], key=skey)
                    d = sub(p, q)
                elif l.op == 'not' and l.args[0].op == 'eq0':
                    d = l.args[0].args[0]
                if d is not None and len(fss) < 32:
                    fss = [f + [g] for f in fss for g in (gt0(d), gt0(sub(const(0), d))) if not contradictory(f + [g])]
            for fs in fss:
                for f2, (u, v) in cases([i, j], fs) or []:
                    goals = [gt0(sub(v, u)), gt0(sub(n, v))]
                    if contradictory(f2) or all(entails(f2, g) for g in goals):
                        ck.rep.require(fn.label() + ':pairs asked about', True, '')
                    elif understood(land(*[l for l in f2 if l.op != 'bit' and not (l.op == 'not' and l.args[0].op == 'bit')])) and closed(u) and closed(v):
                        ck.rep.require(fn.label() + ':pairs asked about', False, '%s of (%s, %s) when %s' % (e.name, show(u)[:60], show(v)[:60], show_case(f2)[:300]), ck.where(fn))
                    else:
                        ck.rep.count('undecided')


def subst_swap(t):
    x = mk('at', 'swap')
    return subst(subst(subst(t, {a1: x}), {a2: a1}), {x: a2})


def bit_at(L, g, x):
    return truth_of(proj(L.data(g), ('ix', x)))


def neighbours(prog, rep, L):
    """The adjacent vertices are met in increasing order, each once."""
    self = [f.implself for f in prog.fns.values() if f.crate == 'topo_spaces' and (f.implself or '').startswith('graph::AdjacentVerticesIter') and f.name == 'next']
    ck = Checker(prog, rep, (graph_ops(L),))
    fn = find(ck, 'adjacent_vertices_iter')
    if fn is None or len(self) != 1:
        rep.count('undecided')
        return
    nx = [f for f in prog.fns.values() if f.crate == 'topo_spaces' and f.implself == self[0] and f.name == 'next'][0]

    base = Checker(prog, rep, (base_ops(L),))
    r, rn = base.run(fn), base.run(nx)
    if r is None or rn is None or r.ret is None or r.ret.op != 'agg':
        rep.count('undecided')
        return
    fs = [a for a in prog.adts.values() if a['crate'] == 'topo_spaces' and a['path'] == 'graph::AdjacentVerticesIter'][0]['variants'][0]['fields']
    g = [k for k, f in enumerate(fs) if 'RawSimpleGraph' in f['ty']]
    us = [k for k, f in enumerate(fs) if f['ty'] == 'usize']
    if len(g) != 1 or len(us) != 2:
        rep.count('undecided')
        return
    # which field is the vertex, which the position
    v = [k for k in us if proj(r.ret, ('f', k)) is a1]
    if len(v) != 1:
        if all(cval(proj(r.ret, ('f', k))) is not None for k in us):
            rep.require(fn.label() + ':vertex', False, 'the iterator does not start with the vertex asked for', ck.where(fn))
        else:
            rep.count('undecided')
        return
    V, C = v[0], [k for k in us if k != v[0]][0]
    base.same(fn, 'start', proj(r.ret, ('f', C)), const(0))
    it = a0
    G = I_deref(rn, proj(it, ('f', g[0])))
    cur, vert = proj(it, ('f', C)), proj(it, ('f', V))
    n = L.nv(G)
    unref = lambda t: subst(t, {x: x.args[0] for x in subterms(t) if x.op == 'deref'})
    G = unref(G)
    n = L.nv(G)
    cs = []
    for c in rn.pc:
        cs += cases([unref(rn.ret), unref(rn.state.get(('P', 0), it))], [unref(l) for l in c]) or []
    if not cs:
        rep.count('undecided')
        return
    for fs, (ret, st) in cs:
        key = nx.label()
        adj = land(L.edge(G, cur, vert))
        if ret.op == 'call':
            s = next((x for x in subterms(ret.args[1][0]) if x.op == 'upd' or x is it), None)
            if s is None:
                rep.count('undecided')
                continue
            c2 = proj(s, ('f', C))
            rep.require(key + ':skips only others', contradictory(fs + [adj]) or contradictory(fs + [adj, lnot(eq0(sub(cur, vert)))]),
                        'a neighbour is skipped when %s' % show_case(fs)[:300], base.where(nx)) if contradictory(fs + [gt0(sub(n, vert))]) or understood(land(*fs)) else rep.count('undecided')
            base.same(nx, 'next position', c2, add(cur, const(1)), fs)
            base.same(nx, 'vertex kept', proj(s, ('f', V)), vert, fs)
            continue
        if ret.op == 'agg' and ret.args[0][0] == 'adt' and len(ret.args) == 1:
            rep.require(key + ':ends at the last vertex', entails(fs, gt0(add(sub(cur, n), const(1)))), 'the iteration ends when %s' % show_case(fs)[:300], base.where(nx)) if understood(land(*fs)) else rep.count('undecided')
        elif ret.op == 'agg' and ret.args[0][0] == 'adt' and len(ret.args) == 2:
            base.same(nx, 'vertex met', ret.args[1], cur, fs)
            base.same(nx, 'position afterwards', proj(st, ('f', C)), add(cur, const(1)), fs)
            base.same(nx, 'vertex kept afterwards', proj(st, ('f', V)), vert, fs)
            ok = entails(fs, adj) and entails(fs, gt0(sub(n, cur)))
            if understood(land(*fs)):
                rep.require(key + ':neighbour', ok, 'a vertex is met when %s' % show_case(fs)[:300], base.where(nx))
            else:
                rep.count('undecided')
        else:
            rep.count('undecided')


def I_deref(r, t):
    """What the reference t points to, as the run sees it."""
    for x in list(subterms(r.ret)):
        if x.op == 'deref' and x.args[0] is t:
            return x
    return mk('deref', t)


def base_ops(L):
    """Questions to the bit-set of a graph, by the pair the index stands for."""
    def prim(I, op, name, fn, args, st, pc, at):
        if fn is None or fn.kind == 'closure':
            return NotImplemented
        if fn.crate == 'topo_spaces' and fn.implself == G_ADT and fn.name == 'raw_idx':
            i, j = models.val(I, st, args[0]), models.val(I, st, args[1])
            pc = dnf_and(pc, gt0(sub(j, i)))
            return (mk('pairidx', frozenset((i, j))), st, pc) if pc else None
        if fn.crate == 'util' and (fn.implself or '').endswith('BinaryPool') and fn.name == 'contains' and not fn.trait:
            p, x = I.reify(st, models.val(I, st, args[0])), models.val(I, st, args[1])
            if x.op == 'pairidx':
                ps = sorted(x.args[0], key=skey)
                return joined(p, ps[0], ps[-1]), st, pc
        if fn.crate == 'topo_spaces' and fn.implself == G_ADT and not fn.trait and fn.name in ('contains', 'n_vertices'):
            return graph_ops(L)(I, op, name, fn, args, st, pc, at)
        return NotImplemented
    return prim


def numbers(r, d):
    return Sets(r)


def counted(ck, fn, what, got, n, want, facts):
    """got is the number of k < n with want(k)."""
    t = minmax(got)
    if t.op == 'sum' and t.args[2] is const(1):
        iv, B = t.args[0], t.args[1]
    elif t.op == 'len' and t.args[0].op == 'collect':
        c = t.args[0]
        iv, B = c.args[0], c.args[2] | {gt0(sub(c.args[1], c.args[0]))}
    else:
        if closed(t) and not contains(t, lambda x: x.op in ('sum', 'call', 'len', 'phi')):
            ck.rep.require('%s:%s' % (fn.label(), what), False, 'the answer is %s' % show(t)[:200], ck.where(fn))
        else:
            ck.rep.count('undecided')
        return
    k = mk('at', 'k')
    k.nn = True
    got = land(*[subst(minmax(b), {iv: k}) for b in B])
    condition(ck, fn, what, got, land(gt0(sub(n, k)), want(k)), facts)


def queries(prog, rep, L):
    ck = Checker(prog, rep, (graph_ops(L), pool_ops))
    n, d = L.nv(a0), L.data(a0)
    inside = gt0(sub(n, a1))
    fn = find(ck, 'degree_of')
    if fn is not None:
        r = ck.run(fn)
        counted(ck, fn, 'counts the neighbours', r.ret, n, lambda k: joined(d, k, a1), [inside])
        ck.guard(fn, 'vertex inside', r.pc, inside)
        rep.require(fn.label() + ':accepts', any(all(entails([inside], l) for l in c) for c in r.pc), 'a vertex is rejected', ck.where(fn))
    fn = find(ck, 'get_adjacent_vertices')
    if fn is not None:
        r = ck.run(fn)
        c = r.ret
        if c.op == 'collect':
            k = mk('at', 'k')
            k.nn = True
            m = {c.args[0]: k}
            condition(ck, fn, 'lists the neighbours', land(*[subst(b, m) for b in c.args[2] | {gt0(sub(c.args[1], c.args[0]))}]), land(gt0(sub(n, k)), joined(d, k, a1)))
            ck.same(fn, 'vertices listed', subst(c.args[3], m), k)
        else:
            rep.count('undecided')
    fn = find(ck, 'maximal_tree_contains')
    if fn is not None:
        r = ck.run(fn)
        i, j = proj(a1, ('ix', const(0))), proj(a1, ('ix', const(1)))
        fs = [gt0(sub(j, i)), gt0(sub(n, j)), L.chosen(a0)]
        W = mk('bit', mk('at', 'W'), const(0))
        k = mk('at', 'k')
        k.nn = True
        want = land(gt0(sub(k, i)), gt0(sub(j, k)), joined(d, k, j))
        got = through(ck, r.ret, want, k, W, fs)
        condition(ck, fn, 'the edge to the last earlier neighbour', got, land(joined(d, i, j), lnot(W)), fs)
        ck.guard(fn, 'a tree is chosen', r.pc, L.chosen(a0))
        rep.require(fn.label() + ':accepts', any(all(entails(fs, l) for l in c) for c in r.pc), 'an edge i < j is rejected', ck.where(fn))
    ck3 = Checker(prog, rep, (graph_ops(L, 3), pool_ops))
    fn = find(ck, 'degree_in_maximal_tree')
    if fn is not None:
        r = ck3.run(fn)
        counted(ck3, fn, 'counts the neighbours in the tree', r.ret, n,
                lambda k: land(joined(d, k, a1), mk('bit', mk('intree', d, frozenset((k, a1))), const(0))), [inside, L.chosen(a0)])
        ck3.guard(fn, 'vertex inside', r.pc, inside)
        accepted(ck3, fn, r, [inside])
    fn = find(ck, 'is_connected')
    if fn is not None:
        rep.group(connected, ck, fn, L)


def through(ck, got, want, k, W, fs):
    """Replaces every existence statement in got that is the one wanted by W."""
    m = {}
    for x in subterms(got):
        if x.op == 'any' and x.args[0].op == 'iv':
            iv, body = x.args
            for t in subterms(body):
                if t.op == 'adj':
                    for e in t.args[1]:
                        co = to_poly(e).get(((iv, 1),), 0)
                        if co in (1, -1) and not contains(sub(e, scale(iv, co)), lambda z: z is iv):
                            s = scale(sub(k, sub(e, scale(iv, co))), co)
                            b = land(subst(body, {iv: s}), gt0(add(s, const(1))))
                            if equivalent(b, want, fs):
                                m[x] = W
    return subst(got, m) if m else got


def equivalent(g, w, facts):
    cs = cases([g, w], list(facts))
    if cs is None:
        return False
    for fs, (x, y) in cs:
        if contradictory(fs) or x is y:
            continue
        if not (entails(fs + [x], y) and entails(fs + [y], x)):
            return False
    return True


def marks(d, k):
    """Membership of k in a set of marked vertices."""
    if d.op == 'repeat':
        return d.args[0]
    if d.op == 'upd' and d.args[1][0] == 'ix':
        h = eq0(sub(d.args[1][1], k))
        m = marks(d.args[0], k)
        return None if m is None else lor(h, m) if d.args[2] is TRUE else land(lnot(h), m)
    if d.op == 'fmap':
        m = marks(d.args[0], k)
        if m is None:
            return None
        for ivs, bs, key, v in d.args[1]:
            if len(ivs) != 1 or key != ('ix', ivs[0]) or v not in (TRUE, FALSE):
                return None
            c = land(*[subst(b, {ivs[0]: k}) for b in bs])
            m = lor(m, c) if v is TRUE else land(m, lnot(c))
        return m
    if d.op == 'phi':
        return mk('bit', proj(d, ('ix', k)), const(0))
    return None


def connected(ck, fn, L):
    """Everything reached from vertex 0 is marked; all marked: connected; nothing left to visit: not."""
    rep = ck.rep
    r = ck.run(fn)
    und = lambda: rep.count('undecided')
    lab, where = fn.label(), ck.where(fn)
    full = {x for t in [r.ret] + [l for c in r.pc for l in c] for x in subterms(t) if x.op == 'full'}
    sets = {x.args[0] for x in full if x.args[0].op == 'phi' and x.args[0].args[0] in r.interp.loop_objs}
    if len(sets) != 1:
        return und()
    V = sets.pop()
    Lo = r.interp.loop_objs[V.args[0]]
    stacks = [p for p in Lo.next if hasattr(p, 'op') and p is not V and p.op == 'phi']
    stacks = [p for p in stacks if any(x.op == 'len' and x.args[0] is p for b, _ in Lo.backs for c in b for l in c for x in subterms(l))]
    if len(stacks) != 1:
        return und()
    S = stacks[0]
    done = mk('bit', mk('full', V), const(0))
    k = mk('at', 'k')
    k.nn = True
    n, d = L.nv(a0), L.data(a0)
    inside = [gt0(sub(n, k)), gt0(n)]
    # answers
    for c in r.pc:
        body = [y for l in c for y in (flat_any(l) or [l])]
        ans = r.ret
        for l in c:
            ans = under(ans, l, True)
        if ans is not TRUE and ans is not FALSE and ans.op == 'any':
            ans = TRUE if entails(body, done) else FALSE if contradictory(body + [done]) else ans
        if not understood(land(*[l for l in body if not contains(l, lambda x: x is V or x is S)])):
            und()
        elif ans is TRUE:
            rep.require(lab + ':yes', entails(body, done), 'answers yes when %s' % show_case(body)[:300], where)
        elif ans is FALSE:
            rep.require(lab + ':no', entails(body, lnot(done)) and entails(body, eq0(length(S))), 'answers no when %s' % show_case(body)[:300], where)
        else:
            und()
    # start
    m0 = marks(V.args[2], k)
    start = joined(d, const(0), k)
    if m0 is None:
        und()
    else:
        condition(ck, fn, 'marked at the start', land(m0, lnot(eq0(k))), land(start, lnot(eq0(k))), inside) if not equivalent(land(m0, gt0(sub(n, k))), land(eq0(k), gt0(sub(n, k))), inside) else None
    s0 = S.args[2]
    if s0.op == 'collect':
        if closed(s0.args[3]):
            ck.same(fn, 'vertices to visit first', s0.args[3], s0.args[0])
        condition(ck, fn, 'to be visited at the start', land(*[subst(b, {s0.args[0]: k}) for b in s0.args[2] | {gt0(sub(s0.args[1], s0.args[0]))}]), land(start, gt0(sub(n, k))), inside)
    elif s0.op == 'agg' and len(s0.args) == 2:
        ck.same(fn, 'vertex to visit first', s0.args[1], const(0))
    else:
        und()
    # one round
    s1 = Lo.next[S]
    e = None
    if s1.op == 'phi' and s1.args[0] in r.interp.loop_objs and s1.args[2] is mk('popped', S):
        e = proj(S, ('ix', sub(length(S), const(1))))
        Li = r.interp.loop_objs[s1.args[0]]
        nx = Li.next.get(s1)
        cs = {l for b, _ in Li.backs for c in b for l in c if contains(l, lambda x: x is Li.iv)}
        outer = [l for b, _ in Li.backs for c in b for l in c if not contains(l, lambda x: x is Li.iv)]
        if len(Li.backs) != 1:
            return und()
        now = {x: mk('at', 'loop%d' % i) for i, x in enumerate(Li.next) if hasattr(x, 'op') and x is not s1}
        now[Li.iv] = mk('at', 'v')
        for fs, (g,) in cases([subst(subst(nx, {s1: mk('at', 'later')}), now)], []) or []:
            g = subst(g, {mk('at', 'later'): s1})
            if g is s1:
                pushed = False
            elif g.op == 'push' and g.args[0] is s1:
                pushed = True
                ck.same(fn, 'vertex to visit later', g.args[1], mk('at', 'v'), fs)
            else:
                und()
                continue
            seen = [f for f in fs if f.op == 'bit'] or [f.args[0] for f in fs if f.op == 'not' and f.args[0].op == 'bit']
            if not fs:
                rep.require(lab + ':visited again', not pushed or any(x.op == 'not' for x in cs), 'vertices already marked are visited again and again', where)
            elif all(f.op == 'bit' or f.op == 'not' and f.args[0].op == 'bit' for f in fs) and len(fs) == 1:
                rep.require(lab + ':visited later', pushed == (fs[0].op == 'not'), '%s when %s' % ('is visited' if pushed else 'is not visited', show_case(fs)[:200]), where)
            else:
                und()
        condition(ck, fn, 'neighbours looked at', land(*[subst(c, {Li.iv: k}) for c in cs if not (c.op == 'not' and c.args[0].op == 'bit' and c.args[0].args[0].op == 'proj')]), land(joined(d, k, e), gt0(sub(n, k))), inside)
        # the marks of the outer loop after the round
        v1 = marks(Lo.next[V], k)
        if v1 is None:
            und()
        else:
            old = mk('bit', proj(V, ('ix', k)), const(0))
            stand = {V: mk('at', 'V'), S: mk('at', 'S'), length(S): mk('at', 'len')}
            condition(ck, fn, 'marked in a round', subst(v1, stand), subst(lor(old, joined(d, k, e)), stand), inside)
    else:
        und()


def flat_any(l):
    """The conditions at the moment a loop is left."""
    if l.op == 'any':
        b = l.args[1]
        return list(b.args[0]) if b.op == 'and' else [b]
    return None


# ------------------------------------------------------------------ changes
def changes(prog, rep, L):
    ck = Checker(prog, rep, (graph_ops(L), pool_ops))
    d = L.data(a0)
    n = L.nv(a0)

    def V(nm):
        t = mk('at', nm)
        t.nn = True
        return t
    x, y = V('x'), V('y')
    fn = find(ck, 'swap')
    if fn is not None:
        r = ck.run(fn)
        i, j = a1, a2
        st = r.state.get(('P', 0), a0)
        base = [gt0(sub(j, i)), gt0(sub(n, j))]
        S = Sets(r)
        away = [lnot(eq0(sub(v, w))) for v, w in ((x, i), (x, j), (y, i), (y, j), (x, y))] + [gt0(sub(n, x)), gt0(sub(n, y))]
        for nm, p, q, p2, q2 in (('the edge between the two', i, j, i, j), ('edges of the first', i, x, j, x), ('edges of the second', j, x, i, x), ('other edges', x, y, x, y)):
            condition(ck, fn, nm, S.member(L.data(st), p, q), joined(d, p2, q2), base + away)
        ck.same(fn, 'number of vertices', L.nv(st), n, base)
        rep.require(fn.label() + ':accepts', any(all(entails(base, l) for l in c) for c in r.pc), 'two vertices i < j are rejected', ck.where(fn))
        accepted(ck, fn, r, [gt0(sub(n, j)), gt0(sub(j, i))])
        for c in r.pc:
            fs = list(c) + [eq0(sub(i, j))]
            if not contradictory(fs):
                ck.same(fn, 'a vertex with itself', st, a0, fs)
    fn = maybe(prog, 'remove_edges_adjacent_to')
    if fn is not None:
        r = ck.run(fn)
        st = r.state.get(('P', 0), a0)
        S = Sets(r)
        fs = [lnot(eq0(sub(x, a1))), lnot(eq0(sub(y, a1))), lnot(eq0(sub(x, y))), gt0(sub(n, x)), gt0(sub(n, y)), gt0(sub(n, a1))]
        accepted(ck, fn, r, [gt0(sub(n, a1))])
        condition(ck, fn, 'edges at the vertex', S.member(L.data(st), a1, x), FALSE, fs)
        condition(ck, fn, 'other edges', S.member(L.data(st), x, y), joined(d, x, y), fs)
        ck.same(fn, 'number of vertices', L.nv(st), n)


# ------------------------------------------------------------------ iterators over the cells
def inner(prog, path):
    return [f for f in prog.fns.values() if f.crate == 'topo_spaces' and (f.implself or '').startswith(path) and f.name == 'next' and (f.trait or '').endswith('Iterator')]


def edges(prog, rep, L):
    """The edge iterator goes through all pairs, each once, and stops at those that are edges."""
    ck = Checker(prog, rep, (base_ops(L),))
    start = find(ck, 'edge_iter')
    nx = inner(prog, 'graph::EdgeIter')
    fs = fields(prog, 'graph::EdgeIter')
    if start is None or len(nx) != 1 or not fs:
        rep.count('undecided')
        return
    nx = nx[0]
    g = [k for k, t in enumerate(fs) if 'RawSimpleGraph' in t]
    c = [k for k, t in enumerate(fs) if t == '(usize, usize)']
    b = [k for k, t in enumerate(fs) if t == 'bool']
    if not (len(g) == len(c) == len(b) == 1 and len(fs) == 3):
        rep.count('undecided')
        return
    g, c, b = g[0], c[0], b[0]
    r0, r = ck.run(start), ck.run(nx)
    if r0 is None or r is None:
        return
    lab = nx.label()
    where = ck.where(nx)
    unref = lambda t: subst(t, {x: x.args[0] for x in subterms(t) if x.op == 'deref'})
    # one round: the state at its start
    ps = {x for x in r.interp.loop_objs for x in r.interp.loop_objs[x].next if hasattr(x, 'op') and x.args[1][0] == ('P', 0)}
    if not ps or len({p.args[0] for p in ps}) != 1:
        rep.count('undecided')
        return
    Lp = r.interp.loop_objs[next(iter(ps)).args[0]]
    s = mk('at', 'iter')
    def along(t, path):
        for k in path:
            t = proj(t, k)
        return t
    def tr(t):
        t = unref(subst(t, {p: along(s, p.args[1][1]) for p in ps}))
        if any(contains(t, lambda x: x is along(a0, p.args[1][1])) for p in ps if p.args[1][1]):
            return t
        return subst(t, {a0: s})
    G = proj(s, ('f', g))
    i, j, done = proj(proj(s, ('f', c)), ('f', 0)), proj(proj(s, ('f', c)), ('f', 1)), proj(s, ('f', b))
    n = L.nv(G)
    i.nn = j.nn = n.nn = True
    inv = [gt0(sub(j, i)), gt0(sub(n, j)), lnot(done)]
    here = L.edge(G, i, j)

    def step(t, facts, key):
        """The position after a round."""
        i2, j2, d2 = proj(proj(t, ('f', c)), ('f', 0)), proj(proj(t, ('f', c)), ('f', 1)), proj(t, ('f', b))
        out = []
        for f2, (x, y, z) in cases([i2, j2, flag(d2)], facts) or []:
            out.append((f2, x, y, z))
        orders = {
            'columns downwards': [([gt0(i)], sub(i, const(1)), j, FALSE), ([eq0(i)], j, add(j, const(1)), lnot(gt0(sub(n, add(j, const(1))))))],
            'columns upwards': [([gt0(sub(j, add(i, const(1))))], add(i, const(1)), j, FALSE), ([eq0(sub(j, add(i, const(1))))], const(0), add(j, const(1)), lnot(gt0(sub(n, add(j, const(1))))))],
            'rows upwards': [([gt0(sub(n, add(j, const(1))))], i, add(j, const(1)), FALSE), ([eq0(sub(n, add(j, const(1))))], add(i, const(1)), add(i, const(2)), lnot(gt0(sub(n, add(i, const(2))))))],
        }
        best, ok = None, []
        for nm, cl in orders.items():
            bad = None
            unk = not out
            for f2, x, y, z in out:
                for f3, wi, wj, wd in cl:
                    fa = f2 + f3
                    if contradictory(fa):
                        continue
                    zz = settled_bool(z, fa)
                    wz = settled_bool(wd, fa)
                    if zz is None or wz is None:
                        for v in (True, False):
                            fb = fa + [wd if v else lnot(wd)]
                            if contradictory(fb):
                                continue
                            q = settled_bool(z, fb)
                            if q is None:
                                unk = unk or not closed(z)
                                bad = bad or ('the end is not recognised when %s' % show_case(fb)[:250])
                            elif q != v:
                                bad = bad or ('the iteration %s when %s' % ('ends' if q else 'goes on', show_case(fb)[:250]))
                            elif not v and not (decide_eq(x, wi, fb)[0] == 'eq' == decide_eq(y, wj, fb)[0]):
                                bad = bad or ('(%s, %s) comes after (i, j) when %s' % (show(x)[:60], show(y)[:60], show_case(fb)[:250]))
                        continue
                    if zz != wz:
                        bad = bad or ('the iteration %s when %s' % ('ends' if zz else 'goes on', show_case(fa)[:250]))
                    elif not zz and not (decide_eq(x, wi, fa)[0] == 'eq' == decide_eq(y, wj, fa)[0]):
                        bad = bad or ('(%s, %s) comes after (i, j) when %s' % (show(x)[:60], show(y)[:60], show_case(fa)[:250]))
            if unk:
                rep.count('undecided')
                return None
            if bad is None:
                ok.append(nm)
            best = best or bad
        if ok:
            return ok
        if not understood(land(*[l for f2, x, y, z in out for l in f2 if l not in facts])):
            rep.count('undecided')
            return None
        rep.require(key, False, 'the iterator follows no order in which every pair occurs once: ' + best, where)
        return None
    nm = None
    nxt = s
    for p in sorted(ps, key=lambda p: len(p.args[1][1])):
        nxt = absint.setpath(nxt, p.args[1][1], tr(Lp.next[p]))
    back = [frozenset(tr(l) for l in cl) for bk, _ in Lp.backs for cl in bk]
    for cl in back:
        fs2 = inv + list(cl)
        if contradictory(fs2):
            continue
        rep.require(lab + ':skips no edge', contradictory(fs2 + [here]), 'a pair is skipped when %s' % show_case(cl)[:300], where) if understood(land(*cl)) else rep.count('undecided')
        nm = step(nxt, inv + [lnot(here)], lab + ':order')
    # leaving
    ret, st = tr(r.ret), tr(r.state.get(('P', 0), a0))
    outs = {x for x in subterms(mk('tuple', ret, st, *[tr(l) for cl in r.pc for l in cl])) if x.op == 'any'}
    flatten = {}
    for x in outs:
        bs = x.args[1]
        flatten[x] = land(*(bs.args[0] if bs.op == 'and' else [bs]))
    ret, st = subst(ret, flatten), subst(st, flatten)
    seen = set()
    for cl in r.pc:
        ls = [subst(tr(l), flatten) for l in cl]
        ls = [l2 for l in ls for l2 in (l.args[0] if l.op == 'and' else [l])]
        if not understood(land(*ls)):
            rep.count('undecided')
            continue
        for f2, (v, w) in cases([settled(ret, ls), settled(st, ls)], ls) or []:
            if v.op != 'agg' or v.args[0][0] != 'adt':
                rep.count('undecided')
                continue
            if len(v.args) == 1:
                seen.add('end')
                rep.require(lab + ':ends after all pairs', entails(f2, done), 'the iteration ends when %s' % show_case(f2)[:300], where)
                rep.require(lab + ':stays at the end', entails(f2, flag(proj(w, ('f', b)))), 'the iterator is not at its end after the end', where)
            elif len(v.args) == 2:
                seen.add('edge')
                e = v.args[1]
                if e.op != 'agg' or len(e.args) != 2 or e.args[1].op != 'agg' or len(e.args[1].args) != 3:
                    rep.count('undecided')
                    continue
                x, y = e.args[1].args[1:]
                ck.same(nx, 'first end of the edge', x, i, f2)
                ck.same(nx, 'second end of the edge', y, j, f2)
                rep.require(lab + ':is an edge', entails(f2 + inv, here) or contradictory(f2 + inv), 'a pair is met when %s' % show_case(f2)[:300], where)
                rep.require(lab + ':not past the end', entails(f2, lnot(done)), 'a pair is met after the end', where)
                if contradictory(inv + [here] + f2):
                    continue
                nm2 = step(w, inv + [here] + [l for l in f2 if l not in inv], lab + ':order after an edge')
                if nm and nm2:
                    nm = [x for x in nm if x in nm2]
                    rep.require(lab + ':one order', bool(nm), 'after an edge the iterator goes through %s' % nm2, where)
                ck.same(nx, 'graph kept', proj(w, ('f', g)), proj(s, ('f', g)), f2)
            else:
                rep.count('undecided')
    rep.require(lab + ':edges met', 'edge' in seen, 'no edge is ever met', where)
    # start
    w = r0.ret
    d0 = flag(proj(w, ('f', b)))
    n0 = L.nv(a0)
    n0.nn = True
    ck.same(start, 'first pair', proj(proj(w, ('f', c)), ('f', 0)), const(0))
    ck.same(start, 'first pair, second vertex', proj(proj(w, ('f', c)), ('f', 1)), const(1))
    condition(ck, start, 'no pairs', d0, lnot(gt0(sub(n0, const(1)))), [])


def variant(prog, e):
    """The name of the variant of an aggregate of the enum of factors."""
    return e.args[0][3] if e.op == 'agg' and e.args[0][0] == 'adt' and len(e.args[0]) > 3 else None


def flag(t):
    if is_bool(t):
        return t
    if t.op == 'ite':
        return lor(land(t.args[0], flag(t.args[1])), land(lnot(t.args[0]), flag(t.args[2])))
    return t


def settled_bool(z, facts):
    if entails(facts, z):
        return True
    if entails(facts, lnot(z)):
        return False
    return None


def chain(prog, rep, L):
    """vertex_iter gives 0..n, iter both the vertices and the edges."""
    ck = Checker(prog, rep, (base_ops(L),))
    v = find(ck, 'vertex_iter')
    it = find(ck, 'iter')
    ei = find(ck, 'edge_iter')
    nv, ne, nf = inner(prog, 'graph::VertexIter'), inner(prog, 'graph::EdgeIter'), inner(prog, 'graph::FactorIter')
    fv, ff = fields(prog, 'graph::VertexIter'), fields(prog, 'graph::FactorIter')
    if None in (v, it, ei) or not (len(nv) == len(ne) == len(nf) == 1) or not fv or not ff:
        rep.count('undecided')
        return
    nv, ne, nf = nv[0], ne[0], nf[0]
    rg = [k for k, t in enumerate(fv) if t.startswith('std::ops::Range<')]
    r = ck.run(v)
    if len(rg) == 1 and r is not None:
        x = proj(r.ret, ('f', rg[0]))
        n = L.nv(a0)
        if absint.is_adt(x, 'std::ops::Range'):
            ck.same(v, 'first vertex', proj(x, ('f', 0)), const(0))
            ck.same(v, 'number of vertices', proj(x, ('f', 1)), n)
        else:
            rep.count('undecided')
        r = ck.run(nv)
        if r is not None:
            cs = [x for x in subterms(mk('tuple', r.ret, r.state.get(('P', 0), a0))) if x.op == 'call']
            st = r.state.get(('P', 0), a0)
            item = {x for x in cs if x.args[0] == 'std::iter::Iterator::next'}
            if len(item) == 1 and set(cs) == item:
                q = next(iter(item))
                for fs, (w,) in cases([r.ret], []) or []:
                    if w.op == 'agg' and len(w.args) == 2:
                        e = w.args[1]
                        rep.require(nv.label() + ':some', entails(fs, mk('isv', q, 1)), 'a vertex is met when %s' % show_case(fs)[:200], ck.where(nv))
                        if e.op == 'agg' and len(e.args) == 2:
                            ck.same(nv, 'vertex', e.args[1], proj(q, ('f', 0)), fs, calls=[q.args[0]])
                            rep.require(nv.label() + ':kind', variant(prog, e) == 'Vertex', 'the item is not a vertex', ck.where(nv))
                        else:
                            rep.count('undecided')
                    elif w.op == 'agg' and len(w.args) == 1:
                        rep.require(nv.label() + ':none', entails(fs, lnot(mk('isv', q, 1))), 'the iteration ends when %s' % show_case(fs)[:200], ck.where(nv))
                    else:
                        rep.count('undecided')
            else:
                rep.count('undecided')
    else:
        rep.count('undecided')
    # the factors
    V = [k for k, t in enumerate(ff) if 'VertexIter' in t]
    E = [k for k, t in enumerate(ff) if 'EdgeIter' in t]
    if len(V) != 1 or len(E) != 1:
        rep.count('undecided')
        return
    keep = lambda fn: fn.key in (nv.key, ne.key)
    co = Checker(prog, rep, (base_ops(L),), opaque=keep)
    keep2 = lambda fn: fn.key in (v.key, ei.key)
    cs = Checker(prog, rep, (base_ops(L),), opaque=keep2)
    r = cs.run(it)
    if r is not None and r.ret is not None and r.ret.op == 'agg':
        for k, f in ((V[0], v), (E[0], ei)):
            x = proj(r.ret, ('f', k))
            if x.op == 'call' and x.args[0] in (v.label(), ei.label()):
                rep.require(it.label() + ':' + f.name, x.args[0] == f.label(), 'the iterator starts elsewhere', cs.where(it))
            else:
                rep.count('undecided')
    r = co.run(nf)
    if r is None:
        return
    lv, le = nv.label(), ne.label()
    cv = [x for x in subterms(r.ret) if x.op == 'call' and x.args[0] == lv]
    ce = [x for x in subterms(r.ret) if x.op == 'call' and x.args[0] == le]
    if len(set(cv)) != 1 or len(set(ce)) != 1:
        whole = {x.args[0] for x in subterms(r.ret) if x.op == 'call'}
        if whole <= {lv, le}:
            rep.require(nf.label() + ':both', False, 'the iterator over all cells leaves out the %s' % ('vertices' if not cv else 'edges'), co.where(nf))
        else:
            rep.count('undecided')
        return
    qv, qe = cv[0], ce[0]
    for fs, (w,) in cases([r.ret], []) or []:
        if any(x.op not in ('isv', 'not') for x in fs) or any((x.args[0] if x.op == 'isv' else x.args[0].args[0]) not in (qv, qe) for x in fs if x.op == 'isv' or x.args[0].op == 'isv'):
            rep.count('undecided')
            continue
        hv, he = mk('isv', qv, 1), mk('isv', qe, 1)
        got = {'v': w is qv or w.op == 'agg' and len(w.args) == 2 and w.args[1] is proj(qv, ('f', 0)),
               'e': w is qe or w.op == 'agg' and len(w.args) == 2 and w.args[1] is proj(qe, ('f', 0)),
               'n': w.op == 'agg' and len(w.args) == 1}
        if got['v'] and w is not qv or got['e'] and w is not qe:
            rep.require(nf.label() + ':item', entails(fs, hv if got['v'] else he), 'an item that is not there', co.where(nf))
        elif got['n']:
            rep.require(nf.label() + ':end', entails(fs, lnot(hv)) and entails(fs, lnot(he)), 'the iteration ends when %s' % show_case(fs)[:200], co.where(nf))
        elif got['v'] or got['e']:
            # what one iterator answers is the answer when it has an item or the other has none
            own, other = (hv, he) if got['v'] else (he, hv)
            rep.require(nf.label() + ':item', entails(fs, own) or entails(fs, lnot(other)), 'the answer is that of one iterator when %s' % show_case(fs)[:200], co.where(nf))
        else:
            rep.count('undecided')



# ------------------------------------------------------------------ graphs from lists of edges
GRAPH, SIMPLE, WEIGHTED = 'graph::Graph<T>', 'graph::SimpleGraph', 'graph::WeightedSimpleGraph<T>'


def accessor(prog, ck, self, nm):
    """The field a public accessor reads: its projection of the argument."""
    fn = maybe(prog, nm, self)
    r = ck.run(fn) if fn is not None else None
    return None if r is None else r.ret


def deepest(r):
    """The loops as they are at last (not their rounds on trial)."""
    return [l for l in r.interp.loop_objs if True]


class Labels:
    """Lists of labels that grow by the vertices met: positions in them."""
    def __init__(self, P, x, y):
        self.P, self.x, self.y = P, x, y
        self.inx, self.iny = mk('bit', mk('at', 'x is listed'), const(0)), mk('bit', mk('at', 'y is listed'), const(0))
        self.px, self.py = mk('at', 'position of x'), mk('at', 'position of y')
        self.px.nn = self.py.nn = True

    def read(self, t):
        """Questions whether, and where, a label is in the list become symbols."""
        P = self.P
        for _ in range(6):
            m = {}
            for q in subterms(t):
                if q.op == 'isin' and q.args[1] is P:
                    if q.args[0] is self.x or q.args[0] is self.y:
                        m[q] = self.inx if q.args[0] is self.x else self.iny
                elif q.op == 'isin' and q.args[1].op == 'push' and q.args[1].args[0] is P:
                    m[q] = lor(mk('isin', q.args[0], P), eq0(sub(q.args[0], q.args[1].args[1])))
                elif q.op in ('any', 'first'):
                    w = self.which(q)
                    if w is not None:
                        m[q] = (self.inx, self.px) [q.op == 'first'] if w is self.x else (self.iny, self.py)[q.op == 'first']
            if not m:
                break
            t = subst(t, m)
        return t

    def which(self, q):
        iv, b = q.args[0], q.args[1]
        ls = b.args[0] if b.op == 'and' else [b]
        w = None
        for l in ls:
            if l is gt0(sub(length(self.P), iv)):
                continue
            for v in (self.x, self.y):
                if l is eq0(sub(proj(self.P, ('ix', iv)), v)) and w is None:
                    w = v
                    break
            else:
                return None
        return w


def grows(ck, fn, what, P, nxt, lb, facts):
    """A round appends the labels that are new, x before y; the list has no label twice."""
    x, y = lb.x, lb.y
    ok = True
    for fx in (True, False):
        for fy in (True, False):
            for same in (True, False):
                if same and fx != fy:
                    continue
                fs = list(facts) + [lb.inx if fx else lnot(lb.inx), lb.iny if fy else lnot(lb.iny), eq0(sub(x, y)) if same else lnot(eq0(sub(x, y)))]
                if contradictory(fs):
                    continue
                new = [v for v, f in ((x, fx), (y, fy and True)) if not f]
                if same and len(new) == 2:
                    new = [x]
                t = lb.read(nxt)
                for _ in range(4):
                    t = lb.read(settled(t, fs))
                for f2, (u,) in cases([t], fs) or []:
                    got, v = [], u
                    while v.op == 'push':
                        got.insert(0, v.args[1])
                        v = v.args[0]
                    if v is not P:
                        ck.rep.count('undecided')
                        continue
                    key = '%s:%s' % (fn.label(), what)
                    if same:
                        got = [x if g is y else g for g in got]
                    good = set(got) == set(new) and len(got) == len(new)
                    if not good and not all(g in (x, y) for g in got):
                        ck.rep.count('undecided')
                        continue
                    ck.rep.require(key, good, 'the labels %s are added when %s' % ([show(g)[:40] for g in got], show_case(fs)[:300]), ck.where(fn))


def labelled(prog, rep):
    """Graph::from: labels without repetition, one entry per edge, the three counters."""
    ck = Checker(prog, rep, ())
    fn = find(ck, 'from', GRAPH)
    if fn is None:
        return
    r = ck.run(fn)
    fs = fields(prog, 'graph::Graph')
    if r is None or r.ret is None or r.ret.op != 'agg' or not fs:
        rep.count('undecided')
        return
    D = [k for k, t in enumerate(fs) if t.startswith('std::vec::Vec<std::vec::Vec<std::vec::Vec<')]
    S = [k for k, t in enumerate(fs) if t == 'std::vec::Vec<std::string::String>']
    if len(D) != 1 or len(S) != 1:
        rep.count('undecided')
        return
    data, P = proj(r.ret, ('f', D[0])), proj(r.ret, ('f', S[0]))
    if P.op != 'phi' or data.op != 'phi':
        if data.op in ('repeat', 'collect') and not contains(data, lambda x: x.op in ('push', 'call')):
            rep.require(fn.label() + ':edges', False, 'no edges are registered', ck.where(fn))
        else:
            rep.count('undecided')
        return
    LP, LD = (r.interp.loop_objs.get(t.args[0]) for t in (P, data))
    if LP is None or LD is None:
        rep.count('undecided')
        return
    iv = LP.iv
    lb = Labels(P, proj(proj(a0, ('ix', iv)), ('f', 0)), proj(proj(a0, ('ix', iv)), ('f', 1)))
    grows(ck, fn, 'labels', P, LP.next[P], lb, [gt0(sub(length(a0), iv))])
    ck.same(fn, 'no labels at first', seq_len(P.args[2]), const(0))
    # one edge
    iv = LD.iv
    x, y = proj(proj(a0, ('ix', iv)), ('f', 0)), proj(proj(a0, ('ix', iv)), ('f', 1))
    lb = Labels(P, x, y)
    n = length(P)
    m0 = data.args[2]
    p, q = lb.px, lb.py
    here = [lb.inx, lb.iny, gt0(sub(n, p)), gt0(sub(n, q))]
    u, v = mk('at', 'u'), mk('at', 'v')
    u.nn = v.nn = True
    init = deep_el(proj(proj(m0, ('ix', u)), ('ix', v)))
    ck.same(fn, 'no edges at first', deep_el(length(init)), const(0), [gt0(sub(n, u)), gt0(sub(n, v))])
    ck.same(fn, 'rows', deep_el(length(m0)), n)
    ck.same(fn, 'columns', deep_el(length(proj(m0, ('ix', u)))), n, [gt0(sub(n, u))])
    nd = lb.read(LD.next[data])
    for q_ in sorted({z for z in subterms(nd) if z.op in ('any', 'first')}, key=skey):
        ls = q_.args[1].args[0] if q_.args[1].op == 'and' else [q_.args[1]]
        d = [eq0(sub(proj(P, ('ix', q_.args[0])), z)) for z in (x, y)]
        if all(l is gt0(sub(n, q_.args[0])) or l in d or l.op == 'not' and l.args[0] in d for l in ls):
            rep.require(fn.label() + ':lookup', False, 'a label is looked up by %s' % show(q_)[:200], ck.where(fn))
            return
    cell = lambda t: deep_el(length(proj(proj(t, ('ix', u)), ('ix', v))))
    old = length(proj(proj(data, ('ix', u)), ('ix', v)))
    counters = {}
    for nm in ('n_non_loop_edges', 'n_non_loop_edges_up_to_multiplicity', 'n_loops'):
        t = accessor(prog, ck, GRAPH, nm)
        if t is not None and t.op == 'proj' and t.args[0] is a0:
            counters[nm] = proj(r.ret, t.args[1])
        else:
            rep.count('undecided')
    for nm, facts, lo, hi in (('p < q', [gt0(sub(q, p))], p, q), ('p > q', [gt0(sub(p, q))], q, p), ('p = q', [eq0(sub(p, q))], p, p)):
        fa = here + facts
        at = [eq0(sub(u, lo)), eq0(sub(v, hi))]
        nw = nd if p is not lo or hi is not p else subst(nd, {q: p})
        got = subst(cell(nw), {u: lo, v: hi})
        ck.same(fn, 'one edge is added', deep_el(settled(got, fa)), add(subst(old, {u: lo, v: hi}), const(1)), fa)
        for other in ([lnot(eq0(sub(u, lo)))], [lnot(eq0(sub(v, hi)))]):
            ck.same(fn, 'other edges stay', deep_el(settled(cell(nw), fa + other)), old, fa + other)
        for nm2, t in counters.items():
            ph = [k for k in LD.next if hasattr(k, 'op') and k.op == 'phi' and k is not data and (t is k or through_sum(r, LD, t, k))]
            if not ph and (cval(t) is not None or t is length(a0)):
                rep.require('%s:%s' % (fn.label(), nm2), False, '%s is %s' % (nm2, show(t)[:60]), ck.where(fn))
                continue
            if len(ph) != 1:
                rep.count('undecided')
                continue
            ph = ph[0]
            had = gt0(subst(old, {u: lo, v: hi}))
            loop = eq0(sub(p, q)) in facts
            # either counted upwards, or downwards from the number of edges
            init = ph.args[2]
            delta = lb.read(less(LD.next[ph], ph))
            for hv in (had, lnot(had)):
                if loop:
                    w = {'n_non_loop_edges': 0, 'n_non_loop_edges_up_to_multiplicity': 0, 'n_loops': 1}[nm2]
                else:
                    w = {'n_non_loop_edges': 1, 'n_non_loop_edges_up_to_multiplicity': 0 if hv is had else 1, 'n_loops': 0}[nm2]
                if init is length(a0):
                    w -= 1
                elif cval(init) is not None:
                    ck.same(fn, nm2 + ' at first', init, const(0))
                else:
                    rep.count('undecided')
                    continue
                ms = {length(proj(proj(data, ('ix', s)), ('ix', e))): mk('at', 'edges %d' % k) for k, (s, e) in enumerate(((p, q), (q, p)))}
                for z in ms.values():
                    z.nn = True
                d2 = subst(deep_el(settled(deep_el(delta), fa)), ms)
                d2 = subst(d2, ms)
                hv = subst(hv, ms)
                ck.same(fn, nm2, settled(d2, fa + [hv]), const(w), fa + [hv])


def less(t, p):
    if t.op == 'ite':
        return ite(t.args[0], less(t.args[1], p), less(t.args[2], p))
    return sub(t, p)


def through_sum(r, LD, t, ph):
    """t is the closed form of the accumulator ph."""
    if t is ph:
        return True
    d = less(LD.next[ph], ph)
    if contains(d, lambda x: x is ph):
        return False
    for x in subterms(t):
        if x.op == 'sum' and alpha(subst(x.args[2], {})) is alpha(d) and sub(t, x) is ph.args[2]:
            return True
    return False


def weighted(prog, rep):
    from matdom import MatChecker, mel, deep_mel, msize
    ck = MatChecker(prog, rep)
    fs = fields(prog, 'graph::WeightedSimpleGraph')
    fn = find(ck, 'from', WEIGHTED)
    lap = find(ck, 'laplacian', WEIGHTED)
    if fn is None or lap is None or not fs:
        return
    M = [k for k, t in enumerate(fs) if 'Matrix' in t]
    S = [k for k, t in enumerate(fs) if t == 'std::vec::Vec<std::string::String>']
    if len(M) != 1 or len(S) != 1:
        rep.count('undecided')
        return
    # the Laplacian: the weights at a vertex on the diagonal, the weights negated elsewhere
    r = ck.run(lap)
    A = proj(a0, ('f', M[0]))
    if r is not None and r.ret is not None:
        n = msize(A, 0)
        i, j = mk('at', 'i'), mk('at', 'j')
        i.nn = j.nn = True
        inside = [gt0(sub(n, i)), gt0(sub(n, j)), eq0(sub(msize(A, 1), n))]
        off = deep_mel(mel(r.ret, i, j))
        ck.same(lap, 'off the diagonal', settled(off, inside + [lnot(eq0(sub(i, j)))]), sub(const(0), proj(A, ('ix2', i, j))), inside + [lnot(eq0(sub(i, j)))])
        dia = deep_mel(mel(r.ret, i, i))
        dia = settled(dia, inside)
        k = mk('iv', 'k')
        B = frozenset([gt0(sub(n, k))])
        other = frozenset([gt0(sub(n, k)), lnot(eq0(sub(k, i)))])
        wants = [mk('sum', k, B, proj(A, ('ix2', *e))) for e in ((i, k), (k, i))] + [mk('sum', k, other, proj(A, ('ix2', *e))) for e in ((i, k), (k, i))]
        wants += [sub(w, proj(A, ('ix2', i, i))) for w in wants[:2]]
        if not any(decide_eq(dia, w, inside)[0] == 'eq' for w in wants):
            ck.same(lap, 'on the diagonal', dia, wants[0], inside)
        else:
            rep.require(lap.label() + ':on the diagonal', True, '')
        ck.same(lap, 'size', msize(r.ret, 0), n, inside)
    # from a list
    r = ck.run(fn)
    if r is None or r.ret is None or r.ret.op != 'agg':
        rep.count('undecided')
        return
    data, P = proj(r.ret, ('f', M[0])), proj(r.ret, ('f', S[0]))
    if P.op != 'phi':
        rep.count('undecided')
        return
    LP = r.interp.loop_objs.get(P.args[0])
    iv = LP.iv
    x, y, w = (proj(proj(a0, ('ix', iv)), ('f', k)) for k in range(3))
    lb = Labels(P, x, y)
    facts = [gt0(sub(length(a0), iv)), lnot(eq0(sub(x, y)))]
    grows(ck, fn, 'labels', P, LP.next[P], lb, facts)
    ck.same(fn, 'no labels at first', seq_len(P.args[2]), const(0))
    # loops are refused
    clauses = [c for bk, _ in LP.backs for c in bk]
    refused = lambda c: any(l.op == 'not' and l.args[0].op in ('eq', 'eq0') and contains(l, lambda z: z is x) and contains(l, lambda z: z is y) for l in c)
    if clauses:
        rep.require(fn.label() + ':loops refused', all(map(refused, clauses)), 'an edge from a vertex to itself is accepted', ck.where(fn))
    # the list of positions and weights
    W = [k for k in LP.next if hasattr(k, 'op') and k.op == 'phi' and k is not P and LP.next[k].op == 'push' and LP.next[k].args[0] is k]
    if len(W) != 1:
        rep.count('undecided')
        return
    W = W[0]
    e = lb.read(LP.next[W].args[1])
    n = length(P)
    good = True
    for fx in (True, False):
        for fy in (True, False):
            fa = facts + [lb.inx if fx else lnot(lb.inx), lb.iny if fy else lnot(lb.iny)]
            px = lb.px if fx else n
            py = lb.py if fy else n if fx else add(n, const(1))
            swapped = lb.py if fy else n, (lb.px if fx else n if fy else add(n, const(1)))
            es = settled(e, fa)
            if not fx and not fy and decide_eq(proj(es, ('f', 0)), swapped[1], fa)[0] == 'eq' and decide_eq(proj(es, ('f', 1)), swapped[0], fa)[0] == 'eq':
                continue
            a = {decide_eq(proj(es, ('f', k)), t, fa)[0] for k, t in ((0, py), (1, px))}
            if a == {'eq'}:
                continue
            good &= bool(ck.same(fn, 'position of the first end', proj(es, ('f', 0)), px, fa))
            good &= bool(ck.same(fn, 'position of the second end', proj(es, ('f', 1)), py, fa))
            ck.same(fn, 'weight', proj(es, ('f', 2)), w, fa)
    # the matrix
    if data.op != 'phi':
        rep.count('undecided')
        return
    LD = r.interp.loop_objs.get(data.args[0])
    i, j, p, q, N, wt = (mk('at', z) for z in ('i', 'j', 'p', 'q', 'vertices', 'weight'))
    for z in (i, j, p, q, N):
        z.nn = True
    e = proj(W, ('ix', LD.iv))
    m1 = [(data, mk('at', 'before')), (proj(e, ('f', 0)), p), (proj(e, ('f', 1)), q), (proj(e, ('f', 2)), wt), (n, N)]

    def plain(t):
        for x1, y1 in m1:
            t = subst(t, {x1: y1})
        return t
    at = lambda a, b: plain(deep_mel(mel(LD.next[data], a, b)))
    ins = [gt0(sub(N, v)) for v in (i, j, p, q)] + [lnot(eq0(sub(p, q)))]
    P0, Q0 = m1[1][0], m1[2][0]
    for a, b in ((P0, Q0), (Q0, P0)):
        ck.same(fn, 'weight of an edge in both directions', at(a, b), wt, ins)
    old = plain(proj(data, ('ix2', i, j)))
    for o in ([lnot(eq0(sub(i, p))), lnot(eq0(sub(i, q)))], [lnot(eq0(sub(i, p))), lnot(eq0(sub(j, p)))], [lnot(eq0(sub(j, q))), lnot(eq0(sub(j, p)))], [lnot(eq0(sub(i, q))), lnot(eq0(sub(j, q)))]):
        ck.same(fn, 'other weights', at(i, j), old, ins + o)
    m0 = data.args[2]
    ck.same(fn, 'no weights at first', plain(deep_mel(mel(m0, i, j))), const(0), ins)
    ck.same(fn, 'rows', plain(msize(m0, 0)), N)
    ck.same(fn, 'columns', plain(msize(m0, 1)), N)


# ------------------------------------------------------------------ subdivision
def adds(I, op, name, fn, args, st, pc, at):
    """Edges added to a graph under construction, as events."""
    if fn is None or fn.kind == 'closure':
        return NotImplemented
    if fn.crate == 'topo_spaces' and fn.implself == G_ADT and fn.name == 'add_edge':
        i, j = models.val(I, st, args[1]), models.val(I, st, args[2])
        I.event('edge', None, (i, j), pc, at)
        return unit(), st, pc
    return NotImplemented


def subdivision(prog, rep, L):
    """Every edge becomes a path with the vertices it needs, evenly spaced; the count of vertices is that of the paths."""
    opq = lambda f: f.crate == 'alg' or f.crate == 'topo_spaces' and f.implself == G_ADT and f.name == 'choose_maximal_tree'
    ck = Checker(prog, rep, (adds,), opaque=opq)
    fn = find(ck, 'subdivided_graph_from', SIMPLE)
    gf, sf = fields(prog, 'graph::Graph'), fields(prog, 'graph::SimpleGraph')
    if fn is None or not gf or not sf:
        return
    r = ck.run(fn)
    if r is None or r.ret is None or r.ret.op != 'agg':
        rep.count('undecided')
        return
    D = [k for k, t in enumerate(gf) if t.startswith('std::vec::Vec<std::vec::Vec<std::vec::Vec<')]
    S = [k for k, t in enumerate(gf) if t == 'std::vec::Vec<std::string::String>']
    V = [k for k, t in enumerate(sf) if t.startswith('std::vec::Vec<')]
    R = [k for k, t in enumerate(sf) if 'RawSimpleGraph' in t]
    if not (len(D) == len(S) == len(V) == len(R) == 1):
        rep.count('undecided')
        return
    data, labels = proj(a0, ('f', D[0])), proj(a0, ('f', S[0]))
    n = length(labels)
    a1.nn = True
    lab, where = fn.label(), ck.where(fn)
    ev = [e for e in r.events if e.kind == 'edge']
    loops = r.interp.loop_objs
    outer = {}
    for e in ev:
        ls = [l.id for l in e.loops if l.id in loops]
        # the loop over the edges of one pair: the innermost one bounded by the number of such edges
        for l in reversed(ls):
            iv = loops[l].iv
            b = [c for c in set().union(*[set(c) for c in e.pc]) if iv is not None and c.op == 'gt0' and contains(c, lambda z: z is iv) and contains(c, lambda z: z.op == 'len' and contains(z, lambda w: w is data))]
            if b:
                outer.setdefault(l, []).append((e, l is ls[-1]))
                break
        else:
            rep.count('undecided')
    rep.count('paths', len(outer))
    if len(outer) != 2:
        rep.count('undecided')
        return
    X, Y, K = (mk('at', q) for q in ('X', 'Y', 'K'))
    for q in (X, Y, K):
        q.nn = True
    for H in ([gt0(sub(a1, const(1)))], [gt0(sub(const(2), a1))]):
        S = lambda t: settled(t, H)
        added = {}
        for l, es in outer.items():
            Lo = loops[l]
            vs = [k for k in Lo.next if hasattr(k, 'op') and k.op == 'phi' and Lo.next[k].op in ('push', 'append')]
            if len(vs) != 1:
                rep.count('undecided')
                continue
            vs = vs[0]
            nx = Lo.next[vs]
            base = length(vs)
            m = S(deep_el(sub(seq_len(nx), base)))
            t = mk('at', 't')
            t.nn = True
            first = deep_el(seq_el(nx, base))
            cs = cases([first], []) or []
            red = [c[1][0] for c in cs]
            red = [c for c in red if c.op == 'agg' and len(c.args) == 2 and c.args[1].op == 'agg' and len(c.args[1].args) == 5]
            if not red:
                rep.count('undecided')
                continue
            vv = red[0].args[1]
            s, e2, k = vv.args[1:4]
            if not all(z.op == 'proj' and z.args[0] is labels and z.args[1][0] == 'ix' for z in (s, e2)):
                rep.count('undecided')
                continue
            x, y = s.args[1][1], e2.args[1][1]
            kind = 'loop' if x is y else 'edge'
            added[kind] = m
            need = a1 if kind == 'loop' else sub(a1, const(2))
            low = const(2) if kind == 'loop' else const(1)
            for f2, (z,) in cases([m], H) or []:
                goals = [gt0(add(sub(z, q), const(1))) for q in ((need, low) if entails(H, gt0(sub(a1, const(1)))) else (low,))]
                if all(entails(f2, g) for g in goals):
                    rep.require(lab + ':' + kind + ': enough vertices', True, '')
                elif closed(z) and understood(land(*f2)):
                    rep.require(lab + ':' + kind + ': enough vertices', False, '%s new vertices on the %s when %s' % (show(z)[:200], kind, show_case(f2)[:200]), where)
                else:
                    rep.count('undecided')
            pcs = [frozenset(c) for e, own in es if own for c in e.pc]
            inside = H + [gt0(m), gt0(sub(m, t))]
            el = S(deep_el(seq_el(nx, add(base, t))))
            for fs2, (g,) in cases([settled(el, inside)], inside) or []:
                pos = None
                if g.op == 'agg' and len(g.args) == 2 and g.args[1].op == 'agg' and len(g.args[1].args) == 5:
                    h = g.args[1]
                    ck.same(fn, kind + ': start of a new vertex', h.args[1], s, fs2)
                    ck.same(fn, kind + ': end of a new vertex', h.args[2], e2, fs2)
                    ck.same(fn, kind + ': number of the edge', h.args[3], Lo.iv, fs2)
                    pos = h.args[4]
                if pos is None or pos.op != 'call' or not pos.args[0].endswith('::new') or len(pos.args[1]) != 2:
                    rep.count('undecided')
                    continue
                u = lambda z: S(uncast(z))
                ck.same(fn, kind + ': position, numerator', u(pos.args[1][0]), add(t, const(1)), fs2)
                ck.same(fn, kind + ': position, denominator', u(pos.args[1][1]), add(m, const(1)), fs2)
            # the path
            own = [(e.data, e) for e, o in es if o]
            inn = [(e.data, e) for e, o in es if not o]
            last = sub(add(base, m), const(1))
            ends = [(x, base), (y, last)]
            for (g, e) in own:
                g = [S(deep_el(z)) for z in g]
                hit = [w for w in ends if decide_eq(g[0], w[0], H + [gt0(m)])[0] == decide_eq(g[1], w[1], H + [gt0(m)])[0] == 'eq']
                if hit:
                    ends.remove(hit[0])
                elif len(own) == 2:
                    w = next((w for w in ends if decide_eq(g[0], w[0], [])[0] == 'eq'), ends[0])
                    ck.same(fn, kind + ': an end of the path, old vertex', g[0], w[0], H + [gt0(m)])
                    ck.same(fn, kind + ': an end of the path, new vertex', g[1], w[1], H + [gt0(m)])
            if len(own) == 2:
                rep.require(lab + ':' + kind + ': both ends', not ends, 'an end of the path is not connected', where)
            chained = []
            for (g, e) in inn:
                il = [q.id for q in e.loops if q.id in loops][-1]
                iv = loops[il].iv
                g = [S(subst(deep_el(z), {iv: t})) for z in g]
                B = mk('at', 'vertices before')
                B.nn = True
                g = [subst(subst(z, {base: B}), {vs: mk('at', 'vs')}) for z in g]
                ok = [ck.same(fn, kind + ': next on the path, ' + w, q, add(B, z), H + [gt0(m)]) for w, q, z in (('first', g[0], t), ('second', g[1], add(t, const(1))))]
                chained.append(all(decide_eq(q, add(B, z), H + [gt0(m)])[0] == 'eq' for q, z in zip(g, (t, add(t, const(1))))))
                bs = [S(subst(c, {iv: t})) for cl in e.pc for c in cl if contains(c, lambda z: z is iv)]
                if len(e.pc) == 1:
                    condition(ck, fn, kind + ': extent of the path', land(*bs), gt0(sub(m, add(t, const(1)))), H + [gt0(m)])
                else:
                    rep.count('undecided')
            if len(own) != 2:
                if len(own) < 2 and all(chained):
                    rep.require(lab + ':' + kind + ': both ends', False, 'an end of the path is not connected', where)
                else:
                    rep.count('undecided')
            if len(inn) != 1:
                rep.require(lab + ':' + kind + ': path', bool(inn), 'the new vertices are not connected with each other', where) if not inn else rep.count('undecided')
            # every pair, every edge of it
            ivs = [loops[q.id].iv for q in es[0][0].loops if q.id in loops and loops[q.id].iv is not None]
            sol = {}
            for v, T in ((x, X), (y, Y)):
                free = [z for z in ivs if contains(v, lambda w: w is z) and z not in sol]
                if len(free) == 1:
                    d = sub(v, free[0])
                    if not contains(d, lambda w: w is free[0]):
                        sol[free[0]] = sub(T, subst(d, sol))
            sol[Lo.iv] = K
            want = [gt0(sub(n, X)), gt0(sub(n, Y)), gt0(sub(length(proj(proj(data, ('ix', X)), ('ix', Y))), K)), eq0(sub(X, Y)) if kind == 'loop' else gt0(sub(Y, X)), gt0(m)] + H
            for c in pcs:
                ls = [S(subst(q, sol)) for q in c]
                if kind == 'loop':
                    ls = [subst(q, {Y: X}) for q in ls]
                    want = [subst(q, {Y: X}) for q in want if q is not eq0(sub(X, Y))]
                for q in ls:
                    if entails(want, q):
                        rep.require(lab + ':' + kind + ': all of them', True, '')
                    elif understood(q) and not any(contains(q, lambda w: w is z) for z in ivs):
                        rep.require(lab + ':' + kind + ': all of them', False, 'only subdivided if %s' % show(q)[:200], where)
                    else:
                        rep.count('undecided')
                fs = ls + [gt0(add(v, const(1))) for v in sol.values()] + H
                goals = [gt0(sub(n, X)), gt0(sub(n, Y))] + ([gt0(sub(Y, X))] if kind == 'edge' else [])
                goals = [subst(q, {Y: X}) for q in goals] if kind == 'loop' else goals
                if all(entails(fs, q) for q in goals):
                    rep.require(lab + ':' + kind + ': only these', True, '')
                elif len(sol) == len(ivs) and all(understood(q) for q in ls):
                    rep.require(lab + ':' + kind + ': only these', False, 'more than the pairs i < j of vertices: %s' % show_case(fs)[:250], where)
                else:
                    rep.count('undecided')
            for q in es[0][0].loops:
                for d in loops[q.id].early if q.id in loops else ():
                    for c in d:
                        if any(z.op != 'isv' and contains(z, lambda w: w.op == 'len' and contains(w, lambda u: u is data)) for z in c):
                            rep.require(lab + ':' + kind + ': all of them', False, 'the pairs after one without edges are left out', where)
                        else:
                            rep.count('undecided')
            for z, v in sol.items():
                if z is not Lo.iv:
                    rep.require(lab + ':' + kind + ': pairs from the start', entails(want, gt0(add(v, const(1)))), 'pairs are left out', where) if True else None
        # the number of vertices
        post = [q for q in subterms(r.ret) if q.op == 'post' and q.args[0].endswith('::choose_maximal_tree')]
        if len(set(post)) == 1 and set(added) == {'loop', 'edge'}:
            nl, lo = accessor(prog, ck, GRAPH, 'n_non_loop_edges'), accessor(prog, ck, GRAPH, 'n_loops')
            ck.same(fn, 'number of vertices', S(L.nv(post[0].args[1])), add(n, add(mul(nl, added['edge']), mul(lo, added['loop']))), H)
            g = proj(r.ret, ('f', R[0]))
            rep.require(lab + ':graph', g is post[0], 'the result is not the graph with the chosen tree', where) if g.op in ('post', 'agg') else rep.count('undecided')
            vl = proj(r.ret, ('f', V[0]))
            used = contains(vl, lambda q: q.op == 'call' and q.args[0].endswith('::choose_maximal_tree'))
            rep.require(lab + ':vertices renumbered', used, 'the vertices are not renumbered with the tree', where)
        else:
            rep.count('undecided')


def uncast(z):
    while z.op == 'cast':
        z = z.args[-1]
    return z
