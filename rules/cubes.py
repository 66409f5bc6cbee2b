"""T20: factors of cubes, cubes and edge paths of configuration spaces of graphs."""
from spec import *
import absint, models
from absint import dnf_and
from graphs import (Layout, graph_ops, pool_ops, behind, joined, condition, understood, settled, flag, find, fields, equivalent, variant, a0, a1, a2)

FACTOR, CUBE, PATH, MORSE = 'graph::CubeFactor', 'cubical::Cube', 'cubical::EdgePath', 'cubical::UdnMorseCplx'


def parent(d, v):
    """The neighbour of v in the tree that is smaller than v."""
    t = mk('parent', d, v)
    mark(t)
    return t


class Factors:
    """The enum of factors: which variant is which, and the ends of an edge."""
    def __init__(self, prog):
        adt = [a for a in prog.adts.values() if a['crate'] == 'topo_spaces' and a['path'] == FACTOR]
        self.ok = False
        if len(adt) == 1 and len(adt[0]['variants']) == 2:
            vs = adt[0]['variants']
            e = [k for k, v in enumerate(vs) if [f['ty'] for f in v['fields']] == ['[usize; 2]']]
            w = [k for k, v in enumerate(vs) if [f['ty'] for f in v['fields']] == ['usize']]
            if len(e) == len(w) == 1:
                self.E, self.V, self.ok = e[0], w[0], True
                self.names = [v['name'] for v in vs]

    def edge(self, f): return [isv(f, self.E), lnot(isv(f, self.V))]
    def vertex(self, f): return [isv(f, self.V), lnot(isv(f, self.E))]
    def at(self, f): return proj(f, ('f', 0))
    def end(self, f, k): return proj(proj(f, ('f', 0)), ('ix', const(k)))

    def mkv(self, x): return mk('agg', ('adt', FACTOR, self.V, self.names[self.V]), x)
    def mke(self, x, y): return mk('agg', ('adt', FACTOR, self.E, self.names[self.E]), mk('agg', ('array',), x, y))

    def norm(self, t):
        """One word per variant: not an edge is a vertex."""
        m = {}
        for x in subterms(t):
            if x.op == 'isv' and x.args[1] == self.V:
                m[x] = lnot(isv(x.args[0], self.E))
        return subst(t, m) if m else t


def cube_ops(F, L):
    """Flow, blocking and the tree as relations of the graph, for the functions built from them."""
    g3 = graph_ops(L, 3)

    def prim(I, op, name, fn, args, st, pc, at):
        if fn is None or fn.kind == 'closure' or fn.crate != 'topo_spaces' or fn.implself != FACTOR or fn.trait:
            return NotImplemented
        V = lambda k: I.reify(st, models.val(I, st, args[k]))
        if fn.name == 'flow':
            f, G = V(0), behind(I, st, args[1])
            pc = dnf_and(dnf_and(pc, lnot(isv(f, F.E))), gt0(F.at(f)))
            if not pc:
                return None
            return F.mke(parent(L.data(G), F.at(f)), F.at(f)), st, pc
        if fn.name == 'is_in_maximal_tree':
            f, G = V(0), behind(I, st, args[1])
            return ite(isv(f, F.E), mk('bit', mk('intree', L.data(G), frozenset((F.end(f, 0), F.end(f, 1)))), const(0)), TRUE), st, pc
        if fn.name == 'is_blocked':
            f, G = V(0), behind(I, st, args[2])
            fs = behind(I, st, args[1])
            pc = dnf_and(pc, lnot(isv(f, F.E)))
            if not pc:
                return None
            return mk('bit', mk('blocked', f, fs, L.data(G)), const(0)), st, pc
        return NotImplemented
    return prim


def present(ck, got, want, W, facts, k=None):
    """Replaces an existence statement whose member k is as wanted by W."""
    k = k or mk('at', 'k')
    k.nn = True
    m = {}
    for x in subterms(got):
        if x.op == 'any' and x.args[0].op == 'iv':
            b = subst(x.args[1], {x.args[0]: k})
            if equivalent(b, want, facts):
                m[x] = W
    return subst(got, m) if m else got


# ------------------------------------------------------------------ T20
def check_T20(prog, rep):
    rep.rule('every question to a factor is compared with its definition for each pair of variants; faces, ends, the classification of a '
             'cube, its flow and the words of edge paths are compared term by term, loops by their loop-carried values')
    rep.assumptions += ['the ends of an edge are in increasing order and below the number of vertices', 'formal sums are elements of the free module (T10)',
                        'the tree gives every vertex but the base one smaller neighbour (T11)', 'machine integers do not overflow']
    L, F = Layout(prog), Factors(prog)
    rep.require('anchor:CubeFactor', F.ok and L.ok, 'CubeFactor is not an edge with two ends or a vertex')
    if not (F.ok and L.ok):
        return
    rep.group(factors, prog, rep, L, F)
    rep.group(blocking, prog, rep, L, F)
    rep.group(order, prog, rep, L, F)
    rep.group(cubes, prog, rep, L, F)
    rep.group(paths, prog, rep, L, F)
    rep.group(cells, prog, rep, L, F)
    rep.floor('operations', 12)


def accepts(ck, fn, r, facts, what='accepts'):
    ok = any(all(entails(facts, l) for l in c) for c in r.pc)
    if ok:
        ck.rep.require(fn.label() + ':' + what, True, '')
    elif all(understood(l) for c in r.pc for l in c):
        ck.rep.require(fn.label() + ':' + what, False, 'a valid input is rejected', ck.where(fn))
    else:
        ck.rep.count('undecided')


def factors(prog, rep, L, F):
    ck = Checker(prog, rep, (graph_ops(L, 3),))
    e, v = isv(a0, F.E), isv(a1, F.E)
    ends = lambda x, k: [F.end(x, 0), F.end(x, 1)] if k else [F.at(x)]
    fact = lambda x, k: F.edge(x) if k else F.vertex(x)

    fn = find(ck, 'is_disjoint_from', FACTOR)
    if fn is not None:
        r = ck.run(fn)
        for p in (0, 1):
            for q in (0, 1):
                want = land(*[lnot(eq0(sub(x, y))) for x in ends(a0, p) for y in ends(a1, q)])
                condition(ck, fn, 'no common vertex (%s, %s)' % (p, q), settled(r.ret, fact(a0, p) + fact(a1, q)), want, fact(a0, p) + fact(a1, q))
                accepts(ck, fn, r, fact(a0, p) + fact(a1, q))
    for nm, want in (('is_edge', True), ('is_vertex', False)):
        fn = find(ck, nm, FACTOR)
        if fn is not None:
            r = ck.run(fn)
            for p in (0, 1):
                condition(ck, fn, 'answer (%s)' % p, settled(r.ret, fact(a0, p)), TRUE if bool(p) == want else FALSE, fact(a0, p))
                accepts(ck, fn, r, fact(a0, p))
    fn = find(ck, 'edge', FACTOR)
    if fn is not None:
        r = ck.run(fn)
        for k in (0, 1):
            ck.same(fn, 'end %s' % k, settled(deep_el(proj(r.ret, ('ix', const(k)))), F.edge(a0)), F.end(a0, k), F.edge(a0))
        accepts(ck, fn, r, F.edge(a0))
        refuses(ck, fn, r, F.vertex(a0), 'a vertex')
    fn = find(ck, 'vertex', FACTOR)
    if fn is not None:
        r = ck.run(fn)
        ck.same(fn, 'vertex', settled(r.ret, F.vertex(a0)), F.at(a0), F.vertex(a0))
        accepts(ck, fn, r, F.vertex(a0))
        refuses(ck, fn, r, F.edge(a0), 'an edge')
    for nm, k in (('terminal', 0), ('initial', 1)):
        fn = find(ck, nm, FACTOR)
        if fn is not None:
            r = ck.run(fn)
            t = settled(r.ret, F.edge(a0))
            if t.op == 'agg':
                rep.require(fn.label() + ':a vertex', variant(prog, t) == F.names[F.V], 'it is not a vertex', ck.where(fn))
                ck.same(fn, 'end', proj(t, ('f', 0)), F.end(a0, k), F.edge(a0))
            else:
                rep.count('undecided')
            accepts(ck, fn, r, F.edge(a0))
    up = F.edge(a0) + [gt0(sub(F.end(a0, 1), F.end(a0, 0)))]
    fn = find(ck, 'is_order_respecting', FACTOR)
    if fn is not None:
        r = ck.run(fn)
        condition(ck, fn, 'consecutive ends', settled(r.ret, up), eq0(sub(sub(F.end(a0, 1), F.end(a0, 0)), const(1))), up)
        accepts(ck, fn, r, up)
    fn = find(ck, 'is_disrespected_by', FACTOR)
    if fn is not None:
        r = ck.run(fn)
        fs = F.vertex(a0) + F.edge(a1) + [gt0(sub(F.end(a1, 1), F.end(a1, 0)))]
        condition(ck, fn, 'strictly between the ends', settled(r.ret, fs), land(gt0(sub(F.at(a0), F.end(a1, 0))), gt0(sub(F.end(a1, 1), F.at(a0)))), fs)
        accepts(ck, fn, r, fs)
    fn = find(ck, 'get_order', FACTOR)
    if fn is not None:
        r = ck.run(fn)
        for p in (0, 1):
            x = r.interp.content(r.state, a0) if False else a0
            ck.same(fn, 'the least vertex (%s)' % p, settled(r.ret, fact(x, p)), ends(x, p)[0], fact(x, p))
    fn = find(ck, 'is_in_maximal_tree', FACTOR)
    if fn is not None:
        r = ck.run(fn)
        condition(ck, fn, 'vertices are in the tree', settled(r.ret, F.vertex(a0)), TRUE, F.vertex(a0))
        fs = up + [gt0(sub(L.nv(a1), F.end(a0, 1))), L.chosen(a1)]
        condition(ck, fn, 'edges of the tree', settled(r.ret, fs), mk('bit', mk('intree', L.data(a1), frozenset((F.end(a0, 0), F.end(a0, 1)))), const(0)), fs)
        accepts(ck, fn, r, fs)


def refuses(ck, fn, r, facts, what):
    for c in r.pc:
        if contradictory(list(facts) + list(c)):
            continue
        if all(understood(l) for l in c):
            ck.rep.require(fn.label() + ':refuses', False, '%s is accepted' % what, ck.where(fn))
            return
        ck.rep.count('undecided')
    ck.rep.require(fn.label() + ':refuses', True, '')


def blocking(prog, rep, L, F):
    ck = Checker(prog, rep, (graph_ops(L, 3),))
    fn = find(ck, 'flow', FACTOR)
    d = L.data(a1)
    v = F.at(a0)
    k = mk('at', 'k')
    k.nn = True
    tree = lambda x, y: mk('bit', mk('intree', d, frozenset((x, y))), const(0))
    if fn is not None:
        r = ck.run(fn)
        fs = F.vertex(a0) + [gt0(v), L.chosen(a1), gt0(sub(L.nv(a1), v))]
        t = settled(r.ret, fs)
        if t.op == 'agg':
            rep.require(fn.label() + ':an edge', variant(prog, t) == F.names[F.E], 'it is not an edge', ck.where(fn))
            x, y = (deep_el(proj(proj(t, ('f', 0)), ('ix', const(q)))) for q in (0, 1))
            ck.same(fn, 'from the vertex', y, v, fs)
            first = [z for z in subterms(x) if z.op == 'first' and z.args[0].op == 'iv']
            if len(first) == 1:
                iv = first[0].args[0]
                p = subst(x, {first[0]: iv})
                co = sub(p, iv)
                back = sub(sub(v, const(1)), p)
                b = None
                if p is iv or not contains(co, lambda z: z is iv):
                    b, down = subst(first[0].args[1], {iv: sub(k, co)}), False
                elif back is iv or not contains(sub(back, iv), lambda z: z is iv):
                    b, down = subst(first[0].args[1], {iv: sub(sub(sub(v, const(1)), k), sub(back, iv))}), True
                if b is None:
                    rep.count('undecided')
                else:
                    # a tree edge is an edge, and the tree has one for every vertex: the last edge to a smaller one
                    inside = fs + [gt0(sub(v, k))]
                    J, T = joined(d, k, v), tree(k, v)
                    ok = equivalent(b, T, inside + [J]) and equivalent(b, FALSE, inside + [lnot(J), lnot(T)]) or down and equivalent(b, J, inside)
                    if ok:
                        rep.require(fn.label() + ':along the tree', True, '')
                    elif understood(b):
                        rep.require(fn.label() + ':along the tree', False, 'it flows to the first vertex with %s' % show(b)[:300], ck.where(fn))
                    else:
                        rep.count('undecided')
            elif closed(x):
                rep.require(fn.label() + ':along the tree', False, 'it flows to %s' % show(x)[:300], ck.where(fn))
            else:
                rep.count('undecided')
        else:
            rep.count('undecided')
        refuses(ck, fn, r, [eq0(v)] + F.vertex(a0), 'the base point')
    ck = Checker(prog, rep, (flows(F, L), graph_ops(L, 3)))
    fn = find(ck, 'is_blocked', FACTOR)
    if fn is not None:
        r = ck.run(fn)
        d = L.data(a2)
        W = mk('bit', mk('at', 'W'), const(0))
        w = proj(a1, ('ix', k))
        par = parent(d, v)
        fs = [F.vertex(a0)[0], F.vertex(a0)[1]]
        got = F.norm(r.ret)
        want = land(gt0(sub(length(a1), k)), lor(land(lnot(isv(w, F.E)), eq0(sub(F.at(w), par))), land(isv(w, F.E), lor(eq0(sub(F.end(w, 0), par)), eq0(sub(F.end(w, 1), par))))))
        got = present(ck, got, want, W, fs + [gt0(v)], k)
        condition(ck, fn, 'the next vertex is taken', settled(got, fs), lor(eq0(v), W), fs)
        accepts(ck, fn, r, fs + [gt0(v)])
        accepts(ck, fn, r, fs + [eq0(v)], 'accepts the base point')


def flows(F, L):
    p = cube_ops(F, L)

    def prim(I, op, name, fn, args, st, pc, at):
        if fn is not None and fn.name == 'flow':
            return p(I, op, name, fn, args, st, pc, at)
        return NotImplemented
    return prim


def order(prog, rep, L, F):
    ck = Checker(prog, rep, (graph_ops(L, 3),))
    fn = find(ck, 'partial_cmp', FACTOR, 'PartialOrd')
    if fn is None:
        return
    r = ck.run(fn)
    ends = lambda x, k: [F.end(x, 0), F.end(x, 1)] if k else [F.at(x)]
    fact = lambda x, k: F.edge(x) if k else F.vertex(x)
    for p in (0, 1):
        for q in (0, 1):
            base = fact(a0, p) + fact(a1, q)
            dis = [lnot(eq0(sub(x, y))) for x in ends(a0, p) for y in ends(a1, q)]
            x, y = ends(a0, p)[0], ends(a1, q)[0]
            for rel, want in ((gt0(sub(y, x)), -1), (gt0(sub(x, y)), 1)):
                fs = base + dis + [rel, lnot(eq0(sub(a0, a1)))]
                t = settled(r.ret, fs)
                tag = 'order of disjoint factors (%s, %s)' % (p, q)
                if t.op == 'agg' and len(t.args) == 2:
                    c = settled(proj(t, ('f', 0)), fs)
                    ck.rep.count('orders')
                    s = sign_of(c, x, y)
                    if s is None:
                        rep.count('undecided')
                    else:
                        rep.require(fn.label() + ':' + tag, s == 1, 'the factors are compared by %s' % show(c)[:200], ck.where(fn))
                elif t.op == 'agg':
                    rep.require(fn.label() + ':' + tag, False, 'disjoint factors are not compared', ck.where(fn))
                else:
                    rep.count('undecided')
            # with a common vertex
            for z in dis:
                if p == q == 0:
                    continue
                fs = base + [lnot(z), lnot(eq0(sub(a0, a1)))]
                t = settled(r.ret, fs)
                if t.op == 'agg':
                    rep.require(fn.label() + ':factors that meet (%s, %s)' % (p, q), len(t.args) == 1, 'factors with a common vertex are compared', ck.where(fn))
                else:
                    rep.count('undecided')
            if p == q:
                t = settled(r.ret, base + [eq0(sub(a0, a1))])
                ok = t.op == 'agg' and len(t.args) == 2 and t.args[1].op == 'agg' and 'Equal' in repr(t.args[1].args[0])
                if ok or t.op == 'agg':
                    rep.require(fn.label() + ':equal factors', ok, 'a factor is not equal to itself', ck.where(fn))
                else:
                    rep.count('undecided')


def sign_of(c, x, y):
    """1 if c compares x with y, -1 if it compares y with x, 0 if it compares something else."""
    if c.op == 'icmp' or c.op == 'cmp':
        if c.args[0] is x and c.args[1] is y:
            return 1
        if closed(c):
            return -1 if c.args[0] is y and c.args[1] is x else 0
        return None
    if c.op == 'agg':
        return None
    return None


def conditions_of(fl):
    """The conditions of the filters themselves, without their parts."""
    parts = {x for f in fl if f.op in ('and', 'or') for x in f.args[0]}
    return [f for f in fl if f not in parts]


def stepped(Lp, facts):
    """Whether the loop takes a step for its member under the facts: 'go', 'skip', 'stop' or None."""
    if any(entails(facts, lnot(x)) for x in conditions_of(Lp.filters)):
        return 'skip'
    cl = [c for bk, _ in Lp.backs for c in bk]
    if any(all(entails(facts, l) for l in c) for c in cl):
        return 'go'
    if all(contradictory(list(facts) + list(c)) for c in cl):
        return 'stop'
    return None


def phis(t):
    return [x for x in subterms(t) if x.op == 'phi']


def loop_of(r, p):
    return r.interp.loop_objs.get(p.args[0])


class Step:
    """What one member of a list does to the loop-carried part of a result."""
    def __init__(self, r, t):
        self.ok = False
        inits = {y for x in phis(t) for y in subterms(x.args[2]) if y.op == 'phi'}
        ps = [x for x in phis(t) if x not in inits]
        if not ps:
            return
        self.t = t
        self.loop = loop_of(r, ps[0])
        if self.loop is None or any(p.args[0] != ps[0].args[0] for p in ps):
            return
        self.init = subst(t, {p: p.args[2] for p in ps})
        nx = {p: v for p, v in self.loop.next.items() if hasattr(p, 'op')}
        if any(p not in nx for p in ps):
            return
        self.next = subst(t, {p: nx[p] for p in ps})
        self.iv, self.ok = self.loop.iv, True

    def under(self, facts):
        w = stepped(self.loop, facts)
        return w, settled(self.next, facts) if w == 'go' else self.t if w == 'skip' else None


def cubes(prog, rep, L, F):
    alg = lambda f: f.crate == 'alg'
    ck = Checker(prog, rep, (cube_ops(F, L), graph_ops(L, 3)), alg)
    rep.group(ends, ck, rep, F)
    rep.group(boundary, ck, rep, F)
    rep.group(classes, ck, rep, F, L)
    rep.group(flow, Checker(prog, rep, (cube_ops(F, L), graph_ops(L, 3)), lambda f: alg(f) or f.implself == CUBE and f.name in ('property', 'get_boundary', 'flow')), rep, F, L)


def verdict(ck, fn, what, good, bad, text):
    """An obligation that is met, broken (on closed evidence) or undecided."""
    if good:
        ck.rep.require('%s:%s' % (fn.label(), what), True, '')
    elif bad:
        ck.rep.require('%s:%s' % (fn.label(), what), False, text, ck.where(fn))
    else:
        ck.rep.count('undecided')


def ends(ck, rep, F):
    fn = find(ck, 'get_ends', CUBE)
    if fn is None:
        return
    r = ck.run(fn)
    fs0 = proj(a0, ('f', 0))
    for j in (0, 1):
        s = Step(r, proj(proj(r.ret, ('ix', const(j))), ('f', 0)))
        if not s.ok:
            rep.count('undecided')
            continue
        empty = settled(seq_len(s.init), [])
        verdict(ck, fn, 'end %s starts empty' % j, empty is const(0), closed(empty), 'it starts with %s' % show(s.init)[:200])
        f = proj(fs0, ('ix', s.iv))
        inside = [gt0(sub(length(fs0), s.iv))]
        for k, fact in ((1, F.edge(f)), (0, F.vertex(f))):
            how, t = s.under(inside + fact)
            tag = 'end %s of %s' % (j, 'an edge' if k else 'a vertex')
            if t is None or how == 'skip':
                verdict(ck, fn, tag, False, how in ('skip', 'stop'), 'the factor is left out')
                continue
            if t.op != 'push' or t.args[0] is not s.t:
                verdict(ck, fn, tag, False, t is s.t, 'the factor is left out')
                continue
            x = settled(t.args[1], fact)
            if k:
                good = x.op == 'agg' and x.args[0][2] == F.V and settled(x.args[1], fact) is F.end(f, j)
                ok = good
            else:
                ok = x is f or x.op == 'agg' and x.args[0][2] == F.V and settled(x.args[1], fact) is F.at(f)
            verdict(ck, fn, tag, ok, understood(x), 'it is %s' % show(x)[:200])
    iv = mk('at', 'm')
    m = mk('at', 'edges')
    for c in r.pc:
        t = land(*c)
        sums = [x for x in subterms(t) if x.op == 'sum']
        if len(sums) != 1:
            verdict(ck, fn, 'one edge', False, not sums and understood(t), 'a cube with any number of edges is accepted')
            continue
        s = sums[0]
        i = s.args[0]
        f = proj(fs0, ('ix', iv))
        v = subst(s.args[2], {i: iv})
        cs = [subst(x, {i: iv}) for x in s.args[1]]
        ins = [gt0(sub(length(fs0), iv))]
        val = lambda fact: settled(v, ins + fact) if all(entails(ins + fact, x) for x in cs) else const(0) if any(entails(ins + fact, lnot(x)) for x in cs) else None
        e, w = val(F.edge(f)), val(F.vertex(f))
        if e is const(1) and w is const(0):
            condition(ck, fn, 'one edge', subst(t, {s: m}), eq0(sub(m, const(1))))
        else:
            rep.count('undecided')


def boundary(ck, rep, F):
    fn = find(ck, 'get_boundary', CUBE)
    if fn is None:
        return
    r = ck.run(fn)
    fs0 = proj(a0, ('f', 0))
    if is_zero(r.ret):
        verdict(ck, fn, 'opposite faces with alternating signs', False, True, 'the boundary is always zero')
        return
    s = Step(r, r.ret)
    if not s.ok or s.t.op != 'phi':
        sums = {x for x in subterms(r.ret) if x.op == 'sum'}
        if len(sums) == 1:
            x = sums.pop()
            v = named_faces(x.args[2], fs0, x.args[0], F)
            bad = not contains(v, lambda y: y.op in ('call', 'callf', 'ite', 'item', 'phi', 'sum', 'pow', 'irem', 'idiv', 'count') or y.op in UNDECIDED) or by_place(v, x.args[0])
            verdict(ck, fn, 'opposite faces with alternating signs', False, bad, 'every edge adds %s' % show(v)[:300])
        else:
            rep.count('undecided')
        return
    verdict(ck, fn, 'starts at zero', is_zero(s.init), closed(s.init), 'it starts at %s' % show(s.init)[:200])
    f = proj(fs0, ('ix', s.iv))
    inside = [gt0(sub(length(fs0), s.iv))]
    how, t = s.under(inside + F.vertex(f))
    verdict(ck, fn, 'no face at a vertex', t is s.t, how == 'go' and understood_sum(t), 'a vertex contributes')
    how, t = s.under(inside + F.edge(f))
    if t is None:
        verdict(ck, fn, 'two faces at an edge', False, how == 'stop', 'the sum ends at an edge')
        return
    d = sub(t, s.t)
    sg = [p for p in phis(d) if p is not s.t]
    d = named_faces(d, fs0, s.iv, F)
    f0, f1 = mk('at', 'face0'), mk('at', 'face1')
    if len(sg) != 1 or not phis(d):
        bad = not phis(d) and not contains(d, lambda x: x.op in ('call', 'ite', 'item')) and not (d is sub(f0, f1) or d is sub(f1, f0))
        # a sign that depends on the place alone cannot count the edges before it
        bad = bad or by_place(d, s.iv)
        verdict(ck, fn, 'opposite faces with alternating signs', False, bad or d is sub(f0, f1) or d is sub(f1, f0), 'the step adds %s' % show(d)[:300])
        return
    sg = sg[0]
    lp = s.loop
    init, nx = sg.args[2], lp.next.get(sg)
    x = mk('at', 'sign')
    nx = settled(subst(nx, {sg: x}), inside + F.edge(f))
    d = settled(subst(d, {sg: x}), inside + F.edge(f))
    unit = init in (const(1), const(-1))
    good = d in (mul(x, sub(f0, f1)), mul(x, sub(f1, f0)))
    if good and unit:
        verdict(ck, fn, 'opposite faces with alternating signs', nx is neg(x), understood(nx), 'the sign after a step is %s' % show(nx)[:200])
    else:
        verdict(ck, fn, 'opposite faces with alternating signs', False, not contains(d, lambda y: y.op in ('call', 'ite', 'item', 'phi')) and closed(init), 'the step adds %s' % show(d)[:300])


def by_place(d, iv):
    """The faces and the place of the edge are all it depends on: the edges before it cannot have been counted."""
    known = {mk('at', 'face0'), mk('at', 'face1'), iv}
    return all(x in known or x.op not in ('at', 'arg', 'iv', 'call', 'callf', 'item', 'sum', 'any', 'first', 'collect', 'count', 'proj', 'phi') and x.op not in UNDECIDED for x in subterms(d))


def named_faces(d, fs0, iv, F):
    """The faces of the cube as symbols, other cubes too."""
    f = proj(fs0, ('ix', iv))
    m = {}
    for x in subterms(d):
        if x.op == 'call' and 'From<Basis>' in str(x.args[0]) and len(x.args[1]) == 1:
            y = proj(x.args[1][0], ('f', 0))
            for j in (0, 1):
                if y.op == 'sorted' and y.args[0] is absint.upd(fs0, ('ix', iv), F.mkv(F.end(f, j))):
                    m[x] = mk('at', 'face%s' % j)
            if x not in m and not phis(y) and not contains(y, lambda z: z.op in ('call', 'callf', 'ite', 'item') or z.op in UNDECIDED):
                m[x] = mk('at', 'cube %s' % show(y)[:100])
    return subst(d, m) if m else d


def is_zero(t):
    return t is const(0) or t.op == 'call' and str(t.args[0]).endswith('::zero')


def understood_sum(t):
    return t is not None and not contains(t, lambda x: x.op in UNDECIDED)


def classes(ck, rep, F, L):
    fn = find(ck, 'property', CUBE)
    adt = [a for a in ck.prog.adts.values() if a['crate'] == 'topo_spaces' and a['path'] == 'cubical::MorseProp']
    if fn is None or len(adt) != 1:
        rep.count('undecided')
        return
    idx = {v['name']: k for k, v in enumerate(adt[0]['variants'])}
    if set(idx) != {'Critical', 'Collapsible', 'Redundant'}:
        rep.count('undecided')
        return
    r = ck.run(fn)
    fs0 = proj(a0, ('f', 0))
    d = L.data(a1)
    k, K = mk('at', 'k'), mk('at', 'K')
    k.nn = K.nn = True
    outer = {}
    for x in subterms(r.ret):
        if x.op in ('any', 'first') and not contains(x, lambda y: y.op == 'iv' and y is not x.args[0] and not bound_in(x, y)):
            outer.setdefault((x.args[0], x.args[1]), []).append(x)
    # the outermost existence statement
    tops = [q for q in outer if any(x.op == 'first' for x in outer[q]) and any(x.op == 'any' for x in outer[q])]
    if len(tops) != 1:
        rep.count('undecided')
        return
    iv, B = tops[0]
    H = mk('bit', mk('at', 'H'), const(0))
    got = subst(r.ret, {x: (H if x.op == 'any' else K) for x in outer[tops[0]]})
    f = proj(fs0, ('ix', K))
    for tag, fs, name in (('no movable factor', [lnot(H)], 'Critical'), ('an edge', [H] + F.edge(f), 'Collapsible'), ('a vertex', [H] + F.vertex(f), 'Redundant')):
        t = settled(got, fs)
        if t.op != 'agg':
            rep.count('undecided')
            continue
        rep.require('%s:%s' % (fn.label(), tag), variant(ck.prog, t) == name, 'the first movable factor being %s gives %s' % (tag, variant(ck.prog, t)), ck.where(fn))
        if len(t.args) > 1:
            ck.same(fn, 'which factor, ' + tag, t.args[1], K, fs)
    b = subst(B, {iv: k})
    f = proj(fs0, ('ix', k))
    W = mk('bit', mk('at', 'W'), const(0))
    o = mk('at', 'o')
    o.nn = True
    g = proj(fs0, ('ix', o))
    inside = [gt0(sub(length(fs0), k))]
    e0, e1 = F.end(f, 0), F.end(f, 1)
    up = F.edge(f) + [gt0(sub(e1, e0))]
    between = land(gt0(sub(length(fs0), o)), lnot(isv(g, F.E)), gt0(sub(F.at(g), e0)), gt0(sub(e1, F.at(g))))
    b = F.norm(b)
    bl = [x for x in subterms(b) if x.op == 'bit' and x.args[0].op == 'blocked']
    Q = mk('bit', mk('at', 'Q'), const(0))
    m = {}
    for x in bl:
        y = x.args[0]
        if y.args[0] is f and y.args[1] in (fs0, a0) and y.args[2] is d:
            m[x] = Q
    b = subst(b, m)
    condition(ck, fn, 'a vertex that is not blocked', settled(b, inside + F.vertex(f)), lnot(Q), inside + F.vertex(f))
    T = mk('bit', mk('intree', d, frozenset((e0, e1))), const(0))
    one = eq0(sub(sub(e1, e0), const(1)))
    be = present(ck, settled(b, inside + up), between, W, inside + up, o)
    condition(ck, fn, 'an edge of the tree that respects the order', settled(be, inside + up + [one, lnot(W)]), T, inside + up + [one, lnot(W)])
    condition(ck, fn, 'an edge of the tree without vertices in between', settled(be, inside + up + [lnot(one)]), land(T, lnot(W)), inside + up + [lnot(one)])


def bound_in(x, iv):
    """iv is the binder of a statement inside x."""
    return any(y.op in ('any', 'first', 'sum', 'prod', 'collect') and y.args[0] is iv for y in subterms(x) if y is not x)


def flow(ck, rep, F, L):
    fn = find(ck, 'flow', CUBE)
    adt = [a for a in ck.prog.adts.values() if a['crate'] == 'topo_spaces' and a['path'] == 'cubical::MorseProp']
    if fn is None or len(adt) != 1:
        rep.count('undecided')
        return
    idx = {v['name']: k for k, v in enumerate(adt[0]['variants'])}
    r = ck.run(fn)
    if r.ret is None or set(idx) != {'Critical', 'Collapsible', 'Redundant'}:
        rep.count('undecided')
        return
    fs0 = proj(a0, ('f', 0))
    ps = {x for x in subterms(r.ret) if x.op == 'call' and str(x.args[0]).endswith('Cube>::property')}
    if len(ps) != 1:
        rep.count('undecided')
        return
    P0 = ps.pop()
    P = mk('at', 'P')
    good = len(P0.args[1]) == 2 and behind0(P0.args[1][0]) is a0 and behind0(P0.args[1][1]) is a1
    verdict(ck, fn, 'classifies itself', good, closed(mk('agg', ('tuple',), *P0.args[1])), 'it asks for the class of another cube')
    got = subst(r.ret, {P0: P})
    case = lambda name: [isv(P, idx[name])] + [lnot(isv(P, v)) for n, v in idx.items() if n != name]
    t = settled(got, case('Collapsible'))
    verdict(ck, fn, 'a collapsible cube flows to zero', is_zero(t), closed(t) or t.op == 'call' and 'From<Basis>' in str(t.args[0]), 'it flows to %s' % show(t)[:200])
    t = settled(got, case('Critical'))
    one = t is a0 or t.op == 'call' and 'From<Basis>' in str(t.args[0]) and t.args[1][0] is a0
    verdict(ck, fn, 'a critical cube stays', one, is_zero(t) or closed(t), 'it flows to %s' % show(t)[:200])
    i = proj(P, ('f', 0))
    v = F.at(proj(fs0, ('ix', i)))
    par = parent(L.data(a1), v)
    red = case('Redundant') + F.vertex(proj(fs0, ('ix', i))) + [gt0(v), gt0(sub(length(fs0), i)), gt0(sub(v, par))]
    t = settled(got, red)
    W = mk('bit', mk('at', 'W'), const(0))
    # a list of vertices, none of which is in between
    lists = {}
    for x in subterms(t):
        if x.op == 'any':
            lists[x] = x
    m = {}
    for x in lists:
        iv, b = x.args
        src = [p for p in phis(b) if contains(b, lambda y: y.op == 'proj' and y.args[0] is p and y.args[1] == ('ix', iv))]
        if len(set(src)) == 1:
            p = src[0]
            el = proj(p, ('ix', iv))
            want = land(gt0(sub(length(p), iv)), gt0(sub(F.at(el), par)), gt0(sub(v, F.at(el))))
            b2 = vertexwise(F, b)
            b2 = subst(b2, {P0: P})
            fine = between_or_at(F, b2, el, p, iv, par, v)
            if fine is not None:
                lo, hi = fine
                s = Step(r, p)
                if s.ok and list_of_others(ck, fn, rep, F, s, fs0, v, P0, P, red):
                    verdict(ck, fn, 'vertices in between', lo and hi, True, 'other vertices decide the reduction')
                    m[x] = W
                    continue
        rep.count('undecided')
    t = subst(t, m)
    no = settled(t, red + [lnot(W)])
    yes = settled(t, red + [W])
    if m:
        want = mk('agg', ('adt', FACTOR, F.V, F.names[F.V]), par)
        if no.op == 'call' and str(no.args[0]).endswith('Cube>::flow'):
            c = proj(no.args[1][0], ('f', 0))
            ok = c.op == 'sorted' and c.args[0] is absint.upd(fs0, ('ix', i), want) and behind0(no.args[1][1]) is a1
            verdict(ck, fn, 'the reduction', ok, closed(c), 'it flows on from %s' % show(c)[:300])
        else:
            rep.count('undecided')
    # the sum over the other faces
    calls = {x for x in subterms(yes) if x.op == 'call' and str(x.args[0]).endswith('Cube>::get_boundary')}
    for p in phis(yes):
        lp = loop_of(r, p)
        if lp is None or lp.next.get(p) is None:
            continue
        nx = subst(lp.next[p], {P0: P})
        calls |= {x for x in subterms(nx) if x.op == 'call' and str(x.args[0]).endswith('Cube>::get_boundary')}
    if len(calls) != 1:
        rep.count('undecided')
        return
    b = calls.pop()
    c = proj(behind0(b.args[1][0]), ('f', 0))
    edge = F.mke(par, v)
    c2 = settled(c, red)
    ok = c2.op == 'sorted' and c2.args[0] is absint.upd(fs0, ('ix', i), edge)
    verdict(ck, fn, 'the cube that is flowed over', ok, closed(c2) or c2.op != 'sorted', 'it is %s' % show(c2)[:300])
    coeff = mk('at', 'coeff')

    def reading(t):
        t = subst(t, {b: mk('at', 'B')})
        m = {x: coeff for x in subterms(t) if x.op == 'call' and 'Index' in str(x.args[0]) and behind0(x.args[1][0]) is mk('at', 'B') and behind0(x.args[1][1]) is a0}
        t = subst(t, m)
        return subst(t, {x: coeff for x in subterms(t) if x.op == 'deref' and x.args[0] is coeff})
    B, X, y = mk('at', 'B'), mk('at', 'X'), mk('at', 'flowed')
    for e in (1, -1):
        tag = ' (%s)' % e
        z = settled(reading(yes), red + [W, eq0(sub(coeff, const(e)))])
        items = {x for x in subterms(z) if x.op == 'item'}
        if z.op != 'sum' or len(items) != 1:
            verdict(ck, fn, 'the other faces' + tag, False, closed(z) and not contains(z, lambda x: x in (B, a0)), 'the sum is %s' % show(z)[:200])
            continue
        item = items.pop()
        if not all(x.op == 'more' for x in z.args[1]):
            verdict(ck, fn, 'all the other faces' + tag, False, False, '')
        fl = {x for x in subterms(z.args[2]) if x.op == 'call' and str(x.args[0]).endswith('Cube>::flow')}
        if len(fl) == 1:
            c = fl.pop()
            good = c.args[1][0] is proj(item, ('f', 1)) and behind0(c.args[1][1]) is a1
            verdict(ck, fn, 'flows every face' + tag, good, False, '')
            if good:
                ck.same(fn, 'with its coefficient' + tag, subst(z.args[2], {c: y, proj(item, ('f', 0)): mk('at', 'i')}), mul(y, mk('at', 'i')))
        else:
            verdict(ck, fn, 'flows every face' + tag, False, not fl and not contains(z.args[2], lambda x: x.op in ('call', 'callf')), 'the sum adds %s' % show(z.args[2])[:200])
        src = item.args[1]
        if src.op == 'it_opaque' and src.args[0].op == 'call' and len(src.args[0].args[1]) == 1:
            w = subst(src.args[0].args[1][0], {a0: X})
            ck.same(fn, 'without the cube itself' + tag, w, sub(X, B) if e == 1 else add(X, B))
        else:
            rep.count('undecided')
    # any other coefficient is an error


def behind0(t):
    while t.op in ('rv', 'ref', 'deref'):
        t = t.args[0]
    return t


def vertexwise(F, b):
    """Comparisons of factors that are vertices are comparisons of the vertices (checked with the order)."""
    m = {}
    num = lambda x: x.args[1] if x.op == 'agg' and x.args[0][2] == F.V else None if x.op == 'agg' else F.at(x)
    for x in subterms(b):
        if x.op in ('lt', 'le') and len(x.args) == 2:
            p, q = num(x.args[0]), num(x.args[1])
            if p is not None and q is not None:
                m[x] = gt0(sub(q, p)) if x.op == 'lt' else gt0(add(sub(q, p), const(1)))
    return subst(b, m) if m else b


def between_or_at(F, b, el, p, iv, lo, hi):
    """(b holds for vertices strictly between lo and hi, only for vertices from lo to hi), if b is understood."""
    x = F.at(el)
    i = mk('at', 'i')
    i.nn = True
    b = subst(b, {el: mk('at', 'el')})
    x = F.at(mk('at', 'el'))
    ins = [gt0(sub(length(p), iv)), gt0(sub(hi, lo))]
    if any(not understood(y) for y in [subst(b, {p: mk('at', 'list')})]):
        return None
    a = entails(ins + [gt0(sub(x, lo)), gt0(sub(hi, x))], b)
    bs = list(b.args[0]) if b.op == 'and' else [b]
    c = contradictory(ins + bs + [gt0(sub(lo, x))]) and contradictory(ins + bs + [gt0(sub(x, hi))])
    return a, c


def list_of_others(ck, fn, rep, F, s, fs0, v, P0, P, red):
    """The list has the vertices of the cube other than v."""
    f = proj(fs0, ('ix', s.iv))
    n = subst(s.next, {P0: P})
    red = list(red) + [gt0(sub(length(fs0), s.iv))]
    sub_ = {P0: P}
    fl = {subst(x, sub_) for x in s.loop.filters}
    backs = [frozenset(subst(l, sub_) for l in c) for bk, _ in s.loop.backs for c in bk]

    def go(facts):
        if any(entails(facts, lnot(x)) for x in conditions_of(fl)):
            return s.t
        if any(all(entails(facts, l) for l in c) for c in backs):
            return settled(n, facts)
        return None
    e = go(red + F.edge(f))
    w = go(red + F.vertex(f) + [lnot(eq0(sub(F.at(f), v)))])
    if settled(seq_len(s.init), []) is not const(0) or e is None or w is None:
        return False
    es = set()
    while e.op == 'push':
        es.add(e.args[1])
        e = e.args[0]
    ok = e is s.t and es == {F.mkv(F.end(f, 0)), F.mkv(F.end(f, 1))}
    verdict(ck, fn, 'both ends of the other edges count', ok, e is s.t and len(es) < 2, 'only %s' % ', '.join(show(x) for x in es)[:200])
    ok = w.op == 'push' and w.args[0] is s.t and (w.args[1] is f or w.args[1] is F.mkv(F.at(f)))
    verdict(ck, fn, 'the other vertices count', ok, w is s.t, 'they are left out')
    return True


def paths(prog, rep, L, F):
    ck = Checker(prog, rep, (graph_ops(L, 3),), lambda f: f.crate == 'alg' or f.implself == PATH and f.name == 'reduce_to_geodesic')
    w0, w1 = proj(a0, ('f', 0)), proj(a1, ('f', 0))
    fn = find(ck, 'trivial_path', PATH)
    if fn is not None:
        r = ck.run(fn)
        ck.same(fn, 'no steps', seq_len(proj(r.ret, ('f', 0))), const(0))
    fn = find(ck, 'composed_with', PATH)
    if fn is not None:
        r = ck.run(fn)
        got = proj(r.ret, ('f', 0))
        k = mk('at', 'k')
        k.nn = True
        ck.same(fn, 'all steps', seq_len(got), add(length(w0), length(w1)))
        ck.same(fn, 'first its own steps', seq_el(got, k), proj(w0, ('ix', k)), [gt0(sub(length(w0), k))])
        ck.same(fn, 'then the other steps', settled(seq_el(got, add(k, length(w0))), [gt0(sub(length(w1), k))]), proj(w1, ('ix', k)), [gt0(sub(length(w1), k))])
    fn = find(ck, 'inverse', PATH)
    if fn is not None:
        inverse(ck, rep, fn, w0)
    fn = find(ck, 'reduce_to_geodesic', PATH)
    if fn is not None:
        reduction(Checker(prog, rep, (graph_ops(L, 3),), lambda f: f.crate == 'alg'), rep, fn, w0)
    fn = find(ck, 'evaluate_permutation', PATH)
    if fn is not None:
        evaluate(ck, rep, fn, w0)


def inverse(ck, rep, fn, w0):
    r = ck.run(fn)
    got = r.ret
    if got.op == 'call' and str(got.args[0]).endswith('EdgePath>::reduce_to_geodesic'):
        got = got.args[1][0]
    got = proj(got, ('f', 0))
    n = length(w0)
    k, j = mk('at', 'k'), mk('at', 'j')
    k.nn = j.nn = True
    back = proj(w0, ('ix', sub(sub(n, const(1)), k)))
    fs = [gt0(sub(n, k))]
    if not ck.same(fn, 'as many steps', deep_el(seq_len(got)), n):
        return
    st = deep_el(seq_el(got, k))
    if not ck.same(fn, 'the steps backwards: length', settled(deep_el(seq_len(st)), fs), length(back), fs):
        return
    fs += [gt0(sub(length(back), j))]
    # the moves of a step are disjoint: their order does not matter
    e = settled(deep_el(seq_el(st, j)), fs)
    for q in (0, 1):
        x = settled(deep_el(proj(e, ('ix', const(q)))), fs)
        fwd, bwd = (proj(proj(back, ('ix', z)), ('ix', const(1 - q))) for z in (j, sub(sub(length(back), const(1)), j)))
        if x is fwd:
            rep.require('%s:end %s of every move' % (fn.label(), q), True, '')
        else:
            ck.same(fn, 'end %s of every move' % q, x, bwd, fs)


def evaluate(ck, rep, fn, w0):
    r = ck.run(fn)
    t = r.ret
    if t.op == 'call' and 'ConstPermutation' in str(t.args[0]) and str(t.args[0]).endswith('::from') and len(t.args[1]) == 1:
        t = t.args[1][0]
    s = Step(r, t)
    if not s.ok or s.t.op != 'phi':
        rep.count('undecided')
        return
    k = mk('at', 'k')
    k.nn = True
    n = length(s.init)
    verdict(ck, fn, 'starts with every point at its place', deep_el(seq_el(s.init, k)) is k or settled(deep_el(seq_el(s.init, k)), [gt0(sub(n, k))]) is k, closed(deep_el(seq_el(s.init, k))), 'it starts with %s at k' % show(deep_el(seq_el(s.init, k)))[:200])
    inside = [gt0(sub(length(w0), s.iv))]
    how, t = s.under(inside)
    if t is None or t.op != 'phi':
        verdict(ck, fn, 'every step', False, how in ('skip', 'stop') or t is s.t, 'a step is left out')
        return
    row = proj(w0, ('ix', s.iv))
    u = Step(r, t)
    if not u.ok or u.init is not s.t and not contains(u.init, lambda x: x is s.t):
        verdict(ck, fn, 'every step starts where the last ended', False, u.ok and closed(u.init), 'it starts with %s' % (show(u.init)[:200] if u.ok else '?'))
        return
    verdict(ck, fn, 'every step starts where the last ended', u.init is s.t, False, '')
    inner = inside + [gt0(sub(length(row), u.iv))]
    e = proj(row, ('ix', u.iv))
    fs = {x for x in subterms(u.next) if x.op == 'first'}
    an = {}
    m = {}
    K = mk('at', 'K')
    K.nn = True
    H = mk('bit', mk('at', 'H'), const(0))
    cl = [c for bk, _ in u.loop.backs for c in bk]
    for x in {y for y in subterms(u.next) if y.op in ('first', 'any')} | {y for c in cl for l in c for y in subterms(l) if y.op in ('first', 'any')}:
        b = subst(x.args[1], {x.args[0]: k})
        for src in (s.t,):
            want = land(gt0(sub(n, k)), eq0(sub(proj(src, ('ix', k)), proj(e, ('ix', const(0))))))
            if equivalent(b, want, inner) or equivalent(b, land(eq0(sub(proj(src, ('ix', k)), proj(e, ('ix', const(0)))))), inner + [gt0(sub(n, k))]):
                m[x] = K if x.op == 'first' else H
                break
    if not any(x.op == 'first' for x in m):
        bad = [x for x in fs if understood(subst(x.args[1], {s.t: mk('at', 'before the step'), u.t: mk('at', 'after the moves so far')}))]
        fs = {subst(x, {s.t: mk('at', 'before the step'), u.t: mk('at', 'after the moves so far')}) for x in fs}
        bad = [x for x in fs] if bad else []
        verdict(ck, fn, 'the point that is moved', False, len(fs) == 1 and bool(bad), 'the first point with %s is moved' % (show(bad[0].args[1])[:300] if bad else ''))
        return
    rep.require('%s:the point that is moved' % fn.label(), True, '')
    found = inner + [H, gt0(sub(n, K))]
    t = settled(subst(u.next, m), found)
    want = absint.upd(u.t, ('ix', K), proj(e, ('ix', const(1))))
    v = t.args[2] if t.op == 'upd' and t.args[0] is u.t else None
    verdict(ck, fn, 'goes to the end of the move', t is want, t is u.t or v is not None and closed(v) and not phis(v), 'the step gives %s' % show(t)[:300])
    go = any(all(entails(found, subst(l, m)) for l in c) for c in cl)
    verdict(ck, fn, 'every move of a step', go, False, '')


def merged(t):
    """Existence statements about the same range that are joined by or become one."""
    def one(x):
        groups, rest = {}, []
        for y in x.args[0]:
            ls = list(y.args[0]) if y.op == 'and' else [y]
            an = [l for l in ls if l.op == 'any']
            if len(an) == 1:
                groups.setdefault((frozenset(l for l in ls if l is not an[0]), an[0].args[0]), []).append(an[0].args[1])
            else:
                rest.append(y)
        if all(len(bs) == 1 for bs in groups.values()):
            return x
        return lor(*(rest + [land(*(list(c) + [mk('any', iv, lor(*bs))])) for (c, iv), bs in groups.items()]))
    for _ in range(30):
        m = {}
        for x in subterms(t):
            if x.op == 'or':
                y = one(x)
                if y is not x:
                    m[x] = y
            if x.op == 'and':
                y = lnot(one(mk('or', frozenset(lnot(l) for l in x.args[0]))))
                no = [l for l in x.args[0] if l.op == 'not' and l.args[0].op == 'any']
                if len({l.args[0].args[0] for l in no}) < len(no):
                    m[x] = y
        if not m:
            break
        x = min(m, key=lambda z: len(show(z)))
        t = subst(t, {x: m[x]})
    return t


def reduction(ck, rep, fn, w0):
    r = ck.run(fn)
    t = r.ret
    # the list that is built and the flag that something was cancelled
    steps = [x for x in phis(t)]
    lists = [p for p in steps if p.args[2].op in ('agg', 'array')]
    if len(set(lists)) != 1:
        rep.count('undecided')
        return
    out = lists[0]
    lp = loop_of(r, out)
    if lp is None or lp.next.get(out) is None or lp.flat is None:
        rep.count('undecided')
        return
    # every move of every step once
    rows = {x for x in subterms(lp.next[out]) if x.op == 'frow'}
    cols = {x for x in subterms(lp.next[out]) if x.op == 'fcol'}
    if len(rows) != 1 or len(cols) != 1:
        rep.count('undecided')
        return
    R, C = rows.pop(), cols.pop()
    e = proj(proj(w0, ('ix', R)), ('ix', C))
    every = lp.flat[0] is gt0(sub(length(w0), R)) and lp.flat[1] is gt0(sub(length(proj(w0, ('ix', R))), C))
    M, Q, Hs, Cs = mk('at', 'moves'), mk('at', 'move'), mk('bit', mk('at', 'H'), const(0)), mk('bit', mk('at', 'C'), const(0))
    Fx, J, k = mk('at', 'F'), mk('at', 'J'), mk('at', 'k')
    for x in (Fx, J, k):
        x.nn = True
    def rd(t):
        t = subst(t, {out: M, e: Q})
        # a move has two ends
        deep = lambda y, d: y is M if d == 0 else y.op == 'proj' and y.args[1][0] == 'ix' and deep(y.args[0], d - 1)
        ends = lambda x, y: lor(*[eq0(sub(x, proj(y, ('ix', const(z))))) for z in (0, 1)])
        return subst(t, {x: ends(*x.args) for x in subterms(t) if x.op == 'isin' and (x.args[1] is Q or deep(x.args[1], 2))})
    nx = merged(rd(lp.next[out]))
    flags = [p for p in steps if p.args[0] == out.args[0] and p is not out]
    fl = merged(rd(lp.next[flags[0]])) if len(set(flags)) == 1 else None
    x0, y0 = (proj(Q, ('ix', const(z))) for z in (0, 1))
    at = lambda i, j, z: proj(proj(proj(M, ('ix', i)), ('ix', j)), ('ix', const(z)))
    shares = lambda i, j: lor(*[eq0(sub(at(i, j, p), z)) for p in (0, 1) for z in (x0, y0)])
    n = length(M)
    # the last step that the move does not commute with
    tops = [x for x in subterms(nx) if x.op == 'first' and contains(x.args[1], lambda y: y.op == 'any') and not contains(x.args[1], lambda y: y.op == 'first')]
    if len(set(tops)) != 1:
        rep.count('undecided')
        return
    iv, B = tops[0].args
    b = subst(B, {iv: Fx})
    inn = {x for x in subterms(b) if x.op == 'any'}
    W = mk('bit', mk('at', 'W'), const(0))
    last, ok = sub(sub(n, const(1)), Fx), False
    if len(inn) == 1:
        y = inn.pop()
        body = subst(y.args[1], {y.args[0]: k})
        there = gt0(sub(length(proj(M, ('ix', last))), k))
        if equivalent(body, land(there, shares(last, k)), [gt0(sub(n, Fx))]):
            b2 = subst(b, {y: W})
            condition(ck, fn, 'the last step it does not commute with', b2, W, [gt0(sub(n, Fx))])
            ok = True
        elif understood(body):
            verdict(ck, fn, 'moves commute when they share no vertex', False, True, 'moves that do not commute: %s' % show(body)[:400])
            return
    if not ok:
        rep.count('undecided')
        return
    rep.require('%s:moves commute when they share no vertex' % fn.label(), True, '')
    sym = {x: (Hs if x.op == 'any' else Fx) for x in subterms(nx) if x.op in ('any', 'first') and x.args == tops[0].args}
    nx = subst(nx, sym)
    fl = subst(fl, sym) if fl is not None else None
    inside = [Hs, gt0(sub(n, Fx)), gt0(n)]
    lastlen = length(proj(M, ('ix', last)))
    sym = {}
    both = [nx] + ([fl] if fl is not None else [])
    for t in both:
        for x in subterms(t):
            if x.op in ('any', 'first') and x not in sym:
                body = subst(x.args[1], {x.args[0]: k})
                cancel = land(eq0(sub(at(last, k, 0), y0)), eq0(sub(at(last, k, 1), x0)))
                if equivalent(body, land(gt0(sub(lastlen, k)), cancel), inside):
                    sym[x] = Cs if x.op == 'any' else J
                elif x.op == 'any' and equivalent(body, land(gt0(sub(lastlen, k)), shares(last, k)), inside):
                    sym[x] = Hs
    nx = subst(nx, sym)
    fl = subst(fl, sym) if fl is not None else None
    for x in {x for x in subterms(nx) if x.op == 'removed'}:
        if x.args[1].op == 'first' and x.args[0] is proj(M, ('ix', last)):
            body = subst(x.args[1].args[1], {x.args[1].args[0]: k})
            verdict(ck, fn, 'a move is undone by its reverse', False, understood(body), 'the first move with %s is removed' % show(body)[:300])
            return
    # the parts of the statement that the move shares a vertex with the last step: at least one of them holds
    rest = {}
    for t in [nx] + ([fl] if fl is not None else []):
        for x in subterms(t):
            if x.op == 'any':
                rest.setdefault(x.args[0], set()).add(x)
    worlds = [{}]
    for v, xs in rest.items():
        xs = sorted(xs, key=skey)
        if len(xs) <= 5 and equivalent(lor(*[subst(x.args[1], {v: k}) for x in xs]), land(gt0(sub(lastlen, k)), shares(last, k)), inside):
            worlds = [dict(w, **{}) | {x: TRUE if q >> z & 1 else FALSE for z, x in enumerate(xs)} for w in worlds for q in range(1, 1 << len(xs))]
    one = mk('agg', ('array',), Q)
    add_to = lambda i: absint.upd(M, ('ix', i), mk('push', proj(M, ('ix', i)), Q))
    short = mk('removed', proj(M, ('ix', last)), J, 'remove')
    cut = absint.upd(M, ('ix', last), short)
    for tag, fs, wants, flag_ in (
            ('the first move', [lnot(Hs), eq0(n)], [mk('push', M, one)], False),
            ('a move that commutes with all', [lnot(Hs), gt0(n)], [add_to(const(0))], False),
            ('a move after the last step', inside + [lnot(Cs), eq0(Fx)], [mk('push', M, one)], False),
            ('a move after an earlier step', inside + [lnot(Cs), gt0(Fx)], [add_to(add(last, const(1)))], False),
            ('a move that is undone', inside + [Cs, gt0(sub(lastlen, J)), gt0(length(short))], [cut], True),
            ('a step that is undone', inside + [Cs, gt0(sub(lastlen, J)), eq0(length(short))], [mk('removed', cut, last, 'remove'), cut], True)):
        for t in {settled(subst(nx, w), fs) for w in worlds}:
            if any(t is w for w in wants):
                rep.require('%s:%s' % (fn.label(), tag), True, '')
            elif contains(t, lambda x: x.op in ('any', 'first', 'ite') or x.op in UNDECIDED or x.op == 'call'):
                rep.count('undecided')
            else:
                rep.require('%s:%s' % (fn.label(), tag), False, 'the moves become %s' % show(t)[:300], ck.where(fn))
    verdict(ck, fn, 'every move of the path', every, False, '')
    ini = out.args[2]
    fine = ini.op in ('agg', 'array') and all(x.op == 'agg' and len(x.args) == 1 for x in ini.args[1:])
    verdict(ck, fn, 'starts with no moves', fine, closed(ini), 'it starts with %s' % show(ini)[:200])
    # another round changes nothing: every move is kept from going one step down by a move there that shares a vertex
    # (the step it goes to, or it would have been placed lower), and a move that is undone has the vertices of the one that
    # undoes it, which commutes with all later steps; so the result may or may not be reduced again
    g = [rd(p) for p in flags]
    for fs in ([x for x in g], [lnot(x) for x in g]):
        t = settled(rd(r.ret), fs)
        x = t.args[1][0] if t.op == 'call' and str(t.args[0]).endswith('EdgePath>::reduce_to_geodesic') else t
        verdict(ck, fn, 'returns the moves', proj(x, ('f', 0)) is M, closed(x) and not phis(x) and not contains(x, lambda y: y.op in ('call', 'ite')), 'it returns %s' % show(x)[:200])


# ------------------------------------------------------------------ cells of the Morse complex
def where_is(types, want):
    ks = [k for k, t in enumerate(types) if want(t)]
    return ks[0] if len(ks) == 1 else None


def cells(prog, rep, L, F):
    cells_of(prog, rep, L, F, MORSE, 'cubical::UdnMorseFactorIter')
    cells_of(prog, rep, L, F, 'cubical::CubicalCplx', 'cubical::CubicalFactorIter')
    rep.group(signed_faces, prog, rep, L, F)


def signed_faces(prog, rep, L, F):
    CX = 'cubical::CubicalCplx'
    ck = Checker(prog, rep, (cube_ops(F, L), graph_ops(L, 3)), lambda f: f.crate == 'alg' or f.implself == CX and f.name in ('get_index_of', 'get_cell_from_idx', 'dim_of'))
    fn = find(ck, 'get_boundaries_of', CX)
    if fn is None:
        return
    r = ck.run(fn)
    t = r.ret
    if t.op != 'collect' or t.args[2]:
        rep.count('undecided')
        return
    iv, n, _, v = t.args
    calls_ = {x for x in subterms(v) if x.op == 'call' and str(x.args[0]).endswith('get_index_of')}
    if len(calls_) != 1:
        verdict(ck, fn, 'the faces are cells', False, False, '')
        return
    c = calls_.pop()
    fs = [gt0(sub(n, iv))]
    face = settled(deep_el(behind0(c.args[1][1])), fs)
    sign = settled(deep_el(proj(v, ('f', 0))), fs)
    sorts = 0
    if face.op == 'sorted':
        face, sorts = face.args[0], 1
    P = face.args[0].args[0] if face.op == 'proj' and face.args[0].op == 'proj' else None
    if P is None or P.op != 'phi' or face is not proj(proj(P, ('ix', iv)), ('f', 1)) or sign not in (proj(proj(P, ('ix', iv)), ('f', 0)), lnot(proj(proj(P, ('ix', iv)), ('f', 0)))):
        rep.count('undecided')
        return
    if n is not length(P):
        rep.count('undecided')
        return
    s = Step(r, P)
    cell = {x for x in subterms(s.next) if x.op == 'call' and str(x.args[0]).endswith('get_cell_from_idx')} if s.ok else set()
    if len(cell) != 1:
        rep.count('undecided')
        return
    cell = proj(cell.pop(), ('f', 0))
    f = proj(cell, ('ix', s.iv))
    pc = [l for l in (r.pc and next(iter(r.pc)) or ())]
    ins = pc + [gt0(sub(length(cell), s.iv))]
    how, t = s.under(ins + F.vertex(f))
    verdict(ck, fn, 'no face at a vertex', t is s.t, how == 'go' and t is not None, 'a vertex gives a face')
    how, t = s.under(ins + F.edge(f))
    if t is None:
        verdict(ck, fn, 'two faces of every edge', False, how == 'stop', 'an edge ends the boundary')
        return
    got = []
    while t.op == 'push':
        got.append(t.args[1])
        t = t.args[0]
    if t is not s.t or not all(x.op == 'agg' and len(x.args) == 3 for x in got):
        verdict(ck, fn, 'two faces of every edge', False, t is s.t and not got, 'an edge has no faces')
        return
    sg = {p for x in got for p in phis(x)}
    if len(sg) != 1:
        verdict(ck, fn, 'alternating signs', False, not sg and all(closed(x.args[1]) for x in got), 'every edge gives its faces with the same signs')
        return
    sg = sg.pop()
    x = mk('bit', mk('at', 'sign'), const(0))
    nx = s.loop.next.get(sg)
    nx = settled(subst(nx, {sg: x}), ins + F.edge(f)) if nx is not None else x
    verdict(ck, fn, 'alternating signs', nx is lnot(x) and closed(sg.args[2]), understood(nx), 'the sign after an edge is %s' % show(nx)[:200])
    ends = {}
    for y in got:
        z, w = settled(subst(y.args[1], {sg: x}), F.edge(f)), y.args[2]
        w, so = (w.args[0], 1) if w.op == 'sorted' else (w, 0)
        w = settled(w, F.edge(f))
        for j in (0, 1):
            if w is absint.upd(cell, ('ix', s.iv), F.mkv(F.end(f, j))) and z in (x, lnot(x)):
                ends[j] = z
                verdict(ck, fn, 'faces in order', bool(so or sorts), True, 'a face is not sorted')
    if len(got) == 2 and set(ends) == {0, 1}:
        verdict(ck, fn, 'opposite faces with opposite signs', ends[0] is lnot(ends[1]), True, 'both faces of an edge come with the same sign')
    else:
        verdict(ck, fn, 'opposite faces with opposite signs', False, all(closed(subst(y, {sg: x, cell: mk('at', 'cell')})) for y in got), 'the faces of an edge are %s' % ', '.join(show(y.args[2])[:150] for y in got))


def cells_of(prog, rep, L, F, CX, IT):
    tb, tc = fields(prog, 'cubical::Branch'), fields(prog, CX)
    ti = fields(prog, IT)
    if not tb or not tc or not ti:
        rep.count('undecided')
        return
    par, val = where_is(tb, lambda t: 'Option<usize>' in t), where_is(tb, lambda t: t.endswith('CubeFactor'))
    data = where_is(tc, lambda t: 'Branch' in t)
    ic, ix, idn = where_is(ti, lambda t: t.startswith('&')), where_is(ti, lambda t: t == 'usize'), where_is(ti, lambda t: t == 'bool')
    if None in (par, val, data, ic, ix, idn):
        rep.count('undecided')
        return
    branch = lambda c, i: proj(proj(c, ('f', data)), ('ix', i))
    ck = Checker(prog, rep, (cube_ops(F, L), graph_ops(L, 3)), lambda f: f.crate == 'alg' or f.implself == CX and f.name in ('dim_of', 'factor_iter') or f.implself == CUBE)
    SOME = 1
    fn = find(ck, 'dim_of', CX)
    if fn is not None:
        r = ck.run(fn)
        b = branch(a0, a1)
        f = proj(b, ('f', val))
        up = isv(proj(b, ('f', par)), SOME)
        for p in (0, 1):
            for q in (0, 1):
                fs = (F.edge(f) if p else F.vertex(f)) + ([up, lnot(isv(proj(b, ('f', par)), 0))] if q else [lnot(up), isv(proj(b, ('f', par)), 0)])
                t = settled(r.ret, fs)
                rec = {x for x in subterms(t) if x.op == 'call' and str(x.args[0]).endswith('dim_of')}
                m = {x: mk('at', 'above') for x in rec if behind0(x.args[1][0]) is a0 and x.args[1][1] is proj(proj(b, ('f', par)), ('f', 0))}
                ck.same(fn, 'the number of edges (%s, %s)' % (p, q), subst(t, m), add(const(p), mk('at', 'above') if q else const(0)), fs)
    nxt = [f for f in prog.fns.values() if f.crate == 'topo_spaces' and f.name == 'next' and f.kind != 'closure' and (f.implself or '').startswith(IT)]
    fn = nxt[0] if len(nxt) == 1 else None
    if fn is not None:
        r = ck.run(fn)
        c, i, dn = (proj(a0, ('f', k)) for k in (ic, ix, idn))
        end = r.state.get(('P', 0), a0)
        cx = mk('deref', c)
        b = branch(cx, i)
        t = settled(r.ret, [dn])
        verdict(ck, fn, 'ends', t.op == 'agg' and len(t.args) == 1, closed(t), 'it goes on at the end')
        P = proj(b, ('f', par))
        for q in (0, 1):
            fs = [lnot(dn)] + ([isv(P, SOME), lnot(isv(P, 0))] if q else [lnot(isv(P, SOME)), isv(P, 0)])
            t = settled(r.ret, fs)
            if t.op == 'agg' and len(t.args) == 2:
                ck.same(fn, 'the factor of the branch (%s)' % q, t.args[1], proj(b, ('f', val)), fs)
            else:
                verdict(ck, fn, 'the factor of the branch (%s)' % q, False, t.op == 'agg', 'it ends before the first factor')
            e = settled(end, fs)
            if q:
                ck.same(fn, 'goes on with the parent', settled(proj(e, ('f', ix)), fs), proj(P, ('f', 0)), fs)
                condition(ck, fn, 'is not done', settled(proj(e, ('f', idn)), fs), FALSE, fs)
            else:
                condition(ck, fn, 'is done after the root', settled(proj(e, ('f', idn)), fs), TRUE, fs)
    if CX != MORSE:
        return
    fn = find(ck, 'from_index', CUBE)
    if fn is not None:
        r = Checker(prog, rep, (), lambda f: f.crate == 'alg').run(fn)
        t = proj(r.ret, ('f', 0))
        good = t.op == 'reversed' and walk_of(t.args[0], a1, a0, ic, ix, idn, r)
        verdict(ck, fn, 'the factors from the root on', good, t.op == 'collect' and walk_of(t, a1, a0, ic, ix, idn, r), 'the factors come in the opposite order')
    fn = find(ck, 'get_cells_of_dim', MORSE)
    if fn is not None:
        r = ck.run(fn)
        t = r.ret
        if t.op == 'collect':
            iv, n, cs, v = t.args
            d = {x for c in cs for x in subterms(c) if x.op == 'call' and str(x.args[0]).endswith('dim_of')}
            if len(d) == 1 and v.op == 'call' and str(v.args[0]).endswith('from_index'):
                d = d.pop()
                ok = v.args[1][0] is d.args[1][1] and n is length(v.args[1][0].args[0]) if v.args[1][0].op == 'proj' else False
                verdict(ck, fn, 'the cells that are tested', ok, v.args[1][0] is not d.args[1][1] and closed(v.args[1][0]) and closed(d.args[1][1]), 'one cell is tested and another one taken')
                condition(ck, fn, 'of the dimension', subst(land(*cs), {d: mk('at', 'd')}), eq0(sub(a1, mk('at', 'd'))))
            else:
                verdict(ck, fn, 'of the dimension', False, not d and not cs, 'cells of any dimension are listed')
        else:
            rep.count('undecided')


def walk_of(t, cplx, idx, ic, ix, idn, r):
    """The collected items of a walk from idx to its root."""
    if t.op != 'collect':
        return False
    items = {x for x in subterms(t.args[3]) if x.op == 'item'}
    if len(items) != 1 or t.args[3] is not next(iter(items)) or any(x.op != 'more' for x in t.args[2]):
        return False
    src = items.pop().args[1]
    if src.op != 'it_opaque' or src.args[0].op != 'agg':
        return False
    a = src.args[0].args[1:]
    return a[ix] is idx and a[idn] is FALSE
