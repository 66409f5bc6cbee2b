"""T18: simplices as sets of vertices in words of 64. T19: simplicial complexes."""
import itertools
from spec import *
import absint, models
from absint import dnf_and
from graphs import condition, understood, settled, find, fields, equivalent, a0, a1, a2
from cubes import verdict, Step, phis, loop_of, accepts, conditions_of, stepped

CELL, CPLX = 'simplicial::SimplicialCell', 'simplicial::SimplicialCplx<T>'


class Cells:
    """The fields of a simplex: its words, the number of vertices around it and its dimension."""
    def __init__(self, prog):
        fs = fields(prog, CELL) or []
        w = [i for i, t in enumerate(fs) if t.startswith('std::vec::Vec<u64')]
        n = [i for i, t in enumerate(fs) if t == 'usize']
        d = [i for i, t in enumerate(fs) if t.startswith('std::option::Option<usize')]
        self.ok = len(w) == len(n) == len(d) == 1
        if self.ok:
            self.W, self.N, self.D = w[0], n[0], d[0]

    def words(self, x): return proj(x, ('f', self.W))
    def size(self, x): return proj(x, ('f', self.N))
    def dim(self, x): return proj(x, ('f', self.D))


# ------------------------------------------------------------------ words bit by bit
def wbit(t, env):
    """One bit of a word, given this bit of the words it is made of."""
    if t in env:
        return env[t]
    c = cval(t)
    if c is not None:
        return False if c == 0 else True if c in (-1, 2 ** 64 - 1) else None
    if t.op in ('bitand', 'bitor', 'bitxor'):
        vs = [wbit(x, env) for x in t.args[0]]
        if t.op == 'bitand' and False in vs: return False
        if t.op == 'bitor' and True in vs: return True
        if None in vs: return None
        return all(vs) if t.op == 'bitand' else any(vs) if t.op == 'bitor' else sum(vs) % 2 == 1
    if t.op == 'bitnot':
        v = wbit(t.args[0], env)
        return None if v is None else not v
    return None


def atoms_of(t):
    """[(coefficient, term)] and the constant of a linear polynomial, or None."""
    p = to_poly(t)
    out, c = [], 0
    for mo, k in p.items():
        if not mo:
            c = k
        elif len(mo) == 1 and mo[0][1] == 1:
            out.append((k, mo[0][0]))
        else:
            return None
    return out, c


def holds(b, S, names):
    """A condition on words whose bits at one place form one of the tuples in S, in the order of names: True, False or None."""
    if b is TRUE: return True
    if b is FALSE: return False
    if b.op == 'not':
        v = holds(b.args[0], S, names)
        return None if v is None else not v
    if b.op in ('and', 'or'):
        vs = [holds(x, S, names) for x in b.args[0]]
        stop = b.op == 'or'
        return stop if stop in vs else None if None in vs else not stop
    if b.op not in ('gt0', 'eq0'):
        return None
    p = atoms_of(b.args[0])
    if p is None:
        return None
    ts, c = p
    word = lambda t: [wbit(t, dict(zip(names, q))) for q in S]
    if b.op == 'eq0' and c == 0 and 1 <= len(ts) <= 2 and (len(ts) == 1 or ts[0][0] == -ts[1][0]):
        x = word(ts[0][1])
        y = word(ts[1][1]) if len(ts) == 2 else [False] * len(S)
        return None if None in x or None in y else x == y
    if b.op == 'gt0' and len(ts) == 1:
        x = word(ts[0][1])
        if None in x:
            return None
        if ts[0][0] == 1 and c == 0: return any(x)
        if ts[0][0] == -1 and c == 1: return not any(x)
    return None


def placed(body, iv, w, lists):
    """The condition at the word w instead of the loop's count, with the words it reads at w; None if it reads others."""
    ix = {x.args[1][1] for x in subterms(body) if x.op == 'proj' and x.args[1][0] == 'ix' and x.args[0] in lists and contains(x.args[1][1], lambda y: y is iv)}
    if len(ix) != 1:
        return subst(body, {iv: w}) if not ix else None
    i = ix.pop()
    p = atoms_of(i)
    if p is None:
        return None
    k = [c for c, t in p[0] if t is iv]
    if k not in ([1], [-1]):
        return None
    at = sub(w, sub(i, iv)) if k == [1] else sub(add(i, iv), w)
    return land(subst(body, {iv: at}), gt0(add(at, const(1))))


def alone(body, iv, w, lists):
    """The conditions of a statement about words at different places when all words but those at w are zero; [None] if not clear."""
    out = []
    ps = {x for x in subterms(body) if x.op == 'proj' and x.args[1][0] == 'ix' and x.args[0] in lists and contains(x.args[1][1], lambda y: y is iv)}
    if len({p.args[0] for p in ps}) != len(ps):
        return [None]
    for p in ps:
        q = atoms_of(p.args[1][1])
        if q is None or [c for c, t in q[0] if t is iv] != [1] or any(p is not o and cval(sub(p.args[1][1], o.args[1][1])) in (None, 0) for o in ps):
            return [None]
        b = subst(body, {o: const(0) for o in ps if o is not p})
        b = placed(b, iv, w, lists)
        if b is None:
            return [None]
        out.append(b)
    return out


def holds_at(x, X, Y, w):
    """The body of a statement where all words are zero."""
    b = subst(x.args[1], {y: const(0) for y in subterms(x.args[1]) if y.op == 'proj' and y.args[0] in (X, Y)})
    for y in (b.args[0] if b.op == 'and' else [b]):
        if holds(y, [(False, False)], (X, Y)) is False:
            return False
    return None


def regions(w, l0, l1):
    return [('in both', [gt0(sub(l0, w)), gt0(sub(l1, w))], lambda x, y: True),
            ('in the first only', [gt0(sub(l0, w)), gt0(add(sub(w, l1), const(1))), gt0(sub(l0, l1))], lambda x, y: not y),
            ('in the second only', [gt0(sub(l1, w)), gt0(add(sub(w, l0), const(1))), gt0(sub(l1, l0))], lambda x, y: not x)]


def worlds(sel):
    ps = [p for p in itertools.product((False, True), repeat=2) if sel(*p)]
    return [S for n in range(1, len(ps) + 1) for S in itertools.combinations(ps, n)]


def polarity(t):
    """('exists', [statements]) or ('none', [statements]) for a combination of existence statements."""
    if t.op == 'any': return 'exists', [t]
    if t.op == 'or' and all(x.op == 'any' for x in t.args[0]): return 'exists', list(t.args[0])
    if t.op == 'not':
        p = polarity(t.args[0])
        return p and (('none' if p[0] == 'exists' else 'exists'), p[1])
    if t.op == 'and':
        ps = [polarity(x) for x in t.args[0]]
        if all(p and p[0] == 'none' for p in ps):
            return 'none', [y for p in ps for y in p[1]]
    return None


def some_word(ck, fn, what, got, X, Y, want, how, facts=()):
    """got says that some word (how='exists') or no word (how='none') has a place as wanted: want is a set of pairs of bits."""
    w = mk('at', 'w')
    w.nn = True
    l0, l1 = length(X), length(Y)
    key = '%s:%s' % (fn.label(), what)
    for order in ([gt0(sub(l0, l1))], [gt0(sub(l1, l0))], [eq0(sub(l0, l1))]):
        if contradictory(list(facts) + order):
            continue
        g = settled(got, list(facts) + order)
        p = polarity(g)
        if p is None:
            seen = fixed_words(g, X, Y)
            if g in (TRUE, FALSE) or seen is not None:
                ck.rep.require(key, False, 'the answer depends on %s' % ('the words %s only' % sorted(seen) if seen else 'none of the words'), ck.where(fn))
                return
            ck.rep.count('undecided')
            return
        pol, xs = p
        if pol != how:
            ck.rep.require(key, False, 'the answer is the opposite: %s' % show(got)[:300], ck.where(fn)) if understood(g) else ck.rep.count('undecided')
            return
        bodies = [placed(x.args[1], x.args[0], w, (X, Y)) for x in xs]
        apart = [z for x, b in zip(xs, bodies) if b is None for z in alone(x.args[1], x.args[0], w, (X, Y))]
        only = any(b is None for b in bodies)
        if only and (None in apart or any(holds_at(x, X, Y, w) is not False for x in xs)):
            ck.rep.count('undecided')
            return
        bodies = [b for b in bodies if b is not None] + apart
        for tag, fs, sel in regions(w, l0, l1):
            fs = list(facts) + order + fs
            if contradictory(fs):
                continue
            xw, yw = proj(X, ('ix', w)), proj(Y, ('ix', w))
            bs = [lengths(settled(b, fs), fs) for b in bodies]
            for S in worlds(sel):
                vs = [holds(b, S, (xw, yw)) for b in bs]
                v = True if True in vs else None if None in vs else False
                e = any(q in want for q in S)
                if v is None:
                    # the words at the ends of a range
                    for y in (eq0(w), eq0(sub(w, l0)), eq0(sub(w, l1)), eq0(sub(add(w, const(1)), l0)), eq0(sub(add(w, const(1)), l1))):
                        f2 = fs + [y]
                        if contradictory(f2):
                            continue
                        v2 = [holds(settled(b, f2), S, (xw, yw)) for b in bs]
                        u = True if True in v2 else None if None in v2 else False
                        if u is not None and u != e:
                            v = u
                if v is None:
                    ck.rep.count('undecided')
                    return
                if v != e:
                    q = [q for q in S if q in want] or list(S)
                    ck.rep.require(key, False, 'a word %s with a vertex %s is %s' % (
                        tag, ' and '.join('%sin the %s' % ('' if z else 'not ', n) for z, n in zip(q[0], ('first', 'second'))), 'not seen' if e else 'taken for one'), ck.where(fn))
                    return
        if only:
            ck.rep.count('undecided')
            return
    ck.rep.require(key, True, '')


def fixed_words(g, X, Y):
    """The places of the words that g looks at, where it looks at finitely many fixed ones and the lengths."""
    out = set()
    for x in subterms(g):
        if x.op in ('call', 'opaque', 'sum', 'prod', 'any', 'first', 'collect', 'fmap', 'phi', 'eq', 'cmp', 'argbest'):
            return None
        if x.op == 'proj' and x.args[0] in (X, Y):
            if x.args[1][0] != 'ix' or cval(x.args[1][1]) is None:
                return None
            out.add(int(cval(x.args[1][1])))
    return out if closed(g) and not any(x in (X, Y) for x in subterms(subst(g, {length(X): mk('at', 'n'), length(Y): mk('at', 'm'), **{proj(Z, ('ix', const(k))): mk('at', 'w') for Z in (X, Y) for k in out}}))) else None


def every_word(ck, fn, what, got, X, Y, want):
    """The words of got are made of those of X and Y bit by bit; beyond its length they are zero."""
    w = mk('at', 'w')
    w.nn = True
    l0, l1 = length(X), length(Y)
    key = '%s:%s' % (fn.label(), what)
    for order in ([gt0(sub(l0, l1))], [gt0(sub(l1, l0))], [eq0(sub(l0, l1))]):
        for tag, fs, sel in regions(w, l0, l1):
            fs = order + fs
            if contradictory(fs):
                continue
            g = clipped(settled(got, fs), fs)
            n = lengths(seq_len(g), fs)
            inside = settled_len(gt0(sub(n, w)), fs)
            if inside is None:
                # one of the first words in the region
                for y in (l0, l1, add(l0, const(1)), add(l1, const(1))):
                    f2 = fs + [eq0(sub(w, y))]
                    if contradictory(f2):
                        continue
                    if settled_len(gt0(sub(n, w)), f2) is False and any(want(*q) and sel(*q) for q in itertools.product((False, True), repeat=2)):
                        ck.rep.require(key, False, 'the vertices in a word %s are lost: there are %s words' % (tag, show(n)[:200]), ck.where(fn))
                        return
                ck.rep.count('undecided')
                return
            el = settled(deep_el(seq_el(g, w)), fs) if inside else const(0)
            el = settled(deep_el(el), fs)
            for q in itertools.product((False, True), repeat=2):
                if not sel(*q):
                    continue
                v = wbit(el, {proj(X, ('ix', w)): q[0], proj(Y, ('ix', w)): q[1]})
                if v is None:
                    ck.rep.count('undecided')
                    return
                if v != want(*q):
                    ck.rep.require(key, False, 'a vertex %s in a word %s is %s' % (
                        ' and '.join('%sin the %s' % ('' if z else 'not ', n) for z, n in zip(q, ('first', 'second'))), tag, 'lost' if want(*q) else 'added'), ck.where(fn))
                    return
    ck.rep.require(key, True, '')


def clipped(t, facts):
    """Nothing is appended where the rest of a list is asked for beyond its end."""
    if t.op == 'append':
        n = lengths(seq_len(t.args[1]), facts)
        if entails(facts, gt0(sub(const(1), n))):
            return clipped(t.args[0], facts)
    return t


def lengths(t, facts):
    """Minima and maxima under the facts."""
    m = {}
    for x in subterms(t):
        if x.op in ('min', 'max') and isinstance(x.args[0], frozenset):
            for y in x.args[0]:
                if all(entails(facts, gt0(add(sub(z, y) if x.op == 'min' else sub(y, z), const(1)))) for z in x.args[0]):
                    m[x] = y
    return settled(subst(t, m) if m else t, facts)


def settled_len(c, facts):
    c = settled(c, facts)
    if entails(facts, c): return True
    if entails(facts, lnot(c)): return False
    return None


# ------------------------------------------------------------------ T18
def check_T18(prog, rep):
    rep.rule('a simplex is the set of the set bits of its words, missing words being zero: each operation is compared with its meaning on '
             'such sets bit by bit, for words that both, only the first or only the second operand has')
    rep.assumptions += ['std Vec/slice/iterator contracts as stated in rules/models.py', 'counting the bits of a word is decided by T09', 'machine integers do not overflow']
    C = Cells(prog)
    rep.require('anchor:SimplicialCell', C.ok, 'a simplex does not consist of words, a size and a dimension')
    if not C.ok:
        return
    ck = Checker(prog, rep, (), lambda f: f.crate == 'topo_spaces' and f.implself == CELL and f.name == 'dim' or f.crate == 'util' and f.name == 'count_ones')
    rep.group(relations, ck, rep, C)
    rep.group(unions, ck, rep, C)
    rep.group(dimension, ck, rep, C)
    rep.group(growing, ck, rep, C)
    rep.group(making, prog, rep, C)
    rep.group(faces, ck, rep, C)
    rep.group(comparing, prog, rep, C)
    rep.floor('operations', 10)


def relations(ck, rep, C):
    X, Y = C.words(a0), C.words(a1)
    fn = find(ck, 'contains', CELL)
    if fn is not None:
        r = ck.run(fn)
        some_word(ck, fn, 'every vertex of the other', r.ret, X, Y, {(False, True)}, 'none')
        accepts(ck, fn, r, [])
    fn = find(ck, 'is_connected_with', CELL)
    if fn is not None:
        r = ck.run(fn)
        some_word(ck, fn, 'a common vertex', r.ret, X, Y, {(True, True)}, 'exists')
        accepts(ck, fn, r, [])
    fn = find(ck, 'is_empty', CELL)
    if fn is not None:
        r = ck.run(fn)
        w = mk('at', 'w')
        w.nn = True
        p = polarity(r.ret)
        if isv_dim(r.ret, C):
            rep.require(fn.label() + ':no vertex', True, '')
        elif p is None:
            verdict(ck, fn, 'no vertex', False, fixed_words(r.ret, X, Y) is not None, 'the answer is %s' % show(r.ret)[:200])
        else:
            bs = [placed(x.args[1], x.args[0], w, (X,)) for x in p[1]]
            vs = {}
            for S in ((False,), (True,), (False, True)):
                v = [holds(settled(b, [gt0(sub(length(X), w))]), [(q,) for q in S], (proj(X, ('ix', w)),)) if b is not None else None for b in bs]
                vs[S] = True if True in v else None if None in v else False
            good = p[0] == 'none' and all(vs[S] == (True in S) for S in vs)
            verdict(ck, fn, 'no vertex', good, None not in vs.values(), 'the answer is %s' % show(r.ret)[:300])


def isv_dim(t, C):
    return t is isv(C.dim(a0), 0) or t is lnot(isv(C.dim(a0), 1))


def dim_call(t):
    """The words whose dimension t is."""
    if t.op == 'call' and str(t.args[0]).endswith('SimplicialCell>::dim') and len(t.args[1]) == 1:
        x = t.args[1][0]
        return x.args[0] if x.op == 'rv' else x
    return None


def unions(ck, rep, C):
    X, Y = C.words(a0), C.words(a1)
    for nm, want in (('join', lambda x, y: x or y), ('intersection', lambda x, y: x and y)):
        fn = find(ck, nm, CELL)
        if fn is None:
            continue
        r = ck.run(fn)
        z = r.state.get(('P', 0), a0) if nm == 'join' else r.ret
        every_word(ck, fn, 'the vertices of %s' % ('both' if nm == 'intersection' else 'either'), C.words(z), X, Y, want)
        d = dim_call(C.dim(z))
        if d is not None:
            every_word(ck, fn, 'its dimension', d, X, Y, want)
        else:
            verdict(ck, fn, 'its dimension', False, C.dim(z) is C.dim(a0) or C.dim(z) is C.dim(a1), 'the dimension is the one of an operand')
        accepts(ck, fn, r, [])


def dimension(ck, rep, C):
    fn = find(ck, 'dim', CELL)
    if fn is None:
        return
    r = ck.run(fn)
    k = mk('at', 'k')
    k.nn = True
    s = {x for x in subterms(r.ret) if x.op == 'sum'}
    if len(s) != 1:
        rep.count('undecided')
        return
    s = s.pop()
    iv, n, cs, v = s.args if len(s.args) == 4 else (s.args[0], None, s.args[1], s.args[2])
    body = subst(v, {iv: k})
    one = body.op == 'call' and str(body.args[0]).endswith('count_ones') and body.args[1] and models_rv(body.args[1][0]) is proj(a0, ('ix', k))
    bound = land(*[subst(c, {iv: k}) for c in cs]) if n is None else land(gt0(sub(n, k)), *[subst(c, {iv: k}) for c in cs])
    every = equivalent(bound, gt0(sub(length(a0), k)), [])
    if not every:
        # words that are zero may be left out
        x = proj(a0, ('ix', k))
        every = equivalent(land(bound, gt0(x)), land(gt0(sub(length(a0), k)), gt0(x)), [])
    verdict(ck, fn, 'the number of set bits', one and every, (understood(bound) or stops_at_word(bound)) and (one or not contains(body, lambda x: x.op == 'call')), 'it adds up %s for words with %s' % (show(body)[:100], show(bound)[:200]))
    T = mk('at', 'count')
    T.nn = True
    t = subst(r.ret, {s: T})
    e = settled(t, [eq0(T)])
    f = settled(t, [gt0(T)])
    verdict(ck, fn, 'none without vertices', e.op == 'agg' and len(e.args) == 1, e.op == 'agg', 'the dimension is %s' % show(e)[:100])
    some = f.op == 'agg' and len(f.args) == 2
    verdict(ck, fn, 'one less than the vertices', some and f.args[1] is sub(T, const(1)), f.op == 'agg' and closed(f), 'the dimension is %s' % show(f)[:100])
    accepts(ck, fn, r, [])


def stops_at_word(bound):
    """The range ends at the first word of some kind."""
    return any(x.op == 'first' and contains(x.args[1], lambda y: y.op == 'proj' and y.args[0] is a0 and y.args[1] == ('ix', x.args[0]))
               and not contains(x.args[1], lambda y: y.op in ('call', 'phi', 'opaque', 'any', 'first')) for x in subterms(bound))


def models_rv(x):
    return x.args[0] if x.op == 'rv' else x


def same_words(ck, fn, what, got, X, facts, reach):
    """got has the words of X, zeros after them, and more than reach words."""
    w = mk('at', 'w')
    w.nn = True
    facts = division(got, facts)
    n = lengths(seq_len(got), facts)
    inside = [gt0(sub(length(X), w))]
    if settled_len(gt0(sub(n, w)), facts + inside) is not True:
        verdict(ck, fn, what, False, understood(n) and settled_len(gt0(sub(n, w)), facts + inside) is False, 'words are lost: %s remain' % show(n)[:200])
        return
    e = settled(deep_el(seq_el(got, w)), facts + inside)
    verdict(ck, fn, what, e is proj(X, ('ix', w)), closed(e), 'a word becomes %s' % show(e)[:200])
    out = [gt0(add(sub(w, length(X)), const(1))), gt0(sub(n, w))]
    if not contradictory(facts + out) and not settled(n, facts) is length(X):
        e = settled(deep_el(seq_el(got, w)), facts + out)
        verdict(ck, fn, what + ': new words', cval(e) == 0, closed(e), 'a new word is %s' % show(e)[:200])
    # enough words
    firsts = {x for x in subterms(n) if x.op == 'first'}
    fs = list(facts)
    for x in firsts:
        fs.append(subst(x.args[1], {x.args[0]: x}))
    enough = settled_len(gt0(sub(n, reach)), fs)
    if enough is None and short(n, X):
        enough = False
    verdict(ck, fn, what + ': enough words', enough is True, enough is False, 'there are %s words for the word %s' % (show(n)[:200], show(reach)[:100]))


def short(n, X):
    """Numbers for which n words, counted from those of X and the second argument, are too few."""
    for l in range(1, 12):
        for v in (l * 64 - 1, l * 64, l * 64 + 1, l * 64 + 63, l * 64 + 64, l * 64 + 65, l * 64 + 640):
            x = number(n, {length(X): l, a1: v})
            if x is None:
                return False
            if 64 * x < v:
                return True
    return False


def growing(ck, rep, C):
    X = C.words(a0)
    fn = find(ck, 'resize', CELL)
    if fn is not None:
        r = ck.run(fn)
        z = r.state.get(('P', 0), a0)
        top = sub(a1, const(1))
        q = mk('idiv', top, const(64))
        mark(q)
        for facts in ([gt0(a1), gt0(sub(a1, mul(const(64), length(X))))], [gt0(a1), gt0(add(sub(mul(const(64), length(X)), a1), const(1)))]):
            word = mk('at', 'last')
            word.nn = True
            fs = facts + [gt0(sub(a1, mul(const(64), word)))]
            same_words(ck, fn, 'the words', settled(C.words(z), fs), X, fs, word)
        ck.value(fn, 'size', C.size(z), a1)
        accepts(ck, fn, r, [])
    fn = find(ck, 'cone', CELL)
    if fn is not None:
        r = ck.run(fn)
        z = r.state.get(('P', 0), a0)
        valid = [gt0(add(sub(mul(const(64), length(X)), C.size(a0)), const(1)))]
        w, b = mk('idiv', a1, const(64)), mk('irem', a1, const(64))
        for x in (w, b):
            x.nn = True
        div = [eq0(sub(a1, add(mul(const(64), w), b))), gt0(sub(const(64), b))]
        for tag, facts in (('a vertex below the size', valid + [gt0(sub(C.size(a0), a1))]), ('a new vertex', valid + [gt0(add(sub(a1, C.size(a0)), const(1)))])):
            t = settled(C.words(z), facts)
            if t.op != 'upd':
                verdict(ck, fn, 'sets a bit: ' + tag, False, closed(t), 'the words become %s' % show(t)[:300])
                continue
            base, p, v = t.args
            cell = settled(deep_el(seq_el(base, w)), facts)
            ok = p == ('ix', w) and v.op == 'setbit' and v.args[1] is b and v.args[2] is TRUE
            verdict(ck, fn, 'sets a bit: ' + tag, ok, closed(t) and not contains(t, lambda x: x.op in ('call',)), 'the words become %s' % show(t)[:300])
            same_words(ck, fn, 'the other words: ' + tag, base, X, facts + div, w)
        d = C.dim(a0)
        for tag, facts, want in (('some', [isv(d, 1), lnot(isv(d, 0))], add(proj(d, ('f', 0)), const(1))), ('none', [isv(d, 0), lnot(isv(d, 1))], const(0))):
            e = settled(C.dim(z), facts)
            if e.op == 'agg':
                verdict(ck, fn, 'dimension after %s' % tag, len(e.args) == 2 and e.args[1] is want, closed(e), 'the dimension becomes %s' % show(e)[:200])
            else:
                verdict(ck, fn, 'dimension after %s' % tag, False, e is d, 'the dimension stays')
        for facts, want in ((valid + [gt0(sub(C.size(a0), a1))], C.size(a0)), (valid + [gt0(add(sub(a1, C.size(a0)), const(1)))], add(a1, const(1)))):
            e = settled(C.size(z), facts)
            verdict(ck, fn, 'size', settled_len(gt0(sub(e, a1)), facts) is True and settled_len(gt0(add(sub(e, C.size(a0)), const(1))), facts) is True, closed(e), 'the size becomes %s' % show(e)[:200])
        accepts(ck, fn, r, [])


def making(prog, rep, C):
    """new: the vertices of the list, each once."""
    def prim(I, op, name, fn, args, st, pc, at):
        if fn is None or fn.kind == 'closure' or fn.implself != CELL or fn.name != 'cone':
            return NotImplemented
        old = I.content(st, args[0])
        I.store(st, args[0], mk('cone', I.reify(st, old), I.reify(st, models.val(I, st, args[1]))))
        return mk('agg', ('tuple',)), st, pc
    ck = Checker(prog, rep, (prim,), lambda f: f.crate == 'topo_spaces' and f.implself == CELL and f.name in ('dim', 'new'))
    fn = find(ck, 'new', CELL)
    if fn is None:
        return
    r = ck.run(fn)
    z = r.ret
    ps = {p for p in phis(C.words(z)) if p.op == 'phi'}
    if len(ps) != 1:
        rep.count('undecided')
        return
    P = ps.pop()
    whole = C.words(z) is C.words(P)
    lp = loop_of(r, P)
    nx = lp.next.get(P) if lp is not None else None
    verdict(ck, fn, 'every vertex of the list', whole and nx is not None, False, '')
    if not whole or nx is None:
        return
    lists = [a1, mk('sorted', a1, 'sort', ())] + [x for x in subterms(nx) if x.op == 'sorted' and x.args[0] is a1]
    x = nx.args[1] if nx.op == 'cone' and nx.args[0] is P else None
    fs = [gt0(sub(length(a1), lp.iv))]
    every = any(all(entails(fs + valid_list(r), l) for l in c) for bk, _ in lp.backs for c in bk) and not lp.early
    ends = not contradictory(fs)
    good = x is not None and any(x is proj(l, ('ix', lp.iv)) for l in lists)
    verdict(ck, fn, 'each vertex is added', good, nx.op == 'cone' and closed(x or nx) or nx is P, 'a vertex of the list adds %s' % show(nx)[:200])
    bk = [c for b, _ in lp.backs for c in b]
    verdict(ck, fn, 'all of them', any(all(entails(fs + accepting(c, a1), l) for l in c) for c in bk), all(contradictory(fs + list(c)) for c in bk), 'vertices are left out')
    ini = P.args[2]
    w = mk('at', 'w')
    w.nn = True
    n = seq_len(C.words(ini))
    el = deep_el(seq_el(C.words(ini), w))
    verdict(ck, fn, 'starts without vertices', cval(el) == 0, closed(el), 'the words start with %s' % show(el)[:100])
    sz = C.size(ini)
    fs = division(n, [gt0(a0)])
    ok = settled_len(gt0(add(sub(mul(const(64), n), sz), const(1))), fs)
    verdict(ck, fn, 'words for all vertices', ok is True, few_words(n, sz), 'there are %s words for %s vertices' % (show(n)[:100], show(sz)[:100]))
    verdict(ck, fn, 'size', sz is a0, closed(sz), 'the size starts as %s' % show(sz)[:100])
    d = dim_call(C.dim(z))
    verdict(ck, fn, 'its dimension', d is C.words(z), d is None and closed(C.dim(z)) or C.dim(z) is C.dim(P), 'the dimension is %s' % show(C.dim(z))[:200])
    # vertices that are given twice
    k = mk('at', 'k')
    k.nn = True
    twice = [x for c in r.pc for l in c for x in subterms(l) if x.op == 'any']
    rejects = bool(r.pc)
    for c in r.pc:
        hit = False
        for l in c:
            if l.op == 'not' and l.args[0].op == 'any':
                y = l.args[0]
                for L in lists[1:]:
                    b = subst(y.args[1], {y.args[0]: k})
                    for sh in (0, 1):
                        e = land(gt0(sub(length(a1), add(k, const(1 - sh)))), gt0(add(k, const(1 - sh))), eq0(sub(proj(L, ('ix', add(k, const(1 - sh)))), proj(L, ('ix', add(k, const(-sh)))))))
                        if equivalent(b, e, [gt0(add(k, const(1)))]):
                            hit = True
        rejects = rejects and hit
    plain = all(understood(l) for c in r.pc for l in c)
    verdict(ck, fn, 'no vertex twice', rejects, plain and not twice, 'a list with a repeated vertex is accepted')
    ok = any(all(entails(accepting(c, a1), l) for l in c) for c in r.pc)
    verdict(ck, fn, 'accepts', ok, plain, 'a valid list is rejected')


def valid_list(r):
    return []


def accepting(c, lst):
    """The facts of a valid list, as far as the conditions c ask for them: not empty, below the size, nothing twice."""
    fs = [gt0(a0), gt0(length(lst))]
    for l in c:
        for x in subterms(l):
            if x.op == 'sorted' and x.args[0] is lst:
                fs.append(gt0(sub(a0, proj(x, ('ix', const(0))))))
            if x.op == 'any' and contains(x.args[1], lambda y: y.op == 'eq0') and not contains(x.args[1], lambda y: y.op == 'at'):
                fs.append(lnot(x))
    return fs


def division(t, facts):
    """The facts about the quotients in t."""
    fs = list(facts)
    for x in subterms(t):
        if x.op == 'idiv' and cval(x.args[1]) is not None:
            q = sub(x.args[0], mul(x.args[1], x))
            fs += [gt0(add(q, const(1))), gt0(sub(x.args[1], q))]
    return fs


def few_words(n, s):
    """Whether n words are too few for s vertices for some s."""
    # a list may start with the vertex 0
    n = subst(n, {x: const(0) for x in subterms(n) if x.op == 'proj' and x.args[0].op == 'sorted' and x.args[1] == ('ix', const(0))})
    if not closed(n):
        return False
    for k in (1, 2, 63, 64, 65, 127, 128, 129, 640):
        x = number(subst(n, {s: const(k)}))
        if x is None:
            return False
        if 64 * x < k:
            return True
    return False


def truth(c, env):
    if c in env:
        return env[c]
    if c in (TRUE, FALSE):
        return c is TRUE
    if c.op == 'not':
        v = truth(c.args[0], env)
        return None if v is None else not v
    if c.op in ('and', 'or'):
        vs = [truth(x, env) for x in c.args[0]]
        return None if None in vs else all(vs) if c.op == 'and' else any(vs)
    if c.op in ('gt0', 'eq0'):
        v = number(c.args[0], env)
        return None if v is None else v > 0 if c.op == 'gt0' else v == 0
    return None


def split(c, out):
    """The conditions c is made of."""
    if c.op == 'not':
        split(c.args[0], out)
    elif c.op in ('and', 'or'):
        for x in c.args[0]:
            split(x, out)
    else:
        out.add(c)


def number(t, env={}):
    if t in env:
        return env[t]
    c = cval(t)
    if c is not None:
        return int(c)
    if t.op == 'idiv':
        a, b = number(t.args[0], env), number(t.args[1], env)
        return a // b if a is not None and b else None
    if t.op == 'irem':
        a, b = number(t.args[0], env), number(t.args[1], env)
        return a % b if a is not None and b else None
    if t in (TRUE, FALSE) or t.op in ('gt0', 'eq0', 'and', 'or', 'not'):
        c = truth(t, env)
        return None if c is None else int(c)
    if t.op == 'cast' or t.op == 'b2i':
        return number(t.args[0], env)
    if t.op == 'ite':
        c = truth(t.args[0], env)
        return None if c is None else number(t.args[1 if c else 2], env)
    if t.op == 'first':
        for k in range(64):
            c = truth(subst(t.args[1], {t.args[0]: const(k)}), env)
            if c is None:
                return None
            if c:
                return k
        return None
    p = to_poly(t)
    out = 0
    for mo, k in p.items():
        x = k
        for v, e in mo:
            if v is t:
                return None
            y = number(v, env)
            if y is None:
                return None
            x *= y ** e
        out += x
    return int(out)


# ------------------------------------------------------------------ faces
def faces(ck, rep, C):
    fn = find(ck, 'get_face', CELL)
    if fn is None:
        return
    r = ck.run(fn)
    t = r.ret
    X, d = C.words(a0), C.dim(a0)
    some = [isv(d, 1), lnot(isv(d, 0)), gt0(proj(d, ('f', 0)))]
    accepts(ck, fn, r, some)
    if t.op == 'collect':
        iv, n, cs, v = t.args
        facts = some + [gt0(sub(n, iv))] + list(cs)
        search, last = None, None
    else:
        lp = loop_of(r, t) if t.op == 'phi' else None
        nx = lp.next.get(t) if lp is not None else None
        if nx is None:
            rep.count('undecided')
            return
        verdict(ck, fn, 'starts without faces', t.args[2].op == 'agg' and len(t.args[2].args) == 1, closed(t.args[2]), 'it starts with %s' % show(t.args[2])[:200])
        iv = lp.iv
        how = [c for b, _ in lp.backs for c in b]
        nx = settled(nx, some)
        if nx.op != 'push' or nx.args[0] is not t:
            verdict(ck, fn, 'one face for every vertex', False, nx is t, 'no face is added')
            return
        v = nx.args[1]
        facts = some
        rest = {p for p in phis(v)}
        if len(rest) > 1 or any(p.args[0] != t.args[0] for p in rest):
            rep.count('undecided')
            return
        cs, n = None, None
        search = rest.pop() if rest else None
    # the face lacks one vertex
    ws, dv = settled(C.words(v), facts), settled(C.dim(v), facts)
    verdict(ck, fn, 'the dimension of a face', dv.op == 'agg' and len(dv.args) == 2 and dv.args[1] is sub(proj(d, ('f', 0)), const(1)),
            dv.op == 'agg' and closed(dv) or dv is d, 'the dimension of a face is %s' % show(dv)[:200])
    cut = [x for x in subterms(ws) if x.op == 'truncated' and x.args[1].op == 'idiv' and contains(x.args[1], lambda y: y.op == 'first')]
    if cut:
        verdict(ck, fn, 'a face lacks one vertex', False, True, 'the words from %s on are cut off' % show(cut[0].args[1])[:100])
        return
    if ws.op != 'upd' or ws.args[0] is not X or ws.args[2].op != 'setbit':
        verdict(ck, fn, 'a face lacks one vertex', False, ws is X, 'the face has all vertices')
        return
    p, b = ws.args[1], ws.args[2]
    cell, at, to = b.args
    if p[0] != 'ix' or p[1].op != 'idiv' or cval(p[1].args[1]) != 64 or at.op != 'irem' or at.args[0] is not p[1].args[0] or cval(at.args[1]) != 64 or cell is not proj(X, p):
        off = [subst(x, {y: mk('at', 'position') for y in subterms(x) if y.op == 'first'}) for x in (p[1], at) if p[0] == 'ix']
        off = [subst(x, {y: mk('at', 'place') for y in subterms(x) if y.op == 'phi'}) for x in off]
        verdict(ck, fn, 'a face lacks one vertex', False, bool(off) and misplaced(off), 'the bit %s of the word %s is changed' % (show(at)[:100], show(p[1])[:100]))
        return
    verdict(ck, fn, 'a face lacks one vertex', to is FALSE, to is TRUE, 'the bit is set')
    i = p[1].args[0]
    bit = lambda j: mk('bit', proj(X, ('ix', mk('idiv', j, const(64)))), mk('irem', j, const(64)))
    if search is None:
        here = bit(i)
        ok = i is iv and (cs is not None and here in cs and len(cs) == 1)
        if cs is None and i is iv:
            ok = all(any(l is here for l in c) for c in how)
        verdict(ck, fn, 'every vertex once', ok, False, '')
        return
    # the next vertex is searched from the last one on
    fr = {x for x in subterms(i) if x.op == 'first'}
    if len(fr) != 1:
        rep.count('undecided')
        return
    x = fr.pop()
    k, J = mk('at', 'k'), mk('at', 'j')
    k.nn = J.nn = True
    off = sub(i, x)
    body = subst(x.args[1], {x.args[0]: k})
    want = bit(add(off, k))
    hit = body is want or (body.op == 'and' and want in body.args[0])
    verdict(ck, fn, 'the next vertex', hit, closed(subst(body, {search: mk('at', 'position')})), 'the next vertex is the first place with %s' % show(body)[:300])
    verdict(ck, fn, 'the search goes on after the last vertex', off is search and settled(lp.next[search], facts) is add(i, const(1)) and cval(search.args[2]) == 0,
            closed(sub(off, search)) and not contains(sub(off, search), lambda y: y.op in ('phi', 'first')) and (off is not search or closed(search.args[2]) and cval(search.args[2]) != 0)
            or off is search and closed(sub(lp.next[search], i)) and not phis(sub(lp.next[search], i)) and sub(lp.next[search], i) is not const(1),
            'the next search starts at %s' % show(lp.next[search])[:200])
    # as many as there are vertices
    cl = how
    last = proj(d, ('f', 0))
    go = any(all(entails(some + [gt0(sub(add(last, const(1)), iv))], l) for l in c) for c in cl)
    bound = all(settled_len(gt0(sub(add(last, const(1)), iv)), list(c) + some) is True for c in cl)
    verdict(ck, fn, 'as many faces as vertices', go and bound, all(understood(l) for c in cl for l in c), 'the faces go on while %s' % show(cl[0] and land(*cl[0]) if cl else TRUE)[:300])


def misplaced(off):
    """Whether the word and the bit are not those of any position place + position."""
    for a in (0, 1, 63, 64, 65, 127, 128, 129, 200):
        for b in (0, 1, 5, 64):
            env = {mk('at', 'position'): a, mk('at', 'place'): b}
            w, k = number(off[0], env), number(off[1], env)
            if w is None or k is None:
                return False
            # the position itself, where the search starts at the place, or as it was found
            if 64 * w + k not in (a + b, a):
                return True
    return False


# ------------------------------------------------------------------ equality and order
def comparing(prog, rep, C):
    X, Y = C.words(a0), C.words(a1)
    ck = Checker(prog, rep, (), lambda f: f.crate == 'topo_spaces' and f.implself == CELL and f.name == 'dim')
    dx, dy = C.dim(a0), C.dim(a1)
    fn = find(ck, 'cmp', CELL, 'std::cmp::Ord')
    D1, D2 = mk('lt', dx, dy), mk('lt', dy, dx)
    same = [lnot(D1), lnot(D2), eq0(sub(dx, dy))]
    if fn is not None:
        r = ck.run(fn)
        accepts(ck, fn, r, [])
        lo, hi = settled(r.ret, [D1, lnot(D2), lnot(eq0(sub(dx, dy)))]), settled(r.ret, [D2, lnot(D1), lnot(eq0(sub(dx, dy)))])
        nl, nh = ordering(lo), ordering(hi)
        if nl and nh:
            verdict(ck, fn, 'dimensions', {nl, nh} == {'Less', 'Greater'}, True, 'simplices of different dimensions compare as %s and %s' % (nl, nh))
        t = settled(r.ret, same)
        anys = {x for x in subterms(t) if x.op == 'any'}
        firsts = {x for x in subterms(t) if x.op == 'first'}
        differ = {(True, False), (False, True)}
        if len(anys) != 1 or any(f.args not in {a.args for a in anys} for f in firsts):
            rep.count('undecided')
        else:
            y = anys.pop()
            some_word(ck, fn, 'a word in which they differ', y, X, Y, differ, 'exists')
            e = settled(t, [lnot(y)])
            verdict(ck, fn, 'equal without one', ordering(e) == 'Equal', bool(ordering(e)), 'equal simplices compare as %s' % ordering(e))
            if firsts:
                f = firsts.pop()
                K = mk('at', 'K')
                K.nn = True
                g0, b0 = subst(settled(t, [y]), {f: K}), subst(f.args[1], {f.args[0]: K})
                dirs = set()
                # the words at the place of the first difference
                for order in ([gt0(sub(length(X), length(Y)))], [gt0(sub(length(Y), length(X)))], [eq0(sub(length(X), length(Y)))]):
                    g, body = settled(g0, order), settled(b0, order)
                    ix = {z.args[1][1] for z in subterms(body) if z.op == 'proj' and z.args[0] in (X, Y) and z.args[1][0] == 'ix'}
                    w = ix.pop() if len(ix) == 1 else None
                    if w is None:
                        dirs.add(None)
                        break
                    for tag, fs, sel in regions(w, length(X), length(Y)):
                        fs = order + fs + (list(body.args[0]) if body.op == 'and' else [body])
                        if contradictory(fs):
                            continue
                        xw = proj(X, ('ix', w)) if any(sel(True, q) for q in (False, True)) else const(0)
                        yw = proj(Y, ('ix', w)) if any(sel(q, True) for q in (False, True)) else const(0)
                        u = settled(g, fs)
                        o = {'icmp', 'cmp'}
                        dirs.add(1 if u.op in o and u.args[:2] == (xw, yw) else -1 if u.op in o and u.args[:2] == (yw, xw) else
                                 0 if u.op in o and closed(u) and not contains(u, lambda z: z.op in ('ite', 'max', 'min')) or ordering(u) else None)
                if None in dirs or not dirs:
                    rep.count('undecided')
                else:
                    verdict(ck, fn, 'the first difference decides', dirs in ({1}, {-1}), True, 'the first difference does not decide one way')
            else:
                rep.count('undecided')
    fn = find(ck, 'eq', CELL, 'std::cmp::PartialEq')
    if fn is not None:
        r = ck.run(fn)
        accepts(ck, fn, r, [])
        lens = eq0(sub(length(X), length(Y)))
        t = as_exists(settled(r.ret, same + [lens]))
        whole = eq0(sub(X, Y))
        if t is whole:
            rep.require(fn.label() + ':as many words', True, '')
        else:
            some_word(ck, fn, 'as many words', t, X, Y, {(True, False), (False, True)}, 'none', same + [lens])
        for tag, fs in (('fewer words', [gt0(sub(length(Y), length(X))), lnot(lens)]), ('more words', [gt0(sub(length(X), length(Y))), lnot(lens)])):
            t = as_exists(settled(r.ret, same + fs))
            if t is whole or t is FALSE:
                rep.require('%s:%s' % (fn.label(), tag), False, 'simplices with different numbers of words are never equal', ck.where(fn))
            else:
                some_word(ck, fn, tag, t, X, Y, {(True, False), (False, True)}, 'none', same + fs)
    fn = find(ck, 'partial_cmp', CELL, 'std::cmp::PartialOrd')
    if fn is not None:
        ck2 = Checker(prog, rep, (), lambda f: f.implself == CELL and f.name == 'cmp')
        r = ck2.run(fn)
        t = r.ret
        ok = t.op == 'agg' and len(t.args) == 2 and t.args[1].op in ('cmp', 'call') 
        x = t.args[1] if ok else t
        pair = tuple(models_rv(y) for y in (x.args[1] if x.op == 'call' else x.args[:2])) if ok else ()
        verdict(ck, fn, 'the total order', pair == (a0, a1), ok and pair == (a1, a0), 'the arguments are exchanged')


def ordering(t):
    if t.op == 'agg' and t.args[0][0] == 'adt' and len(t.args[0]) > 3 and 'Ordering' in t.args[0][1]:
        return t.args[0][3]
    return None


def as_exists(t):
    """What is said about the first difference holds for a difference: it is folded into the statement that there is one."""
    anys = {x for x in subterms(t) if x.op == 'any'}
    if len(anys) != 1:
        return t
    y = anys.pop()
    K = mk('at', 'K')
    K.nn = True
    m = {x: K for x in subterms(t) if x.op == 'first' and x.args == y.args}
    b = subst(y.args[1], {y.args[0]: K})
    u = subst(t, m)
    no, yes = settled(u, [lnot(y)]), settled(u, [y] + (list(b.args[0]) if b.op == 'and' else [b]))
    if no is TRUE and yes is FALSE:
        return lnot(y)
    if no is FALSE and yes is TRUE:
        return y
    return t


# ------------------------------------------------------------------ T19
def cell_ops(C):
    """The operations of a simplex as terms (T18 decides them)."""
    def prim(I, op, name, fn, args, st, pc, at):
        if fn is None or fn.kind == 'closure':
            return NotImplemented
        if fn.crate == 'util' and fn.name == 'tuple_iter':
            return mk('it_into', mk('tuples', I.reify(st, models.val(I, st, args[0])), I.reify(st, models.val(I, st, args[1])))), st, pc
        if fn.crate != 'topo_spaces' or fn.implself != CELL or (fn.trait or ''):
            return NotImplemented
        v = [models_rv(I.reify(st, models.val(I, st, a))) for a in args]
        if fn.name == 'new':
            return mk('cell', v[0], v[1]), st, pc
        if fn.name == 'contains':
            return mk('isin', v[1], v[0]), st, pc
        if fn.name == 'is_connected_with':
            return mk('isin', mk('meets', frozenset(v)), const(0)), st, pc
        if fn.name == 'is_empty':
            return lnot(mk('isin', const(0), v[0])), st, pc
        if fn.name == 'intersection':
            return mk('meet', v[0], v[1]), st, pc
        if fn.name == 'get_face':
            return mk('faces', v[0]), st, pc
        if fn.name in ('join', 'cone'):
            st = dict(st)
            I.store(st, args[0], mk(fn.name, v[0], v[1]), pc, at)
            return mk('agg', ('tuple',)), st, pc
        return NotImplemented
    return prim


def cplx_ops():
    def prim(I, op, name, fn, args, st, pc, at):
        if fn is None or fn.kind == 'closure' or fn.crate != 'topo_spaces' or fn.implself != CPLX or (fn.trait or ''):
            return NotImplemented
        if fn.name not in ('get_i_cells', 'get_simplex', 'dim', 'attach'):
            return NotImplemented
        v = [models_rv(I.reify(st, models.val(I, st, a))) for a in args]
        if fn.name == 'attach':
            st = dict(st)
            I.store(st, args[0], mk('attached', v[0], v[1]), pc, at)
            return mk('agg', ('tuple',)), st, pc
        x = mk({'get_i_cells': 'cells', 'get_simplex': 'simplex', 'dim': 'cdim'}[fn.name], *v)
        if fn.name == 'dim':
            x.nn = True
        return x, st, pc
    return prim


class Complexes:
    """The fields of a complex: the number of vertices, the maximal cells and the labels."""
    def __init__(self, prog):
        fs = fields(prog, 'simplicial::SimplicialCplx') or []
        n = [i for i, t in enumerate(fs) if t == 'usize']
        m = [i for i, t in enumerate(fs) if t.startswith('std::vec::Vec<') and 'SimplicialCell' in t]
        l = [i for i, t in enumerate(fs) if t.startswith('std::vec::Vec<') and 'SimplicialCell' not in t]
        self.ok = len(n) == len(m) == len(l) == 1
        if self.ok:
            self.N, self.M, self.L = n[0], m[0], l[0]

    def size(self, x): return proj(x, ('f', self.N))
    def maximal(self, x): return proj(x, ('f', self.M))
    def labels(self, x): return proj(x, ('f', self.L))


def check_T19(prog, rep):
    rep.rule('a complex is a list of labels and a list of maximal cells: every operation is summarised over opaque cells (sets, T18) and '
             'compared with its meaning; loops by one symbolic round and their range')
    rep.assumptions += ['the operations of a single simplex are those of sets of vertices (T18)', 'std Vec/slice/iterator contracts as stated in rules/models.py', 'tuple_iter lists the subsets of a list']
    C, K = Cells(prog), Complexes(prog)
    rep.require('anchor:SimplicialCplx', C.ok and K.ok, 'a complex does not consist of a size, maximal cells and labels')
    if not (C.ok and K.ok):
        return
    sfs = fields(prog, 'simplicial::Simplex') or []
    rep.require('anchor:Simplex', len(sfs) == 2 and 'usize' in sfs, 'a simplex with labels does not consist of a dimension and labels')
    if len(sfs) != 2 or 'usize' not in sfs:
        return
    S = sfs.index('usize')
    from matdom import MatChecker
    hide = lambda f: f.crate == 'util'
    inner = MatChecker(prog, rep, (cell_ops(C),), hide)
    outer = MatChecker(prog, rep, (cell_ops(C), cplx_ops()), hide)
    for f, ck in ((starting, outer), (attaching, inner), (asking, inner), (cells_of, inner), (connected, inner), (counting, inner), (bounding, outer)):
        rep.group(f, ck, rep, C, K, S)
    rep.floor('operations', 8)


def members(t):
    """There is an i below the length of X with X[i] = x: x is in X."""
    for y in sorted({x for x in subterms(t) if x.op == 'any'}, key=lambda x: len(str(x))):
        b, iv = y.args[-1] if hasattr(y.args[-1], 'op') else None, y.args[0]
        ls = list(b.args[0]) if b is not None and b.op == 'and' else []
        if len(ls) != 2:
            continue
        for l, m in (ls, ls[::-1]):
            if l.op != 'eq0' or m.op != 'gt0':
                continue
            for e in subterms(l):
                if e.op != 'proj' or e.args[1] != ('ix', iv) or m is not gt0(sub(length(e.args[0]), iv)):
                    continue
                p = l.args[0]
                for x in (sub(e, p), add(e, p)):
                    if iv not in subterms(x) and iv not in subterms(e.args[0]):
                        return members(subst(t, {y: mk('isin', x, e.args[0])}))
    return t


def one_cell(t, n):
    """t is the cell with the only vertex n, made with a size that has room for it."""
    return t.op == 'cell' and t.args[1].op == 'agg' and len(t.args[1].args) == 2 and decide_eq(t.args[1].args[1], n, [])[0] == 'eq' \
        and entails([], gt0(t.args[0])) and entails([], gt0(add(sub(t.args[0], n), const(1))))


def starting(ck, rep, C, K, S):
    fn = find(ck, 'new', CPLX)
    if fn is not None:
        r = ck.run(fn)
        for what, t in (('without vertices', K.size(r.ret)), ('without cells', length(K.maximal(r.ret))), ('without labels', length(K.labels(r.ret)))):
            verdict(ck, fn, what, cval(t) == 0, closed(t), 'a new complex has %s' % show(t)[:100])
    fn = find(ck, 'new_from_zero_skeleton', CPLX)
    if fn is not None:
        r = ck.run(fn)
        ck.value(fn, 'size', K.size(r.ret), length(a0))
        k = mk('at', 'k')
        k.nn = True
        L, M = K.labels(r.ret), K.maximal(r.ret)
        verdict(ck, fn, 'the labels', L is a0 or (decide_eq(seq_len(L), length(a0), [])[0] == 'eq' and deep_el(seq_el(L, k)) is proj(a0, ('ix', k))), closed(L), 'the labels are %s' % show(L)[:200])
        ck.value(fn, 'one cell for each vertex', seq_len(M), length(a0))
        e = settled(deep_el(seq_el(M, k)), [gt0(sub(length(a0), k))])
        verdict(ck, fn, 'the cells are the vertices', one_cell(e, k), understood(e), 'the cell of a vertex is %s' % show(e)[:200])
        accepts(ck, fn, r, [])
    fn = find(ck, 'new_from', CPLX)
    if fn is not None:
        r = ck.run(fn)
        t = r.ret
        ok = t.op == 'attached' and t.args[1] is a0 and all(cval(length(f(t.args[0]))) == 0 for f in (K.maximal, K.labels))
        verdict(ck, fn, 'the complex of the simplex', ok, understood(t), 'it is %s' % show(t)[:200])
    fn = find(ck, 'from', 'simplicial::Simplex<T>')
    if fn is not None:
        r = ck.run(fn)
        k = mk('at', 'k')
        k.nn = True
        d, L = proj(r.ret, ('f', S)), proj(r.ret, ('f', 1 - S))
        ck.value(fn, 'dimension', d, sub(length(a0), const(1)), [gt0(length(a0))])
        verdict(ck, fn, 'the labels', L is a0 or decide_eq(seq_len(L), length(a0), [])[0] == 'eq' and deep_el(seq_el(L, k)) is proj(a0, ('ix', k)), closed(L), 'the labels are %s' % show(L)[:200])


def attaching(ck, rep, C, K, S):
    fn = find(ck, 'attach', CPLX)
    if fn is None:
        return
    r = ck.run(fn)
    z = r.state.get(('P', 0), a0)
    V = proj(a1, ('f', 1 - S))
    ps = {x for f in (K.size, K.maximal, K.labels) for x in phis(f(z)) if x.args[2] in (K.size(a0), K.maximal(a0), K.labels(a0))}
    by = {g: [x for x in ps if x.args[2] is g(a0)] for g in (K.size, K.maximal, K.labels)}
    L = by[K.labels][0] if len(by[K.labels]) == 1 else None
    M = by[K.maximal][0] if len(by[K.maximal]) == 1 else None
    N = by[K.size][0] if len(by[K.size]) == 1 else None
    if L is None or M is None:
        lost = [g for g in (K.labels, K.maximal) if g(z) is g(a0)]
        verdict(ck, fn, 'new vertices', False, bool(lost), 'the vertices of the simplex are not added')
        return
    lp = loop_of(r, L)
    if lp is None or loop_of(r, M) is not lp:
        rep.count('undecided')
        return
    v = proj(V, ('ix', lp.iv))
    inv = [eq0(sub(N, length(L)))] if N is not None else []
    known = mk('isin', v, L)
    whole = all(any(all(entails([gt0(sub(length(V), lp.iv))], l) for l in c) for c in b) for b, _ in lp.backs) and not lp.early
    verdict(ck, fn, 'every label is looked at', whole, all(understood(l) for b, _ in lp.backs for c in b for l in c) and not whole and not any(x.op == 'isin' for b, _ in lp.backs for c in b for l in c for x in subterms(l)), 'some labels are left out')
    for what, p in (('number of vertices', N), ('labels', L), ('cells', M)):
        if p is None:
            verdict(ck, fn, 'the %s' % what, False, K.size(z) is K.size(a0), 'the number of vertices stays')
            continue
        nx = lp.next.get(p)
        if nx is None:
            rep.count('undecided')
            continue
        own = lambda t: understood(subst(t, {x: mk('at', n) for n, x in (('N', N), ('L', L), ('M', M)) if x is not None}))
        nx = members(nx)
        old, new = settled(nx, inv + [known]), settled(nx, inv + [lnot(known)])
        verdict(ck, fn, 'a known label changes nothing: %s' % what, old is p, own(old), 'with a label that is known the %s become %s' % (what, show(old)[:200]))
        if p is N:
            ok = decide_eq(new, add(N, const(1)), [])[0] == 'eq'
        elif p is L:
            ok = new.op == 'push' and new.args[0] is L and new.args[1] is v
        else:
            ok = new.op == 'push' and new.args[0] is M and any(one_cell(new.args[1], n) for n in ([N] if N is not None else []) + [length(L)])
        verdict(ck, fn, 'a new label: %s' % what, ok, own(new), 'with a label that is new the %s become %s' % (what, show(new)[:200]))
    # the cell
    cs = {x for x in subterms(z) if x.op == 'cell' and x.args[1].op != 'agg'}
    if len(cs) != 1:
        verdict(ck, fn, 'the new cell', False, not cs and K.maximal(z) is M, 'the simplex is not added')
        return
    c = cs.pop()
    k = mk('at', 'k')
    k.nn = True
    n, e = seq_len(c.args[1]), deep_el(seq_el(c.args[1], k))
    ck.same(fn, 'as many vertices as the simplex has', n, length(V))
    ok = bad = False
    if e.op == 'first':
        j = mk('at', 'j')
        j.nn = True
        b = subst(e.args[1], {e.args[0]: j})
        hit = land(gt0(sub(length(L), j)), eq0(sub(proj(L, ('ix', j)), proj(V, ('ix', k)))))
        ok = equivalent(b, hit, [])
        bad = understood(subst(b, {L: mk('at', 'L')}))
    verdict(ck, fn, 'the vertices by their labels', ok, bad or e.op != 'first' and understood(e), 'a vertex of the cell is %s' % show(e)[:200])
    room = [x for x in (N, length(L)) if x is not None]
    verdict(ck, fn, 'room for all vertices', any(entails(inv, gt0(add(sub(c.args[0], x), const(1)))) for x in room), understood(subst(c.args[0], {L: mk('at', 'L'), N: mk('at', 'N')} if N is not None else {L: mk('at', 'L')})), 'the cell is made for %s vertices' % show(c.args[0])[:100])
    # already there
    X = mk('at', 'cell')
    T = subst(K.maximal(z), {c: X})
    there = [x for x in subterms(T) if x.op == 'any' and contains(x, lambda y: y.op == 'isin')]
    i = mk('at', 'i')
    i.nn = True
    good = mk('isin', X, proj(M, ('ix', i)))
    if len(set(there)) == 1:
        y = there[0]
        b = subst(y.args[1], {y.args[0]: i})
        verdict(ck, fn, 'when it is there', equivalent(b, land(gt0(sub(length(M), i)), good), []), understood(subst(b, {M: mk('at', 'M')})), 'it is taken to be there when %s' % show(b)[:200])
        A = settled(T, [y])
        verdict(ck, fn, 'a cell that is there changes nothing', A is M, understood(subst(A, {M: mk('at', 'M')})), 'the cells become %s' % show(A)[:200])
        B = settled(T, [lnot(y)])
    else:
        verdict(ck, fn, 'when it is there', False, not there and not contains(subst(T, {M: mk('at', 'M')}), lambda x: x.op in ('phi', 'call', 'ite', 'first', 'any')), 'a simplex that is there already is added again')
        B = T
    if B.op == 'push' and B.args[1] is X:
        R = B.args[0]
        if R.op == 'collect':
            iv, n, cs, val = R.args
            keep = subst(land(gt0(sub(n, iv)), *cs), {iv: i})
            verdict(ck, fn, 'cells inside the new one go', val is proj(M, ('ix', iv)) and equivalent(keep, land(gt0(sub(length(M), i)), lnot(mk('isin', proj(M, ('ix', i)), X))), []),
                    understood(subst(keep, {M: mk('at', 'M')})), 'the cells that stay are those with %s' % show(keep)[:200])
        else:
            verdict(ck, fn, 'cells inside the new one go', False, R is M, 'cells inside the new one stay')
    else:
        verdict(ck, fn, 'the cell is added', False, B is M or understood(subst(B, {M: mk('at', 'M')})) and B.op in ('collect', 'agg'), 'the cells become %s' % show(B)[:200])
    for what, g, p in (('number of vertices', K.size, N), ('labels', K.labels, L)):
        if p is not None:
            verdict(ck, fn, 'the %s stay' % what, g(z) is p or all(settled(g(z), [l]) is p for y in there for l in (y, lnot(y))) and bool(there), False, '')
    accepts(ck, fn, r, [])


def asking(ck, rep, C, K, S):
    fn = find(ck, 'n_vertices', CPLX)
    if fn is not None:
        r = ck.run(fn)
        verdict(ck, fn, 'number of labels', r.ret in (length(K.labels(a0)), K.size(a0)), understood(r.ret), 'the answer is %s' % show(r.ret)[:200])
    fn = find(ck, 'get_labeled_zero_skeleton', CPLX)
    if fn is not None:
        r = ck.run(fn)
        t = r.ret
        got = t
        if t.op == 'ref':
            root, path = t.args[0], tuple(t.args[1])
            got = proj(a0, path[0]) if root == ('P', 0) and len(path) == 1 else t
        elif t.op == 'rv':
            got = t.args[0]
        verdict(ck, fn, 'the labels', got is K.labels(a0), got is not t and understood(got), 'the answer is %s' % show(t)[:200])
    fn = find(ck, 'dim', CPLX)
    if fn is not None:
        r = ck.run(fn)
        M = K.maximal(a0)
        bs = {x for x in subterms(r.ret) if x.op == 'argbest'}
        if len(bs) != 1:
            verdict(ck, fn, 'the largest dimension', False, understood(r.ret), 'the answer is %s' % show(r.ret)[:200])
        else:
            b = bs.pop()
            how, iv, n, cs, key = b.args
            D = lambda e: C.dim(e)
            one = lambda t, e: settled(t, [isv(D(e), 1), lnot(isv(D(e), 0))]) is proj(D(e), ('f', 0)) and cval(settled(t, [isv(D(e), 0), lnot(isv(D(e), 1))])) == 0
            some = lambda t, e: t is proj(D(e), ('f', 0)) or one(t, e)
            e, q = proj(M, ('ix', iv)), proj(M, ('ix', b))
            q0 = mk('at', 'best')
            plain = understood(subst(key, {}))
            verdict(ck, fn, 'the largest dimension', how == 'max' and n is length(M) and not cs and some(key, e) and some(r.ret, q),
                    plain and (how != 'max' or not some(key, e)) or understood(subst(r.ret, {b: q0})) and not some(r.ret, q) or closed(n) and n is not length(M), 'the answer is the %s of %s' % (how, show(r.ret)[:200]))
        accepts(ck, fn, r, [gt0(length(M))])
    fn = find(ck, 'get_simplex', CPLX)
    if fn is not None:
        r = ck.run(fn)
        d, L = proj(r.ret, ('f', S)), proj(r.ret, ('f', 1 - S))
        D = C.dim(a1)
        verdict(ck, fn, 'the dimension', d is proj(D, ('f', 0)), understood(d), 'the dimension is %s' % show(d)[:200])
        if L.op == 'collect':
            iv, n, cs, val = L.args
            i = mk('at', 'i')
            i.nn = True
            b = subst(land(*cs) if cs else TRUE, {iv: i})
            single = [x for x in subterms(b) if x.op == 'cell']
            b = subst(b, {x: mk('at', 'vertex') for x in single if one_cell(x, i)})
            ok = b is mk('isin', mk('at', 'vertex'), a1) and n is C.size(a1)
            verdict(ck, fn, 'the labels of its vertices', ok and val is proj(K.labels(a0), ('ix', iv)), understood(b) and understood(n) and understood(val), 'the labels are %s for %s below %s' % (show(val)[:100], show(b)[:200], show(n)[:100]))
        else:
            rep.count('undecided')
        accepts(ck, fn, r, [isv(D, 1), lnot(isv(D, 0))])


def cells_of(ck, rep, C, K, S):
    fn = find(ck, 'get_i_cells', CPLX)
    if fn is None:
        return
    r = ck.run(fn)
    M = K.maximal(a0)
    i = mk('at', 'i')
    i.nn = True
    D = C.dim(proj(M, ('ix', i)))
    exist = [isv(D, 1), lnot(isv(D, 0))]

    def own(t, exist=exist):
        if t.op != 'collect':
            return None
        iv, n, cs, val = t.args
        if val is not proj(M, ('ix', iv)):
            return False if closed(val) else None
        b = settled(subst(land(gt0(sub(n, iv)), *cs), {iv: i}), exist)
        w = land(gt0(sub(length(M), i)), eq0(sub(proj(D, ('f', 0)), a1)))
        if equivalent(b, w, exist):
            return True
        return False if understood(b) else None
    none = settled(r.ret, [isv(a2, 0), lnot(isv(a2, 1))])
    while none.op in ('sorted', 'dedup'):
        none = none.args[0]
    v = own(none, exist + [isv(a2, 0), lnot(isv(a2, 1))])
    verdict(ck, fn, 'the maximal cells of the dimension', v is True, v is False or none.op == 'agg', 'the cells are %s' % show(none)[:300])
    some = settled(r.ret, [isv(a2, 1), lnot(isv(a2, 0))])
    wrap = []
    while some.op in ('sorted', 'dedup'):
        wrap.append(some.op)
        some = some.args[0]
    known = some.op == 'phi' or some.op in ('append', 'collect', 'agg')
    verdict(ck, fn, 'each cell once, in order', wrap[:2] == ['dedup', 'sorted'] or wrap[:3] == ['sorted', 'dedup', 'sorted'], known and 'call' not in {x.op for x in subterms(some)}, 'the cells are %s' % (' '.join(wrap) or 'neither sorted nor without repetitions'))
    if some.op != 'phi':
        v = own(some, exist + [isv(a2, 1), lnot(isv(a2, 0))])
        verdict(ck, fn, 'the faces of the cells above', False, v is True, 'the faces of the cells above are left out')
        return
    some = next((q for l in r.interp.loop_objs.values() for q in l.next if hasattr(q, 'op') and q.op == 'phi' and q.args[:2] == some.args[:2]), some)
    lp = loop_of(r, some)
    nx = lp.next.get(some) if lp is not None else None
    if nx is None:
        rep.count('undecided')
        return
    v = own(some.args[2], exist + [isv(a2, 1), lnot(isv(a2, 0))])
    verdict(ck, fn, 'with the maximal cells', v is True, v is False or some.args[2].op == 'agg', 'it starts with %s' % show(some.args[2])[:200])
    up = proj(models_rv(proj(a2, ('f', 0))), ('ix', lp.iv))
    ups = [up, proj(proj(a2, ('f', 0)), ('ix', lp.iv)), proj(mk('deref', proj(a2, ('f', 0))), ('ix', lp.iv))]
    f = nx.args[1] if nx.op == 'append' and nx.args[0] is some else None
    one = f is not None and f.op == 'faces' and proj_of(f.args[0], lp.iv)
    verdict(ck, fn, 'the faces of the cells above', bool(one), nx is some or nx.op == 'faces' or f is not None and f.op == 'faces' and (cval_index(f.args[0]) or shifted(f.args[0], lp.iv)), 'a cell above adds %s' % show(f if f is not None else nx)[:200])


def proj_of(t, iv):
    """t is the element iv of the list in the second argument."""
    return t.op == 'proj' and t.args[1] == ('ix', iv) and contains(t.args[0], lambda x: x is a2) and not contains(t.args[0], lambda x: x.op in ('call', 'collect', 'phi'))


def shifted(t, iv):
    return t.op == 'proj' and t.args[1][0] == 'ix' and cval(sub(t.args[1][1], iv)) not in (None, 0)


def conds_of(t):
    return [x.args[0] for x in subterms(t) if x.op == 'ite']


def cval_index(t):
    return t.op == 'proj' and t.args[1][0] == 'ix' and cval(t.args[1][1]) is not None


def connected(ck, rep, C, K, S):
    fn = find(ck, 'is_connected', CPLX)
    if fn is None:
        return
    r = ck.run(fn)
    M = K.maximal(a0)
    none = settled(r.ret, [eq0(length(M))])
    verdict(ck, fn, 'the empty complex', none is TRUE, none is FALSE, 'the empty complex is not connected')
    some = settled(r.ret, [gt0(length(M))])
    joins = []
    for lp in r.interp.loop_objs.values():
        for p, nx in lp.next.items():
            if hasattr(p, 'op') and nx is not None and nx.op == 'join' and nx.args[0] is p:
                joins.append((lp, p, nx))
    outs = [(lp, p, nx) for lp, p, nx in joins if p.args[2].op == 'phi' and p in subterms(some)]
    if len({p for _, p, _ in outs}) != 1:
        verdict(ck, fn, 'the cells that meet it are joined', False, some in (TRUE, FALSE), 'the answer is %s' % show(some)[:200])
        return
    lp, p, nx = outs[0]
    J = p.args[2]
    top = loop_of(r, J)
    if top is None or top.next.get(J) is None:
        rep.count('undecided')
        return
    verdict(ck, fn, 'starts with a maximal cell', J.args[2].op == 'proj' and J.args[2].args[0] is M, understood(J.args[2]), 'it starts with %s' % show(J.args[2])[:200])
    verdict(ck, fn, 'it grows', top.next[J] is p, top.next[J] is J, 'what was joined is dropped')
    x = nx.args[1]
    verdict(ck, fn, 'joins the cell', x is proj(M, ('ix', lp.iv)), understood(x), 'it is joined with %s' % show(x)[:200])
    meets = [mk('isin', mk('meets', frozenset((proj(M, ('ix', lp.iv)), y))), const(0)) for y in (J, p)]
    bk = [c for b, _ in lp.backs for c in b]
    fs = [gt0(sub(length(M), lp.iv)), gt0(length(M))]
    fine = bool(bk) and all(any(l in meets for l in c) and all(l in meets or entails(fs, l) for l in c) for c in bk)
    verdict(ck, fn, 'all cells that meet it', fine, all(understood(subst(l, {J: mk('at', 'J'), p: mk('at', 'p')})) for c in bk for l in c), 'cells are joined if %s' % (' and '.join(show(l)[:200] for l in bk[0]) if bk else 'never'))
    # the ends
    d = C.dim(p)
    full = eq0(sub(sub(K.size(a0), proj(d, ('f', 0))), const(1)))
    grown = [q for q, n in top.next.items() if hasattr(q, 'op') and n is d]
    if len(grown) != 1:
        stuck = [q for q, n in top.next.items() if hasattr(q, 'op') and n is q and q in subterms(some)]
        stuck += [x for x in subterms(some) if x is eq0(sub(C.dim(J.args[2]), d))]
        verdict(ck, fn, 'ends when nothing is added', False, bool(stuck), 'the dimension is compared with that of the first round')
        return
    prev = grown[0]
    same = eq0(sub(prev, d))
    exits = [x for x in subterms(some) if x.op == 'any' and p in subterms(x)]
    Sb = mk('isin', mk('at', 'dimension'), mk('at', 'before'))
    kinds = {}
    for x in exits:
        b = subst(x.args[1], {same: Sb, eq0(sub(d, prev)): Sb})
        v = []
        for n in range(1, 5):
            for e in range(n):
                for s in (False, True):
                    q = truth(b, {isv(d, 1): True, isv(d, 0): False, Sb: s, K.size(a0): n, proj(d, ('f', 0)): e})
                    v.append((q, e + 1 == n, s))
        if any(q is None for q, _, _ in v):
            # other conditions, none of which looks at what was joined last: neither reason to stop
            env = {isv(d, 1): True, isv(d, 0): False, Sb: False, K.size(a0): 4, proj(d, ('f', 0)): 1}
            ats = set()
            split(b, ats)
            free = [y for y in ats if truth(y, env) is None]
            if 0 < len(free) <= 6 and not any(contains(y, lambda z: z is d or z is p) or not understood(subst(y, {prev: mk('at', 'before'), J: mk('at', 'J')})) for y in free):
                if any(truth(b, {**env, **dict(zip(free, bits))}) for bits in itertools.product((False, True), repeat=len(free))):
                    kinds[x] = 'early'
                    continue
        kinds[x] = 'unknown' if any(q is None for q, _, _ in v) else 'all' if all(q == f for q, f, _ in v) else 'stop' if all(q == (s and not f) for q, f, s in v) else 'other'
    early = [x for x in exits if kinds[x] == 'early']
    if early:
        verdict(ck, fn, 'ends when all is joined or nothing is added', False, True, 'it also ends when %s' % show(early[0].args[1])[:300])
        return
    A, B = [x for x in exits if kinds[x] == 'all'], [x for x in exits if kinds[x] == 'stop']
    if not A or not B or len(A) + len(B) != len(exits):
        verdict(ck, fn, 'ends when all is joined or nothing is added', False, 'other' in kinds.values() and 'unknown' not in kinds.values() and not (A and B), 'it ends when %s' % '; '.join(show(x.args[1])[:200] for x in exits if kinds[x] == 'other'))
        return
    a, b = A[0], B[0]
    m = {x: a for x in A}
    m.update({x: b for x in B})
    s = subst(some, m)
    yes, no = settled(s, [gt0(length(M)), a]), settled(s, [gt0(length(M)), lnot(a), b])
    verdict(ck, fn, 'all joined is connected', yes is TRUE, yes is FALSE, 'a complex whose cells are all joined is not connected')
    verdict(ck, fn, 'anything left is not connected', no is FALSE, no is TRUE, 'a complex with cells left is connected')


def plain(t):
    """A term made of sums, branches and quotients without a minus sign."""
    if t.op in ('cast', 'sum'):
        return plain(t.args[-1])
    if t.op == 'ite':
        return plain(t.args[1]) and plain(t.args[2])
    if t.op == 'idiv':
        return t.args[0].op == 'phi' and t.args[1].op == 'phi'
    p = to_poly(t)
    return all(k > 0 for k in p.values()) and all(v is not t and plain(v) for mo in p for v, _ in mo)


def counting(ck, rep, C, K, S):
    fn = find(ck, 'n_cells_of_dim', CPLX)
    if fn is None:
        return
    r = ck.run(fn)
    M = K.maximal(a0)
    out = [x for x in phis(r.ret)]
    if len(out) != 1 or loop_of(r, out[0]) is None:
        # a plain sum over the sizes of sets
        verdict(ck, fn, 'the signs alternate', False, plain(r.ret) and contains(r.ret, lambda x: x.op == 'sum' and contains(x.args[-1], lambda y: y.op == 'idiv')), 'every size of sets has the same sign')
        return
    P = out[0]
    lp = loop_of(r, P)
    nx = lp.next.get(P)
    verdict(ck, fn, 'starts with none', cval(P.args[2]) == 0, closed(P.args[2]), 'the count starts at %s' % show(P.args[2])[:100])
    if nx is None:
        rep.count('undecided')
        return
    # sets of 1, 2, ... maximal cells
    sizes = {x.args[1] for l2 in r.interp.loop_objs.values() for q, n in l2.next.items() if hasattr(q, 'op') and n is not None for x in subterms(n) if x.op == 'tuples' and lp.iv in subterms(x.args[1])}
    lists = {x.args[0] for l2 in r.interp.loop_objs.values() for q, n in l2.next.items() if hasattr(q, 'op') and n is not None for x in subterms(n) if x.op == 'tuples'}
    if len(sizes) != 1:
        rep.count('undecided')
        return
    k = sizes.pop()
    verdict(ck, fn, 'sets of maximal cells', lists == {M}, all(understood(x) for x in lists), 'the sets are taken of %s' % ', '.join(show(x)[:100] for x in lists))
    first = subst(k, {lp.iv: const(0)})
    verdict(ck, fn, 'sets of all sizes from one on', cval(first) == 1 and sub(k, lp.iv) is const(1), closed(k), 'the sizes of the sets are %s' % show(k)[:100])
    bk = [c for b, _ in lp.backs for c in b]
    stops = [l for c in bk for l in c if lp.iv in subterms(l) and understood(l) and not contains(l, lambda x: x.op == 'tuples')]
    verdict(ck, fn, 'up to all maximal cells', bool(bk) and all(entails([gt0(sub(length(M), lp.iv)), gt0(length(M))], l) for l in stops), all(understood(l) for l in stops), 'it goes on while %s' % ' and '.join(show(l)[:100] for l in stops))
    # meets
    mt = [(l2, q, n) for l2 in r.interp.loop_objs.values() for q, n in l2.next.items() if hasattr(q, 'op') and n is not None and n.op == 'meet']
    if not mt:
        verdict(ck, fn, 'the common cell', False, False, '')
    for l2, q, n in mt:
        ts = [x for x in subterms(n.args[1]) if x.op == 'tuples']
        e = n.args[1]
        ok = n.args[0] is q and e.op == 'proj' and e.args[1] == ('ix', l2.iv) and e.args[0].op == 'proj' and e.args[0].args[0].op == 'tuples'
        verdict(ck, fn, 'the common cell', ok, not ts and understood(e), 'the common cell is made with %s' % show(e)[:200])
        i = q.args[2]
        w = mk('at', 'w')
        w.nn = True
        if i.op == 'proj':
            continue
        el = settled(deep_el(seq_el(C.words(i), w)), [gt0(sub(seq_len(C.words(i)), w))])
        full = el.op == 'bitnot' and cval(el.args[0]) == 0 or cval(el) in (-1, 2 ** 64 - 1)
        nw = seq_len(C.words(i))
        verdict(ck, fn, 'starts with all vertices', full, closed(el), 'it starts with the words %s' % show(el)[:100])
        sz = K.size(a0)
        fs = division(nw, [gt0(sz)])
        verdict(ck, fn, 'room for all vertices', settled_len(gt0(add(sub(mul(const(64), nw), sz), const(1))), fs) is True, few_words(nw, sz), 'there are %s words for %s vertices' % (show(nw)[:100], show(sz)[:60]))
    # signs
    sg = [q for q in phis(nx) if q is not P and loop_of(r, q) is lp]
    if len(sg) == 1:
        s = sg[0]
        n2 = lp.next.get(s)
        if s.args[2] in (TRUE, FALSE):
            flips = n2 is lnot(s)
            pos = lambda v: sub(settled(nx, [s] if v else [lnot(s)]), P)
        else:
            flips = n2 is not None and decide_eq(add(n2, s), const(0), [])[0] == 'eq'
            pos = lambda v: sub(subst(nx, {s: const(1 if v else -1)}), P)
        verdict(ck, fn, 'the signs alternate', flips, n2 is s or n2 in (TRUE, FALSE) or n2 is None, 'the sign becomes %s' % (show(n2)[:100] if n2 is not None else 'the same'))
        up, down = pos(True), pos(False)
        pair = decide_eq(add(up, down), const(0), [])[0] == 'eq'
        head = up if s.args[2] is TRUE or cval(s.args[2]) == 1 else down
        plus = all(k > 0 for k in to_poly(head).values()) and pair
        verdict(ck, fn, 'added and subtracted in turn', pair and plus, pair or decide_eq(up, down, [])[0] == 'eq', 'sets of one size add %s, of the next size %s' % (show(up)[:150], show(down)[:150]))
    else:
        par = [x for x in subterms(nx) if x.op == 'irem' and lp.iv in subterms(x)]
        verdict(ck, fn, 'the signs alternate', False, not sg and not par and not contains(sub(nx, P), lambda x: x.op == 'pow'), 'every size of sets has the same sign')
    # binomials
    ds = [x for x in subterms(nx) if x.op == 'sum']
    ks = {x for y in ds for x in subterms(y.args[-1]) if x.op == 'idiv'}
    done = False
    for x in ks:
        ps = [q for q in (x.args[0], x.args[1]) if q.op == 'phi']
        if len(ps) != 2:
            continue
        done = True
        v = next(y.args[-1] for y in ds if x in subterms(y.args[-1]))
        dd = [y for c in conds_of(v) for y in subterms(c) if y.op == 'proj' and y.args[1] == ('f', 0) and y.args[0].op == 'proj']
        if dd:
            dd = max(dd, key=lambda y: len(str(y)))
            hi, lo = settled(v, [gt0(add(sub(dd, a1), const(1)))]), settled(v, [gt0(sub(a1, dd))])
            verdict(ck, fn, 'choosing: some', hi is x, cval(hi) is not None or hi.op == 'ite' and closed(subst(hi.args[0], {dd: mk('at', 'dim')})), 'the cells of a cell that is large enough are %s' % show(hi)[:200])
            verdict(ck, fn, 'choosing: none', cval(lo) == 0, lo is x or cval(lo) is not None, 'the cells of a cell that is too small are %s' % show(lo)[:200])
        for q, name in zip(ps, ('numerator', 'denominator')):
            l2 = loop_of(r, q)
            n = l2.next.get(q) if l2 is not None else None
            f = factor(n, q) if n is not None else None
            verdict(ck, fn, 'the %s starts at 1' % name, cval(q.args[2]) == 1, closed(q.args[2]), 'it starts at %s' % show(q.args[2])[:100])
            if f is None:
                rep.count('undecided')
                continue
            if name == 'denominator':
                verdict(ck, fn, 'choosing: the denominator', f is add(l2.iv, const(1)), closed(f), 'the factors of the denominator are %s' % show(f)[:100])
            else:
                d = [y for y in subterms(f) if y.op == 'proj' and y.args[1] == ('f', 0)]
                top = [y for y in d if y.args[0].op == 'proj']
                dim = max(top, key=lambda y: len(str(y))) if top else None
                if dim is None:
                    rep.count('undecided')
                    continue
                dv = mk('at', 'dim')
                g = subst(f, {dim: dv})
                up, down = add(sub(dv, a1), add(const(1), l2.iv)), sub(add(dv, const(1)), l2.iv)
                verdict(ck, fn, 'choosing: the numerator', g in (up, down), closed(g), 'the factors of the numerator are %s' % show(g)[:100])
            cs = [z for b, _ in l2.backs for z in b]
            rng = [l for z in cs for l in z if l2.iv in subterms(l)]
            verdict(ck, fn, 'choosing: as many factors as vertices (%s)' % name, bool(rng) and all(equivalent(l, gt0(sub(add(a1, const(1)), l2.iv)), []) for l in rng), all(understood(l) for l in rng), 'the factors go on while %s' % ' and '.join(show(l)[:100] for l in set(rng)))
    if not done:
        rep.count('undecided')


def factor(n, q):
    """f with n = f * q."""
    out = {}
    for mo, k in to_poly(n).items():
        m = dict(mo)
        if m.get(q) != 1:
            return None
        del m[q]
        out[tuple((v, e) for v, e in mo if v is not q)] = k
    t = const(0)
    for mo, k in out.items():
        x = const(k)
        for v, e in mo:
            for _ in range(e):
                x = mul(x, v)
        t = add(t, x)
    return t


def bounding(ck, rep, C, K, S):
    fn = ck.one('boundary_map of simplicial complexes', crate='topo_spaces', name='boundary_map', implself=CPLX, trait='Complex')
    rep.count('operations')
    if fn is None:
        return
    from matdom import mel, deep_mel, msize
    r = ck.run(fn)
    D = mk('cdim', a0)
    D.nn = True
    t = r.ret
    ck.same(fn, 'one map for each dimension', seq_len(t), add(D, const(1)))
    k = mk('at', 'k')
    k.nn = True
    e = seq_el(t, k)
    ms = [x for x in subterms(proj(e, ('f', 0))) if x.op == 'phi']
    bs = [x for x in subterms(proj(e, ('f', 1))) if x.op == 'phi']
    if not ms or not bs:
        ms = bs = [p for l in r.interp.loop_objs.values() for p in l.next if hasattr(p, 'op') and p.op == 'phi']
    maps = [x for x in ms if x.args[2].op == 'repeat' and x.args[2].args[0].op in ('mconst', 'mnew')]
    bases = [x for x in bs if x.args[2].op == 'repeat' and x.args[2].args[0].op == 'agg']
    if len(set(maps)) != 1 or len(set(bases)) != 1:
        rep.count('undecided')
        return
    maps, bases = maps[0], bases[0]
    lp = loop_of(r, maps)
    if lp is None or loop_of(r, bases) is not lp:
        rep.count('undecided')
        return
    cells = [p for p in lp.next if hasattr(p, 'op') and p.op == 'phi' and contains(p.args[2], lambda x: x.op == 'cells')]
    if len(cells) != 1:
        top = [x for x in subterms(lp.next[bases]) if x.op == 'cells' and x.args[1] is D]
        verdict(ck, fn, 'one dimension down', False, not cells and bool(top), 'every dimension has the cells of the top dimension')
        return
    P = cells[0]
    low = lp.next[P]
    top = P.args[2]
    verdict(ck, fn, 'starts with the cells of the top dimension', top.op == 'cells' and top.args[0] is a0 and top.args[1] is D and isv(top.args[2], 0) is TRUE, understood(top), 'it starts with %s' % show(top)[:200])
    bk = [c for b, _ in lp.backs for c in b]
    verdict(ck, fn, 'all dimensions above zero', bool(bk) and all(entails([gt0(sub(D, lp.iv))], l) for c in bk for l in c) and not contradictory([gt0(sub(D, lp.iv))]),
            all(understood(l) for c in bk for l in c), 'it goes on while %s' % (' and '.join(show(l)[:100] for l in bk[0]) if bk else ''))
    n = sub(D, lp.iv)
    o = proj(low.args[2], ('f', 0)) if low.op == 'cells' else low
    while o.op in ('rv', 'deref'):
        o = o.args[0]
    verdict(ck, fn, 'one dimension down', low.op == 'cells' and low.args[0] is a0 and low.args[1] is sub(n, const(1)) and isv(low.args[2], 1) is TRUE and o is P,
            low is P or low.op == 'cells' and understood(subst(low, {P: mk('at', 'cells')})), 'the next cells are %s' % show(low)[:200])
    nm, nb = lp.next[maps], lp.next[bases]
    sym = {P: mk('at', 'cells'), low: mk('at', 'lower')}
    # bases
    j = mk('at', 'j')
    j.nn = True

    def basis(what, t, cs, facts):
        ck.same(fn, what + ': number of cells', subst(seq_len(t), sym), subst(length(cs), sym), facts)
        el = settled(deep_el(seq_el(t, j)), facts + [gt0(sub(length(cs), j))])
        verdict(ck, fn, what + ': the cells', el is mk('simplex', a0, proj(cs, ('ix', j))), understood(subst(el, sym)), 'a cell of the basis is %s' % show(subst(el, sym))[:200])
    if nb.op == 'upd' and nb.args[0] is bases:
        verdict(ck, fn, 'the basis of a dimension: place', nb.args[1] == ('ix', n), nb.args[1][0] == 'ix' and closed(nb.args[1][1]), 'the basis goes to the place %s' % show(nb.args[1][1])[:100])
        basis('the basis of a dimension', nb.args[2], P, [])
    else:
        verdict(ck, fn, 'the basis of a dimension: place', False, nb is bases, 'the bases are not stored')
    if nm.op == 'upd' and nm.args[0] is maps:
        verdict(ck, fn, 'the map of a dimension: place', nm.args[1] == ('ix', n), nm.args[1][0] == 'ix' and closed(nm.args[1][1]), 'the map goes to the place %s' % show(nm.args[1][1])[:100])
        signs(ck, rep, fn, r, nm.args[2], P, low)
    else:
        verdict(ck, fn, 'the map of a dimension: place', False, nm is maps, 'the maps are not stored')
    # dimension 0
    z = [gt0(add(D, const(1)))]
    b0 = seq_el(subst(proj(e, ('f', 1)), {}), k)
    em, eb = proj(e, ('f', 0)), proj(e, ('f', 1))
    em, eb = settled(subst(em, {k: const(0)}), []), settled(subst(eb, {k: const(0)}), [])
    for what, x in (('map', em), ('basis', eb)):
        if contains(x, lambda y: y.op == 'call'):
            rep.count('undecided')
            return
    verdict(ck, fn, 'the map of dimension zero', em.op == 'mconst' and cval(em.args[2]) == 0 and decide_eq(em.args[1], length(P), [])[0] == 'eq', em.op == 'mconst' or em.op == 'proj' and em.args[0] is maps, 'it is %s' % show(em)[:200])
    if eb.op in ('collect', 'agg', 'fmap'):
        basis('the basis of dimension zero', eb, P, [])
    else:
        verdict(ck, fn, 'the basis of dimension zero', False, eb.op == 'proj' and eb.args[0] is bases, 'the vertices are left out')
    accepts(ck, fn, r, [])


def signs(ck, rep, fn, r, t, P, low):
    """The matrix of one boundary map: columns are cells, rows faces, with alternating signs."""
    if t.op != 'phi' or loop_of(r, t) is None:
        verdict(ck, fn, 'the entries', False, t.op == 'mconst' or t.op == 'fmap' and all(closed(e[3]) for e in t.args[1]), 'the map is %s' % show(t)[:100])
        return
    ini = t.args[2]
    ok = ini.op == 'mconst' and cval(ini.args[2]) == 0
    verdict(ck, fn, 'the size of a map', ok and ini.args[0] is length(low) and ini.args[1] is length(P), ini.op == 'mconst', 'the map starts as %s' % show(ini)[:200])
    lc = loop_of(r, t)
    bk = [c for b, _ in lc.backs for c in b]
    mine = [l for c in bk for l in c if lc.iv in subterms(l)]
    verdict(ck, fn, 'all cells', bool(mine) and all(entails([gt0(sub(length(P), lc.iv))], l) for l in mine), all(understood(subst(l, {P: mk('at', 'cells'), low: mk('at', 'lower')})) for l in mine), 'the columns go on while %s' % ' and '.join(show(l)[:100] for l in mine[:2]))
    inner = lc.next.get(t)
    if inner is None or inner.op != 'phi' or inner.args[2] is not t or loop_of(r, inner) is None:
        verdict(ck, fn, 'the entries', False, inner is t, 'nothing is written')
        return
    lr = loop_of(r, inner)
    nx = lr.next.get(inner)
    own = []
    if nx is not None and nx.op == 'ite' and inner in (nx.args[1], nx.args[2]):
        w = nx.args[0] if nx.args[2] is inner else lnot(nx.args[0])
        own = [w]
        nx = nx.args[1] if nx.args[2] is inner else nx.args[2]
    if nx is None or nx.op != 'upd' or nx.args[0] is not inner:
        verdict(ck, fn, 'the entries', False, nx is inner, 'nothing is written')
        return
    p, v = nx.args[1], nx.args[2]
    verdict(ck, fn, 'row and column', p == ('ix2', lr.iv, lc.iv), p[0] == 'ix2' and all(closed(x) for x in p[1:]), 'the sign is written at %s' % ', '.join(show(x)[:60] for x in p[1:]))
    rows = [frozenset(members(l) for l in list(c) + own) for b, _ in lr.backs for c in b]
    rows = [c for c in rows if not contradictory(list(c))]
    face = mk('isin', proj(low, ('ix', lr.iv)), mk('faces', proj(P, ('ix', lc.iv))))
    ls = {l for c in rows for l in c if lr.iv in subterms(l)}
    msz = lambda l: contains(l, lambda x: x.op == 'msize')
    rest = [l for l in ls if l is not face and not msz(l)]
    fs = [gt0(sub(length(low), lr.iv))]
    verdict(ck, fn, 'the rows of the faces', all(face in c for c in rows) and bool(rows) and all(entails(fs, l) for l in rest),
            all(understood(subst(l, {P: mk('at', 'cells'), low: mk('at', 'lower')})) for l in ls), 'a sign is written where %s' % ' and '.join(show(subst(l, {P: mk('at', 'cells'), low: mk('at', 'lower')}))[:150] for l in ls))
    if v.op == 'phi' and loop_of(r, v) is lr:
        nv = lr.next.get(v)
        if own and nv is not None:
            off = settled(nv, [lnot(own[0])])
            verdict(ck, fn, 'only faces turn the sign', off is v, understood(subst(off, {v: mk('at', 'sign')})) and not contains(off, lambda x: x.op == 'ite'), 'without a face the sign becomes %s' % show(off)[:100])
        nv = settled(nv, own) if nv is not None else None
        verdict(ck, fn, 'the signs alternate', nv is not None and decide_eq(add(nv, v), const(0), [])[0] == 'eq', nv is None or nv is v or closed(nv) or nv.op == 'ite' and v in nv.args[1:] and understood(subst(nv, {v: mk('at', 'sign')})), 'the sign becomes %s' % (show(nv)[:100] if nv is not None else 'the same'))
        verdict(ck, fn, 'every column starts anew', cval(v.args[2]) in (1, -1), v.args[2].op == 'phi' or closed(v.args[2]), 'the first sign of a column is %s' % show(v.args[2])[:100])
    else:
        verdict(ck, fn, 'the signs alternate', False, closed(v), 'every entry is %s' % show(v)[:100])
