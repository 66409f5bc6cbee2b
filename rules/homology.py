"""T12: homology is assembled from the ranks and divisors of the boundary maps."""
from spec import *
import absint, models
from matdom import target_ref
from graphs import understood, settled, fields, equivalent, a0, a1, a2
from cubes import verdict, phis, loop_of, accepts
from simplices import models_rv, plain, truth, number

INT = 'IntegralHomology<T>'
MOD = 'lin_alg::Module<Coeff>'


def algebra(I, op, name, fn, args, st, pc, at):
    """Normal forms, ranks and products as opaque terms (T06, T02, T10 decide them)."""
    if fn is None or fn.kind == 'closure' or fn.crate != 'alg':
        return NotImplemented
    own, v = fn.implself or '', lambda: [models_rv(I.reify(st, models.val(I, st, a))) for a in args]
    mat = own.startswith('lin_alg::Matrix') or own.startswith('lin_alg::SubMatrix')
    if mat and fn.name == 'smith_normal_form':
        x = v()[0]
        return mk('agg', ('tuple',), *[mk('snf', i, x) for i in range(5)]), st, pc
    if mat and fn.name == 'rank_as_linear_map':
        return mk('rank', *v()), st, pc
    if mat and fn.name == 'size':
        x = v()[0]
        out = []
        for k in (0, 1):
            y = mk('msize', x.args[1] if x.op == 'snf' and x.args[0] == 2 else x, k)
            y.nn = True
            out.append(y)
        return mk('agg', ('tuple',), *out), st, pc
    if mat and fn.name == 'transpose':
        return mk('transpose', *v()), st, pc
    if mat and fn.name == 'identity':
        return mk('identity', *v()), st, pc
    if own.startswith('lin_alg::Module') and fn.name == 'new':
        return mk('module', *v()), st, pc
    if own.startswith('lin_alg::Module') and fn.name == 'is_zero':
        return mk('isin', const(0), mk('zero', *v())), st, pc
    if fn.name == 'mul' and (mat or own.startswith('lin_alg::Vector')):
        return mk('times', *v()), st, pc
    return NotImplemented


def check_T12(prog, rep):
    rep.rule('the assembly of homology is summarised over opaque boundary maps, normal forms, ranks and products: one symbolic round of '
             'the loop over the maps, the state it hands down, and the loops inside it, each compared with its meaning')
    rep.assumptions += ['smith_normal_form gives the normal form with its operations (T06)', 'std Vec/slice/iterator contracts as stated in rules/models.py']
    from matdom import MatChecker
    ck = MatChecker(prog, rep, (algebra,))
    for f in (integral, field, modules, combining, ranking):
        rep.group(f, ck, rep, prog)
    rep.floor('operations', 8)


def find(ck, what, **kw):
    ck.rep.count('operations')
    return ck.one(what, **kw)


def at(n):
    x = mk('at', n)
    x.nn = True
    return x


def last(t):
    return proj(t, ('ix', sub(length(t), const(1))))


# ------------------------------------------------------------------ integral
def integral(ck, rep, prog):
    fn = find(ck, 'IntegralHomology::new', crate='topo_spaces', name='new', implself=INT)
    fs = fields(prog, 'IntegralHomology')
    if fn is None or fs is None:
        return
    r = ck.run(fn)
    maps = [x for x in set(subterms(r.ret)) | {y for l in r.interp.loop_objs.values() for n in l.next.values() if hasattr(n, 'op') for y in subterms(n)} if x.op == 'call' and str(x.args[0]).endswith('boundary_map')]
    tops = []
    for lp in r.interp.loop_objs.values():
        for q, n in lp.next.items():
            if hasattr(q, 'op') and n is not None and n.op == 'push' and n.args[0] is q and n.args[1].op == 'agg' and any(y.op == 'module' for y in n.args[1].args[1:]):
                tops.append((lp, q, n.args[1]))
    if len(tops) != 1 or len(set(maps)) != 1:
        rep.count('undecided')
        return
    M = maps[0]
    lp, L, item = tops[0]
    n = length(M)
    E = {x for x in subterms(item) if x.op == 'proj' and x.args[0] is M and x.args[1][0] == 'ix'}
    down = sub(sub(n, const(1)), lp.iv)
    first = {x for x in E if lp.iv not in subterms(x.args[1][1])}
    own = E - first
    if len(own) != 1:
        rep.count('undecided')
        return
    e = own.pop()
    verdict(ck, fn, 'from the top dimension down', e.args[1][1] is down, closed(e.args[1][1]), 'the map of round i is the one at %s' % show(e.args[1][1])[:100])
    bk = [l for b, _ in lp.backs for c in b for l in c if lp.iv in subterms(l)]
    verdict(ck, fn, 'all dimensions', bool(bk) and all(entails([gt0(sub(n, lp.iv))], l) for l in bk if understood(subst(l, {M: mk('at', 'maps')}))), all(understood(subst(l, {M: mk('at', 'maps')})) for l in bk), 'it goes on while %s' % ' and '.join(show(l)[:100] for l in bk[:3]))
    B, basis = proj(e, ('f', 0)), proj(e, ('f', 1))
    S = mk('snf', 2, B)
    rows, cols = mk('msize', B, 0), mk('msize', B, 1)
    rows.nn = cols.nn = True
    # what is handed down
    st = {q: x for q, x in lp.next.items() if hasattr(q, 'op') and q.op == 'phi' and q is not L}
    mod = next(y for y in item.args[1:] if y.op == 'module')
    cyc, bou = [y for y in item.args[1:] if y is not mod][:2] if len(item.args) == 4 else (None, None)
    D = mod.args[1]
    R = [q for q in st if q in set(subterms(mod.args[0]))] or [q for q in st if q.args[2] is const(0)]
    O = [q for q in st if q.args[2].op == 'identity']
    low = st[R[0]] if len(R) == 1 else None
    m = {M: mk('at', 'maps'), L: mk('at', 'out')}
    m.update({q: mk('at', 'state%d' % i) for i, q in enumerate(st)})
    fine = lambda t: understood(subst(t, m))
    # the free rank
    if low is None:
        rest = add(sub(cols, mod.args[0]), const(0))
        verdict(ck, fn, 'the rank of the map above', False, not R and not contains(mod.args[0], lambda x: x in st), 'the free rank does not use the rank of the map above')
        return
    R = R[0]
    rk = sub(sub(cols, mod.args[0]), R)
    ivs = {l.iv for l in r.interp.loop_objs.values()}
    open_ = lambda t: bool(ivs & set(subterms(t)))
    verdict(ck, fn, 'the free rank', decide_eq(rk, low, [])[0] == 'eq', low is not R and R not in subterms(low) and (R not in subterms(mod.args[0]) or bool({x for x in subterms(mod.args[0]) if x.op == 'msize' and x is not cols}) or rk is not low), 'the free rank is %s' % show(subst(mod.args[0], {low: mk('at', 'rank')}))[:200])
    verdict(ck, fn, 'no rank above the top', R.args[2] is const(0), closed(R.args[2]), 'the rank above the top is %s' % show(subst(R.args[2], m))[:100])
    verdict(ck, fn, 'the rank is handed down', R not in subterms(low), low is R, 'the rank of the map above stays')
    # the rank of the normal form
    i = at('i')
    found = [x for x in subterms(low) if x.op == 'any']
    short = lambda t, k: any(decide_eq(settled(t, [gt0(sub(x, y))]), y, [gt0(sub(x, y))])[0] == 'eq' for x, y in ((rows, cols), (cols, rows))[k:k + 1])
    if len(set(found)) == 1:
        y = found[0]
        for k, (big, small) in enumerate(((rows, cols), (cols, rows))):
            f = [gt0(add(sub(big, small), const(1)))] + ([] if k == 0 else [gt0(sub(big, small))])
            hit, miss = settled(low, f + [y]), settled(low, f + [lnot(y)])
            verdict(ck, fn, 'full rank (%s)' % ('wide', 'tall')[1 - k], miss is small, closed(miss) and miss.op != 'ite' and not open_(miss), 'a normal form without zeros on the diagonal has rank %s' % show(subst(miss, m))[:100])
            fs_ = {x for x in subterms(hit) if x.op == 'first'}
            off = sub(hit, next(iter(fs_))) if len(fs_) == 1 else None
            if off is not None and cval(off) is not None:
                x = fs_.pop()
                b = settled(land(subst(x.args[1], {x.args[0]: sub(i, off)}), gt0(add(sub(i, off), const(1)))), f)
            else:
                b = None
            want = land(gt0(sub(small, i)), eq0(proj(S, ('ix2', i, i))))
            z = {x for x in subterms(b) if x.op == 'proj' and x.args[0] is S} if b is not None else set()
            if len(z) == 1:
                want = land(gt0(sub(small, i)), eq0(z.pop()))
            place = [x.args[1] for x in subterms(b) if x.op == 'proj' and x.args[0] is S] if b is not None else []
            verdict(ck, fn, 'the rank is the first zero (%s)' % ('wide', 'tall')[1 - k], b is not None and equivalent(b, want, f) and place == [('ix2', i, i)], b is not None and fine(b), 'the rank is the first i with %s' % show(subst(b, m) if b is not None else hit)[:200])
    else:
        verdict(ck, fn, 'the rank of a map', False, not found and closed(low) and low.op != 'ite', 'the rank is %s' % show(low)[:200])
    # the divisors
    if D not in st:
        verdict(ck, fn, 'the divisors are those of the map above', False, D.op in ('agg', 'phi') and any(D is x or D.args == x.args for x in st.values()), 'the divisors are %s' % show(subst(D, m))[:200])
    else:
        verdict(ck, fn, 'no divisors above the top', D.args[2].op == 'agg' and len(D.args[2].args) == 1, closed(D.args[2]), 'it starts with %s' % show(D.args[2])[:100])
        dividing(ck, rep, fn, r, st[D], low, S, B, m)
    # the bases
    if cyc is None:
        rep.count('undecided')
        return
    C = mk('times', mk('transpose', mk('snf', 3, B)), basis)
    part(ck, rep, fn, 'cycles', cyc, C, lambda j: gt0(add(sub(j, low), const(1))), lambda v, j: v is proj(C, ('ix', j)), m)
    if len(O) != 1:
        verdict(ck, fn, 'the operations are handed down', False, not O and not contains(bou, lambda x: x.op == 'snf'), 'the boundaries do not use the normal form of the map above')
        return
    O = O[0]
    n1 = [x.args[1][1] for x in subterms(O.args[2]) if x.op == 'proj' and x.args[0] is M and x.args[1][0] == 'ix']
    verdict(ck, fn, 'above the top is nothing', O.args[2].args[0].op == 'msize' and O.args[2].args[0].args[1] == 1 and all(x is sub(n, const(1)) for x in n1), closed(subst(O.args[2], m)), 'it starts with the operations %s' % show(O.args[2])[:100])
    verdict(ck, fn, 'the operations are handed down', st[O] is mk('snf', 0, B), st[O].op == 'snf' or st[O] is O, 'the operations handed down are %s' % show(subst(st[O], m))[:100])
    C2 = mk('times', mk('transpose', O), basis)

    def bounds(v, j):
        if v.op != 'times' or v.args[0] is not proj(C2, ('ix', j)):
            return False
        k = v.args[1]
        return walking(ck, rep, fn, r, k, D, j)
    part(ck, rep, fn, 'boundaries', bou, C2, lambda j: gt0(sub(R, j)), bounds, m)
    ending(ck, rep, fn, r, L, fs, item, mod, cyc, bou)
    accepts(ck, fn, r, [gt0(n), lnot(isv(a1, 1))], 'accepts without bound') if False else None


def part(ck, rep, fn, what, t, C, keep, member, m):
    if t.op != 'collect':
        verdict(ck, fn, 'the %s' % what, False, t is C or t.op == 'agg', 'they are %s' % show(subst(t, m))[:200])
        return
    iv, n, cs, val = t.args
    j = at('j')
    within = [gt0(sub(x, iv)) for x in (n.args[0] if n.op == 'min' else [n])]
    at_ = {x.args[1][1] for x in subterms(val) if x.op == 'proj' and x.args[1][0] == 'ix' and x.args[0].op == 'times'}
    off = sub(at_.pop(), iv) if len(at_) == 1 else const(0)
    if off is not const(0) and iv not in set(subterms(off)):
        here = sub(j, off)
        val = subst(val, {iv: here})
        within, cs = [subst(x, {iv: here}) for x in within] + [gt0(add(here, const(1)))], [subst(x, {iv: here}) for x in cs]
    b = subst(land(*within, *cs), {iv: j})
    want = land(gt0(sub(length(C), j)), keep(j))
    own = [x for x in subterms(subst(val, {iv: j})) if x.op == 'times' and x.args[1] is C.args[1]]
    verdict(ck, fn, 'the %s: combinations' % what, bool(own) and all(x is C for x in own), bool(own) and all(understood(subst(x, m)) for x in own), 'they are taken from %s' % ', '.join(show(subst(x, m))[:100] for x in own[:2]))
    if not own or own[0] is not C:
        return
    verdict(ck, fn, 'the %s: which' % what, equivalent(b, want, []), all(understood(subst(l, m)) for l in (b.args[0] if b.op == 'and' else [b])) or not contains(b, lambda x: x.op in ('call', 'phi') and x not in m), 'they are those with %s' % show(subst(b, m))[:200])
    v = subst(val, {iv: j})
    ok = member(v, iv if False else j)
    if ok is None:
        rep.count('undecided')
    else:
        verdict(ck, fn, 'the %s: members' % what, ok, understood(subst(v, m)) and not contains(v, lambda x: x.op == 'first'), 'a member is %s' % show(subst(v, m))[:200])


def walking(ck, rep, fn, r, k, D, j):
    """k is the divisor of the j-th vector: the groups are walked until they cover j."""
    def other(y):
        return y.op == 'proj' and y.args[0].op == 'proj' and y.args[0].args[0] is D and y.args[1] != ('f', 0)
    if other(k) or any(other(y) for y in k.args if hasattr(y, 'op')):
        verdict(ck, fn, 'the boundaries: members', False, True, 'they are taken times the multiplicity, not the divisor')
        return True
    if k.op != 'proj' or k.args[1] != ('f', 0) or k.args[0].op != 'proj' or k.args[0].args[0] is not D:
        return False if closed(k) or k.op == 'proj' and k.args[0].op == 'proj' and k.args[0].args[0] is D else None
    g = k.args[0].args[1][1]
    if g.op != 'first':
        return False if understood(subst(g, {D: mk('at', 'divisors')})) else None
    ps = [x for x in subterms(g.args[1]) if x.op == 'phi' and x is not D]
    if not ps:
        c = subst(subst(g.args[1], {g.args[0]: at('group')}), {D: mk('at', 'divisors')})
        verdict(ck, fn, 'walking the divisors', False, understood(c) and not contains(c, lambda x: x.op in ('sum', 'prod', 'collect')), 'the j-th vector belongs to the first group with %s' % show(c)[:200])
        return True
    if len(set(ps)) != 1:
        return None
    # the phi of the walk, before j was put in
    p = ps[0]
    q = next((y for l in r.interp.loop_objs.values() for y in l.next if hasattr(y, 'op') and y.op == 'phi' and y.args[:2] == p.args[:2]), None)
    lw = loop_of(r, q) if q is not None else None
    if lw is None or lw.next.get(q) is None:
        return None
    t = at('rest')
    mul = proj(proj(D, ('ix', lw.iv)), ('f', 1))
    verdict(ck, fn, 'walking the divisors: start', p.args[2] is j, closed(p.args[2]), 'the walk starts at %s' % show(p.args[2])[:100])
    verdict(ck, fn, 'walking the divisors: step', lw.next[q] is sub(q, mul), understood(subst(lw.next[q], {q: t, D: mk('at', 'divisors')})), 'a group takes off %s' % show(subst(sub(q, lw.next[q]), {q: t, D: mk('at', 'divisors')}))[:100])
    c = subst(g.args[1], {p: t, g.args[0]: lw.iv})
    want = gt0(sub(mul, t))
    cs = [l for l in (c.args[0] if c.op == 'and' else [c]) if t in subterms(l)]
    verdict(ck, fn, 'walking the divisors: end', len(cs) == 1 and equivalent(cs[0], want, []), bool(cs) and all(understood(subst(l, {D: mk('at', 'divisors')})) for l in cs), 'the walk ends when %s' % ' and '.join(show(subst(l, {D: mk('at', 'divisors')}))[:100] for l in cs))
    return True


def leaves(t):
    """The values of a distinction, unless it depends on them."""
    if t.op != 'ite':
        return [t]
    c = set(subterms(t.args[0]))
    return [y for z in t.args[1:] for y in leaves(z) if y not in c]


def dividing(ck, rep, fn, r, x, low, S, B, m):
    """The divisors, grouped with their multiplicities."""
    if x.op != 'phi' or loop_of(r, x) is None:
        verdict(ck, fn, 'the divisors', False, x.op == 'agg' or x in m, 'they are %s' % show(subst(x, m))[:200])
        return
    lp = loop_of(r, x)
    nx = lp.next.get(x)
    verdict(ck, fn, 'the divisors start anew', x.args[2].op == 'agg' and len(x.args[2].args) == 1, closed(x.args[2]) or any(y in m for y in leaves(x.args[2])), 'the divisors of a map start with %s' % show(subst(x.args[2], m))[:100])
    ls = {l for b, _ in lp.backs for c in b for l in c if lp.iv in subterms(l)}
    k = mk('at', 'rank')
    ls = {subst(l, {low: k}) for l in ls}
    mine = [l for l in ls if k in subterms(l) or not contains(l, lambda y: y.op == 'msize')]
    verdict(ck, fn, 'one for each nonzero entry', bool(mine) and all(entails([gt0(sub(k, lp.iv))], l) for l in mine), all(understood(subst(l, m)) for l in mine), 'the divisors go on while %s' % ' and '.join(show(subst(l, m))[:100] for l in mine))
    if nx is None:
        rep.count('undecided')
        return
    ds = {y for y in subterms(nx) if y.op in ('abs', 'mel', 'proj') and S in subterms(y)}
    top = [y for y in ds if not any(y in subterms(z) and z is not y for z in ds)]
    if len(top) != 1:
        rep.count('undecided')
        return
    d = top[0]
    en = [y for y in ds if y.op != 'abs']
    verdict(ck, fn, 'divisors are positive', d.op == 'abs', d.op in ('mel', 'proj'), 'a divisor is %s' % show(subst(d, m))[:100])
    verdict(ck, fn, 'divisors are on the diagonal', all(y.args[1] == ('ix2', lp.iv, lp.iv) for y in en if y.op == 'proj'), any(y.op == 'proj' and y.args[1][0] == 'ix2' and all(closed(z) for z in y.args[1][1:]) for y in en), 'a divisor is %s' % show(subst(d, m))[:100])
    w = mk('at', 'divisor')
    t = subst(nx, {d: w})
    old, least = proj(last(x), ('f', 0)), proj(proj(x, ('ix', const(0))), ('f', 0))
    P, some = mk('at', 'divisors'), gt0(length(x))
    many = [some, gt0(sub(length(x), const(1))), gt0(sub(w, least)), lnot(eq0(sub(w, least))), lnot(eq0(length(x)))]
    show_ = lambda y: show(subst(y, {x: P}))[:200]
    fine = lambda y: understood(subst(y, {x: P})) and y.op != 'ite'
    cases = (('the first divisor', [eq0(length(x)), lnot(some)], True), ('a new divisor', many + [gt0(sub(w, old)), lnot(eq0(sub(w, old)))], True), ('a divisor again', many + [eq0(sub(w, old))], False))
    for what, f, new in cases:
        y = settled(t, f)
        if what == 'a new divisor' and y.op == 'ite':
            y = settled(subst(y, {old: const(2), w: const(4)}), f[:2])
            ok = y.op == 'push'
        elif new:
            ok = y.op == 'push' and y.args[0] is x and y.args[1].op == 'agg' and len(y.args[1].args) == 3 and decide_eq(y.args[1].args[1], w, f)[0] == 'eq' and cval(y.args[1].args[2]) == 1
        else:
            ok = y.op == 'upd' and y.args[0] is x and y.args[1] == ('ix', sub(length(x), const(1)))
            z = y.args[2] if ok else None
            ok = ok and decide_eq(proj(z, ('f', 1)), add(proj(last(x), ('f', 1)), const(1)), f)[0] == 'eq' and decide_eq(proj(z, ('f', 0)), proj(last(x), ('f', 0)), f)[0] == 'eq'
        verdict(ck, fn, what, ok, fine(y), 'the divisors become %s' % show_(y))


def ending(ck, rep, fn, r, L, fs, item, mod, cyc, bou):
    """What leaves the loop: reversed, cut at the bound, without zero modules at the end."""
    where = {id(y): i - 1 for i, y in enumerate(item.args) if hasattr(y, 'op')}
    names = {'homology': where.get(id(mod)), 'cycles': where.get(id(cyc)), 'boundaries': where.get(id(bou))}
    ret = r.ret
    if ret.op != 'agg':
        rep.count('undecided')
        return
    hs = [i for i, t in enumerate(fs) if 'Module' in t]
    srcs = []
    for i, y in enumerate(ret.args[1:]):
        if y.op != 'collect':
            rep.count('undecided')
            return
        iv, n, cs, val = y.args
        ok = val.op == 'proj' and val.args[1][0] == 'f' and val.args[0].op == 'proj' and val.args[0].args[1] == ('ix', iv) and decide_eq(n, length(val.args[0].args[0]), [])[0] == 'eq'
        if not ok:
            nob = [lnot(isv(a1, 1)), isv(a1, 0)]
            v0, n0 = settled(val, nob), settled(n, nob)
            if v0.op == 'proj' and v0.args[0].op == 'proj' and v0.args[0].args[0].op == 'phi' and v0.args[0].args[0].args[:2] == L.args[:2] and n0 is length(v0.args[0].args[0]):
                verdict(ck, fn, 'zero modules at the end', False, True, 'zero modules at the end stay')
                return
            verdict(ck, fn, 'the parts: %d' % i, False, closed(val), 'a part is %s' % show(val)[:100])
            return
        srcs.append((val.args[0].args[0], val.args[1][1]))
        if i in hs:
            verdict(ck, fn, 'the modules', val.args[1][1] == names['homology'] and not cs, True, 'the modules are something else')
        else:
            want = names['cycles'] if i == min(k for k in range(3) if k not in hs) else names['boundaries']
            verdict(ck, fn, 'the bases: %d' % i, val.args[1][1] == want and not cs, val.args[1][1] in names.values(), 'cycles and boundaries are mixed up')
    if len({s for s, _ in srcs}) != 1:
        verdict(ck, fn, 'parts of the same dimensions', False, False, '')
        return
    Z = srcs[0][0]
    lz = loop_of(r, Z) if Z.op == 'phi' else None
    if lz is None:
        verdict(ck, fn, 'zero modules at the end', False, Z.op == 'reversed', 'zero modules at the end stay')
        return
    nz = lz.next.get(Z)
    verdict(ck, fn, 'zero modules at the end: one at a time', nz is not None and nz.op == 'popped' and nz.args[0] is Z, closed(nz) if nz is not None else True, 'the list becomes %s' % (show(subst(nz, {Z: mk('at', 'list')}))[:100] if nz is not None else 'the same'))
    X = mk('at', 'list')
    zero = mk('isin', const(0), mk('zero', proj(last(Z), ('f', names['homology']))))
    ls = {l for b, _ in lz.backs for c in b for l in c if Z in subterms(l)}
    want = {zero, gt0(length(Z))}
    verdict(ck, fn, 'zero modules at the end: which', zero in ls and all(l in want or entails(list(want), l) for l in ls), all(understood(subst(l, {Z: X})) for l in ls), 'it is cut while %s' % ' and '.join(show(subst(l, {Z: X}))[:100] for l in ls))
    I0 = Z.args[2]
    no, yes = settled(I0, [lnot(isv(a1, 1)), isv(a1, 0)]), settled(I0, [isv(a1, 1), lnot(isv(a1, 0))])
    rev = lambda y: y.op == 'reversed' and y.args[0].op == 'phi' and y.args[0].args[:2] == L.args[:2]
    verdict(ck, fn, 'all dimensions without a bound', rev(no), no.op == 'phi' and no.args[:2] == L.args[:2] or no.op == 'reversed', 'the list is %s' % show(no)[:100])
    if yes.op == 'phi' and not rev(yes) and yes.args[:2] != L.args[:2]:
        q = next((y for l in r.interp.loop_objs.values() for y in l.next if hasattr(y, 'op') and y.op == 'phi' and y.args[:2] == yes.args[:2]), None)
        lq = loop_of(r, q) if q is not None else None
        if lq is None:
            rep.count('undecided')
            return
        nq = lq.next.get(q)
        verdict(ck, fn, 'cut at the bound: one at a time', nq is not None and nq.op == 'popped' and nq.args[0] is q and rev(q.args[2]), nq is not None and closed(nq), 'the list becomes %s' % (show(subst(nq, {q: X}))[:100] if nq is not None else 'the same'))
        ls = [l for b, _ in lq.backs for c in b for l in c if q in subterms(l)]
        want = gt0(sub(sub(length(q), const(1)), proj(a1, ('f', 0))))
        ok = bool(ls) and any(equivalent(l, want, []) for l in ls) and all(entails([want], l) for l in ls)
        verdict(ck, fn, 'cut at the bound: until', ok, all(understood(subst(l, {q: X})) for l in ls), 'it is cut while %s' % ' and '.join(show(subst(l, {q: X}))[:100] for l in ls))
    else:
        few = lambda y: rev(y) or y.op == 'popped' and few(y.args[0]) or y.op == 'ite' and few(y.args[1]) and few(y.args[2])
        verdict(ck, fn, 'cut at the bound', False, few(yes), 'dimensions above the bound stay')


# ------------------------------------------------------------------ field coefficients
def known(t):
    """Nothing but ranks and sizes of maps, with plain arithmetic."""
    return understood(subst(t, {x: mk('at', show(x)) for x in subterms(t) if x.op in ('rank', 'msize')})) and t.op != 'ite'


def field(ck, rep, prog):
    fn = find(ck, 'homology', crate='topo_spaces', name='homology')
    if fn is None:
        return
    r = ck.run(fn)
    maps = {x for x in subterms(r.ret) if x.op == 'call' and str(x.args[0]).endswith('get_boundary_map')}
    if len(maps) != 1:
        rep.count('undecided')
        return
    M = maps.pop()
    n = length(M)
    rk, ker = lambda i: mk('rank', proj(M, ('ix', i))), None

    def cols(i):
        y = mk('msize', proj(M, ('ix', i)), 1)
        y.nn = True
        return y
    ker = lambda i: sub(cols(i), rk(i))
    none = settled(r.ret, [eq0(n), lnot(gt0(n))])
    verdict(ck, fn, 'no maps, no homology', none.op == 'agg' and len(none.args) == 1, closed(none), 'it is %s' % show(none)[:100])
    some = settled(r.ret, [gt0(n)])
    if some.op != 'push':
        k = at('k')
        if some.op == 'collect' and not some.args[2]:
            ck.same(fn, 'one for each map', some.args[1], n, [gt0(n)], calls=['get_boundary_map'])
            e = subst(some.args[3], {some.args[0]: k})
            for what, f, want in (('below the top', [gt0(sub(sub(n, const(1)), k))], sub(ker(k), rk(add(k, const(1))))), ('at the top', [eq0(sub(sub(n, const(1)), k))], ker(k))):
                g = settled(e, f)
                verdict(ck, fn, what, decide_eq(g, want, f)[0] == 'eq', known(subst(g, {M: mk('at', 'maps')})) and g.op != 'ite', 'it is %s' % show(subst(g, {M: mk('at', 'maps')}))[:200])
        else:
            verdict(ck, fn, 'the top dimension', False, some.op == 'phi', 'the top dimension is left out')
        return
    top = some.args[1]
    verdict(ck, fn, 'at the top', decide_eq(top, ker(sub(n, const(1))), [])[0] == 'eq', known(subst(top, {M: mk('at', 'maps')})), 'it is %s' % show(subst(top, {M: mk('at', 'maps')}))[:200])
    q = some.args[0]
    if q.op == 'collect' and not q.args[2]:
        iv, m, v = q.args[0], q.args[1], q.args[3]
        verdict(ck, fn, 'one for each map', decide_eq(m, sub(n, const(1)), [gt0(n)])[0] == 'eq', known(subst(m, {M: mk('at', 'maps')})), 'below the top there are %s' % show(subst(m, {M: mk('at', 'maps')}))[:100])
        want = sub(ker(iv), rk(add(iv, const(1))))
        verdict(ck, fn, 'below the top', decide_eq(v, want, [])[0] == 'eq', known(subst(v, {M: mk('at', 'maps')})), 'it is %s' % show(subst(v, {M: mk('at', 'maps')}))[:200])
        accepts(ck, fn, r, [gt0(n)])
        return
    q = next((y for l in r.interp.loop_objs.values() for y in l.next if hasattr(y, 'op') and y.op == 'phi' and q.op == 'phi' and y.args[:2] == q.args[:2]), None)
    lp = loop_of(r, q) if q is not None else None
    nx = lp.next.get(q) if lp is not None else None
    if nx is None or nx.op != 'push' or nx.args[0] is not q:
        verdict(ck, fn, 'below the top', False, False, '')
        return
    ls = [l for b, _ in lp.backs for c in b for l in c if lp.iv in subterms(l)]
    verdict(ck, fn, 'one for each map', bool(ls) and all(entails([gt0(sub(sub(n, const(1)), lp.iv))], l) for l in ls), all(known(subst(l, {M: mk('at', 'maps')})) for l in ls), 'it goes on while %s' % ' and '.join(show(subst(l, {M: mk('at', 'maps')}))[:100] for l in ls))
    v = nx.args[1]
    for p in [x for x in subterms(v) if x.op == 'phi' and loop_of(r, x) is lp]:
        np_ = lp.next.get(p)
        if np_ is None or p in subterms(np_):
            verdict(ck, fn, 'the kernel is handed down', False, np_ is p or np_ is None, 'the kernel stays that of the first map')
            return
        prev = subst(np_, {lp.iv: sub(lp.iv, const(1))})
        verdict(ck, fn, 'the kernel is handed down', decide_eq(subst(prev, {lp.iv: const(0)}), p.args[2], [gt0(n)])[0] == 'eq', known(subst(p.args[2], {M: mk('at', 'maps')})), 'it starts with %s and goes on with %s' % (show(subst(p.args[2], {M: mk('at', 'maps')}))[:100], show(subst(np_, {M: mk('at', 'maps')}))[:100]))
        v = subst(v, {p: prev})
    want = sub(ker(lp.iv), rk(add(lp.iv, const(1))))
    verdict(ck, fn, 'below the top', decide_eq(v, want, [])[0] == 'eq', known(subst(v, {M: mk('at', 'maps')})), 'it is %s' % show(subst(v, {M: mk('at', 'maps')}))[:200])
    accepts(ck, fn, r, [gt0(n)])


# ------------------------------------------------------------------ modules
def modules(ck, rep, prog):
    from matdom import MatChecker
    ck = MatChecker(prog, rep, ())
    fs = fields(prog, 'lin_alg::Module', 'alg') or []
    F = [i for i, t in enumerate(fs) if t == 'usize']
    G = [i for i, t in enumerate(fs) if t.startswith('std::vec::Vec')]
    if len(F) != 1 or len(G) != 1:
        rep.require('anchor:Module', False, 'a module does not consist of a rank and divisors')
        return
    rank, divs = lambda x: proj(x, ('f', F[0])), lambda x: proj(x, ('f', G[0]))
    fn = find(ck, 'Module::new', crate='alg', name='new', implself=MOD)
    if fn is not None:
        r = ck.run(fn)
        ck.same(fn, 'the rank', rank(r.ret), a0)
        t = divs(r.ret)
        if t.op == 'collect':
            iv, n, cs, val = t.args
            j = at('j')
            e = proj(a1, ('ix', j))
            one = [x for x in subterms(land(*cs)) if x.op == 'call' or x.op == 'one'] + [const(1)]
            b = subst(land(gt0(sub(n, iv)), *cs), {iv: j})
            ok = any(equivalent(b, land(gt0(sub(length(a1), j)), lnot(eq0(sub(proj(e, ('f', 0)), o)))), []) for o in one)
            verdict(ck, fn, 'units are left out', ok, understood(subst(b, {o: mk('at', 'one') for o in one if o.op == 'call'})), 'the divisors kept are those with %s' % show(b)[:200])
            verdict(ck, fn, 'the divisors stay', all(decide_eq(proj(val, ('f', k)), proj(proj(a1, ('ix', iv)), ('f', k)), [])[0] == 'eq' for k in (0, 1)), closed(val) and val.op != 'call', 'a divisor becomes %s' % show(val)[:100])
        else:
            verdict(ck, fn, 'units are left out', False, t is a1 or t.op == 'agg', 'the divisors are %s' % show(t)[:100])
        accepts(ck, fn, r, [])
    fn = find(ck, 'Module::is_zero', crate='alg', name='is_zero', implself=MOD)
    if fn is not None:
        r = ck.run(fn)
        want = land(eq0(rank(a0)), eq0(length(divs(a0))))
        verdict(ck, fn, 'zero', equivalent(r.ret, want, []), understood(r.ret), 'a module is zero if %s' % show(r.ret)[:200])
    fn = find(ck, 'Module::is_isomorphic_to', crate='alg', name='is_isomorphic_to', implself=MOD)
    if fn is not None:
        r = ck.run(fn)
        want = land(eq0(sub(rank(a0), rank(a1))), eq0(sub(divs(a0), divs(a1))))
        verdict(ck, fn, 'isomorphic', equivalent(r.ret, want, []), understood(r.ret), 'modules are isomorphic if %s' % show(r.ret)[:200])
    fn = find(ck, 'Module::trivial', crate='alg', name='trivial', implself=MOD)
    if fn is not None:
        r = ck.run(fn)
        ok = cval(rank(r.ret)) == 0 and divs(r.ret).op == 'agg' and len(divs(r.ret).args) == 1
        verdict(ck, fn, 'trivial', ok, closed(r.ret), 'it is %s' % show(r.ret)[:100])


# ------------------------------------------------------------------ linear combinations of cells
def combining(ck, rep, prog):
    fn = find(ck, 'Matrix * cells', crate='alg', name='mul', implself='lin_alg::Matrix<i64>', pred=lambda f: 'Mul<std::vec::Vec<' in f.label())
    if fn is None:
        return
    ck = type(ck)(prog, rep, ())
    r = ck.run(fn)
    rows, cols = msize(a0, 0), msize(a0, 1)
    ck.same(fn, 'one for each row', length(r.ret), rows, [eq0(sub(length(a1), cols))], calls=[])
    k, c = at('row'), mk('sym', 'column')
    t = r.ret
    if t.op != 'collect' or t.args[2]:
        verdict(ck, fn, 'combinations', False, False, '')
        return
    e = subst(t.args[3], {t.args[0]: k})
    iv = mk('sym', 'j')
    ok = e.op == 'sum'
    if ok:
        j, cs, val = e.args
        f = [gt0(sub(cols, j)), eq0(sub(length(a1), cols))]
        ok = equivalent(land(*cs), gt0(sub(cols, j)), f[1:]) and decide_eq(val, mul(proj(a0, ('ix2', k, j)), proj(a1, ('ix', j))), f)[0] == 'eq'
    verdict(ck, fn, 'combinations', ok, understood(subst(e, {a0: mk('at', 'matrix')})) or e.op == 'sum' and all(understood(y) for y in e.args[1]) and understood(e.args[2]), 'a row becomes %s' % show(e)[:200])
    accepts(ck, fn, r, [eq0(sub(length(a1), cols))])


def msize(x, k):
    y = mk('msize', x, k)
    y.nn = True
    return y


def root(x):
    while x.op in ('changed', 'phi', 'ite'):
        x = x.args[1] if x.op == 'changed' else x.args[2]
    return x


def changing(I, op, name, fn, args, st, pc, at):
    """Row and column operations as opaque changes (T27 decides them); they keep the size."""
    if fn is None or fn.crate != 'alg' or fn.kind == 'closure' or 'Matrix' not in (fn.implself or ''):
        return NotImplemented
    if fn.name in ('row_operation', 'col_operation', 'swap_rows', 'swap_cols'):
        ref = target_ref(I, st, args[0])
        if ref is None:
            return NotImplemented
        m = I.content(st, ref)
        a = [models.val(I, st, x) for x in args[1:]]
        st = dict(st)
        I.store(st, ref, mk('changed', fn.name, m, *a), pc, at)
        return tup(), st, pc
    if fn.name == 'size':
        x = root(models_rv(I.reify(st, models.val(I, st, args[0]))))
        return mk('agg', ('tuple',), msize(x, 0), msize(x, 1)), st, pc
    return NotImplemented


def elem(m, i, j, f):
    """Entry (i, j) of a changed matrix, if the facts tell which rows and columns meet."""
    if m.op != 'changed':
        return proj(m, ('ix2', i, j))
    kind, x, a, b = m.args[:4]

    def same(u, v):
        return True if decide_eq(u, v, f)[0] == 'eq' else False if entails(f, lnot(eq0(sub(u, v)))) else None
    at_ = i if 'row' in kind else j
    s = same(at_, a)
    if s is None:
        return None
    e = lambda y: elem(x, y, j, f) if 'row' in kind else elem(x, i, y, f)
    if kind.startswith('swap'):
        if s:
            return e(b)
        s2 = same(at_, b)
        return None if s2 is None else e(a) if s2 else e(at_)
    if not s:
        return e(at_)
    u, v = e(at_), e(b)
    return None if u is None or v is None else add(u, mul(m.args[4], v))


def resolved(t, f):
    for _ in range(4):
        m = {}
        for y in set(subterms(t)):
            if y.op == 'proj' and y.args[0].op == 'changed' and y.args[1][0] == 'ix2':
                e = elem(y.args[0], y.args[1][1], y.args[1][2], f)
                if e is not None:
                    m[y] = e
        if not m:
            return t
        t = settled(subst(t, m), f)
    return t


def exact(t):
    """Inverses of what has become a single entry are inverses of that entry."""
    return subst(t, {y: div(const(1), y.args[0]) for y in set(subterms(t)) if y.op == 'poly_inv' and cval(y.args[0]) != 0})


def ranking(ck, rep, prog):
    fn = find(ck, 'rank_as_linear_map', crate='alg', name='rank_as_linear_map')
    if fn is None:
        return
    ck = type(ck)(prog, rep, (changing,))
    r = ck.run(fn)
    rows, cols = msize(a0, 0), msize(a0, 1)
    ms = [(lp, q) for lp in r.interp.loop_objs.values() for q in lp.next if hasattr(q, 'op') and q.op == 'phi' and q.args[2] is a0 and any(x.op == 'phi' and loop_of(r, x) is lp and x in lp.next for x in subterms(r.ret))]
    if not contains(r.ret, lambda x: x.op in ('phi', 'call', 'sum', 'collect', 'first', 'any', 'count')):
        verdict(ck, fn, 'what is left', False, all(understood(y) for y in leaves(r.ret)), 'the rank is %s, whatever the entries' % show(r.ret)[:100])
        return
    if len(ms) != 1:
        rep.count('undecided')
        return
    lp, m = ms[0]
    k = lp.iv
    qs = [x for x in set(subterms(r.ret)) if x.op == 'phi' and loop_of(r, x) is lp]
    if len(qs) != 1:
        rep.count('undecided')
        return
    q = qs[0]
    M, N = mk('at', 'matrix'), mk('at', 'count')
    fine = lambda t: understood(subst(t, {m: M, q: N})) and t.op != 'ite'
    wide = [gt0(sub(cols, rows))]
    tall = [gt0(add(sub(rows, cols), const(1)))]
    up = settled(r.ret, wide) is q and settled(r.ret, tall) is q
    for what, f, small in (('wide', wide, rows), ('tall', tall, cols)):
        t = settled(r.ret, f)
        ck_ = decide_eq(t, q if up else sub(small, q), f)[0] == 'eq'
        verdict(ck, fn, 'what is left (%s)' % what, ck_, fine(t), 'the rank of a %s matrix is %s' % (what, show(subst(t, {q: N}))[:100]))
        bk = [settled(l, f) for b, _ in lp.backs for c in b for l in c if k in subterms(l) and m not in subterms(l)]
        want = gt0(sub(small, k))
        verdict(ck, fn, 'all places (%s)' % what, bool(bk) and all(entails(f + [want], l) for l in bk), bool(bk) and all(fine(l) for l in bk), 'it goes on while %s' % ' and '.join(show(l)[:100] for l in bk[:3]))
    verdict(ck, fn, 'the count starts', q.args[2] is const(0), closed(q.args[2]), 'it starts at %s' % show(q.args[2])[:50])
    f0 = [gt0(sub(rows, k)), gt0(sub(cols, k))]
    x = proj(m, ('ix2', k, k))
    nq, nm = lp.next.get(q, q), lp.next[m]
    zero = f0 + [eq0(x)]
    at0 = lambda t, f: settled(exact(subst(resolved(settled(t, f), f), {x: const(0)})), f)
    kinds, more, base = {}, set(), at0(nq, zero)
    for _ in range(2):
        for y in [y for y in set(subterms(base)) if y.op == 'any']:
            ps = {z for z in subterms(y.args[1]) if z.op == 'proj' and z.args[0] is m and z.args[1][0] == 'ix2' and y.args[0] in subterms(z)}
            if len(ps) != 1:
                continue
            z = ps.pop()
            i, j = z.args[1][1:]
            side = 'right' if i is k else 'below' if j is k else None
            if side:
                more.add(y)
            if side and side not in kinds:
                kinds[side] = (y, z, j if side == 'right' else i)
        base = at0(nq, zero + [lnot(y) for y, _, _ in kinds.values()])
    for side, n in (('right', cols), ('below', rows)):
        if side not in kinds:
            verdict(ck, fn, 'a pivot %s' % side, False, fine(subst(base, {y: mk('isin', const(0), mk('at', 'searched')) for y in more})) or bool(more) and set(leaves(base)) <= {q, add(q, const(1))} and all(y in more for y in subterms(base) if y.op == 'any'), 'a pivot is not looked for %s' % ('to the right' if side == 'right' else 'below'))
            continue
        y, z, g = kinds[side]
        w = mk('sym', 'place')
        w.nn = True
        here = sub(w, sub(g, y.args[0]))
        c = settled(subst(y.args[1], {y.args[0]: here}), f0)
        c = land(c, gt0(add(here, const(1))))
        e = proj(m, ('ix2', k, w) if side == 'right' else ('ix2', w, k))
        want = land(gt0(sub(w, k)), gt0(sub(n, w)), lnot(eq0(e)))
        verdict(ck, fn, 'looking for a pivot %s' % side, equivalent(subst(c, {e: mk('at', 'entry')}), subst(want, {e: mk('at', 'entry')}), f0), fine(c), 'it is looked for where %s' % show(subst(c, {m: M}))[:200])
    if len(kinds) < 2:
        return
    (yr, zr, gr), (yb, zb, gb) = kinds['right'], kinds['below']
    first = lambda y: mk('first', *y.args)

    def found(y, z, g):
        b = subst(y.args[1], {y.args[0]: first(y)})
        return [y, lnot(eq0(subst(z, {y.args[0]: first(y)})))] + list(b.args[0] if b.op == 'and' else [b])
    none = zero + [lnot(yr), lnot(yb)]
    t, u = at0(nq, none), at0(nm, none)
    verdict(ck, fn, 'no pivot: the count', t is (q if up else add(q, const(1))), fine(t), 'without a pivot the count becomes %s' % show(subst(t, {q: N}))[:100])
    verdict(ck, fn, 'no pivot: the matrix', u is m or u.op == 'changed', fine(u), 'without a pivot the matrix is changed')
    for what, f, sb in (('there', f0 + [lnot(eq0(x))], None), ('right', zero + found(yr, zr, gr), 1), ('below', zero + [lnot(yr)] + found(yb, zb, gb), 1)):
        go = (lambda t: at0(t, f)) if sb else (lambda t: resolved(settled(t, f), f))
        t, u = go(nq), go(nm)
        verdict(ck, fn, 'pivot %s: the count' % what, t is (add(q, const(1)) if up else q), fine(t) or t is add(q, const(1)), 'with a pivot the count becomes %s' % show(subst(t, {q: N}))[:100])
        p = next((y for l in r.interp.loop_objs.values() for y in l.next if hasattr(y, 'op') and u.op == 'phi' and y.op == 'phi' and y.args[:2] == u.args[:2]), None)
        li = loop_of(r, p) if p is not None else None
        if li is None or li is lp:
            verdict(ck, fn, 'pivot %s: elimination' % what, False, u is m or u.op == 'changed' and root(u) is root(m), 'nothing below the pivot is cleared')
            continue
        I0 = go(p.args[2])
        c = I0
        while c.op == 'changed':
            if not c.args[0].startswith('swap'):
                s = decide_eq(c.args[2], c.args[3], f)[0] == 'eq'
                d = entails(f, lnot(eq0(sub(c.args[2], c.args[3]))))
                if s:
                    v = elem(c.args[1], k, k, f)
                    g = add(c.args[4], const(1))
                    g = settled(exact(subst(g, {x: const(0)})), f) if sb else g
                    verdict(ck, fn, 'pivot %s: scaling' % what, len(to_poly(g)) == 1 and all(entails(f, lnot(eq0(y))) for (mono, _) in to_poly(g).items() for y, _ in mono), cval(g) == 0, 'a row is taken %s times' % show(g)[:100])
                elif not d:
                    rep.count('undecided')
            c = c.args[1]
        if c is not m:
            rep.count('undecided')
            continue
        pv = elem(I0, k, k, f)
        pv = settled(exact(subst(pv, {x: const(0)})), f) if sb and pv is not None else pv
        Pp = mk('at', 'cleared')
        nxt = go(li.next[p])
        ops = {y for y in subterms(nxt) if y.op == 'changed' and y.args[1].op == 'phi' and y.args[1].args[:2] == p.args[:2]}
        if len(ops) != 1 or pv is None:
            rep.count('undecided')
            continue
        o = ops.pop()
        l = o.args[2]
        rest = sub(l, li.iv)
        Y = proj(o.args[1], ('ix2', l, k))
        sides = {y for y in subterms(o.args[4]) if y.op == 'proj' and y.args[0] is o.args[1]}
        verdict(ck, fn, 'pivot %s: which row' % what, o.args[0] == 'row_operation' and decide_eq(o.args[3], k, f)[0] == 'eq', fine(o.args[3]), 'below the pivot %s(%s, %s) is done' % (o.args[0], show(l)[:50], show(o.args[3])[:50]))
        after = add(Y, mul(o.args[4], pv))
        ok = decide_eq(after, const(0), f)[0] == 'eq'
        if not ok:
            one = {y: mk('sym', 'pivot') for y in subterms(pv) if y.op == 'proj' and y.args[0] is m}
            ok = decide_eq(subst(after, one), const(0), [lnot(eq0(v)) for v in one.values()])[0] == 'eq'
        verdict(ck, fn, 'pivot %s: cleared' % what, ok, sides <= {Y} and fine(subst(after, {o.args[1]: Pp})) or bool(sides) and Y not in sides, 'below the pivot stays %s' % show(subst(after, {o.args[1]: Pp, m: M}))[:200])
        Y0 = proj(p, ('ix2', l, k))
        for z, g in ((eq0(Y0), 'without'), (lnot(eq0(Y0)), 'with')):
            cl = [c for b, _ in li.backs for c in b]
            on = [c for c in cl if not contradictory(f + [z] + list(c))]
            verdict(ck, fn, 'pivot %s: on past a row %s an entry' % (what, g), bool(on), bool(cl) and all(Y0 in subterms(land(*c)) for c in cl), 'it stops at a row %s an entry' % g)
        w = mk('sym', 'row')
        w.nn = True
        bk = [settled(z, f) for b, _ in li.backs for cc in b for z in cc if li.iv in subterms(z) and not contains(z, lambda y: y.op == 'proj')]
        c = land(*[subst(z, {li.iv: sub(w, rest)}) for z in bk], gt0(add(sub(w, rest), const(1))))
        c = settled(c, f)
        verdict(ck, fn, 'pivot %s: all rows below' % what, bool(bk) and equivalent(c, land(gt0(sub(w, k)), gt0(sub(rows, w))), f), bool(bk) and fine(c), 'the rows cleared are those with %s' % show(c)[:200])
