"""T03 (addressing and bounds of the matrix storage) and T04 (allocation, initialisation).

The storage layer is judged against itself: the address of element (r, c) as `Index<(usize, usize)>` computes it
from a view's address and metadata is the meaning of a view; every constructor of views must agree with it.
The packing of the metadata is checked by what comes out again, not by its layout.
"""
import re
from spec import *
from matdom import is_mat, is_sub, idx_types
from matops import method
import absint, models

a0, a1, a2 = (mk('arg', k) for k in range(3))
WORD = 64
PC = 'PtrComponents'


def addr(k):
    t = mk('addr', k)
    t.nn = True
    return t


def meta(k):
    t = mk('meta', k)
    t.nn = True
    return t


def fat(a, m):
    return mk('agg', ('fat',), a, m)


def is_fat(t):
    return t.op == 'agg' and t.args[0] == ('fat',)


# ------------------------------------------------------------------ words
def width(t, facts):
    """Bits of a non-negative value; None when unbounded."""
    c = cval(t)
    if c is not None:
        return int(c).bit_length() if c >= 0 else None
    if t.op == 'meta':
        return WORD
    if t.op == 'bitand':
        ws = [width(x, facts) for x in t.args[0]]
        ws = [w for w in ws if w is not None]
        return min(ws) if ws else None
    if t.op == 'ite':
        a, b = width(t.args[1], facts), width(t.args[2], facts)
        return None if a is None or b is None else max(a, b)
    if t.op == 'shr' and cval(t.args[1]) is not None:
        w = width(t.args[0], facts)
        return None if w is None else max(0, w - int(cval(t.args[1])))
    for w in (8, 16, 32):
        if entails(list(facts), gt0(sub(const(1 << w), t))):
            return w
    return None


def pieces(t, facts):
    """t as disjoint-or-not shifted pieces [(shift, term, width)]; None when not understood."""
    c = cval(t)
    if c is not None:
        if c > 0 and c == int(c):
            s = (int(c) & -int(c)).bit_length() - 1
            return [(s, const(int(c) >> s), (int(c) >> s).bit_length())]
        return [(0, t, width(t, facts))] if c else []
    if t.op == 'bitor':
        out = []
        for x in t.args[0]:
            p = pieces(x, facts)
            if p is None:
                return None
            out += p
        return out
    if t.op == 'shl' and cval(t.args[1]) is not None:
        p = pieces(t.args[0], facts)
        s = int(cval(t.args[1]))
        return None if p is None else [(a + s, b, w) for a, b, w in p]
    po = to_poly(t)
    if len(po) == 1 and () not in po:
        (m, co), = po.items()
        if co > 1 and co == int(co) and (int(co) & (int(co) - 1)) == 0:
            x = scale(t, Fraction(1) / co)
            p = pieces(x, facts)
            s = int(co).bit_length() - 1
            return None if p is None else [(a + s, b, w) for a, b, w in p]
    elif len(po) > 1 and all(len(m) == 1 and m[0][1] == 1 and co > 0 for m, co in po.items()) and any(m[0][0].op in ('shl', 'bitand') or co >= 256 for m, co in po.items()):
        out = []
        for m, co in po.items():
            p = pieces(scale(mk_atom(m), co), facts)
            if p is None:
                return None
            out += p
        out.sort()
        for x, y in zip(out, out[1:]):
            if x[2] is None or x[0] + x[2] > y[0]:
                return None      # a sum of overlapping pieces carries
        return out
    return [(0, t, width(t, facts))]


def mk_atom(m):
    t = const(1)
    for x, p in m:
        for _ in range(p):
            t = mul(t, x)
    return t


def word(t, facts):
    """One step of normalisation of a word operation; t when there is nothing to do."""
    o = t.op
    if o == 'sizeof':
        return const(WORD // 8) if 'usize' in str(t.args[0]) or 'isize' in str(t.args[0]) else t
    if o == 'idiv' and cval(t.args[0]) is not None and cval(t.args[1]):
        return const(int(cval(t.args[0])) // int(cval(t.args[1])))
    if o == 'setbit' and t.args[2] is TRUE and cval(t.args[1]) is not None:
        return mk('bitor', tuple(sorted((t.args[0], const(1 << int(cval(t.args[1])))), key=skey)))
    if o == 'bitor' and any(x.op == 'bitor' for x in t.args[0]):
        return mk('bitor', tuple(sorted({y for x in t.args[0] for y in (x.args[0] if x.op == 'bitor' else (x,))}, key=skey)))
    if o == 'bitnot' and cval(t.args[0]) is not None:
        return const(~int(cval(t.args[0])) & ((1 << WORD) - 1))
    if o in ('shl', 'shr') and cval(t.args[0]) is not None and cval(t.args[1]) is not None:
        a, s = int(cval(t.args[0])), int(cval(t.args[1]))
        return const((a << s) & ((1 << WORD) - 1) if o == 'shl' else a >> s)
    if o in ('shl', 'shr') and cval(t.args[1]) == 0:
        return t.args[0]
    if o in ('bitand', 'bitor') and all(cval(x) is not None for x in t.args[0]):
        r = None
        for x in t.args[0]:
            v = int(cval(x))
            r = v if r is None else (r & v if o == 'bitand' else r | v)
        return const(r)
    if o == 'idiv' and cval(t.args[1]) and int(cval(t.args[1])) & (int(cval(t.args[1])) - 1) == 0 and cval(t.args[1]) >= 256:
        return word(mk('shr', t.args[0], const(int(cval(t.args[1])).bit_length() - 1)), facts)
    if o == 'irem' and cval(t.args[1]) and int(cval(t.args[1])) & (int(cval(t.args[1])) - 1) == 0 and cval(t.args[1]) >= 256:
        return word(band(const(int(cval(t.args[1])) - 1), t.args[0]), facts)
    if o == 'shr' and cval(t.args[1]) is not None:
        s = int(cval(t.args[1]))
        p = pieces(t.args[0], facts)
        if p is not None and not (len(p) == 1 and p[0][1] is t.args[0]):
            if all(w is not None and a + w <= (WORD if a >= s else s) for a, b, w in p):
                return join([(a - s, b, w) for a, b, w in p if a >= s])
        if t.args[0].op == 'shr' and cval(t.args[0].args[1]) is not None:
            return mk('shr', t.args[0].args[0], const(s + int(cval(t.args[0].args[1]))))
    if o == 'bitand' and len(t.args[0]) == 2:
        ms = [x for x in t.args[0] if cval(x) is not None]
        if len(ms) == 1:
            m = int(cval(ms[0]))
            x = [y for y in t.args[0] if y is not ms[0]][0]
            if m & (m + 1) == 0:
                b = m.bit_length()
                p = pieces(x, facts)
                if p is not None and all(a >= b or w is not None and a + w <= b for a, y, w in p):
                    return join([q for q in p if q[0] < b])
    return t


def join(p):
    if not p:
        return const(0)
    ts = [b if a == 0 else mk('shl', b, const(a)) for a, b, w in p]
    return ts[0] if len(ts) == 1 else mk('bitor', tuple(sorted(ts, key=skey)))


def band(x, y):
    return mk('bitand', tuple(sorted((x, y), key=skey)))


# ------------------------------------------------------------------ pointers
def pointer(t):
    """t read as a fat pointer; None when it is none."""
    if is_fat(t):
        return t
    if t.op == 'agg' and t.args[0][0] == 'adt' and t.args[0][1].endswith(PC):
        return fat(t.args[1], t.args[2])
    if t.op == 'agg' and t.args[0][0] == 'union':
        return pointer(t.args[1])
    if t.op == 'ref' and t.args[1] == ():
        root = t.args[0]
        if root[0] == 'P':
            return fat(addr(root[1]), meta(root[1]))
        if root[0] == 'D':
            return pointer(root[1])
    if t.op == 'rv' and t.args[0].op == 'arg':
        return fat(addr(t.args[0].args[0]), meta(t.args[0].args[0]))
    return None


def canon(t, facts=()):
    memo = {}
    fs = []

    def go(x):
        if x in memo:
            return memo[x]
        m = {}
        for y in kids(x):
            g = go(y)
            if g is not y:
                m[y] = g
        r = subst(x, m) if m else x
        for _ in range(8):
            n = step(r)
            if n is r:
                break
            r = go(n) if n not in memo else memo[n]
        memo[x] = r
        return r

    def step(r):
        if r.op == 'proj' and r.args[0].op == 'agg' and r.args[0].args[0][0] == 'union':
            p = pointer(r.args[0].args[1])
            return p if p is not None else r
        if r.op == 'proj' and is_fat(r.args[0]) and r.args[1][0] == 'f':
            return r.args[0].args[1 + r.args[1][1]]
        if r.op == 'agg' and r.args[0][0] == 'adt' and r.args[0][1].endswith(PC):
            return fat(r.args[1], r.args[2])
        return word(r, facts)
    return go(t)


def kids(x):
    out = []

    def w(a):
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, (tuple, frozenset)):
            for b in a:
                w(b)
    for a in x.args:
        w(a)
    return out


def address(t):
    """(base, offset in elements) a pointer or reference to an element points to."""
    if t.op == 'padd':
        b = address(t.args[0])
        return None if b is None else (b[0], add(b[1], t.args[1]))
    if is_fat(t):
        return address(t.args[1])
    if t.op == 'ref':
        root, path = t.args
        if root[0] == 'P' and path == ():
            return addr(root[1]), const(0)
        if root[0] != 'D':
            return (t, const(0)) if path == () else None
        b = address(root[1])
        for e in path:
            if e[0] != 'ix' or b is None:
                return None
            b = (b[0], add(b[1], e[1]))
        return b
    if t.op == 'ite':
        return None
    return t, const(0)


def pcs(r):
    """The cases of a path predicate, words normalised with the bounds the case itself gives."""
    out = []
    for c in r.pc or ():
        fs = [canon(f) for f in c]
        for _ in range(2):
            fs = [canon(f, fs) for f in fs]
        fs = [f for x in fs for f in flat(x) if f is not TRUE]
        if FALSE in fs or contradictory(fs):
            continue
        out.append(fs)
    return out


# ------------------------------------------------------------------ ranges
RANGES = {'Range': (0, 1, 0), 'RangeFrom': (0, None, 0), 'RangeTo': (None, 0, 0), 'RangeFull': (None, None, 0), 'RangeInclusive': (0, 1, 1), 'RangeToInclusive': (None, 0, 1)}


def range_name(ty):
    m = re.match(r'std::ops::(?:range::)?(Range\w*)(?:<usize>)?$', ty.replace('core::', 'std::'))
    return m.group(1) if m and m.group(1) in RANGES else None


def lines(v, ty, n):
    """[start, end) selected by an index value on an axis of n lines."""
    if ty == 'usize':
        return v, add(v, const(1))
    lo, hi, inc = RANGES[range_name(ty)]
    s = const(0) if lo is None else proj(v, ('f', lo))
    e = n if hi is None else proj(v, ('f', hi))
    return s, add(e, const(1)) if inc else e


def bounds_prim(tys):
    """Resolves the bound methods of the two index values, whose types are known at the implementation."""
    types = {}
    for q in (0, 1):
        types[proj(a1, ('f', q))] = tys[q]

    def prim(I, op, name, fn, args, st, pc, at):
        if not args or not types:
            return NotImplemented
        nm = name.split('::')[-1]
        if fn is not None and fn.body is not None or '::' not in name:
            return NotImplemented
        try:
            v = models.val(I, st, args[0])
        except Exception:
            return NotImplemented
        ty = types.get(v)
        if ty is None:
            return NotImplemented
        if nm in ('start_bound', 'end_bound', 'start', 'end', 'into_inner') and range_name(ty):
            lo, hi, inc = RANGES[range_name(ty)]
            f = lo if nm.startswith('start') else hi
            if nm == 'into_inner':
                return tup(proj(v, ('f', 0)), proj(v, ('f', 1))), st, pc
            if f is None:
                return absint.agg_adt('std::ops::Bound', 2, 'Unbounded'), st, pc
            I.fresh += 1
            root = ('C', I.fresh)
            st = dict(st)
            st[root] = proj(v, ('f', f))
            ref = mk('ref', root, ())
            if nm in ('start', 'end'):
                return ref, st, pc
            return absint.agg_adt('std::ops::Bound', 1 if nm == 'end_bound' and not inc else 0, 'Excluded' if nm == 'end_bound' and not inc else 'Included', ref), st, pc
        cands = [f for f in I.prog.fns.values() if f.name == nm and f.body is not None and f.kind != 'closure' and f.implself == ty and f.trait and f.crate == 'alg'
                 and name.split('::')[-2].split('<')[0] == f.trait.split('<')[0].split('::')[-1]]
        if len(cands) == 1:
            return I.call_body(cands[0], args, st, pc)
        return NotImplemented
    return prim


# ------------------------------------------------------------------ T03
def check_T03(prog, rep):
    rep.rule('address arithmetic: what a view is, is what the element access reads from its address and metadata; every constructor of a view, and the matrix itself, must give '
             'a view with the right size whose elements are at the right addresses (word operations normalised with the bounds the code has checked)')
    rep.assumptions += ['64-bit usize', 'range endpoints of an inclusive range that is not exhausted', 'sizes for which the address arithmetic does not overflow',
                        'the representation of fat pointers (address, metadata), as the code assumes it']
    rep.group(addressing, prog, rep)


class Store(Checker):
    def canon_cases(self, r):
        return pcs(r)


def decoder(ck, prog, rep):
    """(rows(m), columns(m), r-coefficient(m), c-coefficient(m)) over meta(0)."""
    fn = method(prog, rep, 'SubMatrix::size', 'size', 'SubMatrix')
    if fn is None:
        return None
    r = ck.run(fn)
    v = canon(r.ret)
    if v.op != 'agg' or len(v.args) != 3:
        rep.count('undecided')
        return None
    S = [v.args[1], v.args[2]]
    F = None
    for tr in ('Index', 'IndexMut'):
        nm = 'index' if tr == 'Index' else 'index_mut'
        fs = [f for f in prog.find(crate='alg', name=nm) if f.body is not None and is_sub(f.implself) and (f.trait or '').split('<')[0].split('::')[-1] == tr and idx_types(f) == ['usize', 'usize']]
        rep.require('anchor:%s<(usize, usize)>' % tr, len(fs) == 1, 'expected one implementation, found %d' % len(fs))
        if len(fs) != 1:
            return None
        fn = fs[0]
        r = ck.run(fn)
        rr, cc = proj(a1, ('f', 0)), proj(a1, ('f', 1))
        inside = [gt0(sub(S[0], rr)), gt0(sub(S[1], cc))]
        nat = [gt0(add(rr, const(1))), gt0(add(cc, const(1)))]
        for c in pcs(r):
            fs_ = c + nat
            for g in inside:
                if entails(fs_, g):
                    rep.require('%s:element accesses are bounds-checked' % fn.label(), True, '')
                elif all(plain(f) for f in c):
                    rep.require('%s:element accesses are bounds-checked' % fn.label(), False, 'an access is accepted without %s: %s' % (show(g), show_case(c)[:300]), ck.where(fn))
                else:
                    rep.count('undecided')
            ad = address(canon(r.ret, c + nat))
            if ad is None:
                rep.count('undecided')
                return None
            if ad[0] is not addr(0):
                if plain(ad[0]):
                    rep.require('%s:address' % fn.label(), False, 'the address starts at %s' % show(ad[0])[:200], ck.where(fn))
                return None
            po = canon(ad[1], c + nat)
            al, be, rest = coeffs(po, rr, cc)
            if al is None:
                rep.count('undecided')
                return None
            if rest is not const(0):
                rep.require('%s:address' % fn.label(), False, 'element (0, 0) is at offset %s' % show(rest)[:200], ck.where(fn))
                return None
            if F is None:
                F = (al, be)
            else:
                rep.require('%s:address' % fn.label(), F == (al, be), 'element (r, c) is read at r*%s + c*%s but written at r*%s + c*%s' % tuple(show(x)[:100] for x in F + (al, be)), ck.where(fn))
            span(ck, rep, fn, canon(r.ret, nat), po, rr, cc, S)
        allowed = lor(*[land(*c) for c in pcs(r)])
        okall = entails(inside + nat, allowed)
        if not okall and not all(plain(f) for c in pcs(r) for f in c):
            rep.count('undecided')
        else:
            rep.require('%s:every element can be accessed' % fn.label(), okall, 'an access inside the matrix also needs %s' % show(allowed)[:300], ck.where(fn))
    return S[0], S[1], F[0], F[1]


def plain(t):
    return all(y.op not in UNDECIDED and y.op not in ('phi', 'first', 'argbest', 'call', 'callf', 'join') for y in subterms(t))


def coeffs(p, r, c):
    al, be, rest = const(0), const(0), const(0)
    for m, co in to_poly(p).items():
        t = scale(mk_atom(m), co)
        occ = [(x, e) for x, e in m if x in (r, c)]
        if any(contains(x, lambda y: y in (r, c)) and x not in (r, c) for x, e in m) or len(occ) > 1 or any(e != 1 for x, e in occ):
            return None, None, None
        if not occ:
            rest = add(rest, t)
        else:
            x = occ[0][0]
            q = scale(mk_atom(tuple((y, e) for y, e in m if y is not x)), co)
            if x is r:
                al = add(al, q)
            else:
                be = add(be, q)
    return al, be, rest


def span(ck, rep, fn, ret, po, r, c, S):
    """The raw slice through which an element is reached contains it."""
    if ret.op != 'ref' or ret.args[0][0] != 'D' or not is_fat(ret.args[0][1]) or len(ret.args[1]) != 1:
        return
    ln = ret.args[0][1].args[2]
    for x in S:
        z = canon(subst(ln, {x: const(0)}), [gt0(y) for y in S if y is not x])
        if z.op == 'ite':
            z = z.args[1] if z.args[0] is TRUE else z.args[2] if z.args[0] is FALSE else z
        if plain(z) and z.op != 'ite':
            rep.require('%s:the raw slice of an empty matrix is empty' % fn.label(), z is const(0), 'with %s zero its length is %s' % (show(x), show(z)[:200]), ck.where(fn))
    if ln.op == 'ite':
        fs = [gt0(S[0]), gt0(S[1])]
        ln = ln.args[1] if entails(fs, ln.args[0]) else ln.args[2] if entails(fs, lnot(ln.args[0])) else ln
    if ln.op in ('ite', 'meta') or not plain(ln):
        rep.count('undecided')
        return
    x, y = mk('below'), mk('right')
    d = sub(sub(ln, const(1)), subst(po, {r: sub(sub(S[0], const(1)), x), c: sub(sub(S[1], const(1)), y)}))
    ok = all(co > 0 for m, co in to_poly(d).items())
    rep.require('%s:the raw slice spans the matrix' % fn.label(), ok, 'the slice ends %s elements after element (rows-1-below, columns-1-right)' % show(d)[:200], ck.where(fn))


def view_eq(ck, rep, fn, what, D, got, facts, rows, cols, base, al, be, rest=None):
    """got is a view of rows x cols elements with element (r, c) at base + rest + r*al + c*be."""
    g = pointer(canon(got, facts))
    if g is None:
        rep.count('undecided')
        return
    m = g.args[2]
    S0, S1, A, B = [canon(subst(x, {meta(0): m}), facts) for x in D]
    key = '%s:%s' % (fn.label(), what)
    for nm, x, y in ((' rows', S0, rows), (' columns', S1, cols)):
        eqs(ck, rep, fn, key + nm, x, y, facts, 'the view has %s' + nm + ', not %s')
    ad = address(g)
    if ad is None:
        rep.count('undecided')
        return
    eqs(ck, rep, fn, key + ' base', ad[0], base, facts, 'the view starts at %s, not %s')
    eqs(ck, rep, fn, key + ' start', ad[1], rest if rest is not None else const(0), facts, 'the view starts at offset %s, not %s')
    eqs(ck, rep, fn, key + ' row stride', A, al, facts, 'the next row is %s elements further, not %s')
    eqs(ck, rep, fn, key + ' column stride', B, be, facts, 'the next column is %s elements further, not %s')


def eqs(ck, rep, fn, key, x, y, facts, msg):
    x, y = canon(x, facts), canon(y, facts)
    if x is y or sub(x, y) is const(0) or forced_zero(sub(x, y), list(facts)):
        rep.require(key, True, '')
    elif plain(x) and plain(y):
        # a component that may not fit its window cannot come out again
        rep.require(key, False, msg % (show(x)[:200], show(y)[:200]), ck.where(fn))
    else:
        rep.count('undecided')


def self_views(prog, rep, ck, D, name):
    """(function, result view, case) of Matrix deref implementations."""
    out = []
    for tr, nm in (('Deref', 'deref'), ('DerefMut', 'deref_mut')):
        fn = method(prog, rep, 'Matrix::' + nm, nm, 'Matrix', tr)
        if fn is not None:
            r = ck.run(fn)
            for c in pcs(r):
                out.append((fn, r.ret, c))
    return out


def addressing(prog, rep):
    ck = Checker(prog, rep, (), None, 50000, 20)
    D = decoder(ck, prog, rep)
    if D is None:
        rep.count('undecided')
        return
    S0, S1, A, B = D
    # the matrix itself: where write() puts element (i, j)
    W = written(prog, rep, ck)
    sz = lambda q: proj(proj(a0, ('f', FIELD['size'])), ('f', q))
    for fn, ret, c in self_views(prog, rep, ck, D, 'Matrix'):
        if W is not None:
            base, al, be, rest = W
            view_eq(ck, rep, fn, 'view of the whole matrix:', D, ret, c, sz(0), sz(1), base, al, be, rest)
    fn = method(prog, rep, 'SubMatrix::transpose', 'transpose', 'SubMatrix')
    if fn is not None:
        r = ck.run(fn)
        for c in pcs(r):
            view_eq(ck, rep, fn, 'transpose:', D, r.ret, c, S1, S0, addr(0), B, A)
    fn = method(prog, rep, 'SubMatrix::size_as_range', 'size_as_range', 'SubMatrix')
    if fn is not None:
        v = canon(ck.run(fn).ret)
        want = tup(*[absint.agg_adt('std::ops::Range', 0, 'Range', const(0), x) for x in (S0, S1)])
        if plain(v):
            rep.require('%s:ranges' % fn.label(), v is want or show(v) == show(want), 'it answers %s' % show(v)[:200], ck.where(fn))
    # Matrix::transpose turns sizes and addresses around
    fn = method(prog, rep, 'Matrix::transpose', 'transpose', 'Matrix')
    if fn is not None and W is not None:
        r = ck.run(fn)
        t = r.ret
        for q in (0, 1):
            eqs(ck, rep, fn, '%s:size %d' % (fn.label(), q), subst(sz(q), {a0: t}), sz(1 - q), (), 'dimension %d is %%s, not %%s' % q)
        base, al, be, rest = W
        eqs(ck, rep, fn, '%s:base' % fn.label(), subst(base, {a0: t}), base, (), 'the elements start at %s, not %s')
        eqs(ck, rep, fn, '%s:row stride' % fn.label(), subst(al, {a0: t}), be, (), 'the next row is %s elements further, not %s')
        eqs(ck, rep, fn, '%s:column stride' % fn.label(), subst(be, {a0: t}), al, (), 'the next column is %s elements further, not %s')
    # views by ranges
    n = 0
    for fn in sorted(prog.fns.values(), key=lambda f: f.label()):
        tr = (fn.trait or '').split('<')[0].split('::')[-1]
        if fn.crate != 'alg' or fn.kind == 'closure' or fn.body is None or not is_sub(fn.implself) or tr not in ('Index', 'IndexMut') or fn.name not in ('index', 'index_mut'):
            continue
        tys = idx_types(fn)
        if tys is None or tys == ['usize', 'usize'] or not all(t == 'usize' or range_name(t) for t in tys):
            continue
        n += 1
        views(prog, rep, fn, tys, D)
    rep.count('range view implementations', n)
    rep.floor('range view implementations', 40)


FIELD = {'ptr': 0, 'marker': 1, 'size': 2, 'offsets': 3}


def written(prog, rep, ck):
    """Where Matrix::write puts element (i, j): (base, coefficient of i, coefficient of j, rest)."""
    fn = method(prog, rep, 'Matrix::write', 'write', 'Matrix')
    if fn is None:
        return None
    r = ck.run(fn)
    evs = [e for e in r.events if e.kind == 'ptrwrite']
    if len(evs) != 1:
        rep.count('undecided')
        return None
    cs = pcs(r)
    fs = cs[0] if cs else []
    ad = address(canon(evs[0].data[0], fs))
    if ad is None:
        rep.count('undecided')
        return None
    i, j = proj(a1, ('f', 0)), proj(a1, ('f', 1))
    al, be, rest = coeffs(canon(ad[1], fs), i, j)
    if al is None:
        rep.count('undecided')
        return None
    return ad[0], al, be, rest


def views(prog, rep, fn, tys, D):
    ck = Checker(prog, rep, (bounds_prim(tys),), None, 50000, 20)
    r = ck.run(fn)
    if r is None:
        return
    S0, S1, A, B = D
    (r0, r1), (c0, c1) = lines(proj(a1, ('f', 0)), tys[0], S0), lines(proj(a1, ('f', 1)), tys[1], S1)
    nat = [gt0(add(x, const(1))) for x in {y for t in (r0, r1, c0, c1) for y in subterms(t) if y.op == 'proj'}] + [gt0(add(x, const(1))) for x in (S0, S1, A, B)]
    cs = pcs(r)
    if not cs:
        rep.require('%s:answers' % fn.label(), False, 'it accepts no range', Checker.where(ck, fn))
        return
    for c in cs:
        fs = list(c) + nat
        if contradictory(fs):
            continue
        for what, g in (('rows end inside', gt0(add(sub(S0, r1), const(1)))), ('columns end inside', gt0(add(sub(S1, c1), const(1)))),
                        ('rows are in order', gt0(add(sub(r1, r0), const(1)))), ('columns are in order', gt0(add(sub(c1, c0), const(1))))):
            key = '%s:%s' % (fn.label(), what)
            if g is TRUE or entails(fs, g):
                rep.require(key, True, '')
            elif all(plain(f) for f in fs):
                rep.require(key, False, 'a view is given without %s: %s' % (show(g)[:200], show_case(c)[:300]), ck.where(fn))
            else:
                rep.count('undecided')
        view_eq(ck, rep, fn, 'view:', D, r.ret, fs, sub(r1, r0), sub(c1, c0), addr(0), A, B, add(mul(r0, A), mul(c0, B)))
    ok = [gt0(add(sub(S0, r1), const(1))), gt0(add(sub(S1, c1), const(1))), gt0(add(sub(r1, r0), const(1))), gt0(add(sub(c1, c0), const(1)))]
    allowed = lor(*[land(*c) for c in cs])
    good = ok + nat + [gt0(sub(const(65536), x)) for x in (S0, S1, A, B)]
    if entails(good, allowed):
        rep.require('%s:every range inside is accepted' % fn.label(), True, '')
    elif all(plain(f) for c in cs for f in c):
        rep.require('%s:every range inside is accepted' % fn.label(), False, 'a range inside the matrix also needs %s' % show(allowed)[:300], ck.where(fn))
    else:
        rep.count('undecided')


# ------------------------------------------------------------------ T04
def check_T04(prog, rep):
    rep.rule('allocation protocol: the block requested by the constructor and the block returned by Drop are the same layout, as large as the addresses of the elements need; '
             'a zero-sized block is neither requested nor returned; a refused block is never used')
    rep.rule('initialisation: an exported function never hands out an element of fresh storage that was not written, and generic code never assigns (and so drops) such an element')
    rep.assumptions += ['Layout::array, alloc, dealloc and NonNull as documented', 'sizes for which the address arithmetic does not overflow', 'loops run to completion']
    rep.group(allocation, prog, rep)
    rep.group(initialised, prog, rep)


def layouts(t):
    return [x for x in subterms(t) if x.op == 'layout_result']


def allocation(prog, rep):
    ck = Checker(prog, rep, (), None, 50000, 20)
    fn = method(prog, rep, 'Matrix::new', 'new', 'Matrix', '')
    dr = method(prog, rep, 'Matrix::drop', 'drop', 'Matrix', 'Drop')
    if fn is None or dr is None:
        return
    F = FIELD
    r = ck.run(fn)
    L = fn.label()
    v = canon(r.ret)
    fld = lambda t, n: canon(proj(t, ('f', F[n])))
    n, m = a0, a1
    # sizes and strides
    for q, w in ((0, n), (1, m)):
        eqs(ck, rep, fn, '%s:size %d' % (L, q), proj(fld(v, 'size'), ('f', q)), w, (), 'dimension %d is %%s, not %%s' % q)
    so = [proj(fld(v, 'offsets'), ('f', q)) for q in (0, 1)]
    W = written(prog, rep, ck)
    if W is not None:
        base, al, be, rest = [canon(subst(x, {a0: v})) for x in W]
        i, j = mk('row'), mk('col')
        if all(plain(x) for x in (al, be)):
            good = (al is m and be is const(1)) or (al is const(1) and be is n)
            rep.require('%s:elements have addresses of their own' % L, good,
                        'element (i, j) of an n x m matrix (n = arg0, m = arg1) lies at i*%s + j*%s; n*m elements without overlap lie at i*m + j or i + j*n' % (show(al)[:100], show(be)[:100]), ck.where(fn))
        else:
            rep.count('undecided')
        eqs(ck, rep, fn, '%s:first element' % L, rest, const(0), (), 'element (0, 0) lies at offset %s, not %s')
    # the block
    al_ev = [e for e in r.events if e.kind == 'call' and (e.name or '').split('::')[-1] in ('alloc', 'alloc_zeroed') and 'alloc' in (e.name or '')]
    rep.require('%s:storage is requested once' % L, len(al_ev) == 1, '%d allocations' % len(al_ev), ck.where(fn))
    if len(al_ev) != 1:
        return
    e = al_ev[0]
    lay, got = canon(e.data[0]), canon(e.data[-1])
    ls = {x for x in layouts(lay)}
    if len(ls) != 1:
        rep.count('undecided')
        return
    lay0 = ls.pop()
    rep.require('%s:element type of the block' % L, lay0.args[0] == ('T',), 'the block is laid out for %s' % str(lay0.args[0]), ck.where(fn))
    eqs(ck, rep, fn, '%s:length of the block' % L, lay0.args[1], mul(n, m), (), 'the block has room for %s elements, not %s')
    bytes_ = mk('layout_size', lay0)
    nonzero = gt0(bytes_)
    for c in e.pc:
        fs = [canon(f) for f in c]
        ok = nonempty(fs, lay0)
        rep.require('%s:no empty block is requested' % L, ok or contradictory(fs), 'alloc is reached in the case %s, with a possibly empty layout' % show_case(c)[:200], ck.where(fn))
    # the pointer that is handed out
    p = fld(v, 'ptr')
    nonneg = [gt0(add(bytes_, const(1)))]
    todo = [(p, list(c)) for c in pcs(r)]
    while todo:
        x, c = todo.pop()
        x = unwrap_ptr(x)
        if contradictory(c + nonneg):
            continue
        if x.op == 'ite':
            todo += [(x.args[1], c + flat(x.args[0])), (x.args[2], c + flat(lnot(x.args[0])))]
            continue
        ors = [f for f in c if f.op == 'or']
        if ors:
            rest = [f for f in c if f is not ors[0]]
            if not any(entails(rest, d) for d in ors[0].args[0]):
                todo += [(x, rest + flat(d)) for d in ors[0].args[0]]
                continue
        if not closedptr(x):
            rep.count('undecided')
            continue
        used = contains(x, lambda y: y is got)
        empty = entails(c, lnot(nonzero)) or entails(c, eq0(bytes_)) or any(entails(c + [gt0(add(y, const(1)))], gt0(sub(const(1), y))) for y in factors(lay0) + [lay0.args[1]])
        rep.require('%s:the matrix points to its block' % L, used or empty, 'in the case %s the pointer is %s' % (show_case(c)[:800], show(x)[:100]), ck.where(fn))
        if used:
            nn = mk('isv', mk('nonnull', got), 1)
            null = [f for f in c if contains(f, lambda y: y is got)]
            ok = any(entails(c, g) for g in (nn, lnot(mk('isnull', got)), lnot(eq0(got)), gt0(got)))
            rep.require('%s:a refused request is not used' % L, ok or bool(null) and not any(f is lnot(nn) for f in null), 'the pointer is used without a test for null', ck.where(fn))
    # giving it back
    r = ck.run(dr)
    de = [x for x in r.events if x.kind == 'call' and (x.name or '').split('::')[-1] == 'dealloc']
    D = dr.label()
    rep.require('%s:the block is given back' % D, bool(de), 'nothing is deallocated', ck.where(dr))
    me = a0
    size = [proj(fld(me, 'size'), ('f', q)) for q in (0, 1)]
    for x in de:
        rep.require('%s:once' % D, not x.loops and len(de) == 1, 'dealloc is reached more than once', ck.where(dr))
        ptr, ly = canon(x.data[0]), canon(x.data[1])
        ptr = unwrap_ptr(ptr)
        if plain(ptr):
            rep.require('%s:the matrix\'s own block' % D, ptr is unwrap_ptr(fld(me, 'ptr')), 'it deallocates %s' % show(ptr)[:200], ck.where(dr))
        ls = set(layouts(ly))
        if len(ls) != 1:
            rep.count('undecided')
            continue
        l1 = ls.pop()
        rep.require('%s:same element type' % D, l1.args[0] == lay0.args[0], 'laid out for %s, requested for %s' % (str(l1.args[0]), str(lay0.args[0])), ck.where(dr))
        want = subst(lay0.args[1], {n: size[0], m: size[1]})
        eqs(ck, rep, dr, '%s:same length' % D, l1.args[1], want, (), 'the block given back has %s elements, the one requested %s')
        nz = gt0(mk('layout_size', l1))
        for c in x.pc:
            fs = [canon(f) for f in c]
            rep.require('%s:no empty block is given back' % D, nonempty(fs, l1), 'dealloc is reached in the case %s' % show_case(c)[:200], ck.where(dr))
            extra = [f for f in fs if not entails([nz] + [gt0(y) for y in factors(l1)], f) and not contains(f, lambda y: y.op == 'isv')]
            rep.require('%s:every block is given back' % D, not extra or not all(plain(f) for f in extra), 'dealloc also needs %s' % ', '.join(show(f) for f in extra)[:200], ck.where(dr))


def factors(l):
    """Quantities whose product is the size of the block."""
    fs = [mk('sizeof', l.args[0])]
    po = to_poly(l.args[1])
    return fs + ([x for m in po for x, e in m] if len(po) == 1 else [l.args[1]])


def nonempty(fs, l):
    b = mk('layout_size', l)
    if entails(fs, gt0(b)) or entails(fs, lnot(eq0(b))):
        return True
    fl = factors(l)
    nat = [gt0(add(x, const(1))) for x in fl]
    return all(entails(fs + nat, gt0(x)) for x in fl[1:]) and entails(fs + nat, gt0(fl[0]))


def unwrap_ptr(x):
    while x.op in ('nonnull', 'cast') or x.op == 'proj' and x.args[0].op == 'nonnull' and x.args[1] == ('f', 0):
        x = x.args[0] if isinstance(x.args[0], Term) else x.args[1]
        if x.op == 'nonnull':
            x = x.args[0]
    return x


def closedptr(x):
    return all(y.op not in UNDECIDED and y.op not in ('phi', 'join') for y in subterms(x))


def rand_prim(I, op, name, fn, args, st, pc, at):
    if not name or fn is not None and fn.body is not None:
        return NotImplemented
    last = name.split('::')[-1]
    if 'rand' in name and last in ('gen', 'gen_range', 'sample', 'gen_bool', 'random'):
        I.fresh += 1
        t = mk('rand', I.fresh, tuple(L.iv for L in I.loops if L.iv is not None))
        return t, st, pc
    return NotImplemented


def initialised(prog, rep):
    from matdom import MatChecker
    new = [f for f in prog.find(crate='alg', name='new') if f.body is not None and is_mat(f.implself)]
    if len(new) != 1:
        return
    users = callers(prog, new[0])
    rep.count('functions reaching fresh storage', len(users))
    rep.floor('functions reaching fresh storage', 10)
    for fn in users:
        if fn.d.get('vis') != 'pub' and not fn.trait or fn.kind == 'closure':
            continue
        # exported numeric routines are judged on their own
        ck = MatChecker(prog, rep, (rand_prim,), lambda f: f is not fn and '<f64>' in (f.implself or '') and not f.trait, 30000, 14)
        r = ck.run(fn)
        if r is None:
            rep.count('undecided')
            continue
        for what, v in matrices(fn, r):
            fresh(ck, rep, fn, what, v, r)
        if 'T' in fn.d.get('generics', ()) or '<T>' in (fn.implself or ''):
            drops(ck, rep, fn, r)
        r.events = [e for e in r.events if e.kind == 'rawwrite']
        ck.inside(fn, r, ())


def callers(prog, new):
    """Functions of the crate that reach Matrix::new without passing through another exported function."""
    import json
    out, todo, seen = [], [new.key], {new.key}
    texts = {f.key: json.dumps(f.body, default=lambda o: '') for f in prog.fns.values() if f.body is not None and f.crate == 'alg'}
    while todo:
        k = todo.pop()
        q = json.dumps(k)
        for g, s in texts.items():
            if g in seen or q not in s:
                continue
            seen.add(g)
            f = prog.fns[g]
            if f.kind == 'closure':
                p = f.d.get('parent')
                todo.append(g)
                continue
            if f.d.get('vis') == 'pub' or f.trait:
                out.append(f)
            else:
                todo.append(g)
    return sorted(out, key=lambda f: f.label())


def matrices(fn, r):
    o = fn.d.get('output') or ''
    if is_mat(o):
        return [('the result', r.ret)]
    if o.startswith('('):
        parts = [x.strip() for x in o[1:-1].split(', ')]
        return [('result %d' % q, proj(r.ret, ('f', q))) for q, p in enumerate(parts) if is_mat(p)]
    return []


def uninit(t):
    """t is, or is computed from, an element of fresh storage (an argument of an unknown call is not looked at)."""
    if t.op == 'proj' and t.args[1][0] == 'ix2' and t.args[0].op in ('mnew', 'phi'):
        x = t.args[0]
        while x.op == 'phi':
            x = x.args[2]
        return x.op == 'mnew'
    if t.op in ('call', 'callf', 'post', 'phi', 'rand', 'any', 'sum', 'prod'):
        return False
    return any(uninit(x) for x in kids(t))


def holes(t, facts):
    """True when a feasible case leaves the element unwritten, None when that is not known."""
    from matdom import mel, deep_mel
    if t.op == 'ite':
        if entails(facts, t.args[0]):
            return holes(t.args[1], facts)
        if entails(facts, lnot(t.args[0])):
            return holes(t.args[2], facts)
        out = [holes(t.args[1], facts + flat(t.args[0])), holes(t.args[2], facts + flat(lnot(t.args[0])))]
        return True if True in out else None if None in out else False
    if contradictory(facts):
        return False
    for x in subterms(t):
        if x.op == 'ite' and uninit(x):
            return holes(ite(x.args[0], subst(t, {x: x.args[1]}), subst(t, {x: x.args[2]})), facts)
    if t.op == 'proj' and t.args[1][0] == 'ix2' and t.args[0].op == 'phi':
        p = t.args[0]
        if len(p.args) > 3 and p.args[3] == 'elem':
            # a loop that stores elements: those of the initial matrix, or stored ones
            return None if holes(deep_mel(mel(p.args[2], t.args[1][1], t.args[1][2])), facts) is not False else False
        return None
    if not uninit(t):
        return False
    return True if all(closed_cond_(x) for x in facts) else None


def closed_cond_(x):
    return all(y.op not in UNDECIDED and y.op not in ('phi', 'first', 'argbest') for y in subterms(x))


def fresh(ck, rep, fn, what, v, r):
    from matdom import mel, deep_mel, msize
    i, j = mk('row', fn.label()), mk('col', fn.label())
    i.nn = j.nn = True
    e = deep_mel(mel(v, i, j))
    key = '%s:%s has only written elements' % (fn.label(), what)
    nat = [gt0(add(i, const(1))), gt0(add(j, const(1))), gt0(sub(msize(v, 0), i)), gt0(sub(msize(v, 1), j))]
    out = []
    for c in r.pc:
        cs = cases([mk('agg', ('tuple',), e, *[x for x in nat + list(c)])], [], 200)
        out += [None] if cs is None else [holes(t.args[1], [z for f in list(fs) + list(t.args[2:]) for z in flat(f)]) for fs, (t,) in cs]
    if True not in out and None in out:
        rep.count('undecided')
        return
    rep.require(key, True not in out, 'element (row, col) keeps its uninitialised value: %s' % show(e)[:300], ck.where(fn))


def drops(ck, rep, fn, r):
    """No assignment (which drops the old value) to an element of fresh storage that no path has written."""
    from matdom import mel, deep_mel
    raw = [e for e in r.events if e.kind == 'rawwrite']
    n = 0
    for k, e in enumerate(r.events):
        if e.kind != 'store' or e.data[0].op != 'ref' or not e.data[0].args[1] or e.data[0].args[1][-1][0] != 'ix2':
            continue
        if k and r.events[k - 1].kind == 'rawwrite' and r.events[k - 1].data[3] is e.data[1]:
            continue                     # the raw write itself
        _, a, b = e.data[0].args[1][-1]
        ix = [x for x in r.events[:k] if x.kind == 'index' and x.data[0] is a and x.data[1] is b]
        if not ix:
            continue
        m = ix[-1].data[2]
        while m.op == 'phi':
            m = m.args[2]
        n += 1
        el = deep_mel(mel(m, a, b))
        key = '%s:assigned elements are initialised' % fn.label()
        if not contains(el, lambda x: x.op == 'mnew'):
            rep.require(key, True, '')
            continue
        if any(w.data[0] is a and w.data[1] is b for w in raw):
            continue
        out = [holes(el, list(c)) for c in e.pc]
        left = True if True in out else None if None in out else False
        if left is None:
            rep.count('undecided')
        else:
            rep.require(key, not left, 'element (%s, %s) of fresh storage is assigned, which drops a value that was never there' % (show(a)[:60], show(b)[:60]), ck.where(fn))
