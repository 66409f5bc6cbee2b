"""Abstract interpreter over MIR: value numbering with joins, loop summaries and callee inlining.

One pass per function computes, for every program point, a path predicate (a disjunction of
conjunctions of branch literals) and a store from abstract locations to hash-consed terms.  Joins
merge values into gated terms, loops are summarised by loop-carried symbols found by iterating the body
to a fixpoint, and `for`/`while`/iterator-adaptor forms of a loop reduce to the same index symbol.
Nothing is executed and no paths are enumerated or handed to a solver.
"""
import re
from fractions import Fraction
from terms import *
import terms

MAXDNF = 40
PRED_TRUE = frozenset([frozenset()])


class GiveUp(Exception):
    pass


# ------------------------------------------------------------------ predicates
def _contradict(c, lit):
    if lnot(lit) in c:
        return True
    if lit.op == 'eq0':
        d = to_poly(lit.args[0]); k = d.pop((), 0)
        for o in c:
            if o.op == 'eq0':
                e = to_poly(o.args[0]); j = e.pop((), 0)
                if e == d and j != k:
                    return True
    if lit.op == 'gt0':
        for o in c:
            if o.op == 'gt0':
                s = cval(add(lit.args[0], o.args[0]))
                if s is not None and s < 2:
                    return True
            elif o.op == 'eq0':
                for q in (add(lit.args[0], o.args[0]), sub(lit.args[0], o.args[0])):
                    s = cval(q)
                    if s is not None and s <= 0:
                        return True
    if lit.op == 'eq0':
        for o in c:
            if o.op == 'gt0':
                for q in (add(o.args[0], lit.args[0]), sub(o.args[0], lit.args[0])):
                    s = cval(q)
                    if s is not None and s <= 0:
                        return True
    if lit.op == 'isv':
        for o in c:
            if o.op == 'isv' and o.args[0] is lit.args[0] and o.args[1] != lit.args[1]:
                return True
    return False


def conj_add(c, lit):
    if lit is TRUE:
        return c
    if lit is FALSE or _contradict(c, lit):
        return None
    return c | {lit}


def dnf_and(d, cond):
    """d and cond, as a DNF."""
    if cond is TRUE:
        return d
    if cond is FALSE:
        return frozenset()
    if cond.op == 'and':
        out = d
        for x in sorted(cond.args[0], key=skey):
            out = dnf_and(out, x)
        return out
    if cond.op == 'or':
        out = set()
        if len(d) * len(cond.args[0]) > MAXDNF:
            for c in d:
                out.add(c | {cond})
            return frozenset(out)
        for x in sorted(cond.args[0], key=skey):
            out |= dnf_and(d, x)
        return simplify_dnf(frozenset(out))
    out = set()
    for c in d:
        n = conj_add(c, cond)
        if n is not None:
            out.add(n)
    return frozenset(out)


def simplify_dnf(d):
    s = set(d)
    changed = True
    while changed:
        changed = False
        lst = sorted(s, key=len)
        for i, a in enumerate(lst):
            for b in lst[i + 1:]:
                if a not in s or b not in s:
                    continue
                if a <= b:
                    s.discard(b)
                    changed = True
                    continue
                # a = x+{l}, b = y+{not l}: with x <= y drop {not l} from b
                for l in a:
                    nl = lnot(l)
                    if nl in b and (a - {l}) <= (b - {nl}):
                        s.discard(b)
                        n = b - {nl}
                        if n == a - {l}:
                            s.discard(a)
                        s.add(n)
                        changed = True
                        break
                if changed:
                    break
            if changed:
                break
    return frozenset(s)


def dnf_or(ds):
    out = set()
    for d in ds:
        out |= d
    r = simplify_dnf(frozenset(out))
    if len(r) > MAXDNF:
        common = frozenset.intersection(*r)
        return frozenset([common])
    return r


def dnf_common(d):
    return frozenset.intersection(*d) if d else frozenset()


def dnf_term(d):
    return lor(*[land(*c) for c in d]) if d else FALSE


def dnf_conj(d, e):
    """Conjunction of two DNFs."""
    out = set()
    if len(d) * len(e) > 4 * MAXDNF:
        ce = dnf_common(e)
        e = frozenset([ce])
    for a in d:
        for b in e:
            c = a
            for l in b:
                if l in c:
                    continue
                c = conj_add(c, l)
                if c is None:
                    break
            if c is not None:
                out.add(c)
    r = simplify_dnf(frozenset(out))
    if len(r) > MAXDNF:
        return frozenset([frozenset.intersection(*r)])
    return r


# ------------------------------------------------------------------ control-flow graph
class Cfg:
    def __init__(self, body):
        bl = body['blocks']
        n = len(bl)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            if b.get('cleanup'):
                continue
            t = b['term']
            k = t['t']
            if k == 'goto': s = [t['to']]
            elif k == 'switch': s = [x for _, x in t['vals']] + ([t['else']] if t['else'] is not None else [])
            elif k in ('drop', 'assert', 'call'): s = [t['to']] if t.get('to') is not None else []
            elif k == 'other': s = [x for x in t.get('succ', []) if not bl[x].get('cleanup')]
            else: s = []
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            self.succ[i] = seen
        self.pred = [[] for _ in range(n)]
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self.idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in self.idom:
                        new = p if new is None else self._meet(p, new)
                if self.idom.get(b) != new:
                    self.idom[b] = new
                    ch = True
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body_:
                            continue
                        body_.add(x)
                        work.extend(self.pred[x])
        # RPO in which loop bodies are contiguous enough: exits after bodies
        self.rpo = self._loop_rpo()
        self.num = {b: i for i, b in enumerate(self.rpo)}

    def _meet(self, a, b):
        while a != b:
            while self.num[a] > self.num[b]: a = self.idom[a]
            while self.num[b] > self.num[a]: b = self.idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = self.idom[b]

    def _loop_rpo(self):
        """Topological order of the DAG without back edges (any such order does)."""
        indeg = {b: 0 for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                if not (s in self.loops and b in self.loops[s]):
                    indeg[s] += 1
        import heapq
        ready = [(self.num[b], b) for b in self.rpo if indeg[b] == 0]
        heapq.heapify(ready)
        out = []
        while ready:
            _, b = heapq.heappop(ready)
            out.append(b)
            for s in self.succ[b]:
                if not (s in self.loops and b in self.loops[s]):
                    indeg[s] -= 1
                    if indeg[s] == 0:
                        heapq.heappush(ready, (self.num[s], s))
        if len(out) != len(self.rpo):
            raise GiveUp('irreducible control flow')
        return out


def cfg_of(fn):
    c = fn.body.get('_cfg')
    if c is None:
        c = Cfg(fn.body)
        fn.body['_cfg'] = c
    return c


# ------------------------------------------------------------------ values
def agg_adt(path, variant, vname, *ops):
    return mk('agg', ('adt', path, variant, vname), *ops)


OPT = 'std::option::Option'


def some(x):
    return agg_adt(OPT, 1, 'Some', x)


NONE = None


def none():
    return agg_adt(OPT, 0, 'None')


def is_adt(t, path, variant=None):
    return t.op == 'agg' and t.args[0][0] == 'adt' and t.args[0][1] == path and (variant is None or t.args[0][2] == variant)


def tup(*xs):
    return mk('agg', ('tuple',), *xs)


def proj(v, e):
    """Component e of value v."""
    k = e[0]
    o = v.op
    if k == 'ix2':
        if o == 'mtr':
            return proj(v.args[0], ('ix2', e[2], e[1]))
        if o == 'mview':
            return proj(v.args[0], ('ix2', add(v.args[1], e[1]), add(v.args[3], e[2])))
        if o == 'mconst':
            return v.args[2]
    elif k == 'view':
        return mview(v, *e[1:])
    elif k == 'tr':
        return mtr(v)
    if o == 'agg':
        kind = v.args[0]
        if k == 'f' and e[1] + 1 < len(v.args):
            return v.args[e[1] + 1]
        if k == 'f' and kind[0] == 'adt':
            return mk('undef')
        if k == 'd':
            return v
        if k == 'ix' and kind[0] == 'array':
            n = cval(e[1])
            if n is not None and 0 <= n < len(v.args) - 1:
                return v.args[int(n) + 1]
        if k == 'slice':
            return mk('proj', v, e)
    if o == 'ite':
        return ite(v.args[0], proj(v.args[1], e), proj(v.args[2], e))
    if o == 'upd':
        b, e2, val = v.args
        if e2 == e:
            return val
        if disjoint_elems(e, e2):
            return proj(b, e)
        if e2[0] == 'ix' and k == 'ix':
            d = sub(e[1], e2[1])
            return ite(eq0(d), val, proj(b, e)) if False else mk('proj', v, e)
    if o == 'repeat' and k == 'ix':
        return v.args[0]
    if o == 'collect' and k == 'ix' and not v.args[2]:
        return subst(v.args[3], {v.args[0]: e[1]})
    if o == 'cmap' and k == 'ix':
        return subst(v.args[2], {v.args[0]: e[1]})
    if o == 'slice' and k == 'ix':
        return proj(v.args[0], ('ix', add(v.args[1], e[1])))
    if o == 'reversed' and k == 'ix':
        return proj(v.args[0], ('ix', sub(sub(length(v.args[0]), e[1]), const(1))))
    if k == 'slice':
        return mk('slice', v, e[1], e[2])
    if o == 'push' and k == 'ix':
        d = sub(e[1], length(v.args[0]))
        if d.op == 'int' and d.args[0] == 0:
            return v.args[1]
    return mk('proj', v, e)


REBUILD['proj'] = lambda v, e: proj(v, e)


def nonzero(d):
    """d is never zero: a constant other than zero plus terms of the same sign."""
    p = to_poly(d)
    c = p.get((), 0)
    return c != 0 and all((k > 0) == (c > 0) and all(getattr(x, 'nn', False) and e > 0 for x, e in m) for m, k in p.items())


def disjoint_elems(a, b):
    if a[0] == 'f' and b[0] == 'f':
        return a[1] != b[1]
    if a[0] == 'ix' and b[0] == 'ix':
        return nonzero(sub(a[1], b[1]))
    if a[0] == 'ix2' and b[0] == 'ix2':
        return nonzero(sub(a[1], b[1])) or nonzero(sub(a[2], b[2]))
    if a[0] == 'd' and b[0] == 'd':
        return a[1] != b[1]
    return False


def upd(v, e, val):
    if v.op == 'agg':
        k = e[0]
        if k == 'f' and e[1] + 1 < len(v.args):
            a = list(v.args)
            a[e[1] + 1] = val
            return mk('agg', *a)
        if k == 'd':
            return val
        if k == 'ix' and v.args[0][0] == 'array':
            n = cval(e[1])
            if n is not None and 0 <= n < len(v.args) - 1:
                a = list(v.args)
                a[int(n) + 1] = val
                return mk('agg', *a)
    if e[0] == 'd':
        return val
    if proj(v, e) is val:
        return v
    if v.op == 'upd':
        b, e2, v2 = v.args
        if e2 == e:
            return upd(b, e, val)
        if disjoint_elems(e, e2) and skey(e) < skey(e2):
            return mk('upd', upd(b, e, val), e2, v2)
    return mk('upd', v, e, val)


REBUILD['upd'] = upd


def setpath(v, path, val):
    if not path:
        return val
    return upd(v, path[0], setpath(proj(v, path[0]), path[1:], val))


def getpath(v, path):
    for e in path:
        v = proj(v, e)
    return v


# ------------------------------------------------------------------ dense matrices (rules/matdom.py)
SHAPE_POST = set()


def msize(m, k):
    o = m.op
    if o in ('mnew', 'mconst'):
        return m.args[k]
    if o == 'mident':
        return m.args[0]
    if o == 'mtr':
        return msize(m.args[0], 1 - k)
    if o == 'mview':
        r0, r1, c0, c1 = m.args[1:]
        return sub(r1, r0) if k == 0 else sub(c1, c0)
    if o == 'upd' and m.args[1][0] in ('ix2', 'view'):
        return msize(m.args[0], k)
    if o in ('fmap', 'sorted'):
        return msize(m.args[0], k)
    if o == 'phi' and len(m.args) > 3 and m.args[3] == 'elem':
        return msize(m.args[2], k)
    if o == 'ite':
        return ite(m.args[0], msize(m.args[1], k), msize(m.args[2], k))
    if o == 'post' and m.args[0] in SHAPE_POST:
        return msize(m.args[1], k)
    if o == 'mmul':
        return msize(m.args[k], k)
    if o in ('madd', 'msub', 'mscale', 'mdiv', 'hvec'):
        return msize(m.args[0], k)
    if o == 'call' and m.args[0] == 'solve':
        return msize(m.args[1][1], k)
    if o == 'call' and m.args[0] in ('spectrum', 'spectrum_symmetric'):
        return msize(m.args[1][0], 0) if k == 0 else const(1)
    if o == 'call' and m.args[0] == 'extract_householder_vecs':
        return add(msize(m.args[1][0], k), const(1))
    if o == 'kpost':
        return msize(m.args[1], k)
    t = mk('msize', m, k)
    t.nn = True
    return t


REBUILD['msize'] = msize


def mtr(m):
    if m.op == 'mtr':
        return m.args[0]
    return mk('mtr', m)


REBUILD['mtr'] = mtr


def mview(m, r0, r1, c0, c1):
    z = const(0)
    if m.op == 'mview':
        a, _, b, _ = m.args[1:]
        return mview(m.args[0], add(a, r0), add(a, r1), add(b, c0), add(b, c1))
    if r0 is z and c0 is z and r1 is msize(m, 0) and c1 is msize(m, 1):
        return m
    return mk('mview', m, r0, r1, c0, c1)


REBUILD['mview'] = mview


def length(v):
    o = v.op
    if o == 'agg' and v.args[0][0] == 'array':
        return const(len(v.args) - 1)
    if o == 'upd' and v.args[1][0] in ('ix', 'slice'):
        return length(v.args[0])
    if o == 'push':
        return add(length(v.args[0]), const(1))
    if o == 'repeat':
        return v.args[1]
    if o == 'slice':
        return sub(v.args[2], v.args[1])
    if o == 'reversed':
        return length(v.args[0])
    if o == 'cmap':
        return v.args[1]
    if o == 'collect' and not v.args[2]:
        return v.args[1]
    if o == 'phi' and len(v.args) > 3 and v.args[3] == 'elem':
        return length(v.args[2])
    if o == 'phi' and len(v.args) > 3 and v.args[3] == 'grow':
        return add(length(v.args[2]), mk('iv', v.args[0]))
    if o == 'ite':
        return ite(v.args[0], length(v.args[1]), length(v.args[2]))
    if o in ('sorted', 'fmap'):
        return length(v.args[0])
    return mk('len', v)


REBUILD['len'] = length


def isv(v, k):
    """v is the enum variant with index k."""
    if v.op == 'agg' and v.args[0][0] == 'adt':
        return TRUE if v.args[0][2] == k else FALSE
    if v.op == 'ite':
        return ite(v.args[0], isv(v.args[1], k), isv(v.args[2], k))
    if v.op == 'cmp':
        a, b = v.args
        return {0: lambda: mk('lt', a, b), 1: lambda: eqt(a, b), 2: lambda: mk('lt', b, a)}[k]()
    if v.op == 'icmp':
        d = sub(v.args[1], v.args[0])
        return {0: lambda: gt0(d), 1: lambda: eq0(d), 2: lambda: gt0(neg(d))}[k]()
    if v.op == 'somecmp':
        return TRUE if k == 1 else FALSE
    return mk('isv', v, k)


REBUILD['isv'] = isv


def eqt(a, b):
    """Equality of two values."""
    if a is b:
        return TRUE
    if a.op == 'agg' and b.op == 'agg':
        if a.args[0] == b.args[0] and len(a.args) == len(b.args):
            return land(*[eqt(x, y) for x, y in zip(a.args[1:], b.args[1:])])
        if a.args[0][0] == 'adt' and b.args[0][0] == 'adt' and a.args[0][1] == b.args[0][1]:
            return FALSE
    if b.op == 'agg' and a.op != 'agg':
        a, b = b, a
    if a.op == 'agg' and b.op != 'ite':
        if a.args[0][0] == 'tuple':
            return land(*[eqt(x, proj(b, ('f', i))) for i, x in enumerate(a.args[1:])])
        if a.args[0][0] == 'adt':
            return land(isv(b, a.args[0][2]), *[eqt(x, proj(b, ('f', i))) for i, x in enumerate(a.args[1:])])
    for x, y in ((a, b), (b, a)):
        if x.op == 'bool':
            return y if x.args[0] else lnot(y)
    if a.op == 'ite':
        return ite(a.args[0], eqt(a.args[1], b), eqt(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], eqt(a, b.args[1]), eqt(a, b.args[2]))
    if is_bool(a) and is_bool(b):
        return lor(land(a, b), land(lnot(a), lnot(b)))
    bt = bit_test(a, b)
    if bt is not None:
        return bt
    return eq0(sub(a, b))


def flat_and(t):
    return [y for x in t.args[0] for y in flat_and(x)] if t.op == 'and' else [t]


def onebit(m):
    if m.op == 'shl' and cval(m.args[0]) == 1:
        return m.args[1]
    return None


def setbit(d, k, v):
    t = mk('setbit', d, k, v)
    t.nn = d.nn
    return t


REBUILD['setbit'] = setbit


def bit_test(a, b):
    """a == b as a test of one bit, when it is one."""
    for x, y in ((a, b), (b, a)):
        if x.op == 'bitand' and len(x.args[0]) == 2:
            for d, m in (x.args[0], x.args[0][::-1]):
                k = onebit(m)
                if k is not None:
                    if y is m:
                        return mk('bit', d, k)
                    if cval(y) == 0:
                        return lnot(mk('bit', d, k))
        if x.op == 'irem' and cval(x.args[1]) == 2 and x.args[0].op in ('shr', 'idiv') and cval(y) in (0, 1):
            d = x.args[0]
            if d.op == 'shr':
                return mk('bit', d.args[0], d.args[1]) if cval(y) == 1 else lnot(mk('bit', d.args[0], d.args[1]))
    return None


INT = {'usize': (0, 64), 'u8': (0, 8), 'u16': (0, 16), 'u32': (0, 32), 'u64': (0, 64), 'u128': (0, 128),
       'isize': (1, 64), 'i8': (1, 8), 'i16': (1, 16), 'i32': (1, 32), 'i64': (1, 64), 'i128': (1, 128), 'char': (0, 32)}


def cmp_term(op, a, b, ty):
    """Lt/Le/Gt/Ge/Eq/Ne on scalars of type ty."""
    if op == 'Eq' and ty == 'bool' and a is not b:
        return lor(land(a, b), land(lnot(a), lnot(b)))
    if op == 'Eq': return eqt(a, b)
    if op == 'Ne': return lnot(cmp_term('Eq', a, b, ty))
    if op == 'Gt': return cmp_term('Lt', b, a, ty)
    if op == 'Ge': return cmp_term('Le', b, a, ty)
    if ty in INT or ty == 'bool':
        d = sub(b, a)
        return gt0(d) if op == 'Lt' else gt0(add(d, const(1)))
    if a.op == 'int' and b.op == 'int':
        r = a.args[0] < b.args[0] if op == 'Lt' else a.args[0] <= b.args[0]
        return TRUE if r else FALSE
    return mk('lt' if op == 'Lt' else 'le', a, b)


# ------------------------------------------------------------------ helpers on type strings
def strip_ref(ty):
    m = re.match(r"^(&('\w+ )?(mut )?|\*const |\*mut )", ty)
    if m:
        return ty[m.end():]
    m = re.match(r'^std::boxed::Box<(.*)>$', ty)
    if m:
        return m.group(1)
    return '?'


def elem_ty(ty):
    m = re.match(r'^\[(.*); [^;]*\]$', ty)
    if m: return m.group(1)
    m = re.match(r'^\[(.*)\]$', ty)
    if m: return m.group(1)
    return '?'


def place_ty(body, p):
    ty = body['locals'][p[0]]['ty']
    for e in p[1]:
        if e[0] == '*': ty = strip_ref(ty)
        elif e[0] == 'f': ty = e[4]
        elif e[0] in ('i', 'c'): ty = elem_ty(ty)
    return ty


def two_variants(prog, ty):
    ty = ty.strip()
    if ty.startswith('std::option::Option') or ty.startswith('std::result::Result') or ty.startswith('std::ops::ControlFlow'):
        return True
    return False


def cname(op):
    """Canonical name of a callee."""
    if op.get('trait'):
        return op['trait'] + '::' + op['name']
    p = op.get('path') or ''
    for pre in ('core::', 'std::', 'alloc::'):
        if p.startswith(pre):
            break
    # drop generic arguments
    out, depth, i = '', 0, 0
    while i < len(p):
        if p.startswith('::<', i) and depth == 0 and not p.startswith('::<impl', i):
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == '<': d += 1
                if p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
            continue
        out += p[i]
        i += 1
    m = re.match(r'^(?:core|std|alloc)::(?:\w+::)*<impl ([^>]*(?:<.*>)?)>::(\w+)$', out)
    if m:
        base = m.group(1)
        if base.startswith('['): base = 'slice'
        elif base.startswith('*const'): base = 'ptr'
        elif base.startswith('*mut'): base = 'ptr'
        return base + '::' + m.group(2)
    return out


# ------------------------------------------------------------------ interpreter
class Event:
    __slots__ = ('kind', 'name', 'data', 'pc', 'loops', 'at', 'fn', 'stack', 'op')

    def __init__(self, kind, name, data, pc, loops, at, fn, stack, op=None):
        self.kind, self.name, self.data, self.pc, self.loops, self.at, self.fn, self.stack, self.op = kind, name, data, pc, loops, at, fn, stack, op

    def __repr__(self):
        return '%s %s %s | %s | %s' % (self.kind, self.name, show(self.data), ' OR '.join(' & '.join(sorted(show(l) for l in c)) for c in self.pc), [l.id for l in self.loops])


class Loop:
    """A loop instance: its index symbol and what bounds it."""
    def __init__(self, lid, at):
        self.id = lid
        self.iv = mk('iv', lid)
        self.phis = {}
        self.at = at
        self.next = {}
        self.filters = set()
        self.real = None
        self.early = []
        self.flat = None

    def __repr__(self):
        return 'L%s' % (self.id,)


class Result:
    pass


class Interp:
    def __init__(self, prog, prims=(), inline=None, max_depth=12, opaque=None):
        self.prog = prog
        self.prims = list(prims)
        self.events = []
        self.frames = 0
        self.nloops = 0
        self.stack = []
        self.loops = []
        self.max_depth = max_depth
        self.opaque = opaque or (lambda fn: False)
        self.fresh = 0
        self.loop_objs = {}
        self.steps = 0
        self.budget = 400000
        self.returns = []

    # -- entry
    def run(self, fn, args=None):
        """Analyses fn with symbolic parameters."""
        unmark()
        st = {}
        body = fn.body
        vals = []
        for i in range(1, body['argc'] + 1):
            ty = body['locals'][i]['ty']
            a = mk('arg', i - 1)
            if ty in INT and not INT[ty][0]:
                mark(a)
            if re.match(r"^(&|\*const |\*mut )", ty):
                it = strip_ref(ty)
                if it in INT and not INT[it][0]:
                    mark(a)
                root = ('P', i - 1)
                st[root] = a
                vals.append(mk('ref', root, ()))
            else:
                vals.append(a)
        if args:
            for i, v in args.items():
                vals[i] = v
        if fn.kind == 'closure':
            pass
        r = Result()
        r.args = vals
        r.fn = fn
        out = self.call_body(fn, vals, st, PRED_TRUE)
        r.events = self.events
        if out is None:
            r.ret, r.state, r.pc = None, None, frozenset()
        else:
            r.ret, r.state, r.pc = out
        r.interp = self
        return r

    def event(self, kind, name, data, pc, at, op=None):
        self.events.append(Event(kind, name, data, pc, tuple(self.loops), at, self.stack[-1] if self.stack else None, tuple(f.key for f in self.stack), op))

    # -- memory
    def initial(self, root):
        if root[0] == 'D':
            return mk('deref', root[1])
        if root[0] == 'P':
            return mk('arg', root[1])
        return mk('uninit', root)

    def readroot(self, st, root):
        v = st.get(root)
        return self.initial(root) if v is None else v

    def read(self, st, root, path):
        return getpath(self.readroot(st, root), path)

    def write(self, st, root, path, val):
        st[root] = setpath(self.readroot(st, root), path, val) if path else val

    def ref(self, root, path):
        if root[0] == 'D' and not path:
            return root[1]
        return mk('ref', root, tuple(path))

    def target(self, v):
        """(root, path) a reference value denotes."""
        if v.op == 'ref':
            return v.args[0], v.args[1]
        return ('D', v), ()

    def content(self, st, v):
        """What a reference points to."""
        if v.op == 'ite':
            return ite(v.args[0], self.content(st, v.args[1]), self.content(st, v.args[2]))
        r, p = self.target(v)
        return self.read(st, r, p)

    def store(self, st, v, val, pc=None, at=''):
        if v.op == 'ite':
            a, b = v.args[1], v.args[2]
            self.store(st, a, ite(v.args[0], val, self.content(st, a)))
            self.store(st, b, ite(v.args[0], self.content(st, b), val))
            return
        r, p = self.target(v)
        self.write(st, r, p, val)
        if pc is not None:
            self.note_store(r, p, val, pc, at)

    def note_store(self, root, path, val, pc, at):
        if root[0] != 'L' or any(e[0] in ('ix', 'ix2', 'view', 'slice') for e in path):
            self.event('store', None, (mk('ref', root, tuple(path)), val), pc, at)

    def reify(self, st, v, depth=0, seen=()):
        """Replaces references to locations by the contents they have now."""
        if depth > 12:
            return v
        if v.op == 'ref':
            if v in seen:
                return v
            return mk('rv', self.reify(st, self.content(st, v), depth + 1, seen + (v,)))
        if not contains(v, lambda t: t.op == 'ref'):
            return v
        m = {}
        for t in subterms(v):
            if t.op == 'ref':
                m[t] = mk('rv', self.reify(st, self.content(st, t), depth + 1, seen + (t,))) if t not in seen else t
        return subst(v, m)

    # -- places and operands
    def place(self, st, fr, body, p):
        root, path = ('L', fr, p[0]), ()
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, root, path)
                if v.op == 'ite':
                    root, path = ('D', v), ()
                    continue
                root, path = self.target(v)
                continue
            if k == 'f': el = ('f', e[1])
            elif k == 'i':
                el = ('ix', self.readroot(st, ('L', fr, e[1])))
            elif k == 'c':
                if e[3]:
                    base = self.read(st, root, path)
                    el = ('ix', sub(length(base), const(e[1])))
                else:
                    el = ('ix', const(e[1]))
            elif k == 's':
                base = self.read(st, root, path)
                hi = sub(length(base), const(e[2])) if e[3] else const(e[2])
                el = ('slice', const(e[1]), hi)
            elif k == 'd':
                v = self.read(st, root, path)
                el = ('d', e[1])
                if v.op == 'agg':
                    path = path  # downcast of a known variant is the identity
                    continue
                if v.op in ('ite',):
                    continue
                path = path
                continue
            else:
                el = (k,) + tuple(str(x) for x in e[1:])
            path = self.push(path, el)
        return root, path

    def push(self, path, el):
        if el[0] == 'ix' and path and path[-1][0] == 'slice':
            return path[:-1] + (('ix', add(path[-1][1], el[1])),)
        if el[0] == 'slice' and path and path[-1][0] == 'slice':
            b = path[-1][1]
            return path[:-1] + (('slice', add(b, el[1]), add(b, el[2])),)
        return path + (el,)

    def readplace(self, st, fr, body, p):
        if any(e[0] == '*' for e in p[1]):
            # reading through a gated reference is a gated read
            root, path = ('L', fr, p[0]), ()
            v = None
            cur = self.readroot(st, root)
            for e in p[1]:
                k = e[0]
                if k == '*':
                    cur = self.content(st, cur)
                elif k == 'f': cur = proj(cur, ('f', e[1]))
                elif k == 'i': cur = proj(cur, ('ix', self.readroot(st, ('L', fr, e[1]))))
                elif k == 'c':
                    cur = proj(cur, ('ix', sub(length(cur), const(e[1])) if e[3] else const(e[1])))
                elif k == 's':
                    hi = sub(length(cur), const(e[2])) if e[3] else const(e[2])
                    cur = proj(cur, ('slice', const(e[1]), hi))
                elif k == 'd': pass
                else: cur = proj(cur, (k,) + tuple(str(x) for x in e[1:]))
            v = cur
        else:
            root, path = self.place(st, fr, body, p)
            v = self.read(st, root, path)
        ty = place_ty(body, p)
        if ty in INT and not INT[ty][0] and v.op not in ('int', 'poly'):
            mark(v)
        return v

    def operand(self, st, fr, fn, o):
        k = o['k']
        if k in ('copy', 'move'):
            return self.readplace(st, fr, fn.body, o['p'])
        if k == 'fn':
            return mk('fnitem', o.get('rkey') or o['key'], self._opid(o))
        ty = o.get('ty', '')
        if o.get('promoted') is not None:
            return self.promoted(st, fn, o['promoted'])
        if 'v' in o and o['v'] is not None:
            if ty == 'bool':
                return TRUE if o['v'] else FALSE
            try:
                return const(int(o['v']))
            except (TypeError, ValueError):
                return mk('named', str(o['v']))
        if 'f' in o and o['f'] is not None:
            try:
                return const(Fraction(str(o['f'])))
            except (ValueError, ZeroDivisionError):
                return mk('named', 'f:' + str(o['f']))
        if ty == '()':
            return UNIT
        if o.get('str') is not None:
            return mk('str', o['str'])
        if o.get('static'):
            return mk('static', o['static'])
        if o.get('def'):
            return mk('named', o['def'])
        if o.get('param') is not None or o.get('ct') is not None:
            c = mk('cparam', str(o['param'] if o.get('param') is not None else o['ct']))
            if ty in INT and not INT[ty][0]: mark(c)
            return c
        c = mk('constv', ty, str(o.get('dbg', '')))
        if ty in INT and not INT[ty][0]: mark(c)
        return c

    OPS = {}

    def _opid(self, o):
        self.OPS[id(o)] = o
        return id(o)

    def promoted(self, st, fn, idx):
        root = ('K', fn.key, idx)
        if root not in st:
            pb = (fn.d.get('promoted') or [])
            val = mk('named', '%s#%s' % (fn.key, idx))
            if idx < len(pb):
                class F: pass
                f2 = F()
                f2.body, f2.key, f2.kind, f2.d = pb[idx], fn.key, 'promoted', fn.d
                fr = self.newframe()
                body = pb[idx]
                for i, bb in enumerate(body['blocks'][:1]):
                    for s in bb['st']:
                        self.stmt(st, fr, f2, s, PRED_TRUE, False)
                v = self.readroot(st, ('L', fr, 0))
                return v
            st[root] = val
        return self.ref(root, ())

    def newframe(self):
        self.frames += 1
        return self.frames

    # -- rvalues
    def rvalue(self, st, fr, fn, rv, pc, at):
        r = rv['r']
        if r == 'use':
            return self.operand(st, fr, fn, rv['a'])
        if r in ('ref', 'rawptr'):
            root, path = self.place(st, fr, fn.body, rv['p'])
            return self.ref(root, path)
        if r == 'bin':
            a = self.operand(st, fr, fn, rv['a'])
            b = self.operand(st, fr, fn, rv['b'])
            return self.binop(rv['op'], a, b, rv.get('ty'))
        if r == 'un':
            a = self.operand(st, fr, fn, rv['a'])
            op = rv['op']
            if op == 'Not':
                ty = rv.get('ty') or self.opty(fn, rv['a'])
                if ty == 'bool' or is_bool(a):
                    return lnot(a)
                return mk('bitnot', a)
            if op == 'Neg':
                return neg(a)
            if op == 'PtrMetadata':
                return length(self.content(st, a))
            return mk('un', op, a)
        if r == 'discr':
            v = self.readplace(st, fr, fn.body, rv['p'])
            return self.discr(v, place_ty(fn.body, rv['p']))
        if r == 'cast' and rv['kind'] == 'BoxDerefTransmute' and rv['a'].get('p') and rv['a']['p'][1] and rv['a']['p'][1][-1][0] == 'f':
            # a box is its content
            p = rv['a']['p']
            root, path = self.place(st, fr, fn.body, [p[0], p[1][:-1]])
            v = self.read(st, root, path)
            return v if v.op == 'ref' else self.ref(root, path)
        if r == 'cast':
            return self.cast(rv, self.operand(st, fr, fn, rv['a']))
        if r == 'agg':
            ops = [self.operand(st, fr, fn, o) for o in rv['ops']]
            k = rv['agg']
            if k == 'tuple':
                return mk('agg', ('tuple',), *ops)
            if k == 'array':
                return mk('agg', ('array',), *ops)
            if k == 'adt':
                if rv.get('active') is not None:
                    return mk('agg', ('union', rv['adt'], rv['active']), *ops)
                return agg_adt(rv['adt'], rv['variant'], rv['vname'], *ops)
            if k == 'closure':
                return mk('agg', ('closure', rv['def']), *ops)
            return mk('agg', (k,), *ops)
        if r == 'repeat':
            n = rv.get('n')
            a = self.operand(st, fr, fn, rv['a'])
            if isinstance(n, dict):
                n = self.operand(st, fr, fn, n)
            else:
                try:
                    n = const(int(n))
                except (TypeError, ValueError):
                    n = mk('cparam', str(n)); mark(n)
            return mk('repeat', a, n)
        return mk('rvalue', r, str(rv.get('dbg', '')), at)

    def opty(self, fn, o):
        if o['k'] in ('copy', 'move'):
            return place_ty(fn.body, o['p'])
        return o.get('ty', '')

    def binop(self, op, a, b, ty):
        op = op.replace('Unchecked', '')
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return cmp_term(op, a, b, ty)
        if ty == 'bool' or (is_bool(a) and is_bool(b)):
            if op == 'BitAnd': return land(a, b)
            if op == 'BitOr': return lor(a, b)
            if op == 'BitXor': return lnot(eqt(a, b))
        if op == 'Add': return add(a, b)
        if op == 'Sub': return sub(a, b)
        if op == 'Mul': return mul(a, b)
        if op.endswith('WithOverflow'):
            r = {'Add': add, 'Sub': sub, 'Mul': mul}[op[:3]](a, b)
            return tup(r, FALSE)
        if op == 'Div':
            if ty in INT:
                k, l = cval(a), cval(b)
                if l == 1: return a
                if k is not None and l: return const(int(k / l) if (k >= 0) == (l > 0) or k % l == 0 else -int(-k / l))
                t = idiv_term(a, b)
                if not INT[ty][0]: mark(t)
                return t
            return div(a, b)
        if op == 'Rem':
            t = irem_term(a, b) if ty in INT else mk('irem', a, b)
            if ty in INT and not INT[ty][0]: mark(t)
            return t
        if op in ('Shl', 'Shr', 'BitAnd', 'BitOr', 'BitXor'):
            k, l = cval(a), cval(b)
            if k is not None and l is not None and k.denominator == 1:
                k, l = int(k), int(l)
                m = (1 << INT[ty][1]) - 1 if ty in INT else None
                if op == 'Shl' and l < 256:
                    r = k << l
                    if m is not None and not INT[ty][0]: r &= m
                    return const(r)
                if op == 'Shr': return const(k >> l)
                if op == 'BitAnd': return const(k & l)
                if op == 'BitOr': return const(k | l)
                if op == 'BitXor': return const(k ^ l)
            if ty in INT and not INT[ty][0]:
                if op == 'Shr' and l is not None and 0 <= l < 128:
                    return self.binop('Div', a, const(2 ** int(l)), ty)
                if op == 'BitAnd':
                    for x, y in ((a, l), (b, k)):
                        if y is not None and y > 0 and (int(y) + 1) & int(y) == 0:
                            return self.binop('Rem', x, const(int(y) + 1), ty)
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                for d, m in ((a, b), (b, a)):
                    if op == 'BitOr' and onebit(m) is not None:
                        return setbit(d, onebit(m), TRUE)
                    if op == 'BitXor' and onebit(m) is not None:
                        return setbit(d, onebit(m), lnot(mk('bit', d, onebit(m))))
                    if op == 'BitAnd' and m.op == 'bitnot' and onebit(m.args[0]) is not None:
                        return setbit(d, onebit(m.args[0]), FALSE)
                xs = []
                for x in (a, b):
                    if x.op == op.lower(): xs.extend(x.args[0])
                    else: xs.append(x)
                t = mk(op.lower(), tuple(sorted(xs, key=skey)))
            else:
                t = mk(op.lower(), a, b)
            if ty in INT and not INT[ty][0]: mark(t)
            return t
        if op == 'Cmp':
            return mk('icmp', a, b)
        if op == 'Offset':
            return mk('padd', a, b)
        return mk('bin', op, a, b)

    def discr(self, v, ty):
        return mk('discr', v, bool(two_variants(self.prog, ty)), ty.split('<')[0])

    def cast(self, rv, a):
        kind, frm, to = rv['kind'], rv.get('from', ''), rv.get('to', '')
        if kind.startswith('IntToInt'):
            k = cval(a)
            if a.op == 'bool':
                return const(a.args[0])
            if to in INT:
                if k is not None and k.denominator == 1:
                    s, w = INT[to]
                    k = int(k) & ((1 << w) - 1)
                    if s and k >> (w - 1): k -= 1 << w
                    return const(k)
                if frm in INT:
                    (s1, w1), (s2, w2) = INT[frm], INT[to]
                    if (s1 == s2 and w2 >= w1) or (not s1 and s2 and w2 > w1):
                        return a
                    if s1 and not s2 and a.op == 'abs' and w2 >= w1:
                        return a
                if is_bool(a):
                    return ite(a, const(1), const(0))
            t = mk('cast', to, a)
            if to in INT and not INT[to][0]: mark(t)
            return t
        if kind.startswith('IntToFloat'):
            if cval(a) is not None: return a
            return mk('cast', to, a)
        if kind.startswith(('coerce:', 'PtrToPtr', 'PointerCoercion', 'FnPtrToPtr', 'Subtype')):
            return a
        if kind.startswith('Transmute'):
            if to.startswith(('*', '&', 'std::ptr::NonNull', 'std::ptr::Unique')):
                return a
            return mk('transmute', to, a)
        return mk('cast', to, a)

    # -- statements
    def stmt(self, st, fr, fn, s, pc, note=True):
        if s['s'] == '=':
            v = self.rvalue(st, fr, fn, s['rv'], pc, s.get('at', ''))
            root, path = self.place(st, fr, fn.body, s['p'])
            if root[0] == 'D' and root[1].op == 'ite' and not path:
                self.store(st, root[1], v)
            else:
                self.write(st, root, path, v)
            if note:
                self.note_store(root, path, v, pc, s.get('at', ''))
        elif s['s'] == 'setdiscr':
            pass

    # -- branch conditions
    def branches(self, t, v, ty, bl):
        """[(condition, target)] of a switch."""
        vals, other = t['vals'], t['else']
        if ty in INT and INT[ty][0]:
            w = INT[ty][1]
            vals = [(k - (1 << w) if k >> (w - 1) & 1 and k > 0 else k, to) for k, to in vals]
        dead = other is not None and bl[other]['term']['t'] == 'unreachable' and not bl[other]['st']
        if v.op == 'discr':
            inner, two, tyname = v.args
            lits = []
            for k, to in vals:
                if two:
                    lits.append((isv(inner, 1) if k == 1 else lnot(isv(inner, 1)), to))
                elif tyname == 'std::cmp::Ordering':
                    kk = {0: 1, 1: 2}.get(k, 0)
                    lits.append((isv(inner, kk), to))
                else:
                    lits.append((isv(inner, k), to))
        elif ty == 'bool' or is_bool(v):
            c = v if is_bool(v) else (eqt(v, TRUE) if v.op == 'bool' else v)
            lits = [((c if k else lnot(c)), to) for k, to in vals]
        elif v.op == 'ite' and not is_bool(v):
            lits = [(eqt(v, const(k)), to) for k, to in vals]
        else:
            lits = [(eqt(v, const(k)), to) for k, to in vals]
        out = []
        rest = TRUE
        if dead:
            # the last listed value is what remains when all others are excluded
            for i, (c, to) in enumerate(lits):
                if i == len(lits) - 1 and len(lits) > 1:
                    out.append((land(rest, c) if v.op != 'discr' or len(lits) > 2 else rest, to))
                else:
                    out.append((c, to))
                    rest = land(rest, lnot(c))
        else:
            for c, to in lits:
                out.append((c, to))
                rest = land(rest, lnot(c))
            if other is not None:
                out.append((rest, other))
        return out

    # -- body
    def call_body(self, fn, args, st, pc):
        """Evaluates fn's body; returns (value, state, pc) or None when it never returns."""
        if fn.body is None:
            raise GiveUp('no body: ' + fn.key)
        self.stack.append(fn)
        fr = self.newframe()
        try:
            st = dict(st)
            for i, a in enumerate(args):
                st[('L', fr, i + 1)] = a
            cfg = cfg_of(fn)
            saved = getattr(self, 'cur_returns', None)
            self.cur_returns = []
            backs, exits = self.region(fn, fr, cfg, set(cfg.rpo), 0, pc, st, None)
            rets = self.cur_returns
            self.cur_returns = saved
        finally:
            self.stack.pop()
        if not rets:
            return None
        pc2, st2 = self.merge([(i, p, s) for i, (p, s) in enumerate(rets)], fn, -1)
        v = self.readroot(st2, ('L', fr, 0))
        self.prune(st2, fr, v)
        return v, st2, pc2

    def frames_in(self, t):
        if t._roots is None:
            s = set()
            for x in t.args:
                self._fi(x, s)
            if t.op == 'ref' and t.args[0][0] == 'L':
                s.add(t.args[0][1])
            t._roots = frozenset(s)
        return t._roots

    def _fi(self, x, s):
        if isinstance(x, Term):
            s |= self.frames_in(x)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                self._fi(y, s)

    def prune(self, st, fr, v):
        if fr in self.frames_in(v):
            return
        for r, x in st.items():
            if not (r[0] == 'L' and r[1] == fr) and fr in self.frames_in(x):
                return
        for r in [r for r in st if r[0] == 'L' and r[1] == fr]:
            del st[r]

    def merge(self, ins, fn, block):
        """Joins incoming (src, pc, state)."""
        if len(ins) == 1:
            return ins[0][1], dict(ins[0][2])
        pc = dnf_or([p for _, p, _ in ins])
        allc = [c for _, p, _ in ins for c in p]
        common = frozenset.intersection(*allc) if allc else frozenset()
        conds = [dnf_term(simplify_dnf(frozenset(c - common for c in p))) for _, p, _ in ins]
        if any(c is TRUE for c in conds):
            conds = [mk('join', fn.key, block, src) for src, _, _ in ins]
        roots = {}
        for _, _, s in ins:
            for r in s:
                roots[r] = None
        out = {}
        for r in roots:
            vals = []
            for _, _, s in ins:
                vals.append(s.get(r))
            first = vals[0]
            if all(x is first for x in vals) and first is not None:
                out[r] = first
                continue
            present = [(c, v) for c, v in zip(conds, vals) if v is not None]
            if len(present) < len(vals):
                if r[0] == 'L':
                    # assigned on some paths only: its value matters only where it was assigned
                    if not present:
                        continue
                    out[r] = self.gate(present)
                    continue
                present = [(c, v if v is not None else self.initial(r)) for c, v in zip(conds, vals)]
            out[r] = self.gate(present)
        return pc, out

    def gate(self, cv):
        groups = []
        for c, v in cv:
            for g in groups:
                if g[1] is v:
                    g[0] = lor(g[0], c)
                    break
            else:
                groups.append([c, v])
        if len(groups) == 1:
            return groups[0][1]
        aggs = [g[1] for g in groups]
        if all(a.op == 'agg' and a.args[0] == aggs[0].args[0] and len(a.args) == len(aggs[0].args) for a in aggs) and aggs[0].args[0][0] in ('tuple', 'adt', 'closure'):
            cols = []
            for i in range(1, len(aggs[0].args)):
                cols.append(self.gate([(g[0], g[1].args[i]) for g in groups]))
            return mk('agg', aggs[0].args[0], *cols)
        v = groups[-1][1]
        for c, x in reversed(groups[:-1]):
            v = ite(c, x, v)
        return v

    def region(self, fn, fr, cfg, blocks, entry, pc, st, header):
        """Evaluates a single-entry region in topological order."""
        pending = {entry: [(None, pc, st)]}
        backs, exits = [], []
        for b in cfg.rpo:
            if b not in blocks or b not in pending:
                continue
            ins = [x for x in pending.pop(b) if x[1]]
            if not ins:
                continue
            p, s = self.merge(ins, fn, b)
            if b in cfg.loops and b != header:
                outs = self.mir_loop(fn, fr, cfg, b, p, s)
                for src, to, p2, s2 in outs:
                    if to in blocks and to != header:
                        pending.setdefault(to, []).append((src, p2, s2))
                    elif to == header:
                        backs.append((src, p2, s2))
                    else:
                        exits.append((src, to, p2, s2))
                continue
            for to, p2, s2 in self.block(fn, fr, cfg, b, p, s):
                if not p2:
                    continue
                if to == header and header is not None:
                    backs.append((b, p2, s2))
                elif to in blocks:
                    pending.setdefault(to, []).append((b, p2, s2))
                else:
                    exits.append((b, to, p2, s2))
        return backs, exits

    def block(self, fn, fr, cfg, b, pc, st):
        self.steps += 1
        if self.steps > self.budget:
            raise GiveUp('analysis budget exhausted')
        bl = fn.body['blocks']
        bb = bl[b]
        for s in bb['st']:
            self.stmt(st, fr, fn, s, pc)
        t = bb['term']
        k = t['t']
        if k == 'goto':
            return [(t['to'], pc, st)]
        if k == 'return':
            self.cur_returns.append((pc, st))
            return []
        if k in ('unreachable', 'resume', 'abort', 'terminate'):
            return []
        if k == 'drop':
            return [(t['to'], pc, st)] if t.get('to') is not None else []
        if k == 'assert':
            c = self.operand(st, fr, fn, t['c'])
            cond = c if t['exp'] else lnot(c)
            self.event('assert', str(t.get('msg')), (cond,), pc, t.get('at', ''))
            return [(t['to'], dnf_and(pc, cond), st)]
        if k == 'switch':
            v = self.operand(st, fr, fn, t['d'])
            ty = t.get('ty') or self.opty(fn, t['d'])
            br = self.branches(t, v, ty, bl)
            byto = {}
            for c, to in br:
                byto.setdefault(to, []).append(c)
            out = []
            for to, cs in byto.items():
                p2 = dnf_and(pc, lor(*cs) if len(cs) > 1 else cs[0])
                if p2:
                    out.append((to, p2, dict(st) if len(byto) > 1 else st))
            return out
        if k == 'call':
            args = [self.operand(st, fr, fn, a) for a in t['args']]
            op = t['f']
            at = t.get('at', '')
            if op['k'] != 'fn':
                fv = self.operand(st, fr, fn, op)
                r = self.apply(fv, args, st, pc, at)
            else:
                r = self.call(op, args, st, pc, at, t)
            if r is None or t.get('to') is None:
                self.event('panic', cname(op) if op['k'] == 'fn' else '?', tuple(args), pc, at)
                return []
            v, st, pc = r
            if not pc:
                return []
            rty = place_ty(fn.body, t['p'])
            if rty in INT and not INT[rty][0] and v.op not in ('int', 'poly'):
                mark(v)
            root, path = self.place(st, fr, fn.body, t['p'])
            self.write(st, root, path, v)
            self.note_store(root, path, v, pc, at)
            return [(t['to'], pc, st)]
        if k == 'other':
            return [(x, pc, dict(st)) for x in cfg.succ[b]]
        raise GiveUp('terminator ' + k)

    # -- loops
    def mir_loop(self, fn, fr, cfg, header, pc, st):
        blocks = cfg.loops[header]

        def body(s, p):
            backs, exits = self.region(fn, fr, cfg, blocks, header, p, s, header)
            return [(x[1], x[2]) for x in backs], [(x[2], x[3], x[0], x[1]) for x in exits]
        at = fn.body['blocks'][header]['term'].get('at', '')
        exits = self.loop(body, st, pc, at, fn, header)
        return [(src, to, p, s) for p, s, src, to in exits]

    def loop(self, body, st, pc, at, fn=None, header=None):
        """Runs body (state, pc) -> (back edges, exits) to a fixpoint over loop-carried values."""
        self.nloops += 1
        lid = self.nloops
        mod = {}            # (root, path) -> kind
        ev0 = len(self.events)
        saved_returns = list(getattr(self, 'cur_returns', None) or []) if getattr(self, 'cur_returns', None) is not None else None
        for rnd in range(14):
            L = Loop(lid, at)
            head = dict(st)
            heads = {}
            for (root, path), kind in sorted(mod.items(), key=lambda kv: (len(kv[0][1]), repr(kv[0][0]), skey(kv[0][1]))):
                init = self.read(st, root, path)
                rn = self.rootname(root)
                if kind == 'iter':
                    v = mk('iterstate', lid, init)
                elif kind[0] == 'iv':
                    v = add(init, scale(L.iv, kind[1]))
                elif kind in ('elem', 'grow'):
                    v = mk('phi', lid, (rn, path), init, kind)
                else:
                    v = mk('phi', lid, (rn, path), init)
                    if init.nn: mark(v)
                heads[(root, path)] = v
                self.write(head, root, path, v)
                L.phis[(root, path)] = (init, v)
            del self.events[ev0:]
            self.loops.append(L)
            nl = self.nloops
            if saved_returns is not None:
                self.cur_returns = list(saved_returns)
            backs, exits = body(dict(head), pc)
            self.loops.pop()
            # what changed around the loop?
            changed = {}
            for p, s in backs:
                for root in st:
                    a = head[root]
                    b = s.get(root)
                    if b is None or a is b:
                        continue
                    for path, x, y in self.diff(a, b, ()):
                        changed.setdefault((root, path), []).append((x, y))
            again = False
            for key, xs in changed.items():
                root, path = key
                cov = [k for k in mod if k[0] == root and path[:len(k[1])] == k[1]]
                if not cov:
                    # a coarser change supersedes finer ones
                    for k in [k for k in mod if k[0] == root and k[1][:len(path)] == path]:
                        del mod[k]
                    init = self.read(st, root, path)
                    mod[key] = 'iter' if self.is_iter(init) and all(self.is_advanced(y) for _, y in xs) else 'new'
                    again = True
            for key in list(mod):
                root, path = key
                kind = mod[key]
                init = self.read(st, root, path)
                hv = heads.get(key)
                if hv is None:
                    continue
                nxt = [self.read(s, root, path) for p, s in backs]
                if kind == 'iter':
                    if not nxt or any(not (n.op == 'iteradv' and n.args[0] == lid) for n in nxt):
                        if nxt:
                            mod[key] = 'phi'
                            again = True
                elif kind == 'new':
                    steps = {sub(n, hv) for n in nxt}
                    k = cval(next(iter(steps))) if len(steps) == 1 else None
                    if k is not None and k != 0:
                        mod[key] = ('iv', k)
                    elif nxt and all(n.op == 'push' and n.args[0] is hv for n in nxt):
                        mod[key] = 'grow'
                    elif nxt and all(self.elementwise(n, hv) for n in nxt):
                        mod[key] = 'elem'
                    else:
                        mod[key] = 'phi'
                    if mod[key] != 'phi':
                        again = True
                    else:
                        mod[key] = 'phi'
                elif kind == 'elem':
                    if any(not self.elementwise(n, hv) for n in nxt):
                        mod[key] = 'phi'
                        again = True
                elif kind == 'grow':
                    if any(not (n.op == 'push' and n.args[0] is hv) for n in nxt):
                        mod[key] = 'phi'
                        again = True
                elif kind[0] == 'iv':
                    # rounds that a filter skips do not count
                    want = add(hv, const(kind[1]))
                    if L.filters or any(n is not want for n in nxt):
                        mod[key] = 'phi'
                        again = True
                L.next[key] = nxt
            if not again:
                break
        else:
            raise GiveUp('loop did not stabilise')
        for (root, path), hv in heads.items():
            if hv.op == 'phi' and len(backs) > 0:
                L.next[hv] = self.gate_backs([(p, self.read(s, root, path)) for p, s in backs])
        L.backs = backs
        self.loop_objs[lid] = L
        # conditions that really branch: the others only hold because the alternative panics
        lits = set()
        for x in backs:
            for c in x[0]: lits |= c
        for x in exits:
            for c in x[0]: lits |= c
        if saved_returns is not None:
            for p, s in self.cur_returns[len(saved_returns):]:
                for c in p: lits |= c
        L.real = {l for l in lits if lnot(l) in lits or l in L.filters or lnot(l) in L.filters or l.op in ('or', 'and')}
        # summaries of accumulators, applied to what leaves the loop
        summ = self.summaries(L, heads, backs, pc)
        # leaving the loop
        out = []
        deps = self.loop_dep(L)
        exl = []
        for ex in exits:
            p, s = ex[0], ex[1]
            normal = self.is_normal_exit(p, backs, L, pc)
            exl.append((ex, normal))
        multi = len(exits) > 1
        anyl = {}
        if saved_returns is not None:
            new_rets = self.cur_returns[len(saved_returns):]
            self.cur_returns = list(saved_returns)
        else:
            new_rets = []
        early_conds = []
        L.early = [ex[0] for ex, normal in exl if not normal] + [p for p, s in new_rets]
        for ex, normal in exl:
            if not normal:
                early_conds.append(self.exists(L, ex[0], pc))
        ret_conds = [self.exists(L, p, pc) for p, s in new_rets]
        for ex, normal in exl:
            p, s = ex[0], ex[1]
            p2 = self.leave(p, pc, deps)
            if normal:
                for c in early_conds + ret_conds:
                    p2 = dnf_and(p2, lnot(c))
                n = self.trip_count(L, backs, pc)
                m = dict(summ)
                if n is not None:
                    m[L.iv] = n
                    summ2 = {k: v for k, v in summ.items()}
                    s = self.apply_summ(self.apply_summ(s, {L.iv: n}), summ2)
                else:
                    s = self.apply_summ(s, summ)
            else:
                c = self.exists(L, p, pc)
                if multi or new_rets:
                    p2 = dnf_and(p2, c)
                F = mk('first', L.iv, c.args[1])
                m = dict(self.summaries(L, heads, backs, pc, stop=F))
                m[L.iv] = F
                s = self.apply_summ(s, m)
            if p2:
                out.append((p2, s) + tuple(ex[2:]))
        for (p, s), c in zip(new_rets, ret_conds):
            p2 = self.leave(p, pc, deps)
            p2 = dnf_and(p2, c)
            F = mk('first', L.iv, c.args[1])
            m = dict(self.summaries(L, heads, backs, pc, stop=F))
            m[L.iv] = F
            s = self.apply_summ(s, m)
            if p2:
                self.cur_returns.append((p2, s))
        return out

    def trip_count(self, L, backs, pc):
        """Number of iterations when the loop runs to its bound."""
        if not backs:
            return None
        base = dnf_common(pc) if pc else frozenset()
        common = frozenset.intersection(*[c for bp, _ in backs for c in bp]) if any(bp for bp, _ in backs) else frozenset()
        ns = []
        for l in common:
            if l.op == 'gt0' and contains(l, lambda x: x is L.iv) and self.is_bound(l, L):
                ns.append(add(l.args[0], L.iv))
        if len(ns) != 1:
            return None
        n = ns[0]
        return n if nonneg(n) or self.sum_nonneg(n) else ite(gt0(n), n, const(0))

    def sum_nonneg(self, n):
        return all(c >= 0 and all(nonneg(x) for x, _ in m) for m, c in to_poly(n).items())

    def gate_backs(self, pv):
        allc = [c for p, _ in pv for c in p]
        common = frozenset.intersection(*allc) if allc else frozenset()
        return self.gate([(dnf_term(simplify_dnf(frozenset(c - common for c in p))), v) for p, v in pv])

    def rootname(self, root):
        if root[0] == 'L':
            # name locals by frame-relative identity only
            return root
        return root

    def diff(self, a, b, path):
        """Static paths at which two values of one location differ."""
        if a is b:
            return []
        if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0] and len(a.args) == len(b.args) and a.args[0][0] in ('tuple', 'adt', 'closure'):
            out = []
            for i in range(1, len(a.args)):
                out += self.diff(a.args[i], b.args[i], path + (('f', i - 1),))
            return out
        # updates of static fields of a common base
        base, ups = b, []
        while base.op == 'upd' and base.args[1][0] == 'f':
            ups.append((base.args[1], base.args[2]))
            base = base.args[0]
        if ups:
            abase, aups = a, []
            while abase.op == 'upd' and abase.args[1][0] == 'f':
                aups.append((abase.args[1], abase.args[2]))
                abase = abase.args[0]
            if base is a or base is abase:
                out = []
                seen = set()
                for e, v in ups + aups:
                    if e not in seen:
                        seen.add(e)
                        out += self.diff(proj(a, e), proj(b, e), path + (e,))
                return out
        if b.op == 'ite':
            # look through gates
            d1 = self.diff(a, b.args[1], path)
            d2 = self.diff(a, b.args[2], path)
            out, seen = [], set()
            for p, x, y in d1 + d2:
                if p not in seen:
                    seen.add(p)
                    out.append((p, x, getpath(b, p[len(path):])))
            return out
        return [(path, a, b)]

    def elementwise(self, n, head):
        """n is head with some indexed elements overwritten."""
        while True:
            if n is head:
                return True
            if n.op == 'upd' and n.args[1][0] in ('ix', 'ix2', 'view'):
                n = n.args[0]
                continue
            if n.op == 'ite':
                return self.elementwise(n.args[1], head) and self.elementwise(n.args[2], head)
            if n.op == 'phi' and len(n.args) > 3 and n.args[3] == 'elem':
                n = n.args[2]
                continue
            if n.op in ('sorted', 'fmap', 'reversed'):
                n = n.args[0]
                continue
            if n.op == 'post' and n.args[0] in self.SHAPE_KEEPING:
                n = n.args[1]
                continue
            return False

    SHAPE_KEEPING = set()

    def is_iter(self, t):
        return t.op in ('it_range', 'it_slice', 'it_into', 'it_map', 'it_filter', 'it_zip', 'it_enum', 'it_rev', 'it_skip', 'it_chain',
                        'it_takewhile', 'it_take', 'it_flatten', 'it_step', 'it_opaque', 'it_such') or is_adt(t, 'std::ops::Range') or t.op == 'it_rangefrom'

    def is_advanced(self, y):
        return True

    def loop_dep(self, L):
        lid = L.id

        def dep(t):
            return contains(t, lambda x: (x.op == 'iv' and x.args[0] == lid) or (x.op == 'phi' and x.args[0] == lid)
                            or (x.op in ('iterstate', 'iteradv', 'item', 'more') and lid in x.args)
                            or (x.op == 'any' and x.args[0].op == 'iv' and False))
        return dep

    def leave(self, p, pc_in, dep):
        out = set()
        for c in p:
            out.add(frozenset(l for l in c if not dep(l)))
        return simplify_dnf(frozenset(out))

    def is_bound(self, l, L):
        """l limits the trip count: it compares the index with something fixed before the loop."""
        if l.op == 'more':
            return True
        if l.op == 'gt0':
            q = add(l.args[0], L.iv)
            return not contains(q, lambda x: x is L.iv or (x.op == 'phi' and x.args[0] == L.id and not self.is_shape(x)))
        return False

    def is_shape(self, x):
        return len(x.args) > 3 and x.args[3] == 'elem'

    def is_normal_exit(self, p, backs, L, pc_in):
        """The exit taken when the loop's own bound is exhausted."""
        if not backs:
            return True
        common = frozenset.intersection(*[c for bp, _ in backs for c in bp]) if any(bp for bp, _ in backs) else frozenset()
        for c in p:
            if not any(lnot(l) in common and self.is_bound(lnot(l), L) for l in c):
                return False
        return True

    def exists(self, L, p, pc_in):
        base = dnf_common(pc_in) if pc_in else frozenset()
        rel = frozenset(frozenset(l for l in c - base if L.real is None or l in L.real) for c in p)
        return mk('any', L.iv, dnf_term(simplify_dnf(rel)))

    def summaries(self, L, heads, backs, pc_in, stop=None):
        """phi -> closed form after the last iteration (sums, products, pushes)."""
        out = {}
        if not backs:
            return out
        base = dnf_common(pc_in) if pc_in else frozenset()
        for (root, path), hv in heads.items():
            if hv.op == 'iterstate' and hv.args[1].op in ('it_into', 'it_slice', 'it_skip', 'it_range', 'it_rev'):
                # one element further in every iteration
                n, cs = self.bound_count(L, self.back_bounds(L, backs, base)) if stop is None else (stop, frozenset())
                if not cs and n.op != 'count':
                    out[hv] = mk('it_skip', hv.args[1], n)
                continue
            if hv.op != 'phi':
                continue
            nxt = L.next.get(hv)
            if nxt is None:
                continue
            init = hv.args[2]
            bound = self.back_bounds(L, backs, base)
            if stop is not None:
                # left early: the iterations before the one that leaves
                bound = frozenset([gt0(sub(stop, L.iv))]) | frozenset(l for l in bound if l in L.filters or lnot(l) in L.filters)
            if len(hv.args) > 3 and hv.args[3] == 'elem':
                fm = self.flat_form(L, nxt, hv, init, bound) or self.fmap_form(L, nxt, hv, init, bound)
                if fm is not None:
                    out[hv] = fm
                continue
            s = self.acc_form(nxt, hv)
            if s is None:
                lt = self.latch_form(nxt, hv) if stop is None else None
                if lt is not None and not contains(lt[1], lambda x: x.op == 'phi' and x.args[0] == L.id):
                    c = mk('any', L.iv, land(*(list(bound) + [lt[1]])))
                    out[hv] = land(init, lnot(c)) if lt[0] == 'cleared' else lor(init, c)
                continue
            kind, val = s
            if contains(val, lambda x: x is hv):
                continue
            if contains(val, lambda x: x.op == 'phi' and x.args[0] == L.id):
                continue
            if kind == 'sum':
                out[hv] = add(init, mk('sum', L.iv, bound, val))
            elif kind == 'prod':
                out[hv] = mul(init, mk('prod', L.iv, bound, val))
            elif kind == 'push':
                conds, item = val.args
                n, cs = self.bound_count(L, bound) if stop is None else (stop, frozenset(l for l in bound if l in L.filters or lnot(l) in L.filters))
                cl = mk('collect', L.iv, n, frozenset(cs | conds), item)
                if not cs and not conds and item.op == 'proj' and item.args[1] == ('ix', L.iv) and n is length(item.args[0]) and not contains(item.args[0], lambda x: x is L.iv):
                    cl = item.args[0]           # a copy, element by element
                if init.op == 'agg' and init.args[0][0] == 'array' and len(init.args) == 1:
                    out[hv] = cl
                else:
                    out[hv] = mk('append', init, cl)
        return out

    def flat_form(self, L, nxt, hv, init, bound):
        """A loop over the members of the members that updates each in place."""
        if nxt.op != 'upd' or nxt.args[0] is not hv or L.filters or L.flat is None or any(b.op != 'more' for b in bound):
            return None
        key, row = nxt.args[1], nxt.args[2]
        if len(key) != 2 or key[1].op != 'frow' or row.op != 'upd' or row.args[0] is not proj(hv, key) or len(row.args[1]) != 2 or row.args[1][1].op != 'fcol':
            return None
        R, C, v = key[1], row.args[1][1], row.args[2]
        if R.args[0] != L.id or C.args[0] != L.id:
            return None
        r, c = mk('iv_', 'row', L.id), mk('iv_', 'col', L.id)
        r.nn = c.nn = True
        m = {proj(proj(hv, key), row.args[1]): proj(proj(init, ('ix', r)), ('ix', c)), length(proj(hv, key)): length(proj(init, ('ix', r))), R: r, C: c}
        rb, cb = set(), set()
        for b in L.flat:
            t = subst(b, m)
            if contains(t, lambda x: x is hv or x is L.iv or x.op == 'phi' and x.args[0] == L.id):
                return None
            (cb if contains(t, lambda x: x is c) else rb).add(t)
        if len(rb) != 1 or len(cb) != 1:
            return None
        v = subst(v, m)
        if contains(v, lambda x: x is hv or x is L.iv or x in (R, C) or x.op == 'phi' and x.args[0] == L.id):
            return None
        inner = mk('fmap', proj(init, ('ix', r)), (((c,), frozenset(cb), ('ix', c), v),))
        return mk('fmap', init, (((r,), frozenset(rb), ('ix', r), inner),))

    def fmap_form(self, L, nxt, hv, init, bound):
        """An elementwise loop as a simultaneous update: every iteration touches its own elements."""
        ws = []

        def collect(n, cond):
            if n is hv:
                return True
            if n.op == 'upd' and n.args[1][0] in ('ix', 'ix2'):
                if not collect(n.args[0], cond):
                    return False
                key, v = n.args[1], n.args[2]
                ws.append(((), frozenset(flat_and(cond)) if cond is not TRUE else frozenset(), key, v))
                return True
            if n.op == 'fmap':
                if not collect(n.args[0], cond):
                    return False
                for ivs, bs, key, v in n.args[1]:
                    ws.append((ivs, bs if cond is TRUE else bs | {cond}, key, v))
                return True
            if n.op == 'ite':
                a, b = n.args[1], n.args[2]
                if a is hv:
                    return collect(b, land(cond, lnot(n.args[0])))
                if b is hv:
                    return collect(a, land(cond, n.args[0]))
                return False
            return False
        if not collect(nxt, TRUE) or not ws:
            return None
        # one coordinate holds the same index-dependent expression in every access
        keys = [w[2] for w in ws]
        reads, within = [], []
        for w in ws:
            for src, bs in ((subterms(w[3]), w[1]), ([x for b in w[1] for x in subterms(b)], frozenset())):
                for t in src:
                    if t.op == 'proj' and t.args[0] is hv:
                        reads.append(t.args[1])
                        within.append((w[0], bs, t.args[1]))
        dims = {len(k) for k in keys + reads}
        if len(dims) != 1:
            return None
        nd = dims.pop()
        good = None
        for c in range(1, nd):
            es = {k[c] for k in keys + reads}
            if len(es) == 1:
                e = next(iter(es))
                co = to_poly(e).get(((L.iv, 1),), 0)
                if co in (1, -1) and not contains(sub(e, scale(L.iv, co)), lambda x: x is L.iv):
                    good = c
                    break
        if good is None and not self.apart(L, ws, within, bound):
            return None
        m = {mk('proj', hv, k): proj(init, k) for k in reads}
        ent = []
        for ivs, bs, key, v in ws:
            v2 = subst(v, m)
            bs2 = frozenset(subst(b, m) for b in bs)
            for t in [v2] + list(bs2) + [x for x in key[1:]]:
                if contains(t, lambda x: x is hv or (x.op == 'phi' and x.args[0] == L.id)):
                    return None
            ent.append(((L.iv,) + ivs, bound | bs2, key, v2))
        return mk('fmap', init, tuple(ent))

    def apart(self, L, ws, reads, bound):
        """No iteration touches an element another iteration writes."""
        from spec import contradictory, cases
        if len(ws) > 6 or len(reads) > 6:
            return False

        def copy(w, tag):
            m = {iv: mk('iv_', tag, iv) for iv in (L.iv,) + w[0]}
            for t in m.values():
                t.nn = True
            nat = [gt0(add(t, const(1))) for t in m.values()]
            return [subst(x, m) for x in w[2][1:]], nat + [subst(b, m) for b in list(bound) + list(w[1]) if not contains(b, lambda x: x.op == 'phi')]
        every = [(ivs, bs, key) for ivs, bs, key, v in ws]
        other = every + list(reads)
        p, q = mk('iv_', 0, L.iv), mk('iv_', 1, L.iv)
        for w in every:
            k1, f1 = copy(w, 0)
            for o in other:
                k2, f2 = copy(o, 1)
                if len(k1) != len(k2):
                    return False
                fs = f1 + f2 + [eq0(sub(x, y)) for x, y in zip(k1, k2)]
                fs = [z for f in fs for z in flat_and(f)]
                cs = [fs]
                if any(x.op == 'ite' for f in fs for x in subterms(f)):
                    cs = cases([mk('agg', ('tuple',), *fs)], [], 60)
                    if cs is None:
                        return False
                    cs = [[z for y in list(f) + list(t.args[1:]) for z in flat_and(y)] for f, (t,) in cs]
                if not all(contradictory(f + [d]) for f in cs for d in (gt0(sub(p, q)), gt0(sub(q, p)))):
                    return False
        return True

    def back_bounds(self, L, backs, base):
        common = frozenset.intersection(*[c for bp, _ in backs for c in bp]) if any(bp for bp, _ in backs) else frozenset()
        dep = self.loop_dep(L)
        sift = lambda l: l in L.filters or lnot(l) in L.filters
        out = {l for l in common if l not in base and (dep(l) and (L.real is None or l in L.real) or sift(l))}
        # the cases of a filter that holds in several ways, or whatever the member
        rest = simplify_dnf(frozenset(frozenset(l for l in c - common - base if sift(l)) for bp, _ in backs for c in bp)) if L.filters else None
        if rest and frozenset() not in rest:
            t = dnf_term(rest)
            L.filters.add(t)
            out.add(t)
        return frozenset(out)

    def bound_count(self, L, lits):
        """Splits bounds into the trip count and the remaining filter conditions."""
        best, rest = None, set()
        for l in lits:
            if l.op == 'gt0':
                q = add(l.args[0], L.iv)
                if not contains(q, lambda x: x is L.iv):
                    best = q if best is None else mk('min', frozenset([best, q]))
                    continue
            rest.add(l)
        if best is None:
            best = mk('count', L.id)
        return best, frozenset(rest)

    def latch_form(self, nxt, hv):
        """A flag that is only ever cleared (or only ever set): the condition on which that happens."""
        up = subst(nxt, {hv: TRUE, lnot(hv): FALSE})
        down = subst(nxt, {hv: FALSE, lnot(hv): TRUE})
        if down is FALSE and up is not FALSE and (is_bool(up) or up is TRUE):
            return 'cleared', lnot(up)
        if up is TRUE and (is_bool(down) or down is FALSE):
            return 'set', down
        return None

    def acc_form(self, nxt, hv):
        if nxt.op == 'ite':
            a, b = nxt.args[1], nxt.args[2]
            fa = ('sum', const(0)) if a is hv else self.acc_form(a, hv)
            fb = ('sum', const(0)) if b is hv else self.acc_form(b, hv)
            if fa and fb:
                if fa[0] == fb[0] == 'sum':
                    return 'sum', ite(nxt.args[0], fa[1], fb[1])
                if fa[0] == 'prod' and b is hv:
                    return 'prod', ite(nxt.args[0], fa[1], const(1))
                if fb[0] == 'prod' and a is hv:
                    return 'prod', ite(nxt.args[0], const(1), fb[1])
                if fa[0] == 'push' and b is hv:
                    return 'push', mk('pushed', fa[1].args[0] | {nxt.args[0]}, fa[1].args[1])
                if fb[0] == 'push' and a is hv:
                    return 'push', mk('pushed', fb[1].args[0] | {lnot(nxt.args[0])}, fb[1].args[1])
            return None
        if nxt.op == 'push' and nxt.args[0] is hv:
            return 'push', mk('pushed', frozenset(), nxt.args[1])
        d = sub(nxt, hv)
        if not contains(d, lambda x: x is hv):
            return 'sum', d
        pp = to_poly(nxt)
        if len(pp) == 1:
            q = div(nxt, hv)
            if not contains(q, lambda x: x is hv):
                return 'prod', q
        return None

    def apply_summ(self, s, summ):
        if not summ:
            return s
        out = {}
        memo = {}
        for r, v in s.items():
            r2 = ('D', subst(r[1], summ, memo)) if r[0] == 'D' else r
            out[r2] = subst(v, summ, memo)
        return out

    # -- calls
    def call(self, op, args, st, pc, at, term=None):
        """Returns (value, state, pc) or None when the callee never returns."""
        name = cname(op)
        key = op.get('rkey') or op.get('key')
        fn = self.prog.fns.get(key)
        for pr in self.prims:
            r = pr(self, op, name, fn, args, st, pc, at)
            if r is not NotImplemented:
                return r
        import models
        r = models.pre(self, op, name, fn, args, st, pc, at)
        if r is not NotImplemented:
            return r
        if fn is not None and fn.body is not None and not self.opaque(fn):
            if len(self.stack) < self.max_depth and all(f.key != fn.key for f in self.stack) and not (fn.d.get('intrait') and not op.get('rkey')):
                args2 = args
                if fn.kind == 'closure':
                    n = fn.body['argc'] - 1
                    return self.apply(args[0], args[1:] if len(args) != 2 else list(args[1].args[1:]) if args[1].op == 'agg' and args[1].args[0] == ('tuple',) and len(args[1].args) == n + 1
                                      else [proj(args[1], ('f', q)) for q in range(n)], st, pc, at)
                return self.call_body(fn, args2, st, pc)
        r = models.lib(self, op, name, fn, args, st, pc, at)
        if r is not NotImplemented:
            return r
        if term is not None and term.get('to') is None:
            return None
        return self.opaque_call(op, name, fn, args, st, pc, at)

    def opaque_call(self, op, name, fn, args, st, pc, at):
        nm = fn.label() if fn is not None else name
        ra = tuple(self.reify(st, a) for a in args)
        v = mk('call', nm, ra)
        self.event('call', nm, tuple(args) + (v,), pc, at, op)
        st = dict(st)
        sig = op.get('argtys') or []
        mutp = self.mut_params(op, fn)
        for i, a in enumerate(args):
            if mutp is not None and i < len(mutp) and not mutp[i]:
                continue
            if a.op == 'ref' and (mutp is None or mutp[i]):
                old = self.content(st, a)
                self.store(st, a, mk('post', nm, old, i, ra), None)
        return v, st, pc

    def mut_params(self, op, fn):
        if fn is not None:
            return [bool(re.match(r"^&('\w+ )?mut |^\*mut ", t)) for t in fn.d.get('inputs', [])]
        return op.get('_mut')

    def apply(self, f, cargs, st, pc, at):
        """Calls a function value with a list of argument terms."""
        st0 = st
        g = f
        self_ref = f
        for _ in range(4):
            if g.op == 'ref':
                g = self.content(st, g)
            else:
                break
        if g.op == 'agg' and g.args[0][0] == 'closure':
            fn = self.prog.fns.get(g.args[0][1])
            if fn is not None and fn.body is not None and len(self.stack) < self.max_depth + 6:
                selfty = fn.body['locals'][1]['ty']
                st = dict(st)
                if selfty.startswith('&'):
                    if f.op == 'ref':
                        env = f
                        while self.content(st, env).op == 'ref':
                            env = self.content(st, env)
                    else:
                        self.fresh += 1
                        root = ('C', self.fresh)
                        st[root] = g
                        env = mk('ref', root, ())
                else:
                    env = g
                return self.call_body(fn, [env] + list(cargs), st, pc)
        if g.op == 'fnitem' and g.args[0] == 'deref':
            x = cargs[0]
            return (x.args[0] if x.op == 'rv' else self.content(st, x)), st, pc
        if g.op == 'fnitem':
            op = self.OPS.get(g.args[1])
            if op is not None:
                return self.call(op, list(cargs), st, pc, at)
        v = mk('callf', self.reify(st, g), tuple(self.reify(st, a) for a in cargs))
        self.event('callf', None, (g,) + tuple(cargs) + (v,), pc, at)
        return v, st, pc


def analyse(prog, fn, prims=(), opaque=None, max_depth=12, budget=400000):
    it = Interp(prog, prims, opaque=opaque, max_depth=max_depth)
    it.budget = budget
    return it.run(fn)
