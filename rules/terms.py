"""Hash-consed terms with polynomial and boolean normal forms (value numbering)."""
from fractions import Fraction

_table = {}
_next = [0]


class Term:
    __slots__ = ('op', 'args', 'id', 'nn', '_roots', '_key')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op, t.args = op, args
        t.id = _next[0]
        _next[0] += 1
        t.nn = op in ('len', 'size', 'iv', 'count', 'abs', 'first', 'bv', 'argbest')
        t._roots = None
        t._key = None
        _table[k] = t
    return t


_marked = []


def mark(t):
    """t has an unsigned type in the function under analysis."""
    if not t.nn:
        t.nn = True
        _marked.append(t)


def unmark():
    for t in _marked:
        t.nn = False
    _marked.clear()


def reset():
    _table.clear()
    _next[0] = 0
    global TRUE, FALSE, UNIT
    TRUE, FALSE, UNIT = mk('bool', 1), mk('bool', 0), mk('agg', ('tuple',))


TRUE, FALSE = mk('bool', 1), mk('bool', 0)
UNIT = mk('agg', ('tuple',))


def subterms(t, seen=None):
    """Every distinct Term below t (t included), also through tuples."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def skey(t):
    """A structural sort key that does not depend on creation order."""
    if isinstance(t, Term):
        if t._key is None:
            t._key = '(%s %s)' % (t.op, ' '.join(skey(a) for a in t.args))
            if len(t._key) > 4000:
                import hashlib
                t._key = '(%s #%s)' % (t.op, hashlib.md5(t._key.encode()).hexdigest())
        return t._key
    if isinstance(t, tuple):
        return '[%s]' % ' '.join(skey(a) for a in t)
    if isinstance(t, frozenset):
        return '{%s}' % ' '.join(sorted(skey(a) for a in t))
    return repr(t)


# ---------------------------------------------------------------- polynomials
def const(n):
    return mk('int', Fraction(n))


def is_const(t):
    return t.op == 'int'


def cval(t):
    return t.args[0] if t.op == 'int' else None


def to_poly(t):
    """dict monomial -> coefficient; a monomial is a sorted tuple of (atom, exponent)."""
    if t.op == 'int':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return const(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return mk('int', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(p.items(), key=lambda mc: skey(tuple(a for a in mc[0])))))


def add(a, b):
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def scale(a, k):
    return from_poly({m: c * k for m, c in to_poly(a).items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 400:
        return mk('mul', a, b)
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            d = dict(m1)
            for x, e in m2:
                d[x] = d.get(x, 0) + e
            m = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda xe: skey(xe[0])))
            p[m] = p.get(m, 0) + c1 * c2
    return from_poly(p)


def div(a, b):
    """Exact (field) division."""
    k = cval(b)
    if k is not None and k != 0:
        return scale(a, 1 / k)
    if a == b:
        return const(1)
    pb = to_poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = from_poly({tuple((x, -e) for x, e in m): 1 / c})
        return mul(a, inv)
    return mul(a, mk('poly_inv', b))


def nonneg(a):
    return a.nn or (a.op == 'int' and a.args[0] >= 0)


# ---------------------------------------------------------------- booleans
def lnot(c):
    if c.op == 'bool':
        return FALSE if c.args[0] else TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'gt0':
        return gt0(sub(const(1), c.args[0]))
    if c.op == 'and':
        return lor(*[lnot(x) for x in c.args[0]])
    if c.op == 'or':
        return land(*[lnot(x) for x in c.args[0]])
    return mk('not', c)


def gt0(p):
    """p > 0 over the integers."""
    k = cval(p)
    if k is not None:
        return TRUE if k > 0 else FALSE
    pp = to_poly(p)
    # divide by the positive gcd of the non-constant coefficients when they are integers
    cs = [c for m, c in pp.items() if m != ()]
    if all(c.denominator == 1 for c in cs):
        from math import gcd, ceil
        g = 0
        for c in cs:
            g = gcd(g, abs(int(c)))
        if g > 1:
            k = pp.get((), Fraction(0))
            # sum >= 1 - k  ->  sum/g >= ceil((1-k)/g)
            need = ceil((1 - k) / g)
            q = {m: c / g for m, c in pp.items() if m != ()}
            q[()] = Fraction(1 - need)
            p = from_poly(q)
            pp = to_poly(p)
    # a sum of non-negative atoms with non-negative coefficients and a positive constant
    if all((m == () and c > 0) or (m != () and c >= 0 and all(nonneg(x) for x, _ in m)) for m, c in pp.items()) and pp.get((), 0) > 0:
        return TRUE
    if all((m == () and c <= 0) or (m != () and c <= 0 and all(nonneg(x) for x, _ in m)) for m, c in pp.items()):
        return FALSE
    return mk('gt0', p)


def eq0(p):
    k = cval(p)
    if k is not None:
        return TRUE if k == 0 else FALSE
    pp = to_poly(p)
    lead = sorted(((m, c) for m, c in pp.items() if m != ()), key=lambda mc: skey(tuple(mc[0])))[0][1]
    if lead != 1:
        p = scale(p, 1 / lead)
        pp = to_poly(p)
    if len(pp) == 1:
        (m, c), = pp.items()
        if len(m) == 1 and nonneg(m[0][0]):
            return lnot(gt0(m[0][0]))
    if p.op == 'ite':
        return ite(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
    return mk('eq0', p)


def land(*xs):
    s = set()
    for x in xs:
        if x.op == 'bool':
            if not x.args[0]:
                return FALSE
            continue
        if x.op == 'and':
            s |= x.args[0]
        else:
            s.add(x)
    for x in s:
        if lnot(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk('and', frozenset(s))


def lor(*xs):
    s = set()
    for x in xs:
        if x.op == 'bool':
            if x.args[0]:
                return TRUE
            continue
        if x.op == 'or':
            s |= x.args[0]
        else:
            s.add(x)
    for x in s:
        if lnot(x) in s:
            return TRUE
    # absorption:  a or (not a and b)  ->  a or b ;  a or (a and b) -> a
    changed = True
    while changed:
        changed = False
        for x in list(s):
            if x.op == 'and':
                if any(y in s for y in x.args[0]):
                    s.discard(x)
                    changed = True
                    break
                drop = [y for y in x.args[0] if lnot(y) in s]
                if drop:
                    s.discard(x)
                    n = land(*[y for y in x.args[0] if y not in drop])
                    if n is TRUE:
                        return TRUE
                    if n.op == 'or':
                        s |= n.args[0]
                    else:
                        s.add(n)
                    changed = True
                    break
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return mk('or', frozenset(s))


def is_bool(t):
    return t.op in ('bool', 'bit', 'isin', 'not', 'and', 'or', 'gt0', 'eq0', 'lt', 'le', 'isv', 'any', 'eq')


def orient(c):
    """(canonical condition, flipped)"""
    if c.op == 'not':
        return c.args[0], True
    if c.op == 'gt0':
        n = lnot(c)
        if n.op == 'gt0' and skey(n) < skey(c):
            return n, True
        return c, False
    if c.op == 'or':
        return lnot(c), True
    return c, False


def ite(c, a, b):
    if c.op == 'bool':
        return a if c.args[0] else b
    if a is b:
        return a
    if a.op == 'undef':
        return b
    if b.op == 'undef':
        return a
    if a.op == 'bool' and b.op == 'bool':
        return c if a.args[0] else lnot(c)
    if is_bool(a) and is_bool(b):
        if a is TRUE: return lor(c, b)
        if a is FALSE: return land(lnot(c), b)
        if b is TRUE: return lor(lnot(c), a)
        if b is FALSE: return land(c, a)
    if b.op == 'bool' and is_bool(c) and a.op != 'agg':
        return land(c, a) if not b.args[0] else lor(lnot(c), a)
    if a.op == 'bool' and is_bool(c) and b.op != 'agg':
        return lor(c, b) if a.args[0] else land(lnot(c), b)
    c, fl = orient(c)
    if fl:
        a, b = b, a
    a, b = assume(a, c, True), assume(b, c, False)
    if a is b:
        return a
    if c.op == 'eq0':
        # on the equal side the two expressions are interchangeable
        if _subst_eq(c.args[0], b) is _subst_eq(c.args[0], a):
            return b
    return mk('ite', c, a, b)


def _subst_eq(p, t):
    """Rewrites t with the equality p = 0 solved for its leading atom, when that is linear."""
    pp = to_poly(p)
    lin = [(m[0][0], c) for m, c in pp.items() if len(m) == 1 and m[0][1] == 1]
    if not lin:
        return t
    x, c = sorted(lin, key=lambda xc: skey(xc[0]))[-1]
    rest = from_poly({m: -k / c for m, k in pp.items() if m != ((x, 1),)})
    if contains(rest, lambda y: y is x):
        return t
    return subst(t, {x: rest})


def assume(t, c, val):
    """Simplifies ites in t on the same condition."""
    while t.op == 'ite' and t.args[0] is c:
        t = t.args[1] if val else t.args[2]
    return t


# ---------------------------------------------------------------- rebuilding
REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


def gcd_term(xs):
    if any(cval(x) == 1 for x in xs):
        return const(1)
    xs = frozenset(x for x in xs if cval(x) != 0)
    if len(xs) == 0:
        return const(0)
    if len(xs) == 1:
        x = next(iter(xs))
        if nonneg(x):
            return x
    t = mk('gcd', xs)
    t.nn = True
    return t


def idiv_term(a, b):
    if cval(b) == 1:
        return a
    if cval(b) == -1:
        return scale(a, -1)
    if a is b and nonneg(a) and entails_pos(a):
        return const(1)
    t = mk('idiv', a, b)
    if nonneg(a) and nonneg(b):
        t.nn = True
    return t


def entails_pos(a):
    return gt0(a) is TRUE


def irem_term(a, b):
    if cval(b) in (1, -1):
        return const(0)
    k, l = cval(a), cval(b)
    if k is not None and l and k.denominator == 1 and l.denominator == 1:
        r = abs(int(k)) % abs(int(l))
        return const(r if k >= 0 else -r)
    t = mk('irem', a, b)
    if nonneg(a) and nonneg(b):
        t.nn = True
    return t


REBUILD['irem'] = irem_term
REBUILD['gcd'] = gcd_term
REBUILD['idiv'] = idiv_term
REBUILD['gt0'] = gt0
REBUILD['eq0'] = eq0
REBUILD['not'] = lnot
REBUILD['and'] = lambda s: land(*s)
REBUILD['or'] = lambda s: lor(*s)
REBUILD['ite'] = ite


def subst(t, m, memo=None):
    """Replaces subterms; m maps Term -> Term."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, Term):
            if x in m:
                return m[x]
            if x in memo:
                return memo[x]
            if x.op == 'poly':
                r = const(0)
                for mono, c in x.args[0]:
                    q = mk('int', c)
                    for at, e in mono:
                        a2 = go(at)
                        if e > 0:
                            for _ in range(e):
                                q = mul(q, a2)
                        else:
                            for _ in range(-e):
                                q = div(q, a2)
                    r = add(r, q)
            else:
                na = tuple(go(a) for a in x.args)
                r = x if na == x.args else rebuild(x.op, na)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        if isinstance(x, frozenset):
            return frozenset(go(a) for a in x)
        return x
    return go(t)


# ---------------------------------------------------------------- linear facts
def lin_implies(facts, goal, extra_nonneg=()):
    """facts: iterable of literals (gt0/eq0/...); goal literal. Sound, incomplete: linear elimination."""
    facts = list(facts)
    if goal is TRUE or goal in facts:
        return True
    if goal.op == 'and':
        return all(lin_implies(facts, g) for g in goal.args[0])
    if goal.op == 'or':
        return any(lin_implies(facts, g) for g in goal.args[0])
    if goal.op == 'eq0':
        p = goal.args[0]
        return lin_implies(facts, gt0(add(p, const(1)))) and lin_implies(facts, gt0(sub(const(1), p)))
    if goal.op != 'gt0':
        return False
    # refute: facts and 1 - p > 0
    rows = []

    def addrow(p):      # p >= 0 over atoms-monomials
        d = to_poly(p)
        rows.append({m: c for m, c in d.items()})
    for f in facts:
        if f.op == 'gt0':
            addrow(sub(f.args[0], const(1)))
        elif f.op == 'eq0':
            addrow(f.args[0])
            addrow(neg(f.args[0]))
    addrow(sub(const(0), goal.args[0]))
    # minimum/maximum atoms bring their own facts
    atoms = set()
    for r in rows:
        for m in r:
            atoms.add(m)
    extra = []
    for m in list(atoms):
        if m == ():
            continue
        for x, e in m:
            if x.op == 'min':
                for y in x.args[0]:
                    extra.append(sub(y, x))
            if x.op == 'max':
                for y in x.args[0]:
                    extra.append(sub(x, y))
            if x.op == 'irem' and len(m) == 1 and nonneg(x.args[1]):
                extra.append(sub(sub(x.args[1], x), const(1)))
    for e in extra:
        addrow(e)
        for m in to_poly(e):
            atoms.add(m)
    for m in atoms:
        if m != () and all(nonneg(x) and e > 0 for x, e in m):
            rows.append({m: Fraction(1)})
    return _infeasible(rows)


def _infeasible(rows, limit=400):
    """Fourier-Motzkin: is {row >= 0} infeasible?"""
    rows = [dict(r) for r in rows]
    while True:
        vars_ = {}
        for r in rows:
            nz = [m for m, c in r.items() if m != () and c != 0]
            if not nz:
                if r.get((), 0) < 0:
                    return True
            for m in nz:
                a, b = vars_.get(m, (0, 0))
                vars_[m] = (a + (r[m] > 0), b + (r[m] < 0))
        if not vars_:
            return False
        v = min(vars_, key=lambda m: (vars_[m][0] * vars_[m][1], skey(m)))
        pos = [r for r in rows if r.get(v, 0) > 0]
        ng = [r for r in rows if r.get(v, 0) < 0]
        rest = [r for r in rows if r.get(v, 0) == 0]
        for p in pos:
            for n in ng:
                q = {}
                for m in set(p) | set(n):
                    c = p.get(m, 0) * -n[v] + n.get(m, 0) * p[v]
                    if c != 0:
                        q[m] = c
                rest.append(q)
        # drop duplicates
        uniq = {}
        for r in rest:
            uniq[frozenset(r.items())] = r
        rows = list(uniq.values())
        if len(rows) > limit:
            return False


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
    if isinstance(t, frozenset):
        return '{' + ', '.join(sorted(show(x, d + 1) for x in t)) + '}'
    if not isinstance(t, Term):
        return str(t)
    if d > 14:
        return '…'
    o, a = t.op, t.args
    if o == 'int':
        return str(a[0])
    if o == 'bool':
        return 'true' if a[0] else 'false'
    if o == 'poly':
        parts = []
        for m, c in a[0]:
            f = '*'.join(show(x, d + 1) + ('^%s' % e if e != 1 else '') for x, e in m)
            if not m: parts.append(str(c))
            elif c == 1: parts.append(f)
            elif c == -1: parts.append('-' + f)
            else: parts.append('%s*%s' % (c, f))
        return '(' + ' + '.join(parts) + ')'
    if o == 'gt0':
        return show(a[0], d + 1) + ' > 0'
    if o == 'eq0':
        return show(a[0], d + 1) + ' = 0'
    if o == 'not':
        return '!(' + show(a[0], d + 1) + ')'
    if o == 'arg':
        return 'arg%s' % a[0]
    if o == 'iv':
        return 'iv%s' % (a[0],)
    if o == 'agg':
        k = a[0]
        if k[0] == 'adt':
            return '%s{%s}' % (k[3] if len(k) > 3 else k[1].split('::')[-1], ', '.join(show(x, d + 1) for x in a[1:]))
        return '%s(%s)' % (k[0], ', '.join(show(x, d + 1) for x in a[1:]))
    if o == 'proj':
        e = a[1]
        b = show(a[0], d + 1)
        if e[0] == 'f': return '%s.%s' % (b, e[1])
        if e[0] == 'ix': return '%s[%s]' % (b, show(e[1], d + 1))
        return '%s<%s>' % (b, show(e, d + 1))
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in a))
