"""T16: arithmetic, evaluation and derivatives of function expressions agree with the calculus they name.

Each operation is summarised once as a closed term of its operands; the recursive operations stay opaque. The term is then read in the
algebra of values: every expression stands for its value at one symbolic point, where coordinates, inner values and inner derivatives are
independent rationals, sines and cosines are tied by the identity of Pythagoras, and real powers by the laws of exponents. Two closed terms
that differ there are different functions."""
import hashlib, itertools
from fractions import Fraction
from spec import *
import absint, models
from graphs import a0
from simplices import models_rv

KEPT = {'eval', 'partial_derivative', 'jacobian', 'mul', 'add', 'neg', 'sub', 'div', 'sum', 'product', 'powi', 'powf', 'sin', 'cos'}
TY = 'AtomicSmoothFn'


class Stuck(Exception):
    pass


def atom(*key):
    h = int(hashlib.md5(repr(key).encode()).hexdigest(), 16)
    return Fraction(h % 89 + 2, h // 89 % 7 * 2 + 101 + h // 1000 % 5)


def pw(v, a):
    a = Fraction(a)
    k = a.numerator // a.denominator
    if v == 0 and a <= 0 or abs(k) > 40:
        raise Stuck('power')
    return Fraction(v) ** k * (atom('pw', v, a - k) if a != k else 1)


def sine(v):
    t = atom('angle', v) if v else 0
    return 2 * t / (1 + t * t)


def cosine(v):
    t = atom('angle', v) if v else 0
    return (1 - t * t) / Fraction(1 + t * t)


class V:
    """A formal sum: pairs of a coefficient and an expression."""
    def __init__(self, items):
        self.items = list(items)


class C:
    def __init__(self, n):
        self.n = n


class X:
    """The point."""


class M:
    def __init__(self, n, m, d, z):
        self.n, self.m, self.d, self.z = n, m, d, z


class Fun:
    def __init__(self, variant, fields=(), val=None, d=None):
        self.variant, self.d = variant, d or {}
        self.fields = [V(()) if variant in (6, 7) and isinstance(f, (int, Fraction)) and f == 0 else f for f in fields]
        self.val = self.value() if val is None else val

    def value(self):
        f, k = self.fields, self.variant
        try:
            if k in (0, 1): return Fraction(k)
            if k == 2: return atom('x', int(f[0]), 0)
            if k == 3: return pw(f[0].val, f[1])
            if k == 4: return sine(f[0].val)
            if k == 5: return cosine(f[0].val)
            if k == 6: return sum((c * g.val for c, g in f[0].items), Fraction(0))
            if k == 7:
                p = Fraction(1)
                for c, g in f[0].items:
                    p *= pw(g.val, c)
                return p
        except (AttributeError, TypeError, ValueError, ZeroDivisionError, IndexError):
            pass
        raise Stuck('value of variant %s' % k)

    def diff(self, j):
        if j not in self.d:
            self.d[j] = Fun(None, (), atom('d', self.val, j))
        return self.d[j]


def of(v):
    return Fun(0 if v == 0 else 1 if v == 1 else None, (), Fraction(v))


def num(x):
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        return int(x) if x == int(x) else x
    raise Stuck('not a number')


def val(x):
    if isinstance(x, Fun):
        return x.val
    raise Stuck('not a function')


def plus(a, b):
    if isinstance(a, V) and isinstance(b, V):
        return V(a.items + b.items)
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, (V, Fun)) and num(x) == 0:
            return y
    if isinstance(a, Fun) and isinstance(b, Fun):
        return of(a.val + b.val)
    return num(a) + num(b)


def times(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Fun) and isinstance(y, Fun):
            return of(x.val * y.val)
        if isinstance(x, (V, Fun)) and not isinstance(y, (V, Fun)):
            if num(y) == 1:
                return x
            return of(x.val * y) if isinstance(x, Fun) else V([(num(c) * y, f) for c, f in x.items])
    return num(a) * num(b)


def power(a, e):
    if isinstance(a, Fun):
        return of(pw(a.val, num(e)))
    return pw(num(a), num(e))


RANGE = 6


class World:
    def __init__(self, args, items=None):
        self.args, self.items, self.memo, self.steps = args, None if items is None else list(items), {}, 0

    def ev(self, t, env):
        k = (t.id, tuple(sorted((i, v) for i, v in env.items()))) if env else t.id
        if k not in self.memo:
            self.steps += 1
            if self.steps > 60000:
                raise Stuck('too large')
            try:
                self.memo[k] = ('v', self.ev1(t, env))
            except Stuck as e:
                self.memo[k] = ('s', str(e))
            except (IndexError, AttributeError, TypeError, ValueError, ZeroDivisionError, KeyError) as e:
                self.memo[k] = ('s', '%s at %s: %s' % (type(e).__name__, t.op, show(t)[-90:]))
        s, v = self.memo[k]
        if s == 's':
            raise Stuck(v)
        return v

    def holds(self, cs, env):
        """All of cs; false as soon as one is known to be false."""
        bad = None
        for c in cs:
            try:
                if not self.truth(c, env):
                    return False
            except Stuck as e:
                bad = e
        if bad:
            raise bad
        return True

    def truth(self, t, env):
        b = self.ev(t, env)
        if not isinstance(b, bool):
            raise Stuck('not a truth value')
        return b

    def bound(self, ivs):
        return itertools.product(range(RANGE), repeat=len(ivs))

    def ev1(self, t, env):
        o, a = t.op, t.args
        go = lambda x: self.ev(x, env)
        if o == 'int': return a[0]
        if o == 'bool': return bool(a[0])
        if o == 'arg': return self.args[a[0]]
        if o == 'iv' or o == 'bv':
            if t.id in env:
                return env[t.id]
            raise Stuck('free index')
        if o == 'poly':
            s = 0
            for m, c in a[0]:
                p = 1
                for x, e in m:
                    x = go(x)
                    if e < 0:
                        x, e = Fraction(1) / num(x), -e
                    for _ in range(e):
                        p = times(p, x)
                s = plus(s, times(p, c))
            return s
        if o == 'gt0': return num(go(a[0])) > 0
        if o == 'eq0':
            x = go(a[0])
            return num(x) == 0
        if o == 'not': return not self.truth(a[0], env)
        if o == 'and': return self.holds(a[0] if isinstance(a[0], frozenset) else a, env)
        if o == 'or':
            bad = None
            for c in (a[0] if isinstance(a[0], frozenset) else a):
                try:
                    if self.truth(c, env):
                        return True
                except Stuck as e:
                    bad = e
            if bad:
                raise bad
            return False
        if o == 'ite': return go(a[1]) if self.truth(a[0], env) else go(a[2])
        if o == 'agg':
            k = a[0]
            if k[0] == 'tuple': return tuple(go(x) for x in a[1:])
            if k[0] == 'array': return [go(x) for x in a[1:]]
            if k[0] == 'adt' and k[1].endswith(TY): return Fun(k[2], [go(x) for x in a[1:]])
            if k[0] == 'adt' and k[1].endswith('Vector'): return V(go(a[1]))
            if k[0] == 'adt' and k[1].endswith('Coordinate'): return C(go(a[1]))
            raise Stuck('aggregate %s' % (k[0],))
        if o == 'isv':
            x = go(a[0])
            if isinstance(x, Fun): return x.variant == a[1]
            raise Stuck('variant')
        if o == 'proj':
            b, e = go(a[0]), a[1]
            if e[0] == 'f':
                if isinstance(b, Fun):
                    return b.fields[e[1]]
                if isinstance(b, V) and e[1] == 0: return b.items
                if isinstance(b, C) and e[1] == 0: return b.n
                if isinstance(b, (int, Fraction)) and not isinstance(b, bool) and b == 0 and e[1] == 0: return []   # the empty formal sum
                if isinstance(b, tuple): return b[e[1]]
            if e[0] == 'ix' and isinstance(b, list):
                i = num(go(absint_term(e[1])))
                if 0 <= i < len(b): return b[i]
                raise Stuck('out of range')
            if e[0] == 'ix2':
                i, j = num(go(absint_term(e[1]))), num(go(absint_term(e[2])))
                if isinstance(b, X): return atom('x', int(i), int(j))
                if isinstance(b, M) and 0 <= i < b.n and 0 <= j < b.m: return b.d.get((i, j), b.z)
            raise Stuck('place')
        if o == 'upd':
            return self.update(go(a[0]), a[1], go(a[2]), env)
        if o == 'fmap':
            b = go(a[0])
            out = b
            for ivs, conds, place, v in a[1]:
                ivs = ivs if isinstance(ivs, tuple) else (ivs,)
                for ks in self.bound(ivs):
                    e2 = dict(env)
                    e2.update({iv.id: k for iv, k in zip(ivs, ks)})
                    if self.holds(conds, e2):
                        out = self.update(out, place, self.ev(v, e2), e2)
            return out
        if o in ('sum', 'prod', 'any', 'all'):
            iv, conds, body = (a[0], a[1], a[2]) if len(a) == 3 else (a[0], (), a[1])
            acc = 0 if o == 'sum' else 1
            hit = o == 'all'
            for k in range(RANGE):
                e2 = dict(env)
                e2[iv.id] = k
                if not self.holds(conds, e2):
                    continue
                x = self.ev(body, e2)
                if o == 'sum': acc = plus(acc, x)
                elif o == 'prod': acc = times(acc, x)
                elif not isinstance(x, bool): raise Stuck('not a truth value')
                elif o == 'any': hit = hit or x
                else: hit = hit and x
            return hit if o in ('any', 'all') else acc
        if o == 'abs': return abs(num(go(a[0])))
        if o in ('item', 'more'):
            k = env.get(mk('iv', a[0]).id)
            src = a[1]
            if k is None or self.items is None or not (src.op == 'it_opaque' and getattr(src.args[0], 'op', None) == 'arg'):
                raise Stuck('iteration')
            if o == 'more': return k < len(self.items)
            if k < len(self.items): return self.items[k]
            raise Stuck('out of range')
        if o == 'len':
            x = go(a[0])
            if isinstance(x, list): return len(x)
            raise Stuck('length')
        if o == 'msize':
            x = go(a[0])
            if isinstance(x, X): return RANGE if a[1] == 0 else 1
            if isinstance(x, M): return x.m if a[1] else x.n
            raise Stuck('size')
        if o == 'mconst': return M(num(go(a[0])), num(go(a[1])), {}, go(a[2]))
        if o == 'removed':
            b, i = go(a[0]), num(go(a[1]))
            if isinstance(b, list) and 0 <= i < len(b) and (len(a) < 3 or a[2] == 'remove'): return b[:i] + b[i + 1:]
            raise Stuck('removal')
        if o == 'push' and len(a) == 2: return go(a[0]) + [go(a[1])]
        if o == 'cast' and a[0] in ('f64', 'i32', 'usize', 'i64'):
            return num(go(a[1]))
        if o in ('div', 'fdiv'): return Fraction(num(go(a[0]))) / num(go(a[1]))
        if o in ('inv', 'recip'): return 1 / Fraction(num(go(a[0])))
        if o == 'fn1':
            n, xs = a[0], [num(go(x)) for x in a[1]]
            if n in ('powi', 'powf'): return pw(xs[0], xs[1])
            if n == 'sin': return sine(xs[0])
            if n == 'cos': return cosine(xs[0])
            if n == 'recip': return 1 / Fraction(xs[0])
            if n in ('trunc', 'floor', 'ceil', 'round', 'abs', 'signum', 'neg'):
                import math
                x = Fraction(xs[0])
                return {'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil, 'abs': abs, 'neg': lambda y: -y, 'signum': lambda y: 1 if y >= 0 else -1,
                        'round': lambda y: math.floor(y + Fraction(1, 2)) if y >= 0 else math.ceil(y - Fraction(1, 2))}[n](x)
            if n in ('tan', 'sinh', 'cosh', 'exp', 'ln', 'asin', 'acos'): return atom(n, *xs)
            raise Stuck('function %s' % n)
        if o.startswith('f_'):
            return self.call(o[2:], [go(x) for x in a])
        raise Stuck('operation ' + o)

    def update(self, b, e, v, env):
        if e[0] == 'f' and isinstance(b, V) and e[1] == 0: return V(v)
        if e[0] == 'f' and isinstance(b, tuple): return b[:e[1]] + (v,) + b[e[1] + 1:]
        if e[0] == 'f' and isinstance(b, Fun) and b.variant is not None:
            f = list(b.fields)
            f[e[1]] = v
            return Fun(b.variant, f)
        if e[0] == 'ix' and isinstance(b, list):
            i = num(self.ev(absint_term(e[1]), env))
            if 0 <= i < len(b): return b[:i] + [v] + b[i + 1:]
        if e[0] == 'ix2' and isinstance(b, M):
            i, j = num(self.ev(absint_term(e[1]), env)), num(self.ev(absint_term(e[2]), env))
            if 0 <= i < b.n and 0 <= j < b.m:
                return M(b.n, b.m, b.d | {(i, j): v}, b.z)
        raise Stuck('update')

    def call(self, n, xs):
        xs = [Fun(2, [x.n]) if isinstance(x, C) else x for x in xs]
        if n == 'eval' and isinstance(xs[1], X): return val(xs[0])
        if n == 'partial_derivative': return xs[0].diff(num(xs[1]))
        if n == 'neg': return of(-val(xs[0]))
        if n == 'add': return of(val(xs[0]) + val(xs[1]))
        if n == 'sub': return of(val(xs[0]) - val(xs[1]))
        if n in ('mul', 'div'):
            y = xs[1].val if isinstance(xs[1], Fun) else num(xs[1])
            if n == 'div' and y == 0: raise Stuck('division by zero')
            return of(val(xs[0]) * y if n == 'mul' else val(xs[0]) / y)
        if n == 'powi': return of(pw(val(xs[0]), num(xs[1])))
        if n == 'powf': return of(pw(val(xs[0]), num(xs[1])))
        if n == 'sin': return of(sine(val(xs[0])))
        if n == 'cos': return of(cosine(val(xs[0])))
        if n in ('sum', 'product') and isinstance(xs[0], (list, tuple)):
            r = Fraction(n == 'product')
            for x in xs[0]:
                r = r + val(x) if n == 'sum' else r * val(x)
            return of(r)
        raise Stuck('call ' + n)


def absint_term(x):
    return x if hasattr(x, 'op') else const(x)


def kept(I, op, name, fn, args, st, pc, at):
    if fn is None or fn.kind == 'closure' or fn.crate != 'analysis' or fn.name not in KEPT:
        return NotImplemented
    if fn.implself not in (TY, 'Coordinate'):
        return NotImplemented
    return mk('f_' + fn.name, *[models_rv(I.reify(st, models.val(I, st, a))) for a in args]), st, pc


def leaf(name, d=None):
    """An expression of no special shape with its own value and derivative."""
    return Fun(4, [Fun(None, (), atom('inner', name))], d={1: d} if d is not None else None)


def shapes(n):
    """Expressions of every variant, with few summands or factors."""
    g = lambda i: leaf((n, i))
    yield 'Zero', Fun(0)
    yield 'One', Fun(1)
    yield 'Projection', Fun(2, [2])
    yield 'RealPower', Fun(3, [g(0), Fraction(5, 2)])
    yield 'Sin', g(0)
    yield 'Cos', Fun(5, [g(1)])
    for k, cs in enumerate(([(2)], [1], [1, 3], [2, -1, Fraction(1, 2)])):
        yield 'Sum of %d' % len(cs), Fun(6, [V([(Fraction(c), g(i)) for i, c in enumerate(cs)])])
    yield 'Sum with a constant', Fun(6, [V([(Fraction(3), Fun(1)), (Fraction(2), g(0))])])
    for cs in ([2], [-1], [1, -2], [2, 1, 3]):
        yield 'Product of %d' % len(cs), Fun(7, [V([(c, g(i)) for i, c in enumerate(cs)])])


def check_T16(prog, rep):
    rep.rule('each operation on function expressions is summarised as a closed term of its operands, with the recursive operations opaque, and '
             'the term is read in the algebra of values at one point (independent values, sin^2 + cos^2 = 1, laws of exponents) for operands '
             'of every variant with up to three summands or factors; its value must be the one the name of the operation promises')
    rep.assumptions += ['numbers are real: rounding is not considered (T30)', 'sums of formal sums and scalar multiples are those of T10']
    from matdom import MatChecker
    ck = MatChecker(prog, rep, (kept,))
    for f in (evaluation, arithmetic, derivatives, vectors):
        rep.group(f, ck, rep, prog)
    rep.floor('operations', 30)


def ours(prog, name, *types):
    for fn in prog.fns.values():
        if fn.crate == 'analysis' and fn.kind != 'closure' and fn.name == name and fn.body:
            ts = [l if isinstance(l, str) else l.get('ty') for l in fn.body['locals'][1:fn.body['argc'] + 1]]
            yield fn, [t.replace('&mut ', '').replace('&', '').split('::')[-1] if '<' not in t else t for t in ts]


def case(ck, rep, fn, t, what, args, want, items=None):
    """The value of the summary for these operands is want."""
    try:
        got = World(args, items).ev(t, {})
        got = want[0](got) if isinstance(want, tuple) else got
        w = want[1] if isinstance(want, tuple) else want
        if isinstance(got, Fun):
            got = got.val
        elif not isinstance(got, (int, Fraction)) or isinstance(got, bool):
            raise Stuck('not a value')
    except Stuck as e:
        rep.count('undecided')
        why(rep, fn, what, e)
        return None
    return rep.require('%s:%s' % (fn.label(), what), got == w, 'the value is not the one of the operation for %s' % what, ck.where(fn))


def why(rep, fn, what, e):
    import os
    if os.environ.get('VDEBUG'):
        print('   stuck', fn.label(), what, str(e)[:100])


def summary(ck, rep, fn, assign=False):
    rep.count('operations')
    rep.analysed(fn)
    r = ck.run(fn)
    return r.state.get(('P', 0), a0) if assign else r.ret


def evaluation(ck, rep, prog):
    for fn, ts in ours(prog, 'eval'):
        if fn.implself != TY:
            continue
        t = summary(ck, rep, fn)
        for what, f in shapes('a'):
            case(ck, rep, fn, t, 'evaluating %s' % what, [f, X()], f.val)


def operands(ty, n):
    if ty == TY:
        return list(shapes(n))
    if ty == 'Coordinate':
        return [('a coordinate', C(1)), ('another coordinate', C(3))]
    if ty == 'f64':
        return [('%s' % c, Fraction(c)) for c in ('0', '1', '-1', '3', '1/2')]
    if ty == 'i32':
        return [('%s' % c, c) for c in (0, 1, 2, 3, -1, -2)]
    return []


def amount(x):
    return x.val if isinstance(x, Fun) else atom('x', x.n, 0) if isinstance(x, C) else x


def arithmetic(ck, rep, prog):
    two = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'div': lambda x, y: x / y, 'powi': pw, 'powf': pw}
    one = {'neg': lambda x: -x, 'sin': sine, 'cos': cosine}
    for n, op in list(two.items()) + [(n + '_assign', two[n]) for n in ('add', 'sub', 'mul', 'div')]:
        for fn, ts in ours(prog, n):
            if len(ts) != 2 or ts[0] not in (TY, 'Coordinate'):
                continue
            rep.group(binary, ck, rep, fn, ts, op, n)
    for n, op in one.items():
        for fn, ts in ours(prog, n):
            if len(ts) == 1 and ts[0] in (TY, 'Coordinate'):
                rep.group(unary, ck, rep, fn, ts, op)
    for n, z in (('zero', 0), ('one', 1)):
        for fn, ts in ours(prog, n):
            if fn.implself == TY and not ts:
                case(ck, rep, fn, summary(ck, rep, fn), n, [], Fraction(z))
    for n, z in (('sum', 0), ('product', 1)):
        for fn, ts in ours(prog, n):
            if fn.implself == TY:
                rep.group(gathered, ck, rep, fn, z)


def binary(ck, rep, fn, ts, op, n):
    t = summary(ck, rep, fn, n.endswith('_assign'))
    for (wa, x), (wb, y) in itertools.product(operands(ts[0], 'a'), operands(ts[1], 'b')):
        u, v = amount(x), amount(y)
        if n.startswith('div') and v == 0 or n[:3] == 'pow' and u == 0 and v <= 0:
            continue
        case(ck, rep, fn, t, '%s and %s' % (wa, wb), [x, y], op(u, v))


def unary(ck, rep, fn, ts, op):
    t = summary(ck, rep, fn)
    for wa, x in operands(ts[0], 'a'):
        case(ck, rep, fn, t, wa, [x], op(amount(x)))


def gathered(ck, rep, fn, z):
    t = summary(ck, rep, fn)
    sh = list(shapes('a'))
    for k in range(3):
        for xs in itertools.product(sh, repeat=k):
            want = Fraction(z)
            for _, f in xs:
                want = want * f.val if z else want + f.val
            case(ck, rep, fn, t, 'all of: ' + ', '.join(w for w, _ in xs), [None], want, [f for _, f in xs])


def kinds(n):
    """Leaves whose derivative is zero, one, a sum or anything else."""
    yield 'constant', lambda i: leaf((n, i), Fun(0))
    yield 'of slope one', lambda i: leaf((n, i), Fun(1))
    yield 'varying', lambda i: leaf((n, i), leaf(('slope', n, i)))
    yield 'sloping by a sum', lambda i: leaf((n, i), Fun(6, [V([(Fraction(2), leaf(('s1', n, i))), (Fraction(-5), leaf(('s2', n, i)))])]))


def derivatives(ck, rep, prog):
    for fn, ts in ours(prog, 'partial_derivative'):
        if fn.implself != TY:
            continue
        t = summary(ck, rep, fn)
        j = 1
        go = lambda what, f, w: case(ck, rep, fn, t, 'derivative of ' + what, [f, j], w)
        go('Zero', Fun(0), 0)
        go('One', Fun(1), 0)
        for m in (0, 1, 2):
            go('coordinate %d along 1' % m, Fun(2, [m]), Fraction(m == j))
        ks = list(kinds('a'))
        for w, k in ks:
            f = k(0)
            v, d = f.val, f.d[j].val
            go('a power of something ' + w, Fun(3, [f, Fraction(5, 2)]), Fraction(5, 2) * pw(v, Fraction(3, 2)) * d)
            go('a sine of something ' + w, Fun(4, [f]), cosine(v) * d)
            go('a cosine of something ' + w, Fun(5, [f]), -sine(v) * d)
        for cs in ([2], [1], [1, 3], [-1, 2], [2, 1, Fraction(1, 2)]):
            for mix in itertools.product(ks, repeat=len(cs)):
                fs = [k(i) for i, (_, k) in enumerate(mix)]
                what = ', '.join(w for w, _ in mix)
                go('a sum with coefficients %s of terms %s' % (', '.join(map(str, cs)), what), Fun(6, [V([(Fraction(c), f) for c, f in zip(cs, fs)])]),
                   sum(c * f.d[j].val for c, f in zip(cs, fs)))
        for cs in ([2], [-1], [1, 1], [1, 2], [2, 1], [-2, 1], [2, 3], [1, 1, 1], [2, 1, -1]):
            for mix in itertools.product(ks[:3] if len(cs) > 2 else ks, repeat=len(cs)):
                fs = [k(i) for i, (_, k) in enumerate(mix)]
                w = Fraction(0)
                for i, (c, f) in enumerate(zip(cs, fs)):
                    p = c * pw(f.val, c - 1) * f.d[j].val
                    for l, (e, g) in enumerate(zip(cs, fs)):
                        if l != i:
                            p *= pw(g.val, e)
                    w += p
                go('a product with exponents %s of factors %s' % (', '.join(map(str, cs)), ', '.join(x for x, _ in mix)), Fun(7, [V(list(zip(cs, fs)))]), w)


def at(i, j):
    def f(x):
        if not isinstance(x, M):
            raise Stuck('not a matrix')
        if not (i < x.n and j < x.m):
            return Fraction(-7777)
        return x.d.get((i, j), x.z)
    return f


def extent(k):
    def f(x):
        if not isinstance(x, M):
            raise Stuck('not a matrix')
        return Fraction(x.m if k else x.n)
    return f


def vectors(ck, rep, prog):
    for fn, ts in ours(prog, 'jacobian'):
        if fn.implself == TY:
            t, f, n = summary(ck, rep, fn), leaf('a'), 3
            for k, w in ((0, 1), (1, n)):
                case(ck, rep, fn, t, 'size of the jacobian (%d)' % k, [f, n], (extent(k), w))
            for j in range(n):
                case(ck, rep, fn, t, 'entry %d of the jacobian' % j, [f, n], (at(0, j), f.diff(j).val))
    for fn, ts in ours(prog, 'eval'):
        if fn.implself == 'MultiVarFn':
            t, fs = summary(ck, rep, fn), [leaf(i) for i in range(3)]
            a = (list(fs), 4)
            for k, w in ((0, 3), (1, 1)):
                case(ck, rep, fn, t, 'size of the value (%d)' % k, [a, X()], (extent(k), w))
            for i in range(3):
                case(ck, rep, fn, t, 'component %d of the value' % i, [a, X()], (at(i, 0), fs[i].val))
        elif fn.implself and fn.implself.endswith('::Matrix<%s>' % TY):
            t, fs = summary(ck, rep, fn), {(i, j): leaf((i, j)) for i in range(2) for j in range(3)}
            a = M(2, 3, fs, Fun(0))
            for k, w in ((0, 2), (1, 3)):
                case(ck, rep, fn, t, 'size of the value (%d)' % k, [a, X()], (extent(k), w))
            for (i, j), f in fs.items():
                case(ck, rep, fn, t, 'entry (%d, %d) of the value' % (i, j), [a, X()], (at(i, j), f.val))
