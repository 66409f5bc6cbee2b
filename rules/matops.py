"""T07 (matrix arithmetic), T02 (shape mismatches), T27 (row/column operations, blocks), T28 (equality and predicates)."""
import re
from spec import *
from matdom import *
import absint, models

a0, a1, a2, a3 = (mk('arg', k) for k in range(4))
i_, j_, k_ = mk('iv', 'i'), mk('iv', 'j'), mk('iv', 'k')
OPS = {'Add': add, 'Sub': sub, 'Mul': mul, 'Div': div}


def el(m, i, j):
    return proj(m, ('ix2', i, j))


def kind(ty):
    """What an operand type is: 'mat', 'sub' (any matrix), 'other' (sparse, vectors of basis elements, formal sums) or 'scalar'."""
    ty = ty.replace('mut ', '')
    b = ty.lstrip('&')
    b = re.sub(r"^'\w+ ", '', b)
    if is_mat(b):
        return 'mat'
    if is_sub(b):
        return 'sub'
    if 'lin_alg::' in b or b.startswith('std::'):
        return 'other'
    return 'scalar'


def operators(prog):
    """(function, operation, assigning?, kinds of the operands) of every arithmetic operator on dense matrices."""
    out = []
    for fn in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.label())):
        t = (fn.trait or '').split('<')[0]
        if fn.crate != 'alg' or fn.kind == 'closure' or fn.body is None or not t.startswith('std::ops::'):
            continue
        t = t.split('::')[-1]
        asg = t.endswith('Assign')
        o = t[:-6] if asg else t
        if o not in OPS or fn.body['argc'] != 2:
            continue
        ks = [kind(fn.body['locals'][1 + q]['ty']) for q in (0, 1)]
        if 'other' in ks or not ({'mat', 'sub'} & set(ks)):
            continue
        out.append((fn, o, asg, tuple(ks)))
    return out


def is_m(k):
    return k in ('mat', 'sub')


def check_T07(prog, rep):
    rep.rule('value numbering over an abstract domain of matrices (sizes and elements at symbolic coordinates): every arithmetic operator, in every ownership form, is compared '
             'element by element with its definition')
    rep.assumptions += ASSUME
    rep.group(arith, prog, rep)
    rep.group(conversions, prog, rep)


ASSUME = ['storage layer contracts (allocation, addressing, views) as decided by T03 and T04', 'std iterator, Vec and slice contracts as stated in rules/models.py',
          'element types are commutative rings (PID) or fields; floating-point rounding is not modelled']


def result(r, asg):
    return r.state.get(('P', 0), a0) if asg else r.ret


def arith(prog, rep):
    ck = MatChecker(prog, rep)
    n = 0
    for fn, o, asg, ks in operators(prog):
        r = ck.run(fn)
        if r is None:
            continue
        n += 1
        got = result(r, asg)
        f = OPS[o]
        if is_m(ks[0]) and is_m(ks[1]):
            same = [eq0(sub(msize(a0, q), msize(a1, q))) for q in (0, 1)]
            if o == 'Mul' and not asg:
                fs = [eq0(sub(msize(a0, 1), msize(a1, 0)))]
                want = lambda i, j: mk('sum', k_, frozenset([gt0(sub(msize(a0, 1), k_))]), mul(el(a0, i, k_), el(a1, k_, j)))
                ck.inside(fn, r, fs)
                ck.mat(fn, 'product', got, msize(a0, 0), msize(a1, 1), want, fs, r.pc)
                ck.accepts(fn, 'every product of fitting sizes is formed', r.pc, fs)
            elif o in ('Add', 'Sub'):
                ck.inside(fn, r, same)
                if asg:
                    ck.pointwise(fn, 'sum', r, ('P', 0), a1, same)
                ck.mat(fn, 'sum' if o == 'Add' else 'difference', got, msize(a0, 0), msize(a0, 1), lambda i, j: f(el(a0, i, j), el(a1, i, j)), same, r.pc)
                ck.accepts(fn, 'every sum of equal sizes is formed', r.pc, same)
        elif is_m(ks[0]):
            ck.inside(fn, r, ())
            if asg:
                ck.pointwise(fn, 'multiple', r, ('P', 0), None)
            ck.mat(fn, 'multiple' if o == 'Mul' else 'quotient', got, msize(a0, 0), msize(a0, 1), lambda i, j: f(el(a0, i, j), a1), (), r.pc)
            ck.accepts(fn, 'every matrix is accepted', r.pc, ())
        elif o == 'Mul':
            ck.inside(fn, r, ())
            ck.mat(fn, 'multiple', got, msize(a1, 0), msize(a1, 1), lambda i, j: f(a0, el(a1, i, j)), (), r.pc)
            ck.accepts(fn, 'every matrix is accepted', r.pc, ())
    rep.count('arithmetic operators', n)
    rep.floor('arithmetic operators', 30)


def method(prog, rep, what, name, owner, trait=None, tail=None):
    fs = [f for f in prog.find(crate='alg', name=name) if f.body is not None and f.kind != 'closure'
          and (f.implself or '').startswith(('lin_alg::%s<' % owner, 'alg::lin_alg::%s<' % owner))
          and ((f.trait or '').split('<')[0].split('::')[-1] == trait if trait else not f.trait)
          and (tail is None or tail(f.traitref or ''))]
    rep.require('anchor:' + what, len(fs) == 1, 'expected exactly one definition of %s, found %d' % (what, len(fs)))
    return fs[0] if len(fs) == 1 else None


def conversions(prog, rep):
    ck = MatChecker(prog, rep)
    M = lambda *a, **k: method(prog, rep, *a, **k)
    n0, n1 = msize(a0, 0), msize(a0, 1)
    fn = M('SubMatrix::as_matrix', 'as_matrix', 'SubMatrix')
    if fn is not None:
        r = ck.run(fn)
        ck.mat(fn, 'copy', r.ret, n0, n1, lambda i, j: el(a0, i, j), (), r.pc)
        ck.accepts(fn, 'every matrix is accepted', r.pc, ())
        ck.inside(fn, r, ())
    fn = M('Matrix::clone', 'clone', 'Matrix', 'Clone')
    if fn is not None:
        r = ck.run(fn)
        ck.mat(fn, 'copy', r.ret, n0, n1, lambda i, j: el(a0, i, j), (), r.pc)
    fn = M('Matrix::zero', 'zero', 'Matrix')
    if fn is not None:
        r = ck.run(fn)
        ck.mat(fn, 'zero matrix', r.ret, a0, a1, lambda i, j: const(0), [gt0(a0), gt0(a1)], r.pc)
        ck.accepts(fn, 'every positive size is accepted', r.pc, [gt0(a0), gt0(a1)])
    fn = M('Matrix::identity', 'identity', 'Matrix')
    if fn is not None:
        r = ck.run(fn)
        ck.mat(fn, 'identity matrix', r.ret, a0, a0, lambda i, j: ite(eq0(sub(i, j)), const(1), const(0)), [gt0(a0)], r.pc)
        ck.accepts(fn, 'every positive size is accepted', r.pc, [gt0(a0)])
        ck.inside(fn, r, ())
    fn = M('Matrix::from_array', 'from_array', 'Matrix')
    if fn is not None:
        r = ck.run(fn)
        w = length(proj(a0, ('ix', const(0))))
        ck.mat(fn, 'matrix from rows', r.ret, length(a0), w, lambda i, j: proj(proj(a0, ('ix', i)), ('ix', j)), (), r.pc)
        ck.accepts(fn, 'every rectangular array is accepted', r.pc, [gt0(length(a0)), gt0(w), lnot(ragged(a0, w))])
        ck.inside(fn, r, ())
    fn = M('SubMatrix::dot', 'dot', 'SubMatrix')
    if fn is not None:
        r = ck.run(fn)
        fs = [eq0(sub(n0, const(1))), eq0(sub(msize(a1, 1), const(1))), eq0(sub(n1, msize(a1, 0)))]
        ck.same(fn, 'dot product', r.ret, mk('sum', k_, frozenset([gt0(sub(n1, k_))]), mul(el(a0, const(0), k_), el(a1, k_, const(0)))), fs, r.pc)
        ck.accepts(fn, 'every fitting pair is accepted', r.pc, fs)
        ck.inside(fn, r, fs)
    fn = M('Matrix * Vec', 'mul', 'Matrix', 'Mul', lambda s: 'Vec<' in s)
    if fn is not None:
        r = ck.run(fn)
        fs = [eq0(sub(n1, length(a1)))]
        ck.seq(fn, 'images of the basis', r.ret, n0, lambda q: mk('sum', k_, frozenset([gt0(sub(n1, k_))]), mul(el(a0, q, k_), proj(a1, ('ix', k_)))), fs, r.pc)
        ck.inside(fn, r, fs)


def ragged(v, w):
    return mk('any', i_, land(gt0(sub(length(v), i_)), lnot(eq0(sub(w, length(proj(v, ('ix', i_))))))))


# ---------------------------------------------------------------- T28
def check_T28(prog, rep):
    rep.rule('value numbering over an abstract domain of matrices: the answer of every comparison is compared with the quantified condition that defines it')
    rep.assumptions += ASSUME
    rep.group(comparisons, prog, rep)


def eq_inline(I, op, name, fn, args, st, pc, at):
    """Comparisons of matrices are followed into their implementation."""
    if fn is None or fn.crate != 'alg' or fn.kind == 'closure' or fn.body is None or (fn.trait or '').split('<')[0] != 'std::cmp::PartialEq' or not (is_mat(fn.implself) or is_sub(fn.implself)):
        return NotImplemented
    if any(f.key == fn.key for f in I.stack):
        I.event('recursion', fn.label(), (), pc, at)
        return None
    return I.call_body(fn, args, st, pc)


def comparisons(prog, rep):
    ck = MatChecker(prog, rep, (eq_inline,))
    n = 0
    for fn in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.label())):
        t = (fn.trait or '').split('<')[0]
        if fn.crate != 'alg' or fn.kind == 'closure' or fn.body is None or t != 'std::cmp::PartialEq' or fn.name not in ('eq', 'ne') or fn.body['argc'] != 2:
            continue
        ks = [kind(fn.body['locals'][1 + q]['ty']) for q in (0, 1)]
        if not (is_m(ks[0]) and is_m(ks[1])):
            continue
        n += 1
        r = ck.run(fn)
        if r is None:
            continue
        rec = [e for e in r.events if e.kind == 'recursion']
        rep.require('%s:answers' % fn.label(), not rec, 'comparing calls itself on the same matrices and never answers', ck.where(fn))
        if r.ret is None:
            continue
        want = land(*([eq0(sub(msize(a0, q), msize(a1, q))) for q in (0, 1)] + [lnot(somewhere(msize(a0, 0), msize(a0, 1), lambda i, j: lnot(eq0(sub(el(a0, i, j), el(a1, i, j))))))]))
        ck.truth(fn, 'equal sizes and elements', r, want if fn.name == 'eq' else lnot(want))
        ck.inside(fn, r, [])
        ck.accepts(fn, 'every pair can be compared', r.pc, ())
    rep.count('comparisons', n)
    rep.floor('comparisons', 3)
    fs = [f for f in prog.find(crate='alg', name='is_diagonal') if f.body is not None and is_mat(f.implself)]
    if fs:                      # a private helper: it may go away
        fn = fs[0]
        r = ck.run(fn)
        want = lnot(somewhere(msize(a0, 0), msize(a0, 1), lambda i, j: land(lnot(eq0(sub(i, j))), lnot(eq0(el(a0, i, j))))))
        ck.truth(fn, 'off-diagonal elements are zero', r, want)
        ck.inside(fn, r, [])


def somewhere(m, n, cond):
    return mk('any', i_, land(gt0(sub(m, i_)), mk('any', j_, land(gt0(sub(n, j_)), cond(i_, j_)))))


# ---------------------------------------------------------------- T27
def check_T27(prog, rep):
    rep.rule('value numbering over an abstract domain of matrices: the matrix left behind by every elementary operation is compared element by element with its definition')
    rep.assumptions += ASSUME
    rep.group(elementary, prog, rep)


def elementary(prog, rep):
    ck = MatChecker(prog, rep)
    n0, n1 = msize(a0, 0), msize(a0, 1)
    IN = lambda x, n: [gt0(sub(n, x)), gt0(add(x, const(1)))]
    for owner in ('SubMatrix', 'Matrix'):
        for nm, axis_, n in (('swap_rows', 0, n0), ('swap_cols', 1, n1)):
            fn = method(prog, rep, '%s::%s' % (owner, nm), nm, owner)
            if fn is None:
                continue
            r = ck.run(fn)
            fs = IN(a1, n) + IN(a2, n)

            def want(i, j, q=axis_):
                x = (i, j)[q]
                at = lambda y: el(a0, y, j) if q == 0 else el(a0, i, y)
                return ite(eq0(sub(x, a1)), at(a2), ite(eq0(sub(x, a2)), at(a1), el(a0, i, j)))
            ck.mat(fn, 'swapped matrix', r.state.get(('P', 0), a0), n0, n1, want, fs, r.pc)
            ck.inside(fn, r, fs)
            ck.accepts(fn, 'every pair in range is accepted', r.pc, fs)
        for nm, q, n in (('row_operation', 0, n0), ('col_operation', 1, n1)):
            fn = method(prog, rep, '%s::%s' % (owner, nm), nm, owner)
            if fn is None:
                continue
            r = ck.run(fn)
            fs = IN(a1, n) + IN(a2, n)

            def want(i, j, q=q):
                x = (i, j)[q]
                at = lambda y: el(a0, y, j) if q == 0 else el(a0, i, y)
                return ite(eq0(sub(x, a1)), add(at(a1), mul(a3, at(a2))), el(a0, i, j))
            ck.mat(fn, 'matrix after the operation', r.state.get(('P', 0), a0), n0, n1, want, fs, r.pc)
            ck.inside(fn, r, fs)
            ck.accepts(fn, 'every pair in range is accepted', r.pc, fs)
    for nm in ('write', 'write_and_move'):
        fn = method(prog, rep, 'SubMatrix::' + nm, nm, 'SubMatrix')
        if fn is None:
            continue
        r = ck.run(fn)
        fs = [eq0(sub(msize(a0, q), msize(a1, q))) for q in (0, 1)]
        ck.mat(fn, 'written block', r.state.get(('P', 0), a0), n0, n1, lambda i, j: el(a1, i, j), fs, r.pc)
        ck.inside(fn, r, fs)
        ck.pointwise(fn, 'written block', r, ('P', 0), a1, fs)
        ck.accepts(fn, 'every block of the same size is accepted', r.pc, fs)


# ---------------------------------------------------------------- T02
SQUARE = ('solve', 'lu', 'hessenberg_form', 'francis_step', 'francis_step_with_op', 'qr', 'qr_with_op', 'extract_householder_vecs', 'spectrum', 'spectrum_symmetric',
          'spectrum_with_invariant_space', 'spectrum_with_invariant_space_symmetric', 'spectrum_with_n_smallest_eigenvecs_symmetric', 'spectrum_with_n_th_eigenvec_symmetric')


def check_T02(prog, rep):
    rep.rule('interprocedural path predicates over an abstract domain of matrices: what must have held on every path on which an operation returns, or stores an element of its '
             'result, entails that the shapes fit')
    rep.assumptions += ASSUME + ['release build: debug assertions are absent']
    rep.group(mismatches, prog, rep)


def guarded(I, op, name, fn, args, st, pc, at):
    """Operations with their own obligation here: what they leave is unknown, their guard has held."""
    if fn is None or fn.crate != 'alg' or fn.kind == 'closure' or fn.trait or not (is_mat(fn.implself) or is_sub(fn.implself)):
        return NotImplemented
    if len(I.stack) == 0 or fn.key == I.stack[0].key:
        return NotImplemented
    if fn.name not in SQUARE and not fn.name.startswith('gram_schmidt'):
        return NotImplemented
    absint.SHAPE_POST.add(fn.label())
    m = models.val(I, st, args[0])
    cs = []
    if fn.name in SQUARE:
        cs.append(eq0(sub(msize(m, 0), msize(m, 1))))
        if fn.name == 'solve':
            cs.append(eq0(sub(msize(models.val(I, st, args[1]), 0), msize(m, 1))))
    v, st, pc = I.opaque_call(op, name, fn, args, st, pc, at)
    return v, st, dnf_and2(pc, cs)


class ShapeChecker(MatChecker):
    def rejects(self, fn, what, r, goals, results=False):
        """Whatever returns (or, with `results`, whatever is stored) has passed the goals."""
        if r is None:
            return
        key = '%s:%s' % (fn.label(), what)
        bad = self.escapes(r.pc, goals)
        if bad and results:
            pcs = [e.pc for e in r.events if e.kind in ('rawwrite', 'store', 'index', 'push') and self.fresh_target(e)]
            if pcs:
                bad = next((b for b in (self.escapes(p, goals) for p in pcs) if b), None)
        if not bad:
            self.rep.require(key, True, '')
            return
        g, c = bad
        if self.blind(c):
            self.rep.count('undecided')
            return
        self.rep.require(key, False, 'it can return although %s does not hold: %s' % (show(g)[:200], show_case(c)[:300]), self.where(fn))

    def escapes(self, pc, goals):
        for c in pc or ():
            fs = [alpha(f) for f in c]
            fs = fs + self.ivs_nonneg(list(fs) + list(goals))
            if contradictory(fs):
                continue
            for g in goals:
                if not entails(fs, alpha(g)):
                    return g, c
        return None

    def blind(self, c):
        """The case has a condition on the shapes that is not understood."""
        for f in c:
            if contains(f, lambda x: x.op in ('msize', 'len', 'arg')) and not closed_cond(f) and f.op != 'any':
                sizes = contains(f, lambda x: x.op in ('msize', 'len'))
                if sizes and (f.op in ('call', 'callf', 'isv') or f.op == 'not' and f.args[0].op in ('call', 'callf', 'isv')):
                    return True
        return False

    def fresh_target(self, e):
        if e.kind == 'rawwrite':
            return True
        if e.kind == 'index':
            return e.data[2].op not in ('arg', 'mview', 'mtr')
        return e.kind == 'push' or False


def mismatches(prog, rep):
    ck = ShapeChecker(prog, rep, (guarded,), None, 300000, 30)
    M = lambda *a, **k: method(prog, rep, *a, **k)
    n0, n1 = msize(a0, 0), msize(a0, 1)
    m0, m1 = msize(a1, 0), msize(a1, 1)
    E = lambda x, y: eq0(sub(x, y))
    n = 0
    for fn, o, asg, ks in operators(prog):
        if not (is_m(ks[0]) and is_m(ks[1])):
            continue
        if o == 'Mul':
            ck.rejects(fn, 'unequal inner sizes are rejected', ck.run(fn), [E(n1, m0)], True)
            n += 1
        elif o in ('Add', 'Sub'):
            ck.rejects(fn, 'unequal sizes are rejected', ck.run(fn), [E(n0, m0), E(n1, m1)])
            n += 1
    rep.count('binary operators', n)
    rep.floor('binary operators', 16)
    for owner, nm, goals, res in (
            ('SubMatrix', 'dot', [E(n0, const(1)), E(m1, const(1)), E(n1, m0)], False),
            ('SubMatrix', 'write', [E(n0, m0), E(n1, m1)], False),
            ('SubMatrix', 'write_and_move', [E(n0, m0), E(n1, m1)], False),
            ('Matrix', 'zero', [gt0(a0), gt0(a1)], False),
            ('Matrix', 'identity', [gt0(a0)], False),
            ('Matrix', 'from_array', [gt0(length(a0)), gt0(length(proj(a0, ('ix', const(0))))), lnot(ragged(a0, length(proj(a0, ('ix', const(0))))))], False),
            ('Matrix', 'random_symmetric', [E(a0, a1)], False),
            ('Matrix', 'householder_vec', [E(n1, const(1))], False),
            ('SubMatrix', 'householder_vec', [E(n1, const(1))], False),
            ('SubMatrix', 'two_norm', [E(n1, const(1))], False),
            ('Matrix', 'two_norm', [E(n1, const(1))], False),
            ('Matrix', 'lll_lattice_reduce', [gt0(add(sub(n0, n1), const(1)))], False)):
        fn = M('%s::%s' % (owner, nm), nm, owner)
        if fn is not None:
            ck.rejects(fn, 'unfit shapes are rejected', ck.run(fn), goals, res)
    for nm in SQUARE:
        fs = [f for f in prog.find(crate='alg', name=nm) if f.body is not None and f.kind != 'closure' and not f.trait and (is_mat(f.implself) or is_sub(f.implself))]
        rep.require('anchor:' + nm, len(fs) >= 1, 'no definition of %s on matrices' % nm)
        for fn in fs:
            goals = [E(n0, n1)] + ([E(m0, n1)] if nm == 'solve' else [])
            ck.rejects(fn, 'non-square input is rejected', ck.run(fn), goals)
    fn = M('Matrix * Vec', 'mul', 'Matrix', 'Mul', lambda s: 'Vec<' in s)
    if fn is not None:
        ck.rejects(fn, 'unequal sizes are rejected', ck.run(fn), [E(n1, length(a1))])
    k = 0
    for fn in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.label())):
        if fn.crate != 'alg' or fn.kind == 'closure' or fn.body is None or (fn.trait or '').split('<')[0] != 'std::ops::Mul' or fn.name != 'mul':
            continue
        ts = [fn.body['locals'][1 + q]['ty'] for q in (0, 1)]
        if not any(sparse(t) for t in ts) or not all(sparse(t) or is_m(kind(t)) for t in ts):
            continue
        k += 1
        sz = [[proj(proj(a, SIZE), ('f', q)) if sparse(t) else msize(a, q) for q in (0, 1)] for a, t in ((a0, ts[0]), (a1, ts[1]))]
        ck.rejects(fn, 'unequal inner sizes are rejected', ck.run(fn), [E(sz[0][1], sz[1][0])])
    rep.count('sparse products', k)
    rep.floor('sparse products', 3)


SIZE = ('f', 2)


def sparse(t):
    return bool(re.match(r'&?(mut )?(alg::)?lin_alg::SparseMatrix<', t))
