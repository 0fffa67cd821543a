# -*- coding: utf-8 -*-
"""Algebra of the expressions of cvxpy_tdr."""
import numpy as np
from sx.run import Instance
from sx.core import SymBase
from . import conic
from .dsgn import patched

ASSUMPTIONS = ('the value of functions of the language is what the solver says (C01, C02)',
               'numpy matrices of symbols are matrices of objects; sparse matrices of symbols keep them in the lists of rows of scipy.sparse.lil_matrix',)


class World:
    """Unknowns and parameters with values, and objects built upon them paired with the matrix they stand for."""

    def __init__(self, V, T, full=False):
        self.V, self.T, self.n, self.full = V, T, 0, full
        self.vars = []

    def num(self, full=False):
        self.n += 1
        if full or self.full:
            return self.V.real('k%d' % self.n, -3, 3)
        return self.V.real('k%d' % self.n, 1.5, 4) if self.n % 2 else self.V.real('k%d' % self.n, -4, -1.5)

    def var(self, m=1, n=1, structure=None):
        X = self.T.variable(m, n, structure)
        return X, self.fill(X)

    def fill(self, X):
        if X.shape == (1, 1):
            v = self.num()
            X.value = v
            return [[v]]
        out = []
        for i in range(X.shape[0]):
            r = []
            for j in range(X.shape[1]):
                e = X.data[i][j]
                if isinstance(e, float):
                    r.append(e)
                    continue
                if e in self.vars:
                    r.append(object.__getattribute__(e, 'value'))
                    continue
                self.vars.append(e)
                v = self.num()
                e.value = v
                r.append(v)
            out.append(r)
        return out

    def param(self, m=1, n=1, attribute=None):
        P = self.T.parameter(m, n, attribute)
        return P, self.fill(P)

    def matrix(self, m, n):
        r = [[self.num() for _ in range(n)] for _ in range(m)]
        return self.T.matrix(r), r

    def spmatrix(self, m, n, holes=((0, 1), (1, 0))):
        r = [[0.0 if (i, j) in holes else self.num() for j in range(n)] for i in range(m)]
        S = self.T.spmatrix(np.array([[float(not isinstance(e, float) or e != 0) for e in q] for q in r]))
        for i in range(m):
            S.data[i] = [e for j, e in enumerate(r[i]) if (i, j) not in holes]
        return S, r


def add(a, b, s=1):
    return conic.elem(lambda x, y: x + y if s > 0 else x - y, a, b)


def mul(a, b):
    if len(a) == len(a[0]) == 1 or len(b) == len(b[0]) == 1:
        return conic.elem(lambda x, y: x * y, a, b)
    return conic.mm(a, b)


def reference(op, a, b):
    return add(a, b) if op == '+' else add(a, b, -1) if op == '-' else mul(a, b)


def apply(op, a, b):
    return a + b if op == '+' else a - b if op == '-' else a * b


# --- kinds of operands: name -> (builder, has variables)

def scalar_kinds(W):
    T = W.T

    def num():
        v = W.num()
        return v, [[v]]

    def summ():
        (x, a), (y, b) = W.var(), W.var()
        return x + y, add(a, b)

    def dif():
        (x, a), k = W.var(), W.num()
        return x - k, add(a, [[k]], -1)

    def gain():
        (x, a), k = W.var(), W.num()
        return k * x, mul([[k]], a)

    def pgain():
        (x, a), (p, b) = W.var(), W.param()
        return p * x, mul(b, a)

    def npgain():
        (x, a), (p, b), k = W.var(), W.param(), W.num()
        return k * (x * p), mul([[k]], mul(b, a))

    def psum():
        (p, a), k = W.param(), W.num()
        return p + k, add(a, [[k]])

    def pprod():
        (x, a), (p, b), (q, c), k = W.var(), W.param(), W.param(), W.num()
        return (q + k) * (p * x - 2), mul(add(c, [[k]]), add(mul(b, a), [[2.0]], -1))

    def fun():
        (x, a) = W.var()
        return T.square(x) + x, add([[0.25]], a)      # the value of a function is what the solver says, here 0.25

    def const():
        from pydsm.cvxpy_tdr.scalars import cvxpy_obj
        k = W.num()
        return cvxpy_obj('constant', k, str(k)), [[k]]

    return {'number': (num, 0), 'variable': (W.var, 1), 'parameter': (W.param, 0), 'sum': (summ, 1), 'difference': (dif, 1), 'multiple': (gain, 1),
            'parametric': (pgain, 1), 'multiple2': (npgain, 1), 'paramsum': (psum, 0), 'paramproduct': (pprod, 1), 'function': (fun, 1),
            'constant': (const, 0)}


def array_kinds(W, m, n):
    def expr():
        (X, a), (M, b) = W.var(m, n), W.matrix(m, m)
        return M * X, mul(b, a)

    def shifted():
        (X, a), (M, b) = W.var(m, n), W.matrix(m, n)
        return 2 * X - M, add(mul([[2.0]], a), b, -1)

    def sparray():
        (S, a), (x, b) = W.spmatrix(m, n), W.var()
        return S * x if W.n % 2 else x * S, mul(b, a)

    def spparam():
        (S, a), (x, b) = W.spmatrix(m, n, holes=((0, 0),)), W.param()
        return x * S, mul(b, a)

    def params():
        (P, a), (M, b) = W.param(m, n), W.matrix(m, n)
        return P + M, add(a, b)

    return {'variables': (lambda: W.var(m, n), 1), 'parameters': (lambda: W.param(m, n), 0), 'array': (expr, 1), 'shifted': (shifted, 1),
            'matrix': (lambda: W.matrix(m, n), 0), 'spmatrix': (lambda: W.spmatrix(m, n), 0), 'sparray': (sparray, 1), 'spparam': (spparam, 0),
            'paramarray': (params, 0)}


SPARSE = ('spmatrix', 'sparray', 'spparam')
NUMERIC = ('number', 'matrix', 'spmatrix')
SCALARS = ('number', 'variable', 'parameter', 'sum', 'difference', 'multiple', 'parametric', 'multiple2', 'paramsum', 'paramproduct', 'function', 'constant')
ARRAYS = ('variables', 'parameters', 'array', 'shifted', 'matrix', 'spmatrix', 'sparray', 'spparam', 'paramarray')


def supported(op, a, b):
    """Whether the language has that operation (None: not decided here)."""
    sa, sb = a in SCALARS, b in SCALARS
    if a in NUMERIC and b in NUMERIC:
        return None                             # numpy and scipy
    if a in SPARSE and b in SPARSE:
        return None
    if 'constant' in (a, b):
        return None if a not in SCALARS or b not in SCALARS or a == b else True
    if op in '+-':
        if sa and b in SPARSE or sb and a in SPARSE:
            return False
        if a in SPARSE and b == 'matrix' or b in SPARSE and a == 'matrix':
            return None                         # not closed
        return True
    if sa and b in ('sparray', 'spparam') or sb and a in ('sparray', 'spparam'):
        return None
    if a in SPARSE and b == 'matrix' or b in SPARSE and a == 'matrix':
        return None
    return True


def value(x):
    """Matrix of the values of an object."""
    if type(x).__name__ in ('cvxpy_spmatrix', 'cvxpy_sparray'):
        out = [[0.0] * x.shape[1] for _ in range(x.shape[0])]
        for i in range(x.shape[0]):
            for k, j in enumerate(x.rows[i]):
                e = x.data[i][k]
                out[i][j] = e if conic.isnum(e) else e.value
        return out
    if conic.isnum(x):
        return [[x]]
    if not isinstance(x, np.ndarray):
        x = x.value
    if type(x).__name__ == 'cvxpy_spmatrix':
        return value(x)
    return [[x]] if conic.isnum(x) else [[x[i, j] for j in range(x.shape[1])] for i in range(x.shape[0])]


def names(V):
    return sorted(set(object.__getattribute__(v, 'name') for v in V))


def same(V, x, ref, label):
    got = [[value(e)[0][0] for e in r] for r in x] if isinstance(x, list) else value(x)
    V.check((len(got), len(got[0])) == (len(ref), len(ref[0])), label + ': shape')
    for i, r in enumerate(ref):
        for j, e in enumerate(r):
            V.eq(got[i][j], e, '%s: entry %d,%d' % (label, i, j), 1e-9)


def used(x, what):
    return names(getattr(x, what)) if hasattr(x, what) else []


def world(V, body, full=False):
    import pydsm.cvxpy_tdr as T
    from pydsm.cvxpy_tdr import arrays
    env = conic.Cone(V)
    ps = env.patches()
    if V.symbolic:
        def put(obj, key, v):
            i, j = key
            row = list(obj.rows[i])
            if j in row:
                obj.data[i][row.index(j)] = v
            else:
                k = sum(c < j for c in row)
                obj.rows[i].insert(k, j)
                obj.data[i].insert(k, v)
        ps.append((arrays.cvxpy_spmatrix, '__setitem__', put))
    with patched(*ps):
        body(World(V, T, full), T)


def check_op(V, op, left, right, A, B, label, ok=True):
    (x, a), (y, b) = A, B
    before = [used(o, w) for o in (x, y) for w in ('variables', 'parameters')]
    st, r = V.call(lambda: apply(op, x, y), (TypeError, ValueError))
    if not ok:
        V.check(st == 'exc', label + ': refused')
        return
    if st == 'exc':
        V.check(False, label + ': raised %s' % (r,))
        return
    ref = reference(op, a, b)
    same(V, r, ref, label)
    if not conic.isnum(r) and not isinstance(r, np.ndarray):
        for w in ('variables', 'parameters'):
            u, want = used(r, w), names_union(x, y, w)
            # those multiplied by the holes of sparse matrices go away
            V.check(set(u) <= set(want) if op == '*' and (left in SPARSE or right in SPARSE) else u == want, label + ': ' + w)
    # the operands are as before
    same(V, x, a, label + ': left operand')
    same(V, y, b, label + ': right operand')
    V.check(before == [used(o, w) for o in (x, y) for w in ('variables', 'parameters')], label + ': names in the operands')


def names_union(x, y, what):
    return sorted(set(used(x, what)) | set(used(y, what)))


def scalars(V, left, op, full=False):
    def body(W, T):
        ks = scalar_kinds(W)
        for right in SCALARS:
            if supported(op, left, right) is None:
                continue
            if op == '*' and 'constant' in (left, right) and not (left == 'number' or right == 'number'):
                continue
            A, B = ks[left][0](), ks[right][0]()
            ok = op != '*' or not (ks[left][1] and ks[right][1])
            check_op(V, op, left, right, A, B, '%s %s %s' % (left, op, right), ok)
    world(V, body, full)


def numbers(V, kind, op):
    """Numbers of all values (0, 1 and -1 are special), on either side."""
    def body(W, T):
        ks = scalar_kinds(W)
        k = V.real('k', -3, 3)
        x, a = ks[kind][0]()
        l = 'number %s %s' % (op, kind)
        same(V, apply(op, k, x), reference(op, [[k]], a), l)
        same(V, apply(op, x, k), reference(op, a, [[k]]), l + ' (right)')
        if op == '*':
            h = V.real('h', -3, 3)
            same(V, h * (k * x), mul([[h * k]], a), 'number * (number * %s)' % kind)
            same(V, -(k * x), mul([[-k]], a), '-(number * %s)' % kind)
    world(V, body)


def mixed(V, left, op, m=2, n=2):
    """Scalars and arrays."""
    def body(W, T):
        ks, ka = scalar_kinds(W), array_kinds(W, m, n)
        for right in ARRAYS:
            for flip in (False, True):
                l, r = (right, left) if flip else (left, right)
                ok = supported(op, l, r)
                if ok is None:
                    continue
                A, B = ks[left][0](), ka[right][0]()
                if flip:
                    A, B = B, A
                both = ks[left][1] and ka[right][1]
                check_op(V, op, l, r, A, B, '%s %s %s' % (l, op, r), ok and not (op == '*' and both))
    world(V, body)


def arrays(V, left, op, dims):
    def body(W, T):
        m, k, n = dims
        for right in ARRAYS:
            ok = supported(op, left, right)
            if ok is None:
                continue
            if op == '*':
                A, B = array_kinds(W, m, k)[left], array_kinds(W, k, n)[right]
            else:
                A, B = array_kinds(W, m, n)[left], array_kinds(W, m, n)[right]
            check_op(V, op, left, right, A[0](), B[0](), '%s %s %s' % (left, op, right), ok and not (op == '*' and A[1] and B[1]))
            # shapes that do not match
            C = array_kinds(W, (k if op == '*' else n) + 1, m + 1)[right][0]()
            st = V.call(lambda: apply(op, A[0]()[0], C[0]), (TypeError, ValueError))[0]
            V.check(st == 'exc', '%s %s %s of other shape: refused' % (left, op, right))
    world(V, body)


def shapes(V, what, kind):
    """Transposition, slices, stacking, sums, diagonals, traces."""
    def body(W, T):
        def mk(m, n):
            return array_kinds(W, m, n)[kind][0]()
        dense = kind not in SPARSE
        if what == 'transpose':
            for m, n in ((2, 3), (3, 1), (1, 2)):
                X, a = mk(m, n)
                if kind != 'spmatrix':
                    same(V, X.T, conic.tr(a), 'transpose')
                    same(V, X.T.T, a, 'transpose of the transpose')
                    same(V, X, a, 'operand')
                if dense:
                    same(V, -X, [[-e for e in r] for r in a], 'minus')
        elif what == 'slices':
            X, a = mk(3, 3)
            for ix, rows, cols in (((slice(None), 1), (0, 1, 2), (1,)), ((1, slice(None)), (1,), (0, 1, 2)), ((slice(1, 3), slice(0, 2)), (1, 2), (0, 1)),
                                   ((2, 0), (2,), (0,)), ((slice(0, 3, 2), slice(1, None)), (0, 2), (1, 2)), ((slice(None, 2), 2), (0, 1), (2,)),
                                   ((slice(1, 2), slice(1, 2)), (1,), (1,)), ((np.int64(1), np.int64(2)), (1,), (2,))):
                if kind == 'spmatrix':
                    continue
                same(V, X[ix], [[a[i][j] for j in cols] for i in rows], 'slice %s' % (ix,))
            if kind != 'spmatrix':
                for lo in range(4):
                    for hi in range(lo + 1, 4):
                        for st in (1, 2):
                            for c in (0, 2):
                                same(V, X[lo:hi:st, c], [[a[i][c]] for i in range(lo, hi, st)], 'rows %d:%d:%d' % (lo, hi, st))
                                same(V, X[c, lo:hi:st], [[a[c][i] for i in range(lo, hi, st)]], 'columns %d:%d:%d' % (lo, hi, st))
            if kind not in ('matrix', 'spmatrix'):
                for ix in ((3, 0), (0, 3), (slice(0, 4), 0)):
                    V.check(V.call(lambda: X[ix], (ValueError, IndexError))[0] == 'exc', 'out of range: %s' % (ix,))
                for ix in (0, (0, 0, 0), (0.5, 0), ('a', 0)):
                    V.check(V.call(lambda: X[ix], (TypeError,))[0] == 'exc', 'not an index: %s' % (ix,))
        elif what == 'stacks':
            X, a = mk(2, 2)
            Y, b = mk(2, 3)
            Z, c = mk(1, 2)
            M, d = W.matrix(2, 1)
            N, e = W.matrix(1, 2)
            same(V, T.hstack((X, Y)), [p + q for p, q in zip(a, b)], 'hstack')
            same(V, T.hstack([M, X, Y]), [p + q + r for p, q, r in zip(d, a, b)], 'hstack of three')
            same(V, T.vstack((X, Z)), a + c, 'vstack')
            same(V, T.vstack([N, X, Z]), e + a + c, 'vstack of three')
            s, f = scalar_kinds(W)['difference'][0]()
            k = W.num()
            same(V, T.hstack((s, k, Z, 2.0)), [[f[0][0], k] + c[0] + [2.0]], 'hstack with scalars')
            same(V, T.vstack((k, s, M, 3.0)), [[k], f[0]] + d + [[3.0]], 'vstack with scalars')
            for g in (lambda: T.hstack((X, Z)), lambda: T.vstack((X, Y))):
                V.check(V.call(g, ValueError)[0] == 'exc', 'shapes that do not match are refused')
            V.check(V.call(lambda: T.hstack(X), TypeError)[0] == 'exc', 'not a list')
        elif what == 'sums':
            for m, n in ((2, 3), (3, 1), (1, 2), (3, 3)):
                X, a = mk(m, n)
                t = 0.0
                for r in a:
                    for e in r:
                        t = t + e
                same(V, T.sum(X), [[t]], 'sum')
                if m == n:
                    same(V, T.trace(X), [[a[0][0] + a[1][1] + a[2][2]]], 'trace')
                    same(V, T.diag(X), [[a[i][i]] for i in range(3)], 'diagonal')
                else:
                    V.check(V.call(lambda: T.trace(X), ValueError)[0] == 'exc', 'trace of a matrix that is not square')
                if 1 in (m, n):
                    v = [e for r in a for e in r]
                    same(V, T.diag(X), [[e if i == j else 0.0 for j in range(len(v))] for i, e in enumerate(v)], 'diagonal matrix')
                elif m != n:
                    V.check(V.call(lambda: T.diag(X), ValueError)[0] == 'exc', 'diagonal of a matrix that is not square')
            X, a = mk(2, 2)
            Y, b = mk(2, 2)
            same(V, T.sum([X, Y]), add(a, b), 'sum of a list')
            s, f = scalar_kinds(W)['difference'][0]()
            same(V, T.sum((s, 2.0, s)), add(add(f, f), [[2.0]]), 'sum of a tuple')
        elif what == 'reshapes':
            for (m, n), new in (((2, 3), (3, 2)), ((2, 3), (6, 1)), ((2, 3), (1, 6)), ((3, 2), (2, 3)), ((4, 1), (2, 2)), ((2, 2), (2, 2))):
                X, a = mk(m, n)
                f = [a[i][j] for j in range(n) for i in range(m)]
                same(V, T.reshape(X, new), [[f[j * new[0] + i] for j in range(new[1])] for i in range(new[0])], 'reshape %s to %s' % ((m, n), new))
                V.check(V.call(lambda: T.reshape(X, (m, n + 1)), ValueError)[0] == 'exc', 'reshape to another size is refused')
    world(V, body)


def assigned(V, kind, order):
    """Entries given one after the other, in any order, some of them more than once."""
    def body(W, T):
        from pydsm.cvxpy_tdr.arrays import cvxpy_array, cvxpy_sparray
        X = (cvxpy_array if kind == 'array' else cvxpy_sparray)(2, 3)
        a = [[0.0] * 3 for _ in range(2)]
        for n, (i, j) in enumerate(order):
            if n == len(order) - 1:
                e, v = 0.0, 0.0         # entries may be taken away
            elif n % 2:
                e, f = W.param()
                v = f[0][0]
            else:
                e, f = scalar_kinds(W)['multiple'][0]()
                v = f[0][0]
            X[i, j] = e
            a[i][j] = v
            same(V, [[X[p, q] for q in range(3)] for p in range(2)], a, 'after assignment %d' % n)
        same(V, X.T, conic.tr(a), 'transpose')
        same(V, X[0:2, 1:3], [r[1:] for r in a], 'slice')
        k, (Y, b) = W.num(), W.matrix(3, 2)
        if kind == 'array':
            same(V, X * Y, conic.mm(a, b), 'product')
        else:
            V.check(X.nnz == sum(not isinstance(e, float) or e != 0 for r in a for e in r), 'number of entries')
            (Z, c) = W.param(3, 2)
            same(V, X * Z, conic.mm(a, c), 'product')
            same(V, Z * X, conic.mm(c, a), 'product (right)')
            (Z, c) = W.param(2, 3)
            same(V, X + Z, add(a, c), 'sum')
            same(V, Z - X, add(c, a, -1), 'difference')
        for ix in ((2, 0), (0, 3), (-1, 0)):
            V.check(V.call(lambda: X.__setitem__(ix, 1.0), ValueError)[0] == 'exc', 'out of range: %s' % (ix,))
    world(V, body)


def changed(V, kind, op, flip):
    """Entries that change between two operations."""
    def body(W, T):
        X, a = array_kinds(W, 2, 2)[kind][0]()
        sparse = kind in SPARSE
        others = ['parameters', 'array' if kind in NUMERIC else 'paramarray'] + ([] if kind in NUMERIC else ['matrix'] if not sparse else [])
        if op == '*' and kind != 'sparray':
            others.append('variables')
        old = []
        for step, (i, j) in enumerate(((0, 1), (1, 1), (0, 1), (0, 0))):
            for o in others:
                l, r = (o, kind) if flip else (kind, o)
                if not supported(op, l, r) or op == '*' and kind in ('array', 'variables', 'sparray', 'shifted') and o == 'variables':
                    continue
                Y, b = array_kinds(W, 2, 2)[o][0]()
                res = apply(op, Y, X) if flip else apply(op, X, Y)
                ref = reference(op, b, a) if flip else reference(op, a, b)
                same(V, res, ref, '%s %s %s after %d changes' % (l, op, r, step))
                old.append((res, ref, '%s %s %s' % (l, op, r)))
            if step == 2 and sparse:
                e = 0.0                 # goes away
            elif kind in NUMERIC:
                e = W.num()
            else:
                e, f = W.param()
            X[i, j] = e
            a = [list(r) for r in a]
            a[i][j] = e if kind in NUMERIC or isinstance(e, float) and e == 0 else f[0][0]
        for res, ref, l in old:
            same(V, res, ref, l + ': results do not change with operands that change afterwards')
    world(V, body)


def structure(V, kind):
    def body(W, T):
        X, a = W.var(3, 3, kind)
        ref = [[None] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(3):
                inside = kind is None or kind == 'symmetric' or (i >= j if kind == 'lower_triangular' else i <= j)
                if not inside:
                    V.check(not isinstance(X[i, j], SymBase) and float(X[i, j]) == 0, 'entry %d,%d is zero' % (i, j))
                else:
                    ref[i][j] = X[i, j]
        seen = [e for r in ref for e in r if e is not None]
        V.check(len(set(id(e) for e in seen)) == {None: 9, 'symmetric': 6}.get(kind, 6), 'number of unknowns')
        if kind == 'symmetric':
            V.check(all(ref[i][j] is ref[j][i] for i in range(3) for j in range(3)), 'symmetric')
        same(V, X, a, 'value')
        V.check(len(X.variables) == (9 if kind is None else 6), 'variables')
        if kind is not None:
            V.check(V.call(lambda: T.variable(2, 3, kind), ValueError)[0] == 'exc', 'rectangular matrices have no such structure')
        V.check(V.call(lambda: T.variable(2, 2, 'other'), ValueError)[0] == 'exc', 'unknown structure')
    world(V, body)


def parameters(V, attribute):
    """Values given to parameters."""
    def body(W, T):
        v = V.real('v', -3, 3)
        w = V.real('w', -3, 3)

        def ok(*vs):
            return True if attribute is None else V.all([(e >= 0) if attribute == 'nonnegative' else (e <= 0) for e in vs])

        p = T.parameter(1, 1, attribute)
        st = V.call(lambda: setattr(p, 'value', v), ValueError)[0]
        V.check(V.same(st == 'ok', ok(v)), 'values out of the range of the parameter are refused')
        if st == 'ok':
            V.eq(p.value, v, 'value', 1e-12)
        P = T.parameter(1, 2, attribute)
        st = V.call(lambda: setattr(P, 'value', T.matrix([[v, w]])), ValueError)[0]
        V.check(V.same(st == 'ok', ok(v, w)), 'values out of the range of the parameters are refused')
        if st == 'ok':
            same(V, P, [[v, w]], 'values')
        V.check(V.call(lambda: setattr(P, 'value', T.matrix([[1.0], [1.0]])), ValueError)[0] == 'exc', 'other shapes are refused')
        V.check(V.call(lambda: setattr(P, 'value', 1.0), TypeError)[0] == 'exc', 'numbers are refused')
        V.check(V.call(lambda: setattr(p, 'value', T.matrix([[1.0]])), TypeError)[0] == 'exc', 'matrices are refused')
        V.check(V.call(lambda: T.parameter(1, 1, 'other'), ValueError)[0] == 'exc', 'unknown attribute')
        q = T.parameter()
        q.value = v
        q.attribute = attribute
        if ok(v):
            V.eq(q.value, v, 'value kept when the attribute is given later', 1e-12)
        else:
            V.check(q.value != q.value, 'value dropped when the attribute given later rules it out')
    world(V, body)


def later(V):
    """Expressions follow the values of their variables and parameters."""
    def body(W, T):
        x, y, p = T.variable(), T.variable(), T.parameter()
        Y = T.variable(2, 1)
        k = V.real('k', 1.5, 3)
        e = p * (x - k * y) + T.square(x)
        E = p * Y + e
        for i in (1, 2):
            a, b, c, d, f = [V.real('%s%d' % (n, i), 0.25, 3) for n in 'abcdf']
            x.value, y.value, p.value = a, b, c
            Y[0, 0].value, Y[1, 0].value = d, f
            s = c * (a - k * b) + 0.25
            same(V, e, [[s]], 'value %d' % i)
            same(V, E, [[c * d + s], [c * f + s]], 'value of the array %d' % i)
    world(V, body)


def instances(tier):
    out = []
    kw = dict(bounds='all values of variables and parameters within [-4,4], away from 0 and 1 but for the instances about numbers', skip=('pydsm.cvxpy_tdr',),
              timeout=30)

    def add_(name, body, params):
        out.append(Instance(name, body, params, **kw))
    for l in SCALARS:
        for op in '+-*':
            add_('scalars-%s%s' % (l, op), scalars, dict(left=l, op=op))
            add_('numbers-%s%s' % (l, op), numbers, dict(kind=l, op=op))
    for l in SCALARS[:-1]:
        for op in '+-*':
            add_('mixed-%s%s' % (l, op), mixed, dict(left=l, op=op))
    for l in ARRAYS:
        for op in '+-*':
            for dims in ((2, 2, 2), (2, 3, 1), (1, 2, 1)) + (((1, 3, 2), (3, 3, 3), (3, 2, 3), (3, 1, 3)) if tier == 'thorough' else ()):
                if op != '*' and dims == (1, 2, 1):
                    continue
                add_('arrays-%s%s-%dx%dx%d' % ((l, op) + dims), arrays, dict(left=l, op=op, dims=dims))
        for w in ('transpose', 'slices', 'stacks', 'sums', 'reshapes'):
            if l in SPARSE and w not in ('transpose', 'slices'):
                continue
            add_('%s-%s' % (w, l), shapes, dict(what=w, kind=l))
    for k in ('array', 'sparray'):
        for n, o in enumerate((((0, 2), (0, 0), (0, 1), (1, 1), (0, 2), (1, 1)), ((1, 2), (1, 1), (0, 0), (1, 0), (0, 1), (1, 1)),
                               ((0, 1), (0, 1), (1, 2), (0, 0), (0, 0)))):
            add_('assigned-%s-%d' % (k, n), assigned, dict(kind=k, order=o))
    for k in ('shifted', 'paramarray', 'sparray', 'spparam', 'spmatrix', 'matrix'):
        for op in '+-*':
            for flip in (False, True):
                add_('changed-%s%s%s' % (k, op, '-right' if flip else ''), changed, dict(kind=k, op=op, flip=flip))
    for s in (None, 'symmetric', 'lower_triangular', 'upper_triangular'):
        add_('structure-%s' % s, structure, dict(kind=s))
    for s in (None, 'nonnegative', 'nonpositive'):
        add_('parameters-%s' % s, parameters, dict(attribute=s))
    add_('later', later, {})
    return out
