# -*- coding: utf-8 -*-
"""Stand-ins for the modelling and optimisation libraries (cvxpy, picos, cvxopt, scipy.sparse).

They keep track of the problem being posed as expressions over the entries of its variables, so that it can be evaluated at
any (possibly symbolic) assignment of them. Nothing is solved: the "optimum" is whatever assignment the check chooses.
"""
import importlib
import numbers
import sys
import zlib
import numpy as np
from sx.core import SymBase, Unsupported
from .dsgn import patched, standin


class NotModelled(Unsupported, AttributeError):
    """The stand-ins say nothing about this: nothing is claimed about code that uses it."""


class Partial:
    """Stand-ins that have some of the operations and attributes of the real thing."""

    def __getattr__(self, n):
        raise NotModelled('%s.%s' % (type(self).__name__, n))


def _absent(n):
    def op(self, *a):
        raise NotModelled('%s.%s' % (type(self).__name__, n))
    return op


for _n in ('pow', 'rpow', 'or', 'ror', 'xor', 'rxor', 'mod', 'rmod', 'and', 'rand', 'floordiv', 'rfloordiv', 'truediv', 'rtruediv', 'add', 'radd',
           'sub', 'rsub', 'mul', 'rmul', 'matmul', 'rmatmul', 'neg', 'pos', 'abs', 'invert', 'lshift', 'rlshift', 'rshift', 'rrshift',
           'getitem', 'setitem', 'lt', 'le', 'gt', 'ge'):
    setattr(Partial, '__%s__' % _n, _absent('__%s__' % _n))


class Module(Partial):
    """Stands for a module."""

    def __init__(self, **k):
        vars(self).update(k)


def isnum(x):
    return isinstance(x, (numbers.Number, np.number, SymBase)) and not isinstance(x, (np.ndarray, Expr))


def iszero(x):
    return isinstance(x, (int, float)) and x == 0


def py(x):
    return x.item() if isinstance(x, np.generic) else x


def rows_of(x):
    """Dense rows of a numeric object."""
    if isnum(x):
        return [[py(x)]]
    if isinstance(x, Dense):
        return x.rows
    a = np.asarray(x)
    if a.ndim == 0:
        return [[py(a[()])]]
    if a.ndim == 1:
        a = a.reshape(1, -1)
    return [[py(a[i, j]) for j in range(a.shape[1])] for i in range(a.shape[0])]


def mm(a, b):
    if len(a[0]) != len(b):
        raise ValueError('Incompatible dimensions %dx%d, %dx%d' % (len(a), len(a[0]), len(b), len(b[0])))
    out = []
    for r in a:
        o = []
        for j in range(len(b[0])):
            s = 0.0
            for k, x in enumerate(r):
                y = b[k][j]
                if not iszero(x) and not iszero(y):
                    s = s + x * y
            o.append(s)
        out.append(o)
    return out


def elem(f, a, b):
    if (len(a), len(a[0])) != (len(b), len(b[0])):
        if len(a) == len(a[0]) == 1:
            a = [[a[0][0]] * len(b[0]) for _ in b]
        elif len(b) == len(b[0]) == 1:
            b = [[b[0][0]] * len(a[0]) for _ in a]
        else:
            raise ValueError('Incompatible dimensions %dx%d, %dx%d' % (len(a), len(a[0]), len(b), len(b[0])))
    return [[f(x, y) for x, y in zip(p, q)] for p, q in zip(a, b)]


def tr(a):
    return [list(c) for c in zip(*a)]


class Expr(Partial):
    """An expression: a function from assignments to dense matrices."""
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, shape, fn):
        self.shape = shape
        self.fn = fn

    def at(self, assign):
        return self.fn(assign)

    @property
    def T(self):
        return Expr(self.shape[::-1], lambda a: tr(self.fn(a)))

    def _mk(self, f, *es):
        probe = f(*[[[0.0] * e.shape[1] for _ in range(e.shape[0])] for e in es])
        return Expr((len(probe), len(probe[0])), lambda a: f(*[e.fn(a) for e in es]))

    def __add__(self, o):
        return self._mk(lambda x, y: elem(lambda p, q: p + q, x, y), self, lift(o))

    def __radd__(self, o):
        return lift(o).__add__(self)

    def __sub__(self, o):
        return self._mk(lambda x, y: elem(lambda p, q: p - q, x, y), self, lift(o))

    def __rsub__(self, o):
        return lift(o).__sub__(self)

    def __neg__(self):
        return self._mk(lambda x: [[-p for p in r] for r in x], self)

    def __pos__(self):
        return self

    def __matmul__(self, o):
        return self._mk(mm, self, lift(o))

    def __rmatmul__(self, o):
        return lift(o).__matmul__(self)

    def __mul__(self, o):
        o = lift(o)
        if self.shape == (1, 1) or o.shape == (1, 1):
            return self._mk(lambda x, y: elem(lambda p, q: 0.0 if iszero(p) or iszero(q) else p * q, x, y), self, o)
        return self._mk(mm, self, o)

    def __rmul__(self, o):
        return lift(o).__mul__(self)

    def __truediv__(self, o):
        return self._mk(lambda x, y: elem(lambda p, q: p / q, x, y), self, lift(o))

    def __and__(self, o):
        return hcat([self, lift(o)])

    def __rand__(self, o):
        return hcat([lift(o), self])

    def __floordiv__(self, o):
        return vcat([self, lift(o)])

    def __rfloordiv__(self, o):
        return vcat([lift(o), self])

    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            if isinstance(ix, slice):
                if self.shape[1] == 1:
                    ix = (ix, slice(None))
                elif self.shape[0] == 1:
                    ix = (slice(None), ix)
                else:
                    raise NotModelled('index of a matrix')
            elif self.shape[1] == 1:
                ix = (ix, 0)
            elif self.shape[0] == 1:
                ix = (0, ix)
            else:
                raise NotModelled('index of a matrix')
        sel = []
        for k, n in zip(ix, self.shape):
            sel.append(list(range(n))[k] if isinstance(k, slice) else [range(n)[k]])
        r, c = sel
        return Expr((len(r), len(c)), lambda a: (lambda x: [[x[i][j] for j in c] for i in r])(self.fn(a)))

    def __lshift__(self, o):
        return ('psd', lift(o) - self)

    def __rshift__(self, o):
        return ('psd', self - lift(o))

    def __rrshift__(self, o):
        return ('psd', lift(o) - self)

    def __rlshift__(self, o):
        return ('psd', self - lift(o))

    def __eq__(self, o):
        return ('eq', self - lift(o))

    def __le__(self, o):
        if isinstance(o, (Norm, Max)):
            return NotImplemented
        return ('ge', lift(o) - self)

    def __ge__(self, o):
        if isinstance(o, (Norm, Max)):
            return NotImplemented
        return ('ge', self - lift(o))

    def __abs__(self):
        return Norm(self)

    def __len__(self):
        return self.shape[0] * self.shape[1]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]


class Norm(Partial):
    """Euclidean norm of the entries of an expression."""
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __le__(self, o):
        return ('soc', self.e, lift(o))

    def __ge__(self, o):
        raise TypeError('not convex')


class Max(Partial):
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __le__(self, o):
        return ('ge', lift(o) - self.e)


def lift(x):
    if isinstance(x, Expr):
        return x
    r = rows_of(x)
    return Expr((len(r), len(r[0])), lambda a: r)


def hcat(es):
    es = [lift(e) for e in es]
    if len({e.shape[0] for e in es}) != 1:
        raise ValueError('Incompatible heights %s' % [e.shape for e in es])
    return Expr((es[0].shape[0], sum(e.shape[1] for e in es)),
                lambda a: [sum((list(r) for r in rs), []) for rs in zip(*[e.fn(a) for e in es])])


def vcat(es):
    es = [lift(e) for e in es]
    if len({e.shape[1] for e in es}) != 1:
        raise ValueError('Incompatible widths %s' % [e.shape for e in es])
    return Expr((sum(e.shape[0] for e in es), es[0].shape[1]), lambda a: sum([list(e.fn(a)) for e in es], []))


class Variable(Expr):
    def __init__(self, env, shape, symmetric=False, psd=False):
        self.env = env
        self.idx = len(env.vars)
        self.symmetric = symmetric or psd
        self.psd = psd
        env.vars.append(self)
        Expr.__init__(self, shape, lambda a: a[self.idx])
        if psd:
            env.cons.append(('psd', self))

    @property
    def value(self):
        return self.env.value(self)


class Problem:
    """What was posed: variables (shape, symmetric), constraints, objective."""

    def __init__(self):
        self.vars = []
        self.cons = []
        self.obj = None
        self.kw = None
        self.chosen = None

    def value(self, v):
        if self.chosen is None:
            return None
        return self.shape_value(self.chosen[v.idx])

    def shape_value(self, rows):
        return self.V._mkarr(np.array(rows, dtype=object).reshape(len(rows), len(rows[0])))

    def at(self, assign):
        """The problem at an assignment of its variables."""
        r = At()
        for c in self.cons:
            c = c if isinstance(c, tuple) else tuple(c)
            m = [e.at(assign) for e in c[1:]]
            if c[0] == 'psd':
                r.psd.append(m[0])
            elif c[0] == 'eq':
                r.eq += [x for q in m[0] for x in q]
            elif c[0] == 'ge':
                r.ge += [x for q in m[0] for x in q]
            elif c[0] == 'soc':
                r.soc.append(([x for q in m[0] for x in q], m[1][0][0]))
        kind, e = self.obj
        r.obj = (kind, [x for q in e.at(assign) for x in q])
        return r

    def groups(self):
        return [(v.shape, v.symmetric) for v in self.vars]


class At:
    def __init__(self):
        self.psd, self.eq, self.ge, self.soc, self.obj = [], [], [], [], None

    def psd_same(self, o):
        return self.eq == o.eq and all(p == q for m, k in zip(self.psd, o.psd) for p, q in zip(m, k))

    def flat(self):
        """Labelled entries, for comparing two assignments."""
        out = {}
        for i, m in enumerate(self.psd):
            out['psd', i] = [x for r in m for x in r]
        out['eq', 0] = self.eq
        out['ge', 0] = self.ge
        for i, (x, y) in enumerate(self.soc):
            out['soc', i] = list(x) + [y]
        out['obj', 0] = self.obj[1]
        return out


# ---------------------------------------------------------------- cvxpy

def fake_cvxpy(env):
    m = Module()
    m.CVXOPT = 'CVXOPT'
    m.SCS = 'SCS'

    def shp(s):
        if isinstance(s, (int, np.integer)):
            return (int(s), 1)
        s = tuple(int(k) for k in s) if s != () else (1, 1)
        return s + (1,) * (2 - len(s))
    m.Variable = lambda shape=(), name=None, symmetric=False, PSD=False: Variable(env, shp(shape), symmetric, PSD)
    m.vstack = lambda es: vcat(list(es))
    m.hstack = lambda es: hcat(list(es))
    m.bmat = lambda rows: vcat([hcat(r) for r in rows])
    m.norm2 = Norm
    m.norm = lambda e, p=2: Norm(e) if p in (2, 'fro') else unknown()
    m.max = Max
    m.sum = lambda e: lift(np.ones((1, e.shape[0]))) @ e @ lift(np.ones((e.shape[1], 1)))
    m.Minimize = lambda e: e

    class Prob:
        def __init__(self, target, constraints=()):
            env.obj = objective(target)
            env.cons += list(constraints)

        def solve(self, **kw):
            env.solved(kw)
    m.Problem = Prob
    return m


def objective(t):
    if isinstance(t, Norm):
        return ('norm', t.e)
    if isinstance(t, Max):
        return ('max', t.e)
    return ('lin', lift(t))


def unknown(*a, **k):
    raise NotModelled('library function')


# ---------------------------------------------------------------- picos

def fake_picos(env):
    m = Module()

    def shp(s):
        if isinstance(s, (int, np.integer)):
            return (int(s), 1)
        return (int(s[0]), int(s[1]))
    m.RealVariable = lambda name, shape=(1, 1), **k: Variable(env, shp(shape))
    m.SymmetricVariable = lambda name, shape=(1, 1), **k: Variable(env, (int(shape), int(shape)) if not isinstance(shape, tuple) else shape, True)
    m.sum = lambda it: add_all(it)
    m.sum_k_largest = lambda e, k: Max(e) if k == 1 else unknown()
    m.max = lambda e: Max(e)

    def shape_value(rows):
        if len(rows) == len(rows[0]) == 1:
            return rows[0][0]
        return Problem.shape_value(env, rows)
    env.shape_value = shape_value

    class Prob:
        def __init__(self, **k):
            env.opts = k

        def set_objective(self, d, e):
            if d != 'min':
                raise NotModelled('library function')
            env.obj = objective(e)

        def add_constraint(self, c):
            env.cons.append(c)

        def add_list_of_constraints(self, cs):
            env.cons += list(cs)

        def minimize(self, e):
            env.obj = objective(e)

        def solve(self, **kw):
            env.solved(kw)
    m.Problem = Prob
    return m


def add_all(it):
    r = None
    for x in it:
        r = x if r is None else r + x
    return r


# ---------------------------------------------------------------- cvxopt matrices

class Dense(Partial):
    """Dense, mutable matrix standing for cvxopt's matrix and spmatrix."""
    __array_ufunc__ = None

    def __init__(self, rows, ncols=None):
        self.rows = rows
        self.nc = len(rows[0]) if rows else (ncols or 0)

    @property
    def size(self):
        return (len(self.rows), self.nc)

    def _ix(self, ix):
        if isinstance(ix, tuple):
            return ix
        if self.nc == 1:
            return (ix, 0)
        k = ix
        return (k % len(self.rows), k // len(self.rows))

    def __getitem__(self, ix):
        i, j = self._ix(ix)
        if isinstance(i, slice) or isinstance(j, slice):
            r = list(range(len(self.rows)))[i] if isinstance(i, slice) else [i]
            c = list(range(self.nc))[j] if isinstance(j, slice) else [j]
            return Dense([[self.rows[a][b] for b in c] for a in r], len(c))
        if isinstance(i, slice) is False and isinstance(j, slice) is False:
            return self.rows[i][j]

    def __setitem__(self, ix, v):
        i, j = self._ix(ix)
        if isinstance(v, Dense):
            v = v.rows[0][0]
        self.rows[i][j] = py(v)

    def __iadd__(self, o):
        self.rows = (self + o).rows
        return self

    def __add__(self, o):
        return Dense(elem(lambda p, q: p + q, self.rows, rows_of(o)), self.nc)

    __radd__ = __add__

    def __sub__(self, o):
        return Dense(elem(lambda p, q: p - q, self.rows, rows_of(o)), self.nc)

    def __neg__(self):
        return Dense([[-x for x in r] for r in self.rows], self.nc)

    def __mul__(self, o):
        if isnum(o):
            return Dense([[0.0 if iszero(x) else x * o for x in r] for r in self.rows], self.nc)
        if isinstance(o, Expr):
            return NotImplemented
        return Dense(mm(self.rows, rows_of(o)), len(rows_of(o)[0]))

    def __rmul__(self, o):
        return Dense([[0.0 if iszero(x) else o * x for x in r] for r in self.rows], self.nc)

    @property
    def T(self):
        return Dense(tr(self.rows), len(self.rows))

    def __len__(self):
        return len(self.rows) * self.nc


def as_dense(x):
    return x if isinstance(x, Dense) else Dense(rows_of(x))


def fake_cvxopt(lifted=False):
    """The matrices of cvxopt; lifted: those to be used in expressions."""
    m = Module()

    def matrix(x=0.0, size=None, tc='d'):
        if isinstance(x, (list, tuple)) and x and all(isinstance(e, (Dense, Expr)) for e in x):
            rs = [r for e in x for r in e.rows]
            return Dense([list(r) for r in rs], max(e.nc for e in x))
        if size is not None and isnum(x):
            r = Dense([[py(x)] * size[1] for _ in range(size[0])], size[1])
        elif isinstance(x, (list, tuple)):
            if all(isnum(e) for e in x):
                e = [py(k) for k in x]
                s = size or (len(e), 1)
                r = Dense([[e[j * s[0] + i] for j in range(s[1])] for i in range(s[0])], s[1])
            else:       # list of columns
                r = Dense(tr([list(map(py, c)) for c in x]))
        elif isinstance(x, Dense):
            r = Dense([list(q) for q in x.rows], x.nc)
        else:
            a = np.asarray(x)
            if a.ndim == 1:
                a = a.reshape(-1, 1)
            r = Dense([list(q) for q in rows_of(a)])
            if size is not None:
                e = [q[j] for j in range(r.nc) for q in r.rows]
                r = Dense([[e[j * size[0] + i] for j in range(size[1])] for i in range(size[0])], size[1])
        return lift(r) if lifted else r

    def spmatrix(x, I, J, size=None, tc='d'):
        r = Dense([[0.0] * size[1] for _ in range(size[0])], size[1])
        for k, (i, j) in enumerate(zip(I, J)):
            v = py(x[k]) if isinstance(x, (list, tuple)) else x
            r.rows[i][j] = v if iszero(r.rows[i][j]) else r.rows[i][j] + v
        return r

    def sparse(x):
        if isinstance(x, Dense):
            return x
        if isinstance(x[0], (list, tuple)):
            raise NotModelled('block columns')
        return Dense([list(r) for e in x for r in e.rows], max(e.nc for e in x))
    m.matrix, m.spmatrix, m.sparse = matrix, spmatrix, sparse
    m.printing = Module(spmatrix_str_triplet=None)
    m.spdiag = unknown
    return m


# ---------------------------------------------------------------- scipy.sparse

class Sparse(Partial):
    """Stands for the lil and csr matrices of scipy."""
    __array_ufunc__ = None

    def __init__(self, rows):
        self.rows = rows
        self.shape = (len(rows), len(rows[0]))

    def __getitem__(self, ix):
        i, j = ix
        if isinstance(i, slice) or isinstance(j, slice):
            r = list(range(self.shape[0]))[i] if isinstance(i, slice) else [i]
            c = list(range(self.shape[1]))[j] if isinstance(j, slice) else [j]
            return Sparse([[self.rows[a][b] for b in c] for a in r])
        return self.rows[i][j]

    def __setitem__(self, ix, v):
        self.rows[ix[0]][ix[1]] = py(v)

    def tocsr(self):
        return self
    tolil = tocsc = tocsr

    @property
    def T(self):
        return Sparse(tr(self.rows))

    def __mul__(self, o):
        if isinstance(o, Sparse):
            if o.shape == (1, 1):       # 1x1 times row: a matrix product only if the shapes agree
                pass
            return Sparse(mm(self.rows, o.rows))
        return Sparse([[0.0 if iszero(x) else x * o for x in r] for r in self.rows])

    def __truediv__(self, o):
        return Sparse([[0.0 if iszero(x) else x / o for x in r] for r in self.rows])

    def __sub__(self, o):
        return Sparse(elem(lambda p, q: p - q, self.rows, o.rows))

    def __add__(self, o):
        return Sparse(elem(lambda p, q: p + q, self.rows, o.rows))

    def nonzero(self):
        nz = [(i, j) for i, r in enumerate(self.rows) for j, x in enumerate(r) if (not iszero(x) if not isinstance(x, SymBase) else bool(x != 0))]
        return np.array([i for i, _ in nz], dtype=int).view(np.ndarray), np.array([j for _, j in nz], dtype=int).view(np.ndarray)

    @property
    def data(self):
        i, j = self.nonzero()
        return _List(self.rows[int(a)][int(b)] for a, b in zip(i, j))


class _List(list):
    def tolist(self):
        return list(self)


def fake_sparse():
    m = Module()

    def lil(x, dtype=None):
        if isinstance(x, tuple):
            return Sparse([[0.0] * x[1] for _ in range(x[0])])
        return Sparse([list(r) for r in rows_of(x)])
    m.lil_matrix = lil
    m.csr_matrix = lil
    m.vstack = lambda es: Sparse([list(r) for e in es for r in e.rows])
    return m


# ---------------------------------------------------------------- recording

class Env(Problem):
    """Recording of the problem posed through a modelling library."""

    def __init__(self, V):
        Problem.__init__(self)
        self.V = V
        self.n = 0

    def solved(self, kw):
        self.kw = dict(kw)
        self.n += 1
        self.tokens = {}
        self.chosen = []
        k = 0
        for v in self.vars:
            rows = [[0.0] * v.shape[1] for _ in range(v.shape[0])]
            for i in range(v.shape[0]):
                for j in range(v.shape[1]):
                    if v.symmetric and j > i:
                        continue
                    k += 1
                    t = k + 0.5
                    rows[i][j] = t
                    self.tokens[t] = (v.idx, i, j)
                    if v.symmetric:
                        rows[j][i] = t
            self.chosen.append(rows)

    def zeros(self):
        return [[[0.0] * s[1] for _ in range(s[0])] for s, _ in self.groups()]


def numeric(a):
    """Arrays of objects that are all numbers as arrays of numbers."""
    if isinstance(a, np.ndarray) and a.dtype == object and not any(isinstance(x, SymBase) for x in np.asarray(a).flat):
        return np.asarray(a).astype(float).view(type(a))
    return a


class NP:
    """numpy for the modules of cvxpy_tdr, tolerating symbols."""

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def isscalar(x):
        return isinstance(x, SymBase) or np.isscalar(x)

    @staticmethod
    def allclose(a, b, *k, **kw):
        return np.allclose(numeric(a), numeric(b), *k, **kw)

    linalg = Module(eig=lambda a: np.linalg.eig(numeric(a)), eigvals=lambda a: np.linalg.eigvals(numeric(a)),
                                   eigh=lambda a: np.linalg.eigh(numeric(a)), eigvalsh=lambda a: np.linalg.eigvalsh(numeric(a)),
                                   det=lambda a: np.linalg.det(numeric(a)), norm=lambda a, *k: np.linalg.norm(numeric(a), *k),
                                   svd=lambda a, *k, **kw: np.linalg.svd(numeric(a), *k, **kw))

    @staticmethod
    def isnan(x):
        return False if isinstance(x, SymBase) else np.isnan(x)

    @staticmethod
    def sqrt(x):
        from sx.core import ssqrt
        return ssqrt(x) if isinstance(x, SymBase) else np.sqrt(x)

    @staticmethod
    def exp(x):
        from sx.core import sexp
        return sexp(x) if isinstance(x, SymBase) else np.exp(x)

    @staticmethod
    def log(x):
        from sx.core import sln
        return sln(x) if isinstance(x, SymBase) else np.log(x)

    @staticmethod
    def sum(x, *a, **k):
        if isinstance(x, list) and any(isinstance(e, SymBase) for e in x):
            r = x[0]
            for e in x[1:]:
                r = r + e
            return r
        return np.sum(x, *a, **k)


def plain(x):
    """Object array of the entries of a matrix."""
    if getattr(x, 'size', 1) == 0:
        return np.ndarray(np.asarray(x).shape, dtype=object)
    r = rows_of(x)
    out = np.ndarray((len(r), len(r[0])), dtype=object)
    for i, q in enumerate(r):
        for j, e in enumerate(q):
            out[i, j] = np.float64(e) if isinstance(e, (int, float)) else e
    return out


def stand_ins(fo, nump, solvers, sparse):
    """What replaces modules and their members, by identity: the code under check may call them anything."""
    import cvxopt
    import cvxopt.solvers
    import scipy.sparse
    out = {id(cvxopt): fo, id(np): nump, id(np.linalg): nump.linalg, id(cvxopt.solvers): solvers,
           id(cvxopt.solvers.options): solvers.options, id(scipy.sparse): sparse}
    for real, fake, names in ((cvxopt, fo, vars(fo)), (np, nump, [k for k in vars(NP) if not k.startswith('_')]),
                              (np.linalg, nump.linalg, vars(nump.linalg)), (cvxopt.solvers, solvers, ('conelp', 'cpl')),
                              (scipy.sparse, sparse, vars(sparse))):
        for k in names:
            if hasattr(real, k) and callable(getattr(real, k)):
                out[id(getattr(real, k))] = getattr(fake, k)
    return out


class Cone(Env):
    """Recording of the cone program that cvxpy_tdr hands to cvxopt."""

    def __init__(self, V):
        Env.__init__(self, V)
        self.made = []
        self.status = 'optimal'
        self.value = 0.25

    def patches(self):
        import pydsm.cvxpy_tdr as T
        from pydsm.cvxpy_tdr import arrays, scalars
        from pydsm.cvxpy_tdr.procedures import call_solver as cs
        cs = sys.modules['pydsm.cvxpy_tdr.procedures.call_solver']
        fo = fake_cvxopt()
        out = []
        self.solvers = Module(options={}, conelp=self.conelp, cpl=self.cpl)
        instead = stand_ins(fo, NP(), self.solvers, fake_sparse())
        import scipy.sparse     # the class of the sparse matrices stays derived from scipy's
        own = {id(scipy.sparse)} | {id(v) for v in vars(scipy.sparse).values()}
        for n, m in list(sys.modules.items()):
            if n.startswith('pydsm.cvxpy_tdr') and m is not None:
                for k, v in list(vars(m).items()):
                    if not k.startswith('__') and id(v) in instead and (n != arrays.cvxpy_spmatrix.__module__ or id(v) not in own):
                        out.append((m, k, instead[id(v)]))
        # and those imported while the code runs
        import cvxopt
        import cvxopt.solvers
        out += [(cvxopt, k, getattr(fo, k)) for k in ('matrix', 'spmatrix', 'sparse')]
        out += [(cvxopt.solvers, k, getattr(self.solvers, k)) for k in ('conelp', 'cpl', 'options')]
        init = scalars.cvxpy_scalar_var.__init__

        def hook(obj, *a, **k):
            init(obj, *a, **k)
            self.made.append(obj)
        out.append((scalars.cvxpy_scalar_var, '__init__', hook))
        # sets of variables go in the order of their names, from the first one on, so that runs are alike
        out += [(scalars.cvxpy_obj, '__hash__', lambda o: zlib.crc32(str(object.__getattribute__(o, 'name')).encode()))]
        out += [(c, 'i', 0) for c in (scalars.cvxpy_scalar_var, scalars.cvxpy_scalar_param) if hasattr(c, 'i')]
        prog = sys.modules['pydsm.cvxpy_tdr.programs'].cvxpy_program
        solve = prog.solve
        self.user = 0

        def solving(obj, *a, **k):
            self.user = len(self.made)      # what is made from now on are auxiliary unknowns
            return solve(obj, *a, **k)
        out.append((prog, 'solve', solving))
        ut = sys.modules.get('pydsm.cvxpy_tdr.utils')
        if ut is not None and hasattr(ut, 'sci_sqrtm'):
            real = ut.sci_sqrtm
            out.append((ut, 'sci_sqrtm', lambda a: real(numeric(a))))
        if self.V.symbolic:
            out.append((arrays.cvxpy_matrix, '__new__',
                        staticmethod(lambda cls, data, dtype=None, copy=True: np.matrix.__new__(cls, plain(data)))))
        return out

    def conelp(self, c, G, h, dims, A=None, b=None, **kw):
        return self.cpl(c, None, G, h, dims, A, b)

    def cpl(self, c, F, G, h, dims, A=None, b=None, **kw):
        self.F = F
        self.c = [r[0] for r in c.rows]
        self.G, self.h, self.dims = G.rows, [r[0] for r in h.rows], dims
        self.A, self.b = (A.rows, [r[0] for r in b.rows]) if A is not None else ([], [])
        self.kw = dict(self.solvers.options)
        self.n += 1
        N = len(self.c)
        self.xval = [k + 0.5 for k in range(N)]
        return {'status': self.status, 'x': self.xval, 'primal objective': self.value}

    def index(self):
        """Groups the unknowns of the cone program by the array they come from; call it after solving."""
        N = len(self.c)
        names = {}
        user = {object.__getattribute__(v, 'name') for v in self.made[:self.user]}
        for v in self.made:
            val = object.__getattribute__(v, 'value')
            if isinstance(val, float) and val == val:
                k = int(val - 0.5)
                if 0 <= k < N and val == k + 0.5 and k not in names:
                    names[k] = object.__getattribute__(v, 'name')
        order = {}
        for v in self.made:
            order.setdefault(object.__getattribute__(v, 'name'), len(order))
        grp = {}
        for k in range(N):
            nm = names.get(k, '?%d' % k)
            base, _, ix = nm.partition('[')
            i, j = map(int, ix[:-1].split(',')) if ix else (0, 0)
            grp.setdefault(base, []).append((i, j, k))
        self.xg = []
        self.tokens = {}
        aux = []
        for base, es in sorted(grp.items(), key=lambda t: min(order.get(names.get(e[2]), 10**9) for e in t[1])):
            if len(es) == 1 and names.get(es[0][2], '') not in user:
                aux.append(es[0][2])
                continue
            m = max(e[0] for e in es) + 1
            n = max(e[1] for e in es) + 1
            sym = m == n and m > 1 and not any(j > i for i, j, _ in es)
            self.xg.append(((m, n), sym, es))
        # the unknowns that the equalities define are eliminated
        rows = [list(r) + [bb] for r, bb in zip(self.A, self.b)]
        self.solved_for = {}
        free = []
        for col in aux:
            best = max((r for r in rows if not isinstance(r[col], SymBase)), key=lambda r: abs(r[col]), default=None)
            if best is None or abs(best[col]) < 1e-9:
                free.append(col)
                continue
            rows = [r for r in rows if r is not best]
            p = best[col]
            best = [x / p if not iszero(x) else 0.0 for x in best]

            def red(r):
                f = r[col]
                if iszero(f):
                    return r
                return [x - f * y if not iszero(y) else x for x, y in zip(r, best)]
            rows = [red(r) for r in rows]
            self.solved_for = {k: red(r) for k, r in self.solved_for.items()}
            self.solved_for[col] = best
        self.rest = rows
        for col in free:
            self.xg.append(((1, 1), False, [(0, 0, col)]))
        for g, (s, sym, es) in enumerate(self.xg):
            for i, j, k in es:
                self.tokens[k + 0.5] = (g, i, j)

    def groups(self):
        return [(s, sym) for s, sym, _ in self.xg]

    def unknowns(self, assign):
        x = {}
        for g, (s, sym, es) in enumerate(self.xg):
            for i, j, k in es:
                x[k] = assign[g][i][j]

        def row(r, skip=None):
            t = r[-1]
            for k, a in enumerate(r[:-1]):
                if k != skip and not iszero(a):
                    t = t - a * x[k]
            return t
        for col, r in self.solved_for.items():
            x[col] = row(r, col)
        return x, [row(r) for r in self.rest if not all(iszero(e) for e in r)]

    def at(self, assign):
        x, eq = self.unknowns(assign)
        r = At()
        r.eq = eq
        s = []
        for gr, hh in zip(self.G, self.h):
            t = hh
            for k, a in enumerate(gr):
                if not iszero(a):
                    t = t - a * x[k]
            s.append(t)
        p = self.dims['l']
        r.ge = s[:p]
        for q in self.dims['q']:
            r.soc.append((s[p + 1:p + q], s[p]))
            p += q
        for m in self.dims['s']:
            r.psd.append([[s[p + j * m + i] for j in range(m)] for i in range(m)])
            p += m * m
        o = 0.0
        for k, a in enumerate(self.c):
            if not iszero(a):
                o = o + a * x[k]
        r.obj = ('lin', [o])
        return r


def recorder(V, modeler, where):
    """(recording, patches) for a modeller used by a back end module."""
    if modeler == 'cvxpy_old':
        env = Cone(V)
        return env, env.patches()
    env = Env(V)
    fakes = {'cvxpy': fake_cvxpy(env)} if modeler == 'cvxpy' else {'picos': fake_picos(env), 'cvxopt': fake_cvxopt(True)}
    out = []
    for name, fake in fakes.items():
        real = importlib.import_module(name)
        instead = {id(real): fake}
        for k, f in vars(fake).items():
            v = getattr(real, k, None)
            if callable(v):
                instead[id(v)] = f
                out.append((real, k, f))
        for n, m in list(sys.modules.items()):
            if m is not None and n.startswith('pydsm.') and not n.startswith('pydsm.cvxpy_tdr'):
                out += [(m, k, instead[id(v)]) for k, v in list(vars(m).items()) if not k.startswith('__') and id(v) in instead]
    return env, out


def record(V, modeler, where, f):
    """Runs f, recording the problem it poses and the coefficients whose roots it takes."""
    env, ps = recorder(V, modeler, where)
    got = []

    def roots(p):
        got.append(list(np.asarray(p).reshape(-1)))
        return V._mkarr(np.array([1000.25 + k for k in range(len(got[-1]) - 1)], dtype=object))
    with patched(*ps), standin(V, {'numpy.roots': roots}):
        env.result = f()
    if modeler == 'cvxpy_old':
        env.index()
    env.ir = got
    return env
