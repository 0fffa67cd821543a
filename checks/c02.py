# -*- coding: utf-8 -*-
import math
import numpy as np
from sx.run import Instance
from . import graph

ASSUMPTIONS = ('cvxopt is a stand-in that records the cone program it is given; scipy.sparse matrices are stand-ins (dense)',
               'in soundness queries with matrices larger than 3, semidefiniteness is used through test vectors',
               'exp is an increasing function turning sums into products (instances of these facts are assumed)')


def users(T, X, name):
    if hasattr(X, 'data') and hasattr(X, 'variables') and X.shape != (1, 1):
        m, n = X.shape
        out = {}
        seen = []
        for i in range(m):
            for j in range(n):
                u = X.data[i][j]
                if not isinstance(u, float) and not any(u is s for s in seen):
                    seen.append(u)
                    out['%s%d%d' % (name, i, j)] = u
        return out
    return {name + '00': X}


def absval(V, x):
    return V.max(x, -x)


def atom(V, T, f, m=1, n=1, concave=False, gain=1.0, off=0.0, **kw):
    """{(X, t): f(gain X + off) <= t} (>= if concave)."""
    X = T.variable(m, n)
    t = T.variable()
    arg = X
    if gain != 1.0:
        arg = gain * arg
    if off != 0.0:
        arg = arg + off
    e = f(T, arg)
    c = T.geq(e, t) if concave else T.leq(e, t)
    us = users(T, X, 'x')
    us['t'] = t
    d = dict(prog=T.program(T.maximize(t) if concave else T.minimize(t), c if isinstance(c, list) else [c]), users=us,
             sign=-1 if concave else 1, obj=lambda x: x['t'], range={'t': (-4, 8)})
    d.update(kw)
    d['z'] = lambda x: [[gain * x['x%d%d' % (i, j)] + off for j in range(n)] for i in range(m)]
    return d


def flat(z):
    return [e for r in z for e in r]


def total(xs):
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


def big(V, xs):
    r = xs[0]
    for x in xs[1:]:
        r = V.max(r, x)
    return r


def square(V, T, m, n, gain=1.0, off=0.0):
    d = atom(V, T, lambda T, a: T.square(a), m, n, gain=gain, off=off)
    d['spec'] = lambda x: [(z * z, x['t']) for z in flat(d['z'](x))]
    d['cands'] = lambda x: flat(d['z'](x)) + [z * z for z in flat(d['z'](x))] + [x['t']]
    return d


def absv(V, T, m, n, gain=1.0, off=0.0):
    d = atom(V, T, lambda T, a: T.abs(a), m, n, gain=gain, off=off)
    d['spec'] = lambda x: [c for z in flat(d['z'](x)) for c in ((z, x['t']), (-z, x['t']))]
    d['cands'] = lambda x: flat(d['z'](x)) + [absval(V, z) for z in flat(d['z'](x))] + [x['t']]
    return d


def maxv(V, T, m, n, gain=1.0, off=0.0):
    d = atom(V, T, lambda T, a: T.max(a), m, n, gain=gain, off=off)
    d['spec'] = lambda x: [(z, x['t']) for z in flat(d['z'](x))]
    d['cands'] = lambda x: [x['t']] + flat(d['z'](x))
    return d


def minv(V, T, m, n, gain=1.0, off=0.0):
    d = atom(V, T, lambda T, a: T.min(a), m, n, True, gain=gain, off=off)
    d['spec'] = lambda x: [(x['t'], z) for z in flat(d['z'](x))]
    d['cands'] = lambda x: [x['t']] + flat(d['z'](x))
    return d


def signs(n):
    return [[1 if b >> i & 1 else -1 for i in range(n)] for b in range(2 ** n)]


def norms(V, T, f, m, n, gain=1.0, off=0.0):
    d = atom(V, T, lambda T, a: getattr(T, f)(a), m, n, gain=gain, off=off)

    def lines(x):
        z = d['z'](x)
        return z if f == 'norm_inf' else [list(c) for c in zip(*z)]
    d['spec'] = lambda x: [(total([s * e for s, e in zip(sg, ln)]), x['t']) for ln in lines(x) for sg in signs(len(ln))]
    d['cands'] = lambda x: [x['t']] + [absval(V, e) for e in flat(d['z'](x))] + [total([absval(V, e) for e in ln]) for ln in lines(x)] + flat(d['z'](x))
    return d


def norm2vec(V, T, m, n, gain=1.0, off=0.0):
    d = atom(V, T, lambda T, a: T.norm2(a), m, n, gain=gain, off=off)
    d['spec'] = lambda x: [(0.0, x['t']), (total([z * z for z in flat(d['z'](x))]), x['t'] * x['t'])]
    d['cands'] = lambda x: [x['t']] + flat(d['z'](x))
    return d


def rot(V, k, refl=False):
    q = V.real('q%d' % k, -1, 1)
    c, s = (1 - q * q) / (1 + q * q), 2 * q / (1 + q * q)
    return [[c, -s], [s, c]] if not refl else [[c, s], [s, -c]]


def col(U, j):
    return [r[j] for r in U]


def svd(V, m, n):
    """A 2x2 matrix by its singular value decomposition (two signed values)."""
    U, W = rot(V, 1), rot(V, 2)
    s = [V.real('s0', 0, 2), V.real('s1', -2, 2)]
    Z = [[total([U[i][k] * s[k] * W[j][k] for k in range(2)]) for j in range(2)] for i in range(2)]
    return Z, U, W, s


def norm2mat(V, T, side):
    d = atom(V, T, lambda T, a: T.norm2(a), 2, 2)
    if side == 'sound':
        u, w = [V.real('u%d' % i, -1, 1) for i in range(2)], [V.real('w%d' % i, -1, 1) for i in range(2)]
        d['tests'] = lambda x: {4: [u + w, [-e for e in u] + w]}

        def spec(x):
            z = d['z'](x)
            q = total([2.0 * u[i] * z[i][j] * w[j] for i in range(2) for j in range(2)])
            r = x['t'] * total([e * e for e in u + w])
            return [(q, r), (-q, r)]
        d['spec'] = spec
    else:
        def point(W):
            Z, U, Y, s = svd(W, 2, 2)
            d['usv'] = (U, Y, s)
            return {'x00': Z[0][0], 'x01': Z[0][1], 'x10': Z[1][0], 'x11': Z[1][1], 't': W.real('x_t', -1, 4)}
        d['point'] = point
        d['spec'] = lambda x: [(d['usv'][2][0], x['t']), (absval(V, d['usv'][2][1]), x['t'])]
        d['cands'] = lambda x: [x['t'], 0.0] + flat(d['z'](x)) + [-e for e in flat(d['z'](x))]

        def factors(x):
            U, Y, s = d['usv']
            h = 0.5
            return {4: [(h * (x['t'] - s[k]), col(U, k) + col(Y, k)) for k in range(2)] + [(h * (x['t'] + s[k]), col(U, k) + [-e for e in col(Y, k)]) for k in range(2)]}
        d['factors'] = factors
    return d


def nuclear(V, T, side):
    d = atom(V, T, lambda T, a: T.nuclear_norm(a), 2, 2)
    if side in ('sound', 'sound2'):
        O = rot(V, 1, side == 'sound2')       # the nuclear norm is the largest inner product with an orthogonal matrix
        d['tests'] = lambda x: {4: [[1.0, 0.0] + [-O[0][0], -O[0][1]], [0.0, 1.0] + [-O[1][0], -O[1][1]]]}

        def spec(x):
            z = d['z'](x)
            return [(total([z[i][j] * O[i][j] for i in range(2) for j in range(2)]), x['t'])]
        d['spec'] = spec
    else:
        def point(W):
            U, Y = rot(W, 1), rot(W, 2)
            s = [W.real('s0', 0, 2), W.real('s1', 0, 2)]
            sg = [1.0, -1.0 if side == 'complete2' else 1.0]
            Z = [[total([U[i][k] * (sg[k] * s[k]) * Y[j][k] for k in range(2)]) for j in range(2)] for i in range(2)]
            d['usv'] = (U, Y, s)
            return {'x00': Z[0][0], 'x01': Z[0][1], 'x10': Z[1][0], 'x11': Z[1][1], 't': W.real('x_t', 0, 4)}
        d['point'] = point
        d['spec'] = lambda x: [(d['usv'][2][0] + d['usv'][2][1], x['t'])]

        def cands(x):
            U, Y, s = d['usv']
            a = s
            out = [a[0] + a[1], x['t']] + flat(d['z'](x))
            for M in (U, Y):
                out += [total([M[i][k] * a[k] * M[j][k] for k in range(2)]) for i, j in ((0, 0), (1, 0), (1, 1))]
            return out
        d['cands'] = cands

        def factors(x):
            U, Y, s = d['usv']
            sg = -1.0 if side == 'complete2' else 1.0
            return {4: [(s[0], col(U, 0) + col(Y, 0)), (s[1], col(U, 1) + [sg * e for e in col(Y, 1)])]}
        d['factors'] = factors
    return d


def lam(V, T, f, n, side):
    """Largest and smallest eigenvalues of symmetric matrices."""
    top = f == 'lambda_max'
    X = T.variable(n, n, 'symmetric')
    t = T.variable()
    e = getattr(T, f)(X)
    us = users(T, X, 'x')
    us['t'] = t
    d = dict(prog=T.program(T.minimize(t) if top else T.maximize(t), [T.leq(e, t) if top else T.geq(e, t)]), users=us,
             sign=1 if top else -1, obj=lambda x: x['t'])

    def mat(x):
        return [[x.get('x%d%d' % (min(i, j), max(i, j)), x.get('x%d%d' % (max(i, j), min(i, j)))) for j in range(n)] for i in range(n)]
    if side == 'sound':
        u = [V.real('u%d' % i, -1, 1) for i in range(n)]
        d['tests'] = lambda x: {n: [u]}

        def spec(x):
            M = mat(x)
            q = total([u[i] * M[i][j] * u[j] for i in range(n) for j in range(n)])
            r = x['t'] * total([a * a for a in u])
            return [(q, r) if top else (r, q)]
        d['spec'] = spec
    else:
        def point(W):
            U = rot(W, 1)
            s = [W.real('s%d' % k, -2, 2) for k in range(n)]
            if n == 3:
                R = rot(W, 2)
                U = [[U[0][0], U[0][1] * R[0][0], U[0][1] * R[0][1]], [U[1][0], U[1][1] * R[0][0], U[1][1] * R[0][1]], [0.0, R[1][0], R[1][1]]]
            d['us'] = (U, s)
            x = {'t': W.real('x_t', -4, 4)}
            for i in range(n):
                for j in range(n):
                    k = 'x%d%d' % (i, j)
                    if k in us:
                        x[k] = total([U[i][q] * s[q] * U[j][q] for q in range(n)])
            return x
        d['point'] = point
        d['spec'] = lambda x: [(s, x['t']) if top else (x['t'], s) for s in d['us'][1]]
        d['cands'] = lambda x: [x['t']] + [x[k] for k in us] + [x['t'] - x[k] for k in us]
        d['factors'] = lambda x: {n: [((x['t'] - s) if top else (s - x['t']), col(d['us'][0], k)) for k, s in enumerate(d['us'][1])]}
    return d


def nonsymmetric(V, T, f):
    """The functions of symmetric matrices are infinite elsewhere."""
    X = T.variable(2, 2)
    t = T.variable()
    e = getattr(T, f)(X)
    top = f == 'lambda_max'
    us = users(T, X, 'x')
    us['t'] = t
    d = dict(prog=T.program(T.minimize(t) if top else T.maximize(t), [T.leq(e, t) if top else T.geq(e, t)]), users=us)
    d['tests'] = lambda x: {4: []}
    d['spec'] = lambda x: [(x['x01'], x['x10']), (x['x10'], x['x01'])]
    return d


def detrootn(V, T, n, side):
    X = T.variable(n, n, 'symmetric') if n > 1 else T.variable()
    t = T.variable()
    us = users(T, X, 'x')
    us['t'] = t
    d = dict(prog=T.program(T.maximize(t), [T.geq(T.det_rootn(X), t)]), users=us, sign=-1, obj=lambda x: x['t'])
    if n == 1:
        d['spec'] = lambda x: [(0.0, x['x00']), (x['t'], x['x00'])]
        d['cands'] = lambda x: [x['t'], x['x00'], V.max(x['t'], 0.0)]
        return d
    if side == 'sound':
        # t^2 <= det X or t <= 0, and X is positive semidefinite
        def spec(x):
            a, b, c = x['x00'], x.get('x10', x.get('x01')), x['x11']
            return [(0.0, a), (0.0, c), V.any([x['t'] <= 1e-7, x['t'] * x['t'] <= a * c - b * b + 1e-6])]
        d['spec'] = spec

        def tests(x):
            a, b = x['x00'], x.get('x10', x.get('x01'))
            e = [[1.0 if i == k else 0.0 for i in range(4)] for k in range(4)]
            return {4: e + [[1.0, 0.0, -1.0, 0.0], [0.0, a, b, -a], [1.0, 0.0, 1.0, 0.0], [0.0, a, -b, a]]}
        d['tests'] = tests
    else:
        def point(W):
            x = {k: W.real('x_' + k, 0.1, 2) if k in ('x00', 'x11') else W.real('x_' + k, -2, 2) for k in us}
            return x
        d['point'] = point

        def spec(x):
            a, b, c = x['x00'], x.get('x10', x.get('x01')), x['x11']
            return [a * c - b * b >= 0.01, (0.0, x['t']), (x['t'] * x['t'], a * c - b * b)]
        d['spec'] = spec

        def cands(x):
            a, b, c = x['x00'], x.get('x10', x.get('x01')), x['x11']
            return [x['t'], a, b, c, c - b * b / a]
        d['cands'] = cands

        def factors(x):
            a, b, c = x['x00'], x.get('x10', x.get('x01')), x['x11']
            return {4: [(a, [1.0, 0.0, 1.0, b / a]), (c - b * b / a, [0.0, 1.0, 0.0, 1.0])]}
        d['factors'] = factors
    return d


def huber(V, T, M, gain=1.0, off=0.0):
    d = atom(V, T, lambda T, a: T.huber(a, M), 1, 1, gain=gain, off=off)

    def spec(x):
        z = d['z'](x)[0][0]
        a = absval(V, z)
        return [(V.ite(a <= M, z * z, M * (2 * a - M)), x['t'])]
    d['spec'] = spec
    d['tol'] = 1e-6
    d['range'] = {'x00': (-2.0 * M, 2.0 * M), 't': (-2, 4.0 * M * M)}

    def cands(x):
        a = absval(V, d['z'](x)[0][0] / M)
        w = V.min(a, 1.0)
        v = V.max(a - 1, 0.0)
        return [a, w, v, w * w, 2 * v + w * w, d['z'](x)[0][0] / M, (2 * v + w * w) * M * M, x['t']]
    d['cands'] = cands
    return d


def qol(V, T, n, gain=1.0):
    X = T.variable(n, 1)
    y, t = T.variable(), T.variable()
    us = users(T, X, 'x')
    us.update(y=y, t=t)
    d = dict(prog=T.program(T.minimize(t), [T.leq(T.quad_over_lin(gain * X if gain != 1 else X, y), t)]), users=us, obj=lambda x: x['t'],
             range={'t': (-2, 8)})

    def spec(x):
        s = total([x['x%d0' % i] * x['x%d0' % i] for i in range(n)]) * gain * gain
        return [(0.0, x['y']), (0.0, x['t']), (s, x['y'] * x['t'])]
    d['spec'] = spec

    def point(W):
        x = {'x%d0' % i: W.real('x_x%d0' % i, -2, 2) for i in range(n)}
        x['y'] = W.real('x_y', 0.125, 4)
        x['t'] = W.real('x_t', 0, 8)
        return x
    d['point'] = point
    d['cands'] = lambda x: [x['t'], x['y']] + [gain * x['x%d0' % i] for i in range(n)]
    if n > 1:
        # test vectors complete the square
        def tests(x):
            v = [gain * x['x%d0' % i] for i in range(n)]
            return {n + 1: [[0.0] * n + [1.0], [1.0] + [0.0] * n] + [[-(1.0 + x['t']) * e for e in v] + [total([e * e for e in v])]] + [[-e for e in v] + [x['y']]]}
        d['tests'] = tests
    return d


def sqrtv(V, T, m, n, gain=1.0, off=0.0):
    d = atom(V, T, lambda T, a: T.sqrt(a), m, n, True, gain=gain, off=off)
    d['spec'] = lambda x: [c for z in flat(d['z'](x)) for c in ((0.0, z), V.any([x['t'] <= 0, x['t'] * x['t'] <= z]))]

    def point(W):
        # the square root itself
        x = {}
        r = [W.real('r%d' % k, 0, 2) for k in range(m * n)]
        for i in range(m):
            for j in range(n):
                x['x%d%d' % (i, j)] = (r[i * n + j] * r[i * n + j] - off) / gain
        x['t'] = W.real('x_t', -2, 2)
        d['r'] = r
        return x
    d['point'] = point
    d['cands'] = lambda x: [x['t']] + flat(d['z'](x)) + list(d['r'])
    return d


def geomean(V, T, n):
    d = atom(V, T, lambda T, a: T.geo_mean(a), n, 1, True)

    def spec(x):
        z = flat(d['z'](x))
        p, q = z[0], x['t']
        for e in z[1:]:
            p = p * e
            q = q * x['t']
        return [(0.0, e) for e in z] + [V.any([x['t'] <= 0, q <= p])]
    d['spec'] = spec
    d['range'] = {'': (-1, 2)}
    if n == 1:
        d['cands'] = lambda x: [x['t'], x['x00'], V.max(x['t'], 0.0)]
        return d
    # parametrised by roots, so that everything is polynomial
    k = 1
    while 2 ** k < n:
        k += 1
    N = 2 ** k

    def point(W):
        r = [W.real('r%d' % i, 0.5, 1.5) for i in range(n)]
        d['r'] = r
        x = {}
        for i in range(n):
            x['x%d0' % i] = power(r[i], N if n != 2 ** k else N)
        x['t'] = W.real('x_t', -1, 6)
        return x

    def cands(x):
        r = d['r']
        if n == 2:
            m = r[0] * r[1]
            return [x['t'], m] + flat(d['z'](x))
        if n == 4:
            m = r[0] * r[1] * r[2] * r[3]
            return [x['t'], m, power(r[0] * r[1], 2), power(r[2] * r[3], 2)] + flat(d['z'](x))
        return []
    if n in (2, 4):
        d['point'] = point
        d['cands'] = cands
    else:
        # three: x_i = r_i^12, mean m = (r0 r1 r2)^4, pairs (r0 r1)^6 and sqrt(r2^12 m) = r2^8 (r0 r1)^2
        def point3(W):
            r = [W.real('r%d' % i, 0.75, 1.25) for i in range(3)]
            d['r'] = r
            x = {'x%d0' % i: power(r[i], 12) for i in range(3)}
            x['t'] = W.real('x_t', -1, 6)
            return x
        d['point'] = point3
        d['cands'] = lambda x: [x['t'], power(d['r'][0] * d['r'][1] * d['r'][2], 4), power(d['r'][0] * d['r'][1], 6),
                                power(d['r'][2], 8) * power(d['r'][0] * d['r'][1], 2)] + flat(d['z'](x))
    return d


def power(x, n):
    r = x
    for _ in range(n - 1):
        r = r * x
    return r


def quadform(V, T, which):
    P = {'diag': [[4.0, 0.0], [0.0, 9.0]], 'full': [[5.0, 5.0], [5.0, 10.0]], 'rank1': [[4.0, 0.0], [0.0, 0.0]], 'one': [[2.25]]}[which]
    n = len(P)
    X = T.variable(n, 1)
    t = T.variable()
    us = users(T, X, 'x')
    us['t'] = t
    import pydsm.cvxpy_tdr.arrays as arrays
    Pm = np.matrix.__new__(arrays.cvxpy_matrix, np.array(P)) if n > 1 else 2.25
    d = dict(prog=T.program(T.minimize(t), [T.leq(T.quad_form(X, Pm), t)]), users=us, obj=lambda x: x['t'], range={'t': (-2, 80)})

    def val(x):
        return total([P[i][j] * x['x%d0' % i] * x['x%d0' % j] for i in range(n) for j in range(n)])
    d['spec'] = lambda x: [(val(x), x['t'])]
    d['tol'] = 1e-6
    S = {'diag': [[2.0, 0.0], [0.0, 3.0]], 'full': [[2.0, 1.0], [1.0, 3.0]], 'rank1': [[2.0, 0.0], [0.0, 0.0]], 'one': [[1.5]]}[which]

    def root(x):
        return [total([S[i][j] * x['x%d0' % j] for j in range(n)]) for i in range(n)]
    d['tests'] = lambda x: {n + 1: [[-e for e in root(x)] + [1.0]]}
    d['cands'] = lambda x: [x['t']] + root(x)

    def point(W):
        x = {'x%d0' % i: W.real('x_x%d0' % i, -2, 2) for i in range(n)}
        x['t'] = total([P[i][j] * x['x%d0' % i] * x['x%d0' % j] for i in range(n) for j in range(n)]) + W.real('slack', 1e-3, 8)
        return x
    d['point'] = point

    def factors(x):
        r = root(x)
        return {n + 1: [(1.0, [1.0 if i == k else 0.0 for i in range(n)] + [r[k]]) for k in range(n)] + [(x['t'] - total([e * e for e in r]), [0.0] * n + [1.0])]}
    d['factors'] = factors
    return d


# ---------------------------------------------------------------- exponentials

def mono(V, pairs):
    """exp is increasing."""
    out = []
    for a, b in pairs:
        out += [V.any([a > b, V.exp(a) <= V.exp(b)]), V.any([a < b, V.exp(a) >= V.exp(b)])]
    return out


def expv(V, T, m, n, gain=1.0, off=0.0):
    d = atom(V, T, lambda T, a: T.exp(a), m, n, gain=gain, off=off)
    d['spec'] = lambda x: [(V.exp(z), x['t']) for z in flat(d['z'](x))]
    d['cands'] = lambda x: [x['t']] + flat(d['z'](x)) + [V.exp(z) for z in flat(d['z'](x))]
    d['lemmas'] = lambda x, aux: mono(V, [(z, a) for z in flat(d['z'](x)) for a in [v for v, _ in aux.values()] + flat(d['z'](x))])
    return d


def logv(V, T, gain=1.0, off=0.0):
    d = atom(V, T, lambda T, a: T.log(a), 1, 1, True, gain=gain, off=off)
    d['spec'] = lambda x: [(V.exp(x['t']), z) for z in flat(d['z'](x))]
    d['cands'] = lambda x: [x['t']] + flat(d['z'](x))
    d['lemmas'] = lambda x, aux: mono(V, [(x['t'], a) for a, _ in aux.values()])
    return d


def lse(V, T, n, gain=1.0, off=0.0):
    d = atom(V, T, lambda T, a: T.log_sum_exp(a), n, 1, gain=gain, off=off)
    d['range'] = {'': (-1, 1), 't': (-1, 3)}
    # sum exp(z - t) <= 1
    d['spec'] = lambda x: [(total([V.exp(z - x['t']) for z in flat(d['z'](x))]), 1.0)]

    def cands(x):
        z = flat(d['z'](x))
        e = [V.exp(q - x['t']) for q in z]
        # the weights add up to one: the last one takes what is left
        return [x['t']] + [q - x['t'] for q in z] + z + e + [1.0 - total(e[:i] + e[i + 1:]) for i in range(n)]
    d['cands'] = cands

    def lemmas(x, aux):
        # the exponents of the cone program are those that take the place of z - t
        z = flat(d['z'](x))
        return mono(V, [(z[c - 1] - x['t'], a) for a, c in aux.values() if c is not None and 1 <= c <= n]
                    + [(z[c - 1 - n] - x['t'], a - b) for a, c in aux.values() if c is not None and n + 1 <= c <= 2 * n
                       for b in [v for v, e in aux.values() if e == 0] + [x['t']]])
    d['lemmas'] = lemmas
    return d


def powers(V, T, f, p, gain=1.0, off=0.0):
    d = atom(V, T, lambda T, a: getattr(T, f)(a, p), 1, 1, gain=gain, off=off)

    def spec(x):
        z = d['z'](x)[0][0]
        q = {'power_abs': absval(V, z), 'power_pos': V.max(z, 0.0), 'power_p': z}[f]
        out = [(power(q, int(p)), x['t'])]
        if f == 'power_p':
            out.append((0.0, z))
        return out
    d['spec'] = spec
    d['range'] = {'t': (-2, 10)}

    def point(W):
        # away from the origin, where the function has no second derivative
        x = {'x00': W.real('x_x00', -2, 2), 't': W.real('x_t', -2, 10)}
        if p > 1 and f != 'power_pos':
            W.assume(absval(W, gain * x['x00'] + off) >= 0.125)
        return x
    d['point'] = point

    def cands(x):
        z = d['z'](x)[0][0]
        a, b = absval(V, z), V.max(z, 0.0)
        if p > 1:       # some room within the domain
            b = V.max(z, 1e-6)
        return [x['t'], z, a, b, power(z, int(p)), power(a, int(p)), power(b, int(p))]
    d['cands'] = cands
    if f == 'power_pos' and p > 1:
        base = d['spec']
        d['spec'] = lambda x: base(x) + ([(1e-3, x['t'])] if d.get('room') else [])
        d['room'] = False
    return d


def kl(V, T, n):
    X, Y = T.variable(n, 1), T.variable(n, 1)
    t = T.variable()
    us = users(T, X, 'x')
    us.update(users(T, Y, 'y'))
    us['t'] = t
    d = dict(prog=T.program(T.minimize(t), [T.leq(T.kl_div(X, Y), t)]), users=us, obj=lambda x: x['t'], range={'': (0.25, 2), 't': (-1, 6)})

    def spec(x):
        s = 0.0
        for i in range(n):
            u, v = x['x%d0' % i], x['y%d0' % i]
            s = s + u * V.ln(u / v) - u + v
        return [(s, x['t'])]
    d['spec'] = spec
    d['cands'] = lambda x: [x['t']] + [x[k] for k in us if k != 't']
    return d


# ---------------------------------------------------------------- the sets, without functions

def member(V, T, which, n=2, fixed=()):
    """Membership in a set of a column of unknowns; those in fixed are numbers instead."""
    import pydsm.cvxpy_tdr.sets as sets
    names = {'geo_mean_cone': ['x%d' % i for i in range(n)] + ['t'], 'exp_cone': ['x', 'y', 'z'], 'second_order_cone': ['x%d' % i for i in range(n)] + ['t'],
             'kl_div_epi': ['x%d' % i for i in range(n)] + ['y%d' % i for i in range(n)] + ['t'], 'power_pos_epi': ['x', 't']}[which]
    fixed = dict(fixed)
    us = {k: T.variable() for k in names if k not in fixed}
    el = [us.get(k, fixed.get(k)) for k in names]
    the = getattr(sets, which)
    obj = total([1.0 * u for u in us.values()])
    d = dict(prog=T.program(T.minimize(obj), [T.belongs(T.vstack(el), the(n) if which == 'power_pos_epi' else the)]), users=us)

    def val(x):
        return dict(fixed, **x)
    d['range'] = {'': (-2, 2), 't': (-3, 6), 'z': (-1, 9)}

    def spec(x):
        x = val(x)
        if which == 'second_order_cone':
            return [(0.0, x['t']), (total([x['x%d' % i] * x['x%d' % i] for i in range(n)]), x['t'] * x['t'])]
        if which == 'power_pos_epi':
            return [(0.0, x['x']), (power(x['x'], n), x['t'])]
        if which == 'exp_cone':
            return [x['y'] > 0, (x['y'] * V.exp(x['x'] / x['y']), x['z'])]
        if which == 'kl_div_epi':
            u, v = [x['x%d' % i] for i in range(n)], [x['y%d' % i] for i in range(n)]
            return [e > 0 for e in u + v] + [(total([a * V.ln(a / b) - a + b for a, b in zip(u, v)]), x['t'])]
        z = [x['x%d' % i] for i in range(n)]
        p, q = z[0], x['t']
        for e in z[1:]:
            p, q = p * e, q * x['t']
        return [(0.0, e) for e in z] + [V.any([x['t'] <= 0, q <= p])]
    d['spec'] = spec
    if which == 'exp_cone':
        d['point'] = lambda W: {k: W.real('x_' + k, *((0.25, 2) if k == 'y' else (-2, 2) if k == 'x' else (0, 9))) for k in us}
    if which in ('kl_div_epi', 'power_pos_epi'):
        d['point'] = lambda W: {k: W.real('x_' + k, *((-3, 6) if k == 't' else (0.25, 2))) for k in us}
    if which == 'kl_div_epi':
        d['range'] = {'': (0.25, 2), 't': (-1, 6)}
    if which != 'geo_mean_cone':
        d['cands'] = lambda x: list(x.values())
        return d
    # the entries are powers of their roots, so that the means are polynomials
    N = {1: 1, 2: 2, 3: 12, 4: 4}[n]

    def point(W):
        lo, hi = (0.75, 1.25) if n == 3 else (0.5, 1.5)
        r = [W.real('r%d' % i, lo, hi) if 'x%d' % i not in fixed else 1.0 for i in range(n)]
        d['r'] = r
        x = {'x%d' % i: power(r[i], N) for i in range(n) if 'x%d' % i not in fixed}
        if 't' not in fixed:
            x['t'] = W.real('x_t', -3, 6)
        return x
    d['point'] = point

    def cands(x):
        x = val(x)
        r = d['r']
        z = [x['x%d' % i] for i in range(n)]
        m = {1: lambda: [z[0]], 2: lambda: [r[0] * r[1]], 3: lambda: [power(r[0] * r[1] * r[2], 4), power(r[0] * r[1], 6), power(r[2], 8) * power(r[0] * r[1], 2)],
             4: lambda: [r[0] * r[1] * r[2] * r[3], power(r[0] * r[1], 2), power(r[2] * r[3], 2)]}[n]()
        return [x['t']] + m + z
    d['cands'] = cands
    return d


def refused(V, f, bad):
    import pydsm.cvxpy_tdr as T
    x = T.variable(2, 3)
    calls = {'lambda_max': lambda: T.lambda_max(x), 'lambda_min': lambda: T.lambda_min(x), 'det_rootn': lambda: T.det_rootn(x),
             'quad_form': lambda: T.quad_form(T.variable(2, 1), T.matrix([[1.0, 0.0], [0.0, -1.0]])),
             'quad_form2': lambda: T.quad_form(T.variable(2, 1), T.matrix([[1.0, 1.0], [0.0, 1.0]])),
             'geo_mean': lambda: T.geo_mean(x), 'log_sum_exp': lambda: T.log_sum_exp(x), 'kl_div': lambda: T.kl_div(T.variable(2, 1), T.variable(3, 1)),
             'huber': lambda: T.huber(T.variable(), -V.real('M', 0, 3)), 'power_abs': lambda: T.power_abs(T.variable(), V.real('p', -2, 0.99)),
             'power_pos': lambda: T.power_pos(T.variable(), V.real('p', -2, 0.99)), 'power_p': lambda: T.power_p(T.variable(), V.real('p', -2, 0.99)),
             'quad_over_lin': lambda: T.quad_over_lin(x, 1)}
    from . import conic
    from .dsgn import patched
    with patched(*conic.Cone(V).patches()):
        try:
            calls[f]()
        except (TypeError, ValueError):
            return
    V.check(False, 'arguments out of the domain of %s are refused' % f)


def instances(tier):
    out = []
    thorough = tier == 'thorough'

    def add(model, sides=('sound', 'complete'), **p):
        nm = model.__name__ + ''.join('-%s' % (v,) for k, v in sorted(p.items()))
        for s in sides:
            q = dict(p)
            if 'side' in model.__code__.co_varnames[:model.__code__.co_argcount]:
                q['side'] = s
            body = graph.complete if s.startswith('complete') else graph.sound
            out.append(graph.instance(Instance, '%s-%s' % (nm, s), body, dict(q, model=model), timeout=60 if thorough else 20,
                                      bounds='every argument with entries in [-2,2] and every level, sizes as in the name'))
    aff = dict(gain=2.0, off=-1.0)
    for k in ((1, 1), (2, 1), (2, 2)) if thorough else ((1, 1), (2, 1)):
        add(square, m=k[0], n=k[1])
        add(absv, m=k[0], n=k[1])
        add(expv, m=k[0], n=k[1])
    add(square, m=1, n=1, **aff)
    add(absv, m=1, n=2, gain=-1.5, off=0.25)
    for k in ((2, 1), (2, 2)) if thorough else ((2, 1), (1, 3)):
        add(maxv, m=k[0], n=k[1])
        add(minv, m=k[0], n=k[1])
    add(maxv, m=2, n=1, gain=-2.0, off=1.0)
    add(minv, m=2, n=1, gain=-2.0, off=1.0)
    for f in ('norm1', 'norm_inf'):
        for k in ((2, 1), (1, 2), (2, 2)):
            add(norms, f=f, m=k[0], n=k[1])
        add(norms, f=f, m=1, n=1)
    for k in ((1, 1), (2, 1), (1, 3)):
        add(norm2vec, m=k[0], n=k[1])
    add(norm2vec, m=2, n=1, **aff)
    add(norm2mat)
    add(nuclear, sides=('sound', 'sound2', 'complete', 'complete2'))
    for f in ('lambda_max', 'lambda_min'):
        for n in (2, 3):
            add(lam, f=f, n=n)
        add(nonsymmetric, sides=('sound',), f=f)
    add(detrootn, n=1)
    add(detrootn, n=2)
    for M in (1, 2, 0.5):
        add(huber, M=M)
    add(huber, M=1.5, **aff)
    for n in (1, 2):
        add(qol, n=n)
    add(qol, n=1, gain=-3.0)
    add(sqrtv, m=1, n=1)
    add(sqrtv, m=2, n=1)
    add(sqrtv, m=1, n=1, **aff)
    for n in (1, 2, 3, 4) if thorough else (1, 2, 3):
        add(geomean, n=n)
    for w in ('diag', 'full', 'rank1', 'one'):
        add(quadform, which=w)
    add(expv, m=1, n=1, **aff)
    add(logv)
    add(logv, **aff)
    add(lse, n=2)
    add(lse, n=2, gain=-1.0, off=0.5)
    for f in ('power_abs', 'power_pos', 'power_p'):
        for p in (1, 2, 3):
            add(powers, f=f, p=p)
        add(powers, f=f, p=2, **aff)
    add(kl, n=1)
    add(kl, n=2)
    for n in (1, 2, 3, 4) if thorough else (1, 2, 3):
        add(member, which='geo_mean_cone', n=n)
    add(member, which='geo_mean_cone', n=3, fixed=(('x1', 1.0),))
    add(member, which='geo_mean_cone', n=2, fixed=(('t', -0.5),))
    for n in (1, 2, 3):
        add(member, which='second_order_cone', n=n)
    add(member, which='second_order_cone', n=2, fixed=(('x0', -1.5),))
    add(member, which='second_order_cone', n=2, fixed=(('t', 1.5),))
    add(member, which='exp_cone')
    add(member, which='exp_cone', fixed=(('y', 0.5),))
    add(member, which='exp_cone', fixed=(('x', 0.5),))
    add(member, which='exp_cone', fixed=(('z', 1.5),))
    for n in (1, 2):
        add(member, which='kl_div_epi', n=n)
    add(member, which='kl_div_epi', n=1, fixed=(('y0', 0.5),))
    add(member, which='kl_div_epi', n=1, fixed=(('x0', 0.5),))
    add(member, which='kl_div_epi', n=1, fixed=(('t', 0.5),))
    for n in (2, 3):
        add(member, which='power_pos_epi', n=n)
    add(member, which='power_pos_epi', n=2, fixed=(('t', 1.5),))
    for f in ('lambda_max', 'lambda_min', 'det_rootn', 'quad_form', 'quad_form2', 'geo_mean', 'log_sum_exp', 'kl_div', 'huber', 'power_abs',
              'power_pos', 'power_p', 'quad_over_lin'):
        out.append(graph.instance(Instance, 'refused-' + f, refused, dict(f=f, bad=0), bounds='arguments out of the domain'))
    return out
