# -*- coding: utf-8 -*-
import math
import numpy as np
from sx.run import Instance
from . import conic, graph
from .c02 import ASSUMPTIONS as A2, absval, flat, total, users  # noqa
from .dsgn import patched

ASSUMPTIONS = A2


def param(T, value, attribute=None):
    p = T.parameter(attribute) if attribute else T.parameter()
    p.value = value
    return p


def lp(V, T, how='constants', action='minimize'):
    """Linear program in two unknowns: symbolic costs, bounds and (as parameters or constants) coefficients."""
    x = T.variable(2, 1)
    c = [V.real('c0', 0.5, 3), V.real('c1', -3, -0.5)]
    lo = 0.25 if how == 'parameters' else -2        # zeros multiply the paths
    off = V.real('c2', lo, 2)
    A = [[V.real('a00', 0.5, 2), V.real('a01', -2, -0.5)], [1.0, 1.0], [-1.0, 2.0]]
    b = [V.real('b0', lo, 2), V.real('b1', lo, 2), V.real('b2', lo, 2)]
    if how == 'parameters':
        cc = [param(T, c[0]), param(T, c[1])]
        off_ = param(T, off)
        aa = [[param(T, A[0][0]), param(T, A[0][1])], A[1], A[2]]
        bb = [param(T, v) for v in b]
    else:
        cc, off_, aa, bb = c, off, A, b
    obj = cc[0] * x[0, 0] + cc[1] * x[1, 0] + off_
    rows = [aa[i][0] * x[0, 0] + aa[i][1] * x[1, 0] for i in range(3)]
    cs = [T.leq(rows[0], bb[0]), T.geq(bb[1], rows[1]) if how == 'parameters' else T.geq(rows[1], bb[1]), T.eq(rows[2], bb[2])]
    act = T.minimize if action == 'minimize' else T.maximize
    d = dict(prog=T.program(act(obj), cs), users=users(T, x, 'x'), sign=1 if action == 'minimize' else -1)

    def row(xx, i):
        return A[i][0] * xx['x00'] + A[i][1] * xx['x10']

    def spec(xx):
        second = (row(xx, 1), b[1]) if how == 'parameters' else (b[1], row(xx, 1))
        return [(row(xx, 0), b[0]), second, (row(xx, 2), b[2]), (b[2], row(xx, 2))]
    d['spec'] = spec
    d['obj'] = lambda xx: c[0] * xx['x00'] + c[1] * xx['x10'] + off

    def point(W):
        # the last equation gives the first unknown
        y = W.real('x_x10', -2, 2)
        B2 = W.real('b2', lo, 2)
        return {'x00': 2.0 * y - B2, 'x10': y}
    d['point'] = point
    d['cands'] = lambda xx: [d['obj'](xx), row(xx, 0), row(xx, 1), row(xx, 2)] + b
    return d


def arrays(V, T, action='minimize'):
    """Constraints between arrays, matrix times vector, and the same unknown several times."""
    x = T.variable(2, 1)
    y = T.variable()
    P = [[1.0, 2.0], [-0.5, 3.0]]
    b = [V.real('b0', -2, 2), V.real('b1', -2, 2)]
    M = T.matrix(P)
    bb = T.parameter(2, 1)
    bb.value = T.matrix([[b[0]], [b[1]]])
    cs = [T.leq(M * x, bb + y), T.geq(x, -3), T.leq(x[0, 0] + x[0, 0] + y - x[0, 0], 4)]
    act = T.minimize if action == 'minimize' else T.maximize
    obj = T.sum(x) * 2 - y + 0.5 * y + 1
    us = users(T, x, 'x')
    us['y'] = y
    d = dict(prog=T.program(act(obj), cs), users=us, sign=1 if action == 'minimize' else -1)
    d['obj'] = lambda z: 2.0 * (z['x00'] + z['x10']) - 0.5 * z['y'] + 1.0

    def rows(z):
        return [P[i][0] * z['x00'] + P[i][1] * z['x10'] for i in range(2)]

    def spec(z):
        r = rows(z)
        return [(r[i], b[i] + z['y']) for i in range(2)] + [(-3.0, z['x00']), (-3.0, z['x10']), (z['x00'] + z['y'], 4.0)]
    d['spec'] = spec
    d['cands'] = lambda z: [d['obj'](z)] + rows(z) + [b[i] + z['y'] for i in range(2)] + [z['x00'] + z['y'], z['x00'], z['x10']]
    return d


def equalities(V, T, which='a'):
    """Equalities, some of which say the same thing, or almost."""
    x, y, w = T.variable(), T.variable(), T.variable()
    k = V.real('k', 0.5, 2)
    d = dict(users={'x': x, 'y': y, 'w': w})
    if which == 'a':
        eqs = [T.eq(x, k), T.eq(k, x), T.eq(y, x), T.eq(x, y), T.eq(2 * w, 3 * x)]
        prs = lambda z: [(z['x'], k), (z['y'], z['x']), (2 * z['w'], 3 * z['x'])]    # noqa
        point = lambda W: {'x': W.real('k', 0.5, 2), 'y': W.real('k', 0.5, 2), 'w': W.real('k', 0.5, 2) * 1.5}  # noqa
    elif which == 'b':
        eqs = [T.eq(x + y, k), T.eq(2 * x + 2 * y, 2 * k), T.eq(x - y + w, 1), T.eq(x + y + w, 3), T.eq(-1 * x - y, -k)]
        prs = lambda z: [(z['x'] + z['y'], k), (z['x'] - z['y'] + z['w'], 1.0), (z['x'] + z['y'] + z['w'], 3.0)]    # noqa
        point = lambda W: {'x': k - 1.0, 'y': 1.0, 'w': 3.0 - k}    # noqa
        point = lambda W: {'x': (W.real('k', 0.5, 2) * 2 - 2) / 2, 'y': 1.0 + 0.0 * W.real('k', 0.5, 2), 'w': 3.0 - W.real('k', 0.5, 2)}    # noqa
    elif which == 'e':
        eqs = [T.eq(x, 1), T.eq(x, k), T.eq(y, x), T.eq(w, 2)]
        prs = lambda z: [(z['x'], 1.0), (z['x'], k), (z['y'], z['x']), (z['w'], 2.0)]    # noqa
        point = lambda W: {'x': 1.0, 'y': 1.0, 'w': 2.0}   # noqa
    else:
        # arrays, one of which is a transposed one
        X, Y = T.hstack((x, y)), T.vstack((y, w))
        eqs = [T.eq(X.T + Y, k), T.eq(x, T.matrix([[1.0]]) * w)] if which == 'c' else [T.eq(T.hstack((X, w)), 0.5), T.eq(x - y, 0)]
        prs = (lambda z: [(z['x'] + z['y'], k), (z['y'] + z['w'], k), (z['x'], z['w'])]) if which == 'c' else (lambda z: [(z[n], 0.5) for n in 'xyw'])   # noqa
        point = (lambda W: {'x': W.real('k', 0.5, 2) - 1, 'y': 1.0, 'w': W.real('k', 0.5, 2) - 1}) if which == 'c' else (lambda W: dict.fromkeys('xyw', 0.5))  # noqa
    d['prog'] = T.program(T.minimize(x + y + w), eqs)
    d['spec'] = lambda z: [c for a, b in prs(z) for c in ((a, b), (b, a))]
    d['tol'] = 1e-9
    d['point'] = point
    d['obj'] = lambda z: z['x'] + z['y'] + z['w']
    d['cands'] = lambda z: [d['obj'](z), k, z['x'], z['y'], z['w'], 2 * z['w'], z['x'] + z['y'], 2 * k, z['x'] - z['y'] + z['w'], z['x'] + z['y'] + z['w'], z['y'] + z['w'], 0.5]
    return d


def socp(V, T, f='norm2'):
    """Distance from an affine set."""
    x = T.variable(2, 1)
    P = [[1.0, 2.0], [0.0, -1.0], [3.0, 1.0]]
    b = [V.real('b0', 0.25, 2), V.real('b1', -2, 2) if f != 'norm2' else -1.0, 0.5]
    e = T.matrix(P) * x - T.matrix([[v] for v in b])
    t = T.variable()
    us = users(T, x, 'x')
    us['t'] = t
    d = dict(prog=T.program(T.minimize(t), [T.leq(getattr(T, f)(e) + 0.25 * t, 2 * t - 1)]), users=us, obj=lambda z: z['t'], range={'t': (-2, 40)})

    def res(z):
        return [P[i][0] * z['x00'] + P[i][1] * z['x10'] - b[i] for i in range(3)]

    def spec(z):
        u = 1.75 * z['t'] - 1.0
        r = res(z)
        if f == 'norm2':
            return [(0.0, u), (total([e * e for e in r]), u * u)]
        if f == 'norm_inf':
            return [(s * e, u) for e in r for s in (1, -1)]
        from .c02 import signs
        return [(total([s * e for s, e in zip(sg, r)]), u) for sg in signs(3)]
    d['spec'] = spec

    def cands(z):
        r = res(z)
        a = [absval(V, e) for e in r]
        return [z['t'], 2 * z['t'] - 1, 1.75 * z['t'] - 1, z['t'] / 4] + r + ([total(a)] + a if f != 'norm2' else [])
    d['cands'] = cands
    return d


def lmi(V, T, action='minimize'):
    """Linear matrix inequality with symbolic data."""
    X = T.variable(2, 2, 'symmetric')
    q = [V.real('q0', -2, 2), V.real('q1', -2, 2), V.real('q2', -2, 2)]
    Q = T.matrix([[q[0], q[1]], [q[1], q[2]]])
    S = T.matrix([[1.0, 2.0], [0.0, 1.0]])
    act = T.minimize if action == 'minimize' else T.maximize
    sg = 1 if action == 'minimize' else -1
    d = dict(prog=T.program(act(T.trace(X)), [T.belongs(sg * (S.T * X * S - Q), T.semidefinite_cone), T.belongs(X + 3 * T.eye(2), T.semidefinite_cone)]),
             users=users(T, X, 'x'), sign=sg)
    d['obj'] = lambda z: z['x00'] + z['x11']

    def m1(z):
        a, b, c = z['x00'], z['x01'], z['x11']
        # S' X S
        return [sg * (a - q[0]), sg * (2.0 * a + b - q[1]), sg * (4.0 * a + 4.0 * b + c - q[2])]

    def m2(z):
        return [z['x00'] + 3.0, z['x01'], z['x11'] + 3.0]

    def spec(z):
        return [c for m in (m1(z), m2(z)) for c in ((0.0, m[0]), (0.0, m[2]), (m[1] * m[1], m[0] * m[2]))]
    d['spec'] = spec
    d['tol'] = 1e-9
    d['cands'] = lambda z: [d['obj'](z)] + m1(z) + m2(z) + [z['x00'], z['x01'], z['x11']]
    return d


def unstructured(V, T):
    """Belonging to the cone of the positive semidefinite matrices, symmetric by definition, of a matrix with no structure."""
    X = T.variable(2, 2)
    k = V.real('k', 0.5, 2)
    d = dict(prog=T.program(T.minimize(X[1, 0]), [T.belongs(X, T.semidefinite_cone), T.leq(T.trace(X), k)]), users=users(T, X, 'x'))
    d['spec'] = lambda z: [(z['x01'], z['x10']), (z['x10'], z['x01']), (0.0, z['x00']), (0.0, z['x11']), (z['x10'] * z['x10'], z['x00'] * z['x11']),
                           (z['x00'] + z['x11'], k)]
    d['obj'] = lambda z: z['x10']
    d['tol'] = 1e-9
    d['cands'] = lambda z: [z['x10'], z['x00'], z['x11'], z['x01'], z['x00'] + z['x11'], k]
    return d


def mixed(V, T, which='a'):
    """Atoms within atoms and bounds on both sides."""
    x, y = T.variable(), T.variable()
    us = {'x': x, 'y': y}
    k = V.real('k', 0.5, 2)
    d = dict(users=us)
    if which == 'a':        # max(|x|, 2y+1) + k <= 4
        d['prog'] = T.program(T.minimize(x - y), [T.leq(T.max(T.vstack((T.abs(x), 2 * y + 1))) + k, 4)])
        d['spec'] = lambda z: [(z['x'], 4 - k), (-z['x'], 4 - k), (2 * z['y'] + 1, 4 - k)]
        d['obj'] = lambda z: z['x'] - z['y']
        d['cands'] = lambda z: [z['x'] - z['y'], 4 - k, absval(V, z['x']), 2 * z['y'] + 1, 4.0, z['x'], z['y'],
                                V.max(absval(V, z['x']), 2 * z['y'] + 1), V.max(absval(V, z['x']), 2 * z['y'] + 1) + k]
        d['range'] = {'': (-5, 5)}
    elif which == 'b':      # y <= sqrt(x), min(x, 3 - x) >= |y|/k
        d['prog'] = T.program(T.maximize(y - x), [T.geq(T.sqrt(x), y), T.leq((1 / k) * T.abs(y), T.min(T.hstack((x, 3 - x))))])
        d['sign'] = -1
        d['spec'] = lambda z: [(0.0, z['x']), V.any([z['y'] <= 0, z['y'] * z['y'] <= z['x']])] + [(s * z['y'] / k, u) for s in (1, -1) for u in (z['x'], 3 - z['x'])]
        d['obj'] = lambda z: z['y'] - z['x']
        d['tol'] = 1e-9

        def point(W):
            r = d['r'] = W.real('r', 0, 1.7)
            return {'x': r * r, 'y': W.real('x_y', -2, 2)}
        d['point'] = point
        d['cands'] = lambda z: [z['y'] - z['x'], z['x'], z['y'], d['r'], absval(V, z['y']), absval(V, z['y']) / k, 3 - z['x'], V.min(z['x'], 3 - z['x'])]
    elif which == 'c':      # objective made of atoms: 2 |x - k| + (y + x)^2 + 1
        d['prog'] = T.program(T.minimize(2 * T.abs(x - k) + T.square(y + x) + 1), [T.leq(x, 2), T.geq(y, k)])
        d['spec'] = lambda z: [(z['x'], 2.0), (k, z['y'])]

        def parts(z):
            u = z['y'] + z['x']
            return absval(V, z['x'] - k), u, u * u
        d['obj'] = lambda z: 2 * parts(z)[0] + parts(z)[2] + 1
        d['cands'] = lambda z: [d['obj'](z)] + list(parts(z)) + [z['x'] - k, 2 * parts(z)[0]]
    elif which == 'd':      # concave objective and a negative multiple of a convex function: maximize -3 x^2 + min(x, y), equality
        d['prog'] = T.program(T.maximize(-3 * T.square(x) + T.min(T.hstack((x, y)))), [T.eq(x + k * y, 1)])
        d['sign'] = -1
        d['spec'] = lambda z: [(z['x'] + k * z['y'], 1.0), (1.0, z['x'] + k * z['y'])]

        def point(W):
            y = W.real('x_y', -1, 1)
            return {'x': 1 - W.real('k', 0.5, 2) * y, 'y': y}
        d['point'] = point
        d['obj'] = lambda z: -3 * z['x'] * z['x'] + V.min(z['x'], z['y'])
        d['cands'] = lambda z: [d['obj'](z), z['x'] * z['x'], V.min(z['x'], z['y']), z['x'], -3 * z['x'] * z['x'], z['y'], 1.0]
    elif which == 'e':      # the same expression in several constraints
        e = T.abs(x)
        d['prog'] = T.program(T.minimize(y), [T.leq(e, y), T.leq(e, k), T.leq(e + e, 3)])
        d['spec'] = lambda z: [(s * z['x'], u) for s in (1, -1) for u in (z['y'], k, 1.5)]
        d['obj'] = lambda z: z['y']
        d['cands'] = lambda z: [z['y'], absval(V, z['x']), z['x'], k, 2 * absval(V, z['x'])]
    return d


def functions(V, T, which='twice'):
    """Programs used as functions."""
    x, y, t = T.variable(), T.variable(), T.variable()
    k = V.real('k', 0.5, 2)
    us = {'x': x, 'y': y, 't': t}
    d = dict(users=us, obj=lambda z: z['t'], range={'t': (-4, 10)})
    if which in ('twice', 'param'):
        # p(z) = min { v : v >= 2 z + k, v >= -z }
        z, v = T.variable(), T.variable()
        kk = param(T, k) if which == 'param' else k
        p = T.program(T.minimize(v), [T.geq(v, 2 * z + kk), T.geq(v, -z)], [z])
        d['prog'] = T.program(T.minimize(t), [T.leq(p(x) + p(y), t)])

        def val(u):
            return V.max(2 * u + k, -u)
        d['spec'] = lambda q: [(val(q['x']) + val(q['y']), q['t'])]
        d['cands'] = lambda q: [q['t'], val(q['x']), val(q['y']), val(q['x']) + val(q['y']), 2 * q['x'], 2 * q['y'], 2 * q['x'] + k, 2 * q['y'] + k]
    elif which == 'formalparam':
        # a parameter as an argument: p(z, a) = min { v : v >= a z }, called with a number and with another parameter
        z, v, a = T.variable(), T.variable(), T.parameter()
        p = T.program(T.minimize(v), [T.geq(v, a * z), T.geq(v, -1)], [z, a])
        b = param(T, k)
        d['prog'] = T.program(T.minimize(t), [T.leq(p(x, 2.0), t), T.leq(p(y, b), t)])
        d['spec'] = lambda q: [(2 * q['x'], q['t']), (-1.0, q['t']), (k * q['y'], q['t'])]
        d['cands'] = lambda q: [q['t'], 2 * q['x'], k * q['y'], V.max(2 * q['x'], -1.0), V.max(k * q['y'], -1.0)]
    elif which == 'capture':
        # the variable that the function minimizes over is used by the program too
        z, v = T.variable(), T.variable()
        p = T.program(T.minimize(v), [T.geq(v, T.abs(z) + k)], [z])
        us = d['users'] = {'x': x, 't': t, 'v': v}
        d['prog'] = T.program(T.minimize(t), [T.leq(p(x), t), T.leq(v, x - 3), T.leq(v, t)])
        d['spec'] = lambda q: [(q['x'] + k, q['t']), (k - q['x'], q['t']), (q['v'], q['x'] - 3.0), (q['v'], q['t'])]
        d['cands'] = lambda q: [q['t'], absval(V, q['x']) + k, absval(V, q['x']), q['x'], q['x'] - 3, absval(V, q['x']) + k]
    elif which == 'maximize':
        # a concave function: max { v : v <= z, v <= k - w }
        z, w, v = T.variable(), T.variable(), T.variable()
        p = T.program(T.maximize(v), [T.leq(v, z), T.leq(v, k - w)], [z, w])
        d['prog'] = T.program(T.maximize(t), [T.geq(p(x, y) - 1, t)])
        d['sign'] = -1
        d['spec'] = lambda q: [(q['t'] + 1, q['x']), (q['t'] + 1, k - q['y'])]
        d['cands'] = lambda q: [q['t'], V.min(q['x'], k - q['y']), q['x'], q['y'], k - q['y'], V.min(q['x'], k - q['y']) - 1, q['t'] + 1]
    elif which == 'array':
        # an array as argument
        z, v = T.variable(2, 1), T.variable()
        p = T.program(T.minimize(v + k), [T.geq(v, z[0, 0] - z[1, 0]), T.geq(v, 2 * z[1, 0])], [z])
        d['prog'] = T.program(T.minimize(t), [T.leq(3 * p(T.vstack((y, x))), t)])

        def val(q):
            return 3 * (V.max(q['y'] - q['x'], 2 * q['x']) + k)
        d['spec'] = lambda q: [(val(q), q['t'])]
        d['cands'] = lambda q: [q['t'], val(q), V.max(q['y'] - q['x'], 2 * q['x']), V.max(q['y'] - q['x'], 2 * q['x']) + k, q['y'] - q['x'], 2 * q['x']]
    elif which == 'nested':
        # a function used within another
        z, v = T.variable(), T.variable()
        p = T.program(T.minimize(v), [T.geq(v, 2 * z + k), T.geq(v, 0)], [z])
        w, u = T.variable(), T.variable()
        r = T.program(T.minimize(u), [T.geq(u, p(w) + 1), T.geq(u, p(p(w)))], [w])
        us = d['users'] = {'x': x, 't': t}
        d['prog'] = T.program(T.minimize(t), [T.leq(r(x), t)])

        def pv(s):
            return V.max(2 * s + k, 0.0)
        d['spec'] = lambda q: [(pv(q['x']) + 1, q['t']), (pv(pv(q['x'])), q['t'])]
        d['cands'] = lambda q: [q['t'], pv(q['x']), pv(pv(q['x'])), pv(q['x']) + 1, 2 * pv(q['x']) + k, 2 * q['x'], 2 * q['x'] + k, 2 * pv(q['x'])]
    return d


# ---------------------------------------------------------------- results

def run(V, build, status='optimal', value=0.25, **kw):
    import pydsm.cvxpy_tdr as T
    env = conic.Cone(V)
    env.status = status
    env.value = value
    with patched(*env.patches()):
        p, vs = build(T)
        return env, p, vs, p.solve(quiet=True, return_status=True, **kw)


def status(V, how, action):
    """What is returned for each status of the solver."""
    obj = V.real('v', -5, 5)

    def build(T):
        x = T.variable()
        return T.program(getattr(T, action)(x), [T.geq(x, 1), T.leq(x, 3)]), [x]
    env, p, vs, (val, ok) = run(V, build, how, None if 'infeasible' in how else obj)
    s = 1 if action == 'minimize' else -1
    if how == 'primal infeasible':
        V.check(bool(val == s * np.inf) and ok is True, 'infeasible programs have an infinite value')
    elif how == 'dual infeasible':
        V.check(bool(val == -s * np.inf) and ok is True, 'unbounded programs have an infinite value')
    else:
        V.eq(val, s * obj, 'the optimal value', 1e-9)
        V.check(ok is (how == 'optimal'), 'the answer is said to be valid if the solver found it')
    v = object.__getattribute__(vs[0], 'value')
    if how != 'primal infeasible':
        V.check(v == env.xval[0], 'the variables get the values that the solver found')


def only_value(V):
    """Without return_status the value alone is returned; programs can be solved again with other values of the parameters."""
    import pydsm.cvxpy_tdr as T
    obj = V.real('v', -5, 5)
    a0, a1 = V.real('a0', -2, 2), V.real('a1', -2, 2)
    env = conic.Cone(V)
    env.value = obj
    with patched(*env.patches()):
        x = T.variable()
        a = T.parameter()
        p = T.program(T.minimize(x), [T.geq(x, a)])
        for v in (a0, a1):
            a.value = v
            r = p.solve(quiet=True)
            V.eq(r, obj, 'the optimal value', 1e-9)
            got = [g for g in env.G], env.h
            lin = got[0][0][0]
            V.eq(got[1][0] * -1.0 / (-lin if not isinstance(lin, (int, float)) else -lin), v, 'the parameter has the value of this time', 1e-9)


def constant(V, action):
    """Programs whose objective does not depend on the variables."""
    k = V.real('k', -5, 5)

    def build(T):
        x = T.variable()
        kk = T.parameter()
        kk.value = k
        return T.program(getattr(T, action)(kk if action == 'minimize' else kk + 1), [T.leq(x, 1)]), [x]
    env, p, vs, (val, ok) = run(V, build, 'optimal', 0.0)
    V.eq(val, k if action == 'minimize' else k + 1, 'the value of a constant objective', 1e-9)


def options(V):
    """The options of the program reach the solver."""
    o = {'maxiters': V.int('maxiters', 1, 200), 'abstol': V.real('abstol', 1e-9, 1), 'reltol': V.real('reltol', 1e-9, 1), 'feastol': V.real('feastol', 1e-9, 1)}

    def build(T):
        x = T.variable()
        p = T.program(T.minimize(x), [T.geq(x, 1)])
        env2['q'] = p
        q = T.program(T.minimize(x), [T.geq(x, 1)], options=dict(p.options, maxiters=o['maxiters']))
        q.options.update({k: v for k, v in o.items() if k != 'maxiters'})
        return q, [x]
    env2 = {}
    env, p, vs, r = run(V, build)
    for k, v in o.items():
        V.eq(env.kw[k], v, 'option ' + k, 1e-12)
    V.check(env.kw['show_progress'] is False, 'nothing is printed if not requested')
    with patched(*env.patches()):
        import pydsm.cvxpy_tdr as T
        x = T.variable()
        T.program(T.minimize(x), [T.geq(x, 1)]).options['maxiters'] = 7
        env2['p'] = T.program(T.minimize(x), [T.geq(x, 1)])
    for k, v in {'maxiters': 100, 'abstol': 1e-7, 'reltol': 1e-6, 'feastol': 1e-6}.items():
        V.check(env2['p'].options[k] == v and env2['q'].options[k] == v, 'the options of a program are its own')


def call(V, action):
    """Programs called with numbers are solved for those values."""
    import pydsm.cvxpy_tdr as T
    obj, a, b = V.real('v', -5, 5), V.real('a', -2, 2), V.real('b', -2, 2)
    for status in ('optimal', 'unknown', 'primal infeasible'):
        env = conic.Cone(V)
        env.value = obj if status != 'primal infeasible' else None
        env.status = status
        with patched(*env.patches()):
            x, y, t = T.variable(), T.variable(), T.variable()
            if action == 'minimize':
                p = T.program(T.minimize(t), [T.geq(t, 2 * x + y)], [x, y])
            else:
                p = T.program(T.maximize(t), [T.leq(t, 2 * x + y)], [x, y])
            s = 1 if action == 'minimize' else -1
            if status == 'unknown':
                V.check(V.call(lambda: p(a, b), ValueError)[0] == 'exc', 'unknown values are not returned')
                continue
            r = p(a, b)
            if status == 'optimal':
                V.eq(r, s * obj, 'the value of the program', 1e-9)
                V.eq(env.h[0], -s * (2 * a + b), 'the arguments take the place of the variables', 1e-9)
            else:
                V.check(bool(r == s * np.inf), 'infeasible programs have an infinite value')


def refused(V, what):
    """Programs that cannot be solved are refused before anything reaches the solver."""
    import pydsm.cvxpy_tdr as T
    env = conic.Cone(V)
    k = V.real('k', 0.5, 3)
    with patched(*env.patches()):
        x, y = T.variable(), T.variable()
        a = T.parameter()
        ps = {'nan': lambda: T.program(T.minimize(x), [T.geq(x, a)]),
              'nanobj': lambda: T.program(T.minimize(x + a), [T.geq(x, 1)]),
              'concave': lambda: T.program(T.minimize(T.sqrt(x) * k), [T.geq(x, 1)]),
              'convexmax': lambda: T.program(T.maximize(k * T.abs(x)), [T.leq(x, 1)]),
              'negative': lambda: T.program(T.minimize(-k * T.square(x)), [T.leq(x, 1)]),
              'geqconvex': lambda: T.program(T.minimize(x), [T.geq(T.abs(x), k)]),
              'leqconcave': lambda: T.program(T.minimize(x), [T.leq(T.sqrt(x), k)]),
              'equality': lambda: T.program(T.minimize(x), [T.eq(T.abs(x), k)]),
              'difference': lambda: T.program(T.minimize(x), [T.leq(T.abs(x) - k * T.square(y), 1)]),
              'nested': lambda: T.program(T.minimize(x), [T.leq(T.abs(T.square(x) - k * T.abs(x)), 1)]),
              'sets': lambda: T.program(T.minimize(x), [T.belongs(T.vstack((T.abs(x), y)), T.second_order_cone)])}
        V.check(V.call(lambda: ps[what]().solve(quiet=True), ValueError)[0] == 'exc', 'refused')
    V.check(env.n == 0, 'nothing reaches the solver')


def instances(tier):
    out = []
    thorough = tier == 'thorough'

    def add(model, sides=('sound', 'complete'), **p):
        nm = model.__name__ + ''.join('-%s' % (v,) for k, v in sorted(p.items()))
        for s in sides:
            body = graph.complete if s.startswith('complete') else graph.sound
            out.append(graph.instance(Instance, '%s-%s' % (nm, s), body, dict(p, model=model), timeout=60 if thorough else 20,
                                      bounds='every value of the unknowns and of the data within [-2,2] or as stated by the model'))
    for h in ('constants', 'parameters'):
        for a in ('minimize', 'maximize'):
            add(lp, how=h, action=a)
    for a in ('minimize', 'maximize'):
        add(arrays, action=a)
        add(lmi, action=a)
    add(unstructured, sides=('sound',))
    for w in 'abcd':
        add(equalities, which=w)
    add(equalities, sides=('sound',), which='e')
    for f in ('norm2', 'norm1', 'norm_inf'):
        add(socp, f=f)
    for w in 'abcde':
        add(mixed, which=w)
    for w in ('twice', 'param', 'formalparam', 'capture', 'maximize', 'array', 'nested'):
        add(functions, which=w)
    kw = dict(bounds='every value of the data')
    for a in ('minimize', 'maximize'):
        for h in ('optimal', 'unknown', 'primal infeasible', 'dual infeasible'):
            out.append(graph.instance(Instance, 'status-%s-%s' % (h.replace(' ', ''), a), status, dict(how=h, action=a), **kw))
        out.append(graph.instance(Instance, 'constant-' + a, constant, dict(action=a), **kw))
        out.append(graph.instance(Instance, 'call-' + a, call, dict(action=a), **kw))
    out.append(graph.instance(Instance, 'again', only_value, {}, **kw))
    out.append(graph.instance(Instance, 'options', options, {}, **kw))
    for w in ('nan', 'nanobj', 'concave', 'convexmax', 'negative', 'geqconvex', 'leqconcave', 'equality', 'difference', 'nested', 'sets'):
        out.append(graph.instance(Instance, 'refused-' + w, refused, dict(what=w), **kw))
    return out
