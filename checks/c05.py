# -*- coding: utf-8 -*-
"""Rules of disciplined convex programming of cvxpy_tdr: what is said to be convex is convex, what the rules allow is allowed."""
from sx.run import Instance
from . import conic
from .dsgn import patched

ASSUMPTIONS = ('the functions of the language are those they are named after (C02)',)


def absval(V, x):
    return V.max(x, -x)


def atoms(V, T):
    """name -> (expression, function of the values of x and y, convex, concave)"""
    x, y = T.variable(), T.variable()
    k, h = V.real('k', -2, 2), V.real('h', -2, 2)
    F, O = False, True
    pos, neg = k >= 0, k <= 0
    hpos, hneg = h >= 0, h <= 0
    out = {
        'variable': lambda: (x, lambda a, b: a, O, O),
        'affine': lambda: (k * x + h * y - 2, lambda a, b: k * a + h * b - 2, O, O),
        'square': lambda: (T.square(x), lambda a, b: a * a, O, F),
        'square-affine': lambda: (T.square(k * x + y + 1), lambda a, b: (k * a + b + 1) * (k * a + b + 1), O, F),
        'minus-square': lambda: (-T.square(x), lambda a, b: -a * a, F, O),
        'abs': lambda: (T.abs(x - y), lambda a, b: absval(V, a - b), O, F),
        'max': lambda: (T.max(T.vstack((x, y, 1))), lambda a, b: V.max(a, V.max(b, 1.0)), O, F),
        'min': lambda: (T.min(T.vstack((x, k * y))), lambda a, b: V.min(a, k * b), F, O),
        'norm1': lambda: (T.norm1(T.vstack((x, y - k))), lambda a, b: absval(V, a) + absval(V, b - k), O, F),
        'norm_inf': lambda: (T.norm_inf(T.vstack((x, 2 * y))), lambda a, b: V.max(absval(V, a), absval(V, 2 * b)), O, F),
        'times-abs': lambda: (k * T.abs(x), lambda a, b: k * absval(V, a), pos, neg),
        'times-square': lambda: (T.square(x) * k, lambda a, b: k * a * a, pos, neg),
        'times-min': lambda: (k * T.min(T.hstack((x, y))), lambda a, b: k * V.min(a, b), neg, pos),
        'sum': lambda: (k * T.abs(x) + h * T.square(y) + x, lambda a, b: k * absval(V, a) + h * b * b + a, pos & hpos, neg & hneg),
        'difference': lambda: (T.square(x) - T.square(y), lambda a, b: a * a - b * b, F, F),
        'distributed': lambda: (k * (T.abs(x) + h * T.abs(y)), lambda a, b: k * (absval(V, a) + h * absval(V, b)),
                                (k == 0) | (pos & hpos), (k == 0) | (neg & hpos)),
        'twice-times': lambda: (h * (k * T.abs(x)), lambda a, b: h * (k * absval(V, a)), h * k >= 0, h * k <= 0),
        'mixed-sum': lambda: (T.abs(x) + T.min(T.hstack((x, y))), lambda a, b: absval(V, a) + V.min(a, b), F, F),
        'max-convex': lambda: (T.max(T.vstack((T.square(x), y, T.abs(x - y)))), lambda a, b: V.max(a * a, V.max(b, absval(V, a - b))), O, F),
        'max-concave': lambda: (T.max(T.vstack((-T.square(x), y))), lambda a, b: V.max(-a * a, b), F, F),
        'min-concave': lambda: (T.min(T.vstack((-T.abs(x), y + 1))), lambda a, b: V.min(-absval(V, a), b + 1), F, O),
        'min-convex': lambda: (T.min(T.vstack((T.abs(x), y + 1))), lambda a, b: V.min(absval(V, a), b + 1), F, F),
        'square-min': lambda: (T.square(T.min(T.hstack((x, y)))), lambda a, b: V.min(a, b) * V.min(a, b), F, F),
        'abs-square': lambda: (T.abs(T.square(x) - 1), lambda a, b: absval(V, a * a - 1), F, F),
        'square_pos-like': lambda: (prog1(V, T)(T.abs(x) + y), lambda a, b: sq(V.max(absval(V, a) + b, 0.0)), O, F),
        'square_pos-concave': lambda: (prog1(V, T)(T.min(T.hstack((x, y)))), lambda a, b: sq(V.max(V.min(a, b), 0.0)), F, F),
        'minus-square_pos': lambda: (-1.5 * prog1(V, T)(x), lambda a, b: -1.5 * sq(V.max(a, 0.0)), F, O),
        'hypo': lambda: (prog2(V, T, k)(x, y), lambda a, b: V.min(a, b + k), F, O),
        'hypo-concave': lambda: (prog2(V, T, k)(-T.abs(x), y), lambda a, b: V.min(-absval(V, a), b + k), F, O),
        'hypo-convex': lambda: (prog2(V, T, k)(T.abs(x), y), lambda a, b: V.min(absval(V, a), b + k), F, F),
        'quad_over_lin': lambda: (T.quad_over_lin(x, y + 3), lambda a, b: a * a / (b + 3), O, F),
        'parametric': lambda: (T.parameter() * x + y, None, O, O),
    }
    for s in ('nonnegative', 'nonpositive', None):
        for t in ('nonnegative', 'nonpositive', None):
            out['product-%s-%s' % (s, t)] = lambda s=s, t=t: products(V, T, x, s, t, 'product')
        out['shifted-%s' % s] = lambda s=s: products(V, T, x, s, None, 'shifted')
        out['times-%s' % s] = lambda s=s: products(V, T, x, s, None, 'times')
        out['negated-%s' % s] = lambda s=s: products(V, T, x, s, None, 'negated')
        out['sums-%s' % s] = lambda s=s: products(V, T, x, s, 'nonnegative', 'sums')
        out['scaled-%s' % s] = lambda s=s: products(V, T, x, s, None, 'scaled')
    return out


def sq(x):
    return x * x


def prog1(V, T):
    """max(z, 0)^2"""
    z, v, t = T.variable(), T.variable(), T.variable()
    return T.program(T.minimize(t), [T.leq(T.square(v), t), T.geq(v, z), T.geq(v, 0)], [z])


def prog2(V, T, k):
    """min(u, w + k)"""
    u, w, t = T.variable(), T.variable(), T.variable()
    return T.program(T.maximize(t), [T.leq(t, u), T.leq(t - k, w)], [u, w])


def products(V, T, x, s, t, how):
    """|x| times something made of parameters with signs."""
    p, q = T.parameter(1, 1, s), T.parameter(1, 1, t)
    k = V.real('c', -2, 2)
    rng = {'nonnegative': (0, 2), 'nonpositive': (-2, 0), None: (-2, 2)}
    vp, vq = V.real('p', *rng[s]), V.real('q', *rng[t])
    sg = {'nonnegative': 1, 'nonpositive': -1, None: 0}
    a = T.abs(x)
    if how == 'product':
        m = sg[s] * sg[t]
        return (p * q) * a, (lambda u, w: vp * vq * absval(V, u)), m > 0, m < 0
    if how == 'times':
        return a * p, (lambda u, w: vp * absval(V, u)), sg[s] > 0, sg[s] < 0
    if how == 'negated':
        return (-p) * a, (lambda u, w: -vp * absval(V, u)), sg[s] < 0, sg[s] > 0
    if how == 'sums':
        return (p + q) * a, (lambda u, w: (vp + vq) * absval(V, u)), sg[s] > 0, False
    if how == 'scaled':
        m = k * sg[s]
        if s is None:
            return (k * p) * a, (lambda u, w: k * vp * absval(V, u)), (k == 0), (k == 0)
        return (k * p) * a, (lambda u, w: k * vp * absval(V, u)), m >= 0, m <= 0
    return (p + k) * a, (lambda u, w: (vp + k) * absval(V, u)), (k >= 0) if sg[s] > 0 else False, (k <= 0) if sg[s] < 0 else False


def world(V, body):
    import pydsm.cvxpy_tdr as T
    env = conic.Cone(V)
    with patched(*env.patches()):
        body(T, env)


def verdicts(V, name):
    def body(T, env):
        e, f, cvx, ccv = atoms(V, T)[name]()
        if conic.isnum(e):
            V.check(V.all([cvx, ccv]), 'numbers are both convex and concave')
            return
        got = [bool(e.is_convex()), bool(e.is_concave())]
        V.check(V.same(got[0], cvx), 'convex according to the rules')
        V.check(V.same(got[1], ccv), 'concave according to the rules')
        V.check(bool(e.is_dcp()) == (got[0] or got[1]), 'within the rules if it is convex or concave')
        if e.is_affine():
            V.check(all(got), 'affine expressions are both convex and concave')
        if f is None:
            return
        a, b = (V.real('x1', -2, 2), V.real('y1', -2, 2)), (V.real('x2', -2, 2), V.real('y2', -2, 2))
        m = f((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
        if got[0]:
            V.le(m, (f(*a) + f(*b)) / 2, 'what is said to be convex is', 1e-9)
        if got[1]:
            V.le((f(*a) + f(*b)) / 2, m, 'what is said to be concave is', 1e-9)
    world(V, body)


PICK = {'affine': (1, 1), 'square': (1, 0), 'minus-square': (0, 1), 'difference': (0, 0), 'constant': (1, 1), 'parametric': (1, 1), 'max': (1, 0), 'min': (0, 1)}


def constraints(V, left, right):
    """Constraints and programs made of expressions of every curvature."""
    def body(T, env):
        at = atoms(V, T)

        def get(n):
            return V.real('z', -2, 2) if n == 'constant' else at[n]()[0]
        l, r = get(left), get(right)
        (lc, lv), (rc, rv) = PICK[left], PICK[right]
        x, y = T.variable(), T.variable()
        ok = {'leq': lc and rv, 'geq': lv and rc, 'eq': lc and lv and rc and rv}
        for op in ('leq', 'geq', 'eq'):
            c = getattr(T, op)(l, r)
            V.check(bool(c.is_dcp()) == bool(ok[op]), '%s %s %s' % (left, op, right))
            V.check(bool(c.is_affine()) == bool(lc and lv and rc and rv), '%s %s %s is affine' % (left, op, right))
            if 'parametric' in (left, right):
                continue
            n = env.n
            p = T.program(T.minimize(x), [T.geq(x, 0), c])
            V.check(bool(p.is_dcp()) == bool(ok[op]), 'program with %s %s %s' % (left, op, right))
            if not ok[op]:
                V.check(V.call(lambda: p.solve(quiet=True), ValueError)[0] == 'exc' and env.n == n, 'programs out of the rules are not solved')
        if right == 'affine':
            for act, good in (('minimize', lc), ('maximize', lv)):
                if conic.isnum(l):
                    continue
                n = env.n
                p = T.program(getattr(T, act)(l), [T.geq(x, 0), T.leq(y, 1)])
                V.check(bool(p.is_dcp()) == bool(good), '%s %s' % (act, left))
                if not good:
                    V.check(V.call(lambda: p.solve(quiet=True), ValueError)[0] == 'exc' and env.n == n, 'programs out of the rules are not solved')
            X = T.vstack((l, y))
            V.check(bool(T.belongs(X, T.second_order_cone).is_dcp()) == bool(lc and lv), 'membership of %s' % left)
    world(V, body)


def instances(tier):
    names = ['variable', 'affine', 'square', 'square-affine', 'minus-square', 'abs', 'max', 'min', 'norm1', 'norm_inf', 'times-abs', 'times-square', 'times-min',
             'sum', 'difference', 'distributed', 'twice-times', 'mixed-sum', 'max-convex', 'max-concave', 'min-concave', 'min-convex', 'square-min', 'abs-square',
             'square_pos-like', 'square_pos-concave', 'minus-square_pos', 'hypo', 'hypo-concave', 'hypo-convex', 'quad_over_lin', 'parametric']
    for s in ('nonnegative', 'nonpositive', None):
        names += ['product-%s-%s' % (s, t) for t in ('nonnegative', 'nonpositive', None)]
        names += ['%s-%s' % (h, s) for h in ('shifted', 'times', 'negated', 'sums', 'scaled')]
    kw = dict(skip=('pydsm.cvxpy_tdr',), timeout=60 if tier == 'thorough' else 20)
    out = [Instance('curvature-' + n, verdicts, dict(name=n), bounds='coefficients, parameters and points within [-2,2]; midpoints of all pairs of points', **kw)
           for n in names]
    for l in PICK:
        for r in PICK:
            out.append(Instance('%s-with-%s' % (l, r), constraints, dict(left=l, right=r), bounds='coefficients within [-2,2]', **kw))
    return out
