# -*- coding: utf-8 -*-
"""Nonlinear constraints that cvxpy_tdr hands to the solver as functions with their derivatives."""
import sys
import types
from sx.run import Instance
from . import conic
from .c01 import param
from .dsgn import patched

ASSUMPTIONS = ('cvxopt is a stand-in that records the function it is given, which is then called at every point',
               'the normal distribution is a stand-in: its density and cumulative distribution are any positive numbers',
               'exp and log are the same function in the code and in the reference')


class Norm:
    """Density and distribution at one point, whatever they are."""

    def __init__(self, V):
        self.V = V
        self.at = None

    def _get(self, v, name):
        if self.at is None:
            self.at = v
            self.c, self.d = self.V.real('cdf', 0.05, 1), self.V.real('pdf', 0.01, 0.4)
        self.V.eq(v, self.at, 'argument of the normal distribution', 1e-9)
        return self.c if name == 'cdf' else self.d

    def cdf(self, v):
        return self._get(v, 'cdf')

    def pdf(self, v):
        return self._get(v, 'pdf')

    def logcdf(self, v):
        return self.V.ln(self.cdf(v))

    def logpdf(self, v):
        return self.V.ln(self.pdf(v))


def exp_cone(V, s, nm):
    """y exp(x/y) - z, its derivatives and domain."""
    x, y, z = s
    e = V.exp(x / y)
    t = x / y
    return y * e - z, [e, e * (1 - t), -1.0], {(0, 0): e / y, (0, 1): -e * t / y, (1, 1): e * t * t / y}


def kl_div_epi(V, s, nm):
    n = (len(s) - 1) // 2
    f, g, h = 0.0, [0.0] * len(s), {}
    for i in range(n):
        u, v = s[i], s[n + i]
        L = V.ln(u / v)
        f = f + u * L - u + v
        g[i] = L
        g[n + i] = 1 - u / v
        h[i, i] = 1 / u
        h[i, n + i] = -1 / v
        h[n + i, n + i] = u / (v * v)
    g[-1] = -1.0
    return f - s[-1], g, h


def power_pos_epi(p):
    def ref(V, s, nm):
        z, t = s

        def pw(x, q):
            return V.sqrt(x) ** int(2 * q) if 2 * q == int(2 * q) and q != int(q) and q > 0 else 1 / V.sqrt(x) if q == -0.5 else x ** int(q) if q else 1.0
        return pw(z, p) - t, [p * pw(z, p - 1), -1.0], {(0, 0): p * (p - 1) * pw(z, p - 2)}
    return ref


def log_norm_cdf_hypo(V, s, nm):
    v, y = s
    r = nm.pdf(v) / nm.cdf(v)
    return y - V.ln(nm.cdf(v)), [-r, 1.0], {(0, 0): r * r + v * r}


def sets(T, which):
    if which.startswith('power'):
        p = float(which[5:])
        return T.power_pos_epi(p), power_pos_epi(p), 'power'
    return getattr(T, which), globals()[which], which


# slots that must be positive
DOMAIN = {'exp_cone': lambda s: [s[1]], 'kl_div_epi': lambda s: s[:-1], 'power': lambda s: [s[0]], 'log_norm_cdf_hypo': lambda s: []}


def functions(V, cons, point='inside'):
    """cons: (set, entries); entries are names of unknowns, 'k..' numbers, 'p..' parameters, 'a..' affine expressions."""
    import pydsm.cvxpy_tdr as T
    env = conic.Cone(V)
    nm = Norm(V)
    ps = env.patches()
    m = sys.modules['pydsm.cvxpy_tdr.sets.log_norm_cdf_hypo']
    if hasattr(m, 'norm'):
        ps.append((m, 'norm', nm))
    with patched(*ps):
        us, vals = {}, {}

        def entry(e):
            if e in us:
                return us[e]
            if e[0] == 'k':
                vals[e] = us[e] = V.real(e, -2 if point == 'domain' else 0.5, 2)
            elif e[0] == 'p':
                vals[e] = V.real(e, -2 if point == 'domain' else 0.5, 2)
                us[e] = param(T, vals[e])
            else:
                us[e] = T.variable()
            return us[e]
        cs = []
        built = []
        for name, ent in cons:
            S, ref, kind = sets(T, name)
            cs.append(T.belongs(T.vstack([entry(e) for e in ent]), S))
            built.append((ent, ref, kind))
        names = sorted(e for e in us if e not in vals)
        T.program(T.minimize(us[names[0]]), cs).solve(quiet=True)
        V.check(env.n == 1 and env.F is not None, 'there is a function')
        F, n = env.F, len(env.c)
        where = {e: int(object.__getattribute__(us[e], 'value') - 0.5) for e in names}
        V.check(len(set(where.values())) == len(names) == n, 'the unknowns are those of the user')
        index = {k: e for e, k in where.items()}
        m_, x0 = F()
        V.check(m_ == len(cons), 'number of functions')
        V.check(tuple(x0.size) == (n, 1), 'size of the starting point')
        if point == 'start':        # the solver has to be able to start
            st = F(x0)
            V.check(st[0] is not None, 'the starting point is in the domain')
            return
        at = {}
        for e in names:
            at[e] = V.real('x_' + e, 0.25, 2) if point == 'inside' else V.real('x_' + e, -2, 2)
        at.update(vals)
        X = conic.Dense([[at[index[k]]] for k in range(n)])
        got = F(X)
        pos = [q for (ent, ref, kind) in built for q in DOMAIN[kind]([at[e] for e in ent])]
        if got[0] is None:
            V.check(got[1] is None, 'outside of the domain')
            V.check(V.any([q <= 0 for q in pos]) if pos else False, 'only points outside of the domain are refused')
            return
        V.check(V.all([q >= 0 for q in pos]) if pos else True, 'points outside of the domain are refused')
        if point != 'inside':
            return
        f, Df = got
        w = [V.real('w%d' % i, -2, 2) for i in range(len(cons))]
        f2, Df2, H = F(X, conic.Dense([[e] for e in w]))
        V.check(tuple(H.size) == (n, n) and tuple(Df.size) == (len(cons), n) and tuple(f.size) == (len(cons), 1), 'sizes')
        # which function is which, from the bound (last entry, if it is an unknown of that set only)
        order = [None] * len(cons)
        if len(cons) == 1:
            order = [0]
        else:
            for j, (ent, ref, kind) in enumerate(built):
                k = where[ent[-1]]
                rows = [i for i in range(len(cons)) if not conic.iszero(Df[i, k])]
                V.check(len(rows) == 1 and order[rows[0]] is None, 'each bound is in one function')
                order[rows[0]] = j
        total = {}
        for i in range(len(cons)):
            ent, ref, kind = built[order[i]]
            v, g, h = ref(V, [at[e] for e in ent], nm)
            V.eq(f[i], v, 'value of function %d' % i, 1e-9)
            V.eq(f2[i], v, 'value of function %d (with Hessian)' % i, 1e-9)
            grad = [0.0] * n
            for s, e in enumerate(ent):
                if e in where:
                    grad[where[e]] = grad[where[e]] + g[s]
            for k in range(n):
                V.eq(Df[i, k], grad[k], 'gradient of function %d: %s' % (i, index[k]), 1e-9)
                V.eq(Df2[i, k], grad[k], 'gradient of function %d (with Hessian): %s' % (i, index[k]), 1e-9)
            for (s, t), q in h.items():
                for a, b in ((s, t),) if s == t else ((s, t), (t, s)):
                    if ent[a] in where and ent[b] in where:
                        k = where[ent[a]], where[ent[b]]
                        total[k] = total.get(k, 0.0) + w[i] * q
        for a in range(n):
            for b in range(a + 1):      # the solver looks at the lower triangle
                V.eq(H[a, b], total.get((a, b), 0.0), 'Hessian: %s, %s' % (index[a], index[b]), 1e-9)


CASES = [('exp_cone', e) for e in (('x', 'y', 'z'), ('x', 'x', 'z'), ('x', 'y', 'x'), ('x', 'y', 'y'), ('x', 'x', 'x'), ('x', 'k1', 'z'), ('k1', 'y', 'z'),
                                   ('x', 'y', 'k1'), ('k1', 'k2', 'z'), ('k1', 'y', 'y'), ('x', 'p1', 'z'), ('p1', 'y', 'p2'), ('x', 'k1', 'x'))]
CASES += [('kl_div_epi', e) for e in (('u', 'v', 't'), ('u', 'u', 't'), ('u', 'v', 'u'), ('u', 'v', 'v'), ('u', 'k1', 't'), ('k1', 'v', 't'), ('u', 'v', 'k1'),
                                      ('p1', 'v', 'v'), ('u', 'w', 'v', 'y', 't'), ('u', 'u', 'v', 'v', 't'), ('u', 'w', 'w', 'u', 't'),
                                      ('u', 'k1', 'k2', 'v', 't'), ('u', 'w', 'v', 'v', 'u'))]
CASES += [('power' + p, e) for p in ('2', '3', '4', '1.5', '2.5') for e in (('z', 't'), ('z', 'z'), ('k1', 't'), ('z', 'k1'), ('p1', 't'), ('z', 'p1'))]
CASES += [('log_norm_cdf_hypo', e) for e in (('v', 'y'), ('v', 'v'), ('k1', 'y'), ('v', 'k1'), ('p1', 'y'), ('v', 'p1'))]
SEVERAL = [(('exp_cone', ('x', 'y', 'z')), ('kl_div_epi', ('x', 'y', 't'))), (('exp_cone', ('x', 'y', 'z')), ('exp_cone', ('y', 'x', 't'))),
           (('power3', ('x', 't')), ('power2', ('y', 'z')), ('exp_cone', ('x', 'y', 'w'))), (('kl_div_epi', ('x', 'y', 'z')), ('power4', ('x', 't'))),
           (('log_norm_cdf_hypo', ('x', 'y')), ('power3', ('x', 't'))),
           (('exp_cone', ('x', 'k1', 't')), ('kl_div_epi', ('x', 'k1', 'z')), ('power2', ('x', 'w')), ('exp_cone', ('k1', 'x', 'y')))]


def instances(tier):
    out = []
    kw = dict(skip=('pydsm.cvxpy_tdr',), timeout=30)

    def add(cons, points=('inside', 'domain', 'start')):
        nm = '_'.join('%s(%s)' % (s, ','.join(e)) for s, e in cons)
        for p in points:
            out.append(Instance('%s-%s' % (nm, p), functions, dict(cons=cons, point=p),
                                bounds='all points with entries in [0.25,2] (in [-2,2] for the domain), numbers and parameters in [0.5,2] (in [-2,2] for the domain), weights in [-2,2]', **kw))
    for c in CASES:
        add((c,), ('inside', 'domain', 'start') if c[1] in (CASES[0][1], CASES[1][1], ('u', 'v', 't'), ('u', 'w', 'v', 'y', 't'), ('z', 't'), ('v', 'y'), ('k1', 'y', 'z'),
                                                     ('x', 'k1', 'z'), ('u', 'k1', 't'), ('k1', 'v', 't'), ('x', 'p1', 'z'), ('u', 'k1', 'k2', 'v', 't'), ('p1', 'v', 'v'), ('k1', 't')) else ('inside',))
    for c in SEVERAL:
        add(c)
    return out
