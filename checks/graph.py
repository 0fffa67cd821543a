# -*- coding: utf-8 -*-
"""Comparison of the cone program that the solver gets with the program that the user wrote.

A model is a function of (V, T) returning a dictionary with: prog (a program of the modelling language), users (scalar variables by name),
spec (conditions on values of the users' variables), obj (value of the objective, or None), and for the completeness of the cone program cands
(values that the unknowns introduced by the modelling language may take). The unknowns are identified by value, never by name: which value goes to
which unknown is found out numerically and then decided symbolically.
"""
import random
from fractions import Fraction
import numpy as np
import z3
from sx.core import SymBase, Unsupported
from sx.run import Conc, AssumeFailed
from . import conic
from .dsgn import patched

EPS = 1e-7


class Model:
    def __init__(self, V, model, **params):
        import pydsm.cvxpy_tdr as T
        import pydsm.cvxpy_tdr.sets  # noqa
        self.V = V
        self.env = env = conic.Cone(V)
        self.ps = env.patches()
        with patched(*self.ps):
            self.d = d = model(V, T, **params)
            self.out = d['prog'].solve(quiet=True, return_status=True)
            self.users = {}
            for n, u in d['users'].items():
                val = object.__getattribute__(u, 'value')
                if isinstance(val, float) and val == val:
                    self.users[n] = int(val - 0.5)
        env.index()
        cols = set(self.users.values())
        made = {}
        for r, v in enumerate(env.made):
            val = object.__getattribute__(v, 'value')
            if isinstance(val, float) and val == val:
                made.setdefault(int(val - 0.5), r)
        # in the order of creation, since that of the columns depends on the names
        self.free = sorted((k for _, _, es in env.xg for _, _, k in es if k not in cols), key=lambda k: made.get(k, k))

    def values(self, x, aux):
        """All the unknowns, and the state of the constraints."""
        env = self.env
        val = {k: x[n] for n, k in self.users.items()}
        val.update(aux)
        a = env.zeros()
        for g, (s, sym, es) in enumerate(env.xg):
            for i, j, k in es:
                a[g][i][j] = val[k]
        at = env.at(a)
        at.f = []
        at.domain = True
        if env.F is not None:
            full = env.unknowns(a)[0]
            vec = conic.Dense([[full[k]] for k in range(len(env.c))])
            with patched(*self.ps):
                f, Df = env.F(vec)
            if f is None:
                at.domain = False
            else:
                at.f = [r[0] for r in f.rows]
        return at


def minors(M):
    """Principal minors; the solver sees the lower triangle only."""
    n = len(M)
    S = [[M[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]

    def det(ix):
        if len(ix) == 1:
            return S[ix[0]][ix[0]]
        if len(ix) == 2:
            i, j = ix
            return S[i][i] * S[j][j] - S[i][j] * S[i][j]
        i, j, k = ix
        return (S[i][i] * (S[j][j] * S[k][k] - S[j][k] * S[j][k]) - S[i][j] * (S[i][j] * S[k][k] - S[j][k] * S[i][k])
                + S[i][k] * (S[i][j] * S[j][k] - S[j][j] * S[i][k]))
    out = []
    for b in range(1, 2 ** n):
        ix = [i for i in range(n) if b >> i & 1]
        if len(ix) <= 3:
            out.append(det(ix))
    return out


def lower(M):
    n = len(M)
    return [[M[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]


def form(M, w):
    n = len(M)
    S = lower(M)
    r = 0.0
    for i in range(n):
        for j in range(n):
            if not (conic.iszero(w[i]) or conic.iszero(w[j])):
                r = r + w[i] * w[j] * S[i][j]
    return r


def inpsd(V, M, tests):
    """Consequences of M being positive semidefinite (all there is, in concrete runs and for sizes up to 3 without test vectors)."""
    if not V.symbolic:
        S = np.array([[float(x) for x in r] for r in lower(M)])
        return [np.linalg.eigvalsh(S).min() >= -EPS]
    if len(M) in tests:
        return [form(M, w) >= 0 for w in tests[len(M)]]
    if len(M) > 3:
        raise ValueError('test vectors are needed')
    return [m >= 0 for m in minors(M)]


def holds(at, V, d, x):
    """Consequences of the constraints of the cone program."""
    e = 0.0 if V.symbolic else EPS
    out = [at.domain]
    out += [g >= -e for g in at.ge] + [f <= e for f in at.f]
    for q in at.eq:
        out += [q <= e, q >= -e]
    for v, y in at.soc:
        s = 0.0
        for t in v:
            s = s + t * t
        out += [y >= -e, s <= y * y + e]
    tests = d['tests'](x) if 'tests' in d else {}
    for M in at.psd:
        out += inpsd(V, M, tests)
    return out


def sound(V, model, **params):
    """Whatever satisfies the cone program satisfies the program of the user."""
    m = Model(V, model, **params)
    d = m.d
    x = given(V, d)
    at = m.values(x, {k: V.real('aux%d' % r, -20, 20) for r, k in enumerate(m.free)})
    if 'lemmas' in d:
        cols = {k: V.real('aux%d' % r, -20, 20) for r, k in enumerate(m.free)}
        ch = choice(model, params) if 'cands' in d else None
        if isinstance(ch, dict):
            cols = {k: (cols[m.free[k]], c) for k, c in ch.items()}
        else:
            cols = {k: (cols[j], None) for k, j in enumerate(m.free)}
        for c in d['lemmas'](x, cols):
            V.assume(c)
    tol = 1e-5
    y = x
    if not V.symbolic and not all(bool(h) for h in holds(at, V, d, x)):
        # other values of the unknowns introduced may do
        v = settle(Search(m, x, False)) if V.values else None
        V.assume(v is not None and v is not False)
        at = m.values(x, dict(zip(m.free, v)))
        tol = 1e-3
        if 't' in x:
            y = dict(x, t=x['t'] + d.get('sign', 1) * 1e-2)
    else:
        V.assume(V.all(holds(at, V, d, x)))
    for k, c in enumerate(d['spec'](y)):
        if isinstance(c, tuple):        # a <= b
            V.le(c[0], c[1], 'constraint %d of the user' % k, d.get('tol', 0.0) if V.symbolic else tol)
        else:
            V.check(c, 'constraint %d of the user' % k)
    if d.get('obj'):
        s = d.get('sign', 1)
        V.le(s * d['obj'](x), at.obj[1][0], 'the objective is not better than that of the user', 0.0 if V.symbolic else 1e-5)


def given(V, d):
    return {n: V.real('x_' + n, *d.get('range', {}).get(n, d.get('range', {}).get('', (-2, 2)))) for n in d['users']}


def cond(V, c):
    return V.all([c[0] <= c[1]]) if isinstance(c, tuple) else c


CHOICE = {}


def widen(cs):
    """Values that the unknowns may take: those given, their opposites, zero."""
    cs = list(cs)
    return cs + [-c for c in cs] + [0.0, 1.0]


def blocks(n):
    """Principal blocks, so that wrong values are soon found out."""
    return [[i] for i in range(n)] + [[i, j] for i in range(n) for j in range(i)] + [[i, j, k] for i in range(n) for j in range(i) for k in range(j)] + [list(range(n))]


class Search:
    """The constraints of a cone program as functions of the unknowns introduced, at given values of those of the user (numbers only)."""

    def __init__(self, m, x, cands=True):
        self.m, self.x = m, x
        self.goal = m.d.get('sign', 1) * m.d['obj'](x) if cands and m.d.get('obj') else None
        self.cands = [float(c) for c in widen(m.d['cands'](x) if cands and 'cands' in m.d else [])]
        n = self.n = len(m.free)
        z = self.rows([0.0] * n)
        self.base = [np.array(r, dtype=float) for _, r in z]
        self.kind = [k for k, _ in z]
        cols = [[np.array(r, dtype=float) for _, r in self.rows([1.0 if i == k else 0.0 for i in range(n)])] for k in range(n)]
        self.lin = [np.array([c[i] - self.base[i] for c in cols]).reshape(n, len(self.base[i])) for i in range(len(z))]
        self.dep = [{k for k in range(n) if np.any(np.abs(ln[k]) > 1e-12)} for ln in self.lin]
        if m.env.F is not None:
            rng = random.Random(1)
            for tries in range(300):
                p = [rng.uniform(0.2, 1.5) if tries < 20 else rng.uniform(-20, 20) for _ in range(n)]
                f0 = self.fun(p)
                if f0 is not None:
                    break
            self.inside = p if f0 is not None else None
            nf = m.env.F()[0]
            for i in range(nf):
                self.kind.append(('f', i))
                self.base.append(None)
                self.lin.append(None)
                if f0 is None:
                    self.dep.append(set(range(n)))
                    continue
                d = set()
                for k in range(n):
                    f1 = self.fun([v + 0.0137 * (j == k) for j, v in enumerate(p)])
                    if f1 is None or abs(f1[i] - f0[i]) > 1e-13:
                        d.add(k)
                self.dep.append(d)

    def at(self, v):
        return self.m.values(self.x, {k: v[i] for i, k in enumerate(self.m.free)})

    def fun(self, v):
        t = self.at(v)
        return [float(f) for f in t.f] if t.domain else None

    def rows(self, v):
        F = self.m.env.F
        self.m.env.F = None
        try:
            t = self.at(v)
        finally:
            self.m.env.F = F
        goal = [('ge', [self.goal - t.obj[1][0]])] if self.goal is not None else []
        return (goal + [('ge', [g]) for g in t.ge] + [('eq', [q]) for q in t.eq] + [('soc', list(a) + [y]) for a, y in t.soc]
                + [('psd', [lower(M)[a][b] for a in ix for b in ix]) for M in t.psd for ix in blocks(len(M))])

    def ok(self, i, v):
        """Constraint i, all of whose unknowns are known."""
        k = self.kind[i]
        if k[0] == 'f':
            f = self.fun([0.7 if e is None else e for e in v])
            return f is not None and f[k[1]] <= 1e-7
        r = self.base[i] + np.array([e or 0.0 for e in v]) @ self.lin[i]
        if k == 'ge':
            return r[0] >= -1e-7
        if k == 'eq':
            return abs(r[0]) <= 1e-7
        if k == 'soc':
            return r[-1] >= np.sqrt((r[:-1] ** 2).sum()) - 1e-7
        q = int(round(len(r) ** 0.5))
        return np.linalg.eigvalsh(r.reshape(q, q)).min() >= -1e-7


def search(ss, limit=300000):
    """A candidate for each unknown, good at all the points."""
    s0 = ss[0]
    n = s0.n
    if any(s.n != n or len(s.dep) != len(s0.dep) or len(s.cands) != len(s0.cands) for s in ss):
        return None
    dep = [set().union(*(s.dep[i] for s in ss)) for i in range(len(s0.dep))]
    order, left = [], set(range(n))
    while left:
        best = min(left, key=lambda k: (min((len(d - set(order)) for d in dep if k in d), default=99), k))
        order.append(best)
        left.discard(best)
    when = [[] for _ in range(n + 1)]
    for i, d in enumerate(dep):
        when[max((order.index(k) for k in d), default=-1) + 1].append(i)
    pick = {}
    nodes = [0]

    def good(depth):
        for s in ss:
            v = [None] * n
            for k, c in pick.items():
                v[k] = s.cands[c]
            if not all(s.ok(i, v) for i in when[depth]):
                return False
        return True

    def go(depth):
        nodes[0] += 1
        if nodes[0] > limit or not good(depth):
            return False
        if depth == n:
            return True
        for c in range(len(s0.cands)):
            pick[order[depth]] = c
            if go(depth + 1):
                return True
        pick.pop(order[depth], None)
        return False
    return dict(pick) if go(0) else None


def within(x, d, W):
    return all(bool(cond(W, c)) for c in d['spec'](x))


def choice(model, params):
    """Which candidate each of the unknowns takes, found out on numbers."""
    key = (model.__module__, model.__name__,) + tuple(sorted((k, str(v)) for k, v in params.items()))
    if key in CHOICE:
        return CHOICE[key]
    rng = random.Random(5)
    pts = []
    for tries in range(400):
        W = Conc({}, rng)
        W.gen = lambda lo, hi: rng.uniform(-2 if lo is None else float(lo), 2 if hi is None else float(hi))
        try:
            m = Model(W, model, **params)
            x = m.d['point'](W) if 'point' in m.d else given(W, m.d)
            if not within(x, m.d, W):
                continue
            if 't' in x and len(pts) % 2:       # as close as possible to the boundary
                s = m.d.get('sign', 1)
                lo, hi = x['t'] - s * 16.0, x['t']
                for _ in range(60):
                    mid = (lo + hi) / 2
                    if within(dict(x, t=mid), m.d, W):
                        hi = mid
                    else:
                        lo = mid
                x = dict(x, t=hi + s * 1e-9)
            elif 'point' not in m.d and len(pts) % 2:
                # likewise, along one of the unknowns
                nm = rng.choice(sorted(x))
                lo, hi = x[nm] + rng.choice((-8.0, 8.0)), x[nm]
                for _ in range(40):
                    mid = (lo + hi) / 2
                    lo, hi = (lo, mid) if within(dict(x, **{nm: mid}), m.d, W) else (mid, hi)
                x = dict(x, **{nm: hi})
            pts.append(Search(m, x))
        except AssumeFailed:
            continue
        if len(pts) == 24:
            break
    if not pts:
        raise ValueError('no sample')
    CHOICE[key] = search(pts)
    if CHOICE[key] is None and any(infeasible(p.m, p.x, p) for p in pts):
        CHOICE[key] = 'impossible'
    return CHOICE[key]


def infeasible(m, x, s=None):
    """No values of the unknowns introduced satisfy the cone program at a point."""
    return settle(s or Search(m, x)) is False


def gradient(s, v, f, i):
    g = np.zeros(s.n)
    for j in range(s.n):
        h = 1e-6 * max(1.0, abs(v[j]))
        up, dn = s.fun([t + h * (i == j) for i, t in enumerate(v)]), s.fun([t - h * (i == j) for i, t in enumerate(v)])
        if up is None and dn is None:
            return None
        up, dn, h = (f, dn, h / 2) if up is None else (up, f, h / 2) if dn is None else (up, dn, h)
        g[j] = (up[i] - dn[i]) / (2 * h)
    return g if np.all(np.isfinite(g)) and np.isfinite(f[i]) else None


def settle(s):
    """Values of the unknowns introduced that satisfy the cone program at a point, False if there are none, None if this is not known.

    Decided by the solver over the reals: the cones and the convex functions are replaced with the half spaces that contain them, added as
    long as the values found violate something. The domains of the functions are taken to be boxes.
    """
    n = s.n
    e, box = 1e-5, 100
    vs = [z3.Real('aux%d' % k) for k in range(n)]
    so = z3.Solver()
    so.set('timeout', 5000)
    for v in vs:
        so.add(v >= -box, v <= box)

    def q(t):
        return z3.RealVal(Fraction(float(t)).limit_denominator(10 ** 9))

    def halfspace(c0, c):       # c0 + c v >= -e
        so.add(z3.Sum([q(c0)] + [q(ck) * v for ck, v in zip(c, vs) if abs(ck) > 1e-12]) >= q(-e))
    for k, b0, ln in zip(s.kind, s.base, s.lin):
        if k in ('ge', 'eq'):
            halfspace(b0[0], ln[:, 0])
        if k == 'eq':
            halfspace(-b0[0], -ln[:, 0])
        if k == 'soc':
            halfspace(b0[-1], ln[:, -1])
    for _ in range(80):
        if so.check() != z3.sat:
            return False if so.check() == z3.unsat else None
        mo = so.model()
        v = np.array([float(mo.eval(w, True).as_fraction()) for w in vs])
        cuts = 0
        fun = None
        for k, b0, ln in zip(s.kind, s.base, s.lin):
            if k == 'soc':
                r = b0 + v @ ln
                w = np.linalg.norm(r[:-1])
                if r[-1] < w - e / 2:
                    u = np.append(-r[:-1] / w, 1.0)
                    halfspace(u @ b0, ln @ u)
                    cuts += 1
            elif k == 'psd':
                r = b0 + v @ ln
                d = int(round(len(r) ** 0.5))
                ev, U = np.linalg.eigh(r.reshape(d, d))
                if ev[0] < -e / 2:
                    u = np.outer(U[:, 0], U[:, 0]).reshape(-1)
                    halfspace(u @ b0, ln @ u)
                    cuts += 1
            elif k[0] == 'f':
                if fun is None:
                    fun = s.fun(list(v))
                if fun is None:
                    if s.inside is None:
                        return False        # nowhere in the domain
                    for j in range(n):
                        def dom(t):
                            return s.fun([t if i == j else w for i, w in enumerate(s.inside)]) is not None
                        if not dom(v[j]):
                            lo, hi = v[j], s.inside[j]
                            for _ in range(60):
                                lo, hi = ((lo + hi) / 2, hi) if not dom((lo + hi) / 2) else (lo, (lo + hi) / 2)
                            lo = lo if abs(lo) > 1e-9 else 0.0
                            so.add(vs[j] > q(lo) if lo < s.inside[j] else vs[j] < q(lo))
                            cuts += 1
                    if not cuts:
                        return None
                    break
                if fun[k[1]] > e / 2:
                    # a tangent that leaves the point out, taken not too far away
                    for tau in (0.02, 0.05, 0.1, 0.2, 0.4, 0.7, 1.0) if fun[k[1]] > 1 and s.inside else (1.0,):
                        w = np.array(s.inside) * (1 - tau) + v * tau if tau < 1 else v
                        fw = s.fun(list(w))
                        if fw is None:
                            continue
                        f, g = fw[k[1]], gradient(s, w, fw, k[1])
                        if g is None:
                            continue
                        if f + g @ (v - w) > e / 2:
                            break
                    else:
                        return None
                    halfspace(-(f - g @ w), -g)
                    cuts += 1
        if not cuts:
            return list(v)
    return None


def complete(V, model, **params):
    """Whatever satisfies the program of the user can be extended so as to satisfy the cone program, with the same objective."""
    m = Model(V, model, **params)
    d = m.d
    x = d['point'](V) if 'point' in d else given(V, d)
    V.assume(V.all([cond(V, c) for c in d['spec'](x)]))
    ch = choice(model, params)
    if ch == 'impossible':
        V.check(False, 'the variables introduced can be given values')
        return
    if ch is None or len(ch) != len(m.free):
        if not V.symbolic:
            raise AssumeFailed('no values found')
        raise Unsupported('no values found for the variables introduced')
    if not V.symbolic:
        # when these values do not do, others may
        s = Search(m, x)
        v = [s.cands[ch[k]] for k in range(s.n)]
        if not all(s.ok(i, v) for i in range(len(s.kind))) and not infeasible(m, x, s):
            if m.env.F is None or search([s]) is not None:
                raise AssumeFailed('other values may do')
    cs = widen(d['cands'](x))
    at = m.values(x, {m.free[k]: cs[c] for k, c in ch.items()})
    tol = 1e-9 if V.symbolic else 1e-6
    V.check(at.domain, 'within the domain of the functions')
    for k, g in enumerate(at.ge):
        V.le(0.0, g, 'inequality %d' % k, tol)
    for k, q in enumerate(at.eq):
        V.eq(q, 0.0, 'equality %d' % k, tol)
    for k, f in enumerate(at.f):
        V.le(f, 0.0, 'function %d' % k, tol)
    for k, (v, y) in enumerate(at.soc):
        s = 0.0
        for t in v:
            s = s + t * t
        V.le(0.0, y, 'second order cone %d' % k, tol)
        V.le(s, y * y, 'second order cone %d' % k, tol)
    fac = d['factors'](x) if 'factors' in d else {}
    for k, M in enumerate(at.psd):
        if not V.symbolic:
            V.le(0.0, float(np.linalg.eigvalsh(np.array(lower(M), dtype=float)).min()), 'semidefinite cone %d' % k, 1e-6)
        elif len(M) in fac:
            S = lower(M)
            n = len(M)
            for g, w in fac[len(M)]:
                V.le(0.0, g, 'semidefinite cone %d' % k, tol)
            for i in range(n):
                for j in range(i + 1):
                    e = 0.0
                    for g, w in fac[len(M)]:
                        e = e + g * w[i] * w[j]
                    V.eq(S[i][j], e, 'semidefinite cone %d' % k, 1e-7)
        else:
            for q in minors(M):
                V.le(0.0, q, 'semidefinite cone %d' % k, tol)
    if d.get('obj'):
        V.eq(at.obj[1][0], d.get('sign', 1) * d['obj'](x), 'the objective is that of the user', 1e-7)


def instance(Instance, name, body, params, **kw):
    kw.setdefault('timeout', 20)
    return Instance(name, body, params, skip=('pydsm.cvxpy_tdr',), samples=3, rtol=1e-6, nodiv0=True, **kw)


def issym(x):
    return isinstance(x, SymBase)
