# -*- coding: utf-8 -*-
import cmath
import functools
import math
import random
import numpy as np
from sx.run import Instance
from pydsm.NTFdesign import minmax
from pydsm import NTFdesign
from . import conic, lmi
from .dsgn import brief, own_defaults
from .n08 import TOLS, SCS, delivered

ASSUMPTIONS = ('the modelling libraries cvxpy, picos and the solver cvxopt are stand-ins that record the problem being posed; cvxpy_tdr is the real one, '
               'recorded where it hands its cone program to cvxopt',
               'the generalised Kalman-Yakubovich-Popov lemma with real certificates, the bounded real lemma for the Lee criterion',
               'a band spans pi/OSR on either side of its centre', 'numpy.roots returns the roots of the polynomial it is given')


def run(V, modeler, order, osr, H, f0, zf, opts=None, alias=False):
    be = lmi.backend('minmax', modeler)
    o = dict(show_progress=False, modeler=modeler)
    o.update(opts or {})
    f = minmax.synthesize_ntf_minmax if alias else minmax.ntf_fir_minmax
    with own_defaults():
        return conic.record(V, modeler, be, lambda: brief(f, 'order osr H_inf f0 zf', order=32, osr=32, H_inf=1.5, f0=0, zf=False)(order, osr, H, f0, zf, **o))


def gkyp(cs, P, Q, w0, cosw, g):
    """Real and imaginary part of minus the matrix of the lemma, for 1 + c1 z^-1 + ... on |w - w0| <= W, cosw = cos(W)."""
    n = len(cs)
    A, C = lmi.companion(cs, [0.0] * n)
    F = [A[i] + [float(i == n - 1)] for i in range(n)]      # [A B]
    G = [[float(i == j) for j in range(n)] + [0.0] for i in range(n)]      # [I 0]
    t, m = conic.tr, conic.mm
    FPF, GPG = m(t(F), m(P, F)), m(t(G), m(P, G))
    FQG, GQG = m(t(F), m(Q, G)), m(t(G), m(Q, G))
    co, si = math.cos(w0), math.sin(w0)
    N = n + 2
    re = [[0.0] * N for _ in range(N)]
    im = [[0.0] * N for _ in range(N)]
    for i in range(n + 1):
        for j in range(n + 1):
            re[i][j] = -(FPF[i][j] - GPG[i][j] + co * (FQG[i][j] + FQG[j][i]) - 2 * GQG[i][j] * cosw)
            im[i][j] = -(si * (FQG[i][j] - FQG[j][i]))
    re[n][n] = re[n][n] + g
    for i in range(n):
        re[i][n + 1] = re[n + 1][i] = -C[i]
    re[n][n + 1] = re[n + 1][n] = -1.0
    re[n + 1][n + 1] = 1.0
    return re, im


class Band:
    """The constraint of a band in the problem: block, direct block of Q, unknowns P, Q, gamma."""


def roles_of(V, sh, order, bands, lee):
    """Finds out, on a problem with concrete data, which part of it is about which band."""
    cpos = lmi.coefs(V, sh, order)
    roles = lmi.Roles(sh, cpos)
    rnd = random.Random(5)
    gs = sh.groups()
    # the levels: what the objective, or the inequalities, depend on besides the matrices
    a = sh.zeros()
    for g, (s, sym) in enumerate(gs):
        for i in range(s[0]):
            for j in range(s[1]):
                a[g][i][j] = a[g][j][i] if sym and j < i else rnd.uniform(-1, 1)
    at = sh.at(a)
    cs = [a[g][i][j] for g, i, j in cpos]
    out, left = [], [b for b in range(roles.nblocks) if b not in roles.direct]
    for f0, osr in bands:
        n = order
        size = n + 2 if f0 == 0 else 2 * (n + 2)
        found = None
        for b in left:
            if roles.size[b] not in (n + 2, 2 * (n + 2)):
                continue
            ds = roles.deps(b)
            ds2 = [g for g in ds if gs[g][0] == (n, n)]
            qs = [g for g in ds2 if g in roles.direct.values()]
            ps = [g for g in ds2 if g in roles.sym and g not in qs]
            for q in qs:
                for p in ps:
                    for g in ds:
                        if g in (p, q):
                            continue
                        for i in range(gs[g][0][0]):
                            for j in range(gs[g][0][1]):
                                for sg in (1, -1):
                                    re, im = gkyp(cs, a[p], a[q], sg * 2 * math.pi * f0, math.cos(math.pi / osr), a[g][i][j])
                                    if close(at.psd[b], full(re, im, roles.size[b])):
                                        found = (b, p, q, (g, i, j), sg)
        V.check(found is not None, 'the constraint of the band at %s, osr %s, is that of the lemma' % (f0, osr))
        left.remove(found[0])
        out.append(found)
    V.check(len(left) == (1 if lee else 0), 'number of matrix inequalities')
    direct = dict(roles.direct)
    V.check(set(direct.values()) <= {o[2] for o in out} | ({x for x in roles.deps(left[0])} if left else set()), 'no other constraint')
    return cpos, roles, out, (left[0] if left else None)


def full(re, im, size):
    n = len(re)
    if size == n:
        return re
    return [list(re[i]) + list(im[i]) for i in range(n)] + [[-x for x in im[i]] + list(re[i]) for i in range(n)]


def close(a, b):
    return all(abs(float(x) - float(y)) < 1e-9 for p, q in zip(a, b) for x, y in zip(p, q))


def posed(V, modeler, order, f0, osr, H, zf, alias=False):
    lee = H != 'inf'
    Hc = np.inf if not lee else 1.75
    try:
        bands = list(zip(f0, osr))
    except TypeError:
        f = list(f0) if isinstance(f0, tuple) else [f0]
        bands = list(zip(f, osr if isinstance(osr, tuple) else [osr] * len(f)))
    f0_ = list(f0) if isinstance(f0, tuple) else f0
    osr_ = list(osr) if isinstance(osr, tuple) else osr
    sh = run(V, modeler, order, osr_, Hc, f0_, zf, alias=alias)
    cpos, roles, bs, lb = roles_of(V, sh, order, bands, lee)
    n = order
    h = (V.real('H', 1.01, 8) if H != 'usual' else 1.5) if lee else np.inf
    env = run(V, modeler, order, osr_, h, f0_, zf, alias=alias)
    V.check(lmi.coefs(V, env, n) == cpos, 'the coefficients are those found by the optimiser')
    V.check(env.groups() == sh.groups(), 'same unknowns')
    cs = [V.real('c%d' % (k + 1), -2, 2) for k in range(n)]
    a = lmi.assignment(V, env, cpos, 'x', cs)
    at = env.at(a)
    for (f, o), (b, p, q, g, sg) in zip(bands, bs):
        w0, W = sg * 2 * math.pi * f, math.pi / o
        gam = a[g[0]][g[1]][g[2]]
        m = at.psd[b]
        k = n + 2
        N, M = [r[:k] for r in m[:k]], [[0.0] * k for _ in range(k)]
        if len(m) == 2 * k:
            M = [r[k:] for r in m[:k]]
            for i in range(k):
                for j in range(k):
                    V.eq(m[k + i][k + j], N[i][j], 'embedding of a hermitian matrix', 1e-9)
                    V.eq(m[k + i][j], -M[i][j], 'embedding of a hermitian matrix', 1e-9)
        # sound: on the unit circle it reduces to the gain
        for t in range(2 * n + 3):
            w = 2 * math.pi * t / (2 * n + 3)
            z = cmath.exp(1j * w)
            num = lmi.poly(cs, z)
            xi = lmi.state(n, z)
            v = xi + [((z ** n).real, (z ** n).imag), num]
            s = lmi.form(N, v) + skew(M, v)
            V.eq(s, gam - (num[0] * num[0] + num[1] * num[1]) - 2 * (math.cos(w - w0) - math.cos(W)) * lmi.form(a[q], xi),
                 'the constraint bounds the gain in the band at %s (angle %d/%d)' % (f, t, 2 * n + 3), 1e-7)
        # complete: it is the matrix of the lemma
        re, im = gkyp(cs, a[p], a[q], w0, math.cos(W), gam)
        for i in range(k):
            for j in range(k):
                V.eq(N[i][j], re[i][j], 'matrix of the lemma [%d,%d]' % (i, j), 1e-9)
                V.eq(M[i][j], im[i][j], 'imaginary part of the matrix of the lemma [%d,%d]' % (i, j), 1e-9)
        d = [bb for bb, gg in roles.direct.items() if gg == q]
        V.check(len(d) >= 1, 'the multiplier is positive semidefinite')
        for i in range(n):
            for j in range(n):
                V.eq(at.psd[d[0]][i][j], a[q][i][j], 'the multiplier is positive semidefinite', 1e-9)
    if lee:
        ds = roles.deps(lb)
        V.check(len(ds) == 1 and ds[0] in roles.sym, 'one certificate')
        lmi.lee(V, at.psd[lb], cs, [0.0] * n, h, a[ds[0]], 1e-9)
        for b, g in roles.direct.items():
            if g == ds[0]:
                for i in range(n):
                    for j in range(n):
                        V.eq(at.psd[b][i][j], a[g][i][j], 'the certificate is positive semidefinite', 1e-9)
    objective(V, env, cpos, cs, a, [b[3] for b in bs])
    zeros(V, at, cs, bands if zf else [])
    z, p, k = env.result
    V.eq(z, np.array([1000.25 + i for i in range(n)]), 'the zeros are the roots')
    V.eq(p, np.zeros(n), 'the poles are null')
    V.check(k == 1, 'unit gain')


def skew(M, v):
    """v^H (j M) v for a real antisymmetric M."""
    s = 0.0
    for i in range(len(v)):
        for j in range(len(v)):
            if conic.iszero(M[i][j]):
                continue
            # conj(vi) * j * vj, real part
            s = s + M[i][j] * (v[i][1] * v[j][0] - v[i][0] * v[j][1])
    return s


def objective(V, env, cpos, cs, a, levels):
    """The least value of the objective is the greatest level."""
    at = env.at(a)
    V.check(not at.soc, 'no other constraint')
    vals = [a[g][i][j] for g, i, j in levels]
    kind, e = at.obj
    if kind == 'max':
        V.check(not at.ge, 'no other constraint')
        top = functools.reduce(V.max, e)
        V.eq(top, functools.reduce(V.max, vals), 'the objective is the greatest gain', 1e-9)
        return
    top = functools.reduce(V.max, vals)
    # reached: with the auxiliary unknowns at the greatest level
    free = {(g, i, j) for g, i, j in levels}
    b = [[list(r) for r in m] for m in a]
    for g, (s, sym) in enumerate(env.groups()):
        if s == (1, 1) and not any(g == q[0] for q in levels) and affects(env, g):
            b[g][0][0] = top
    bt = env.at(b)
    V.eq(bt.obj[1][0], top, 'the objective can be the greatest gain', 1e-9)
    for g in bt.ge:
        V.le(0, g, 'the objective can be the greatest gain (constraints)', 1e-9)
    for g in at.ge:
        V.assume(g >= 0)
    for y in vals:
        V.le(y, e[0], 'the objective is not less than any gain', 1e-9)


def affects(env, g):
    """Whether a scalar unknown only matters for the objective and the inequalities."""
    z = env.zeros()
    a = env.zeros()
    a[g][0][0] = 1.0
    x, y = env.at(z), env.at(a)
    return x.psd_same(y)


def zeros(V, at, cs, bands):
    """The equalities are equivalent to having zeros at the centres of the bands."""
    if not bands:
        V.check(not at.eq, 'no equality')
        return
    want = []
    for f, o in bands:
        re, im = lmi.poly(cs, cmath.exp(2j * math.pi * f))
        want += [re] if f in (0, 0.5) else [re, im]
    V.check(len(at.eq) == len(want), 'number of conditions for the zeros')

    def implied(given, goal, label):
        if V.symbolic:
            for x in goal:
                V.check(V.any([g > 1e-9 for g in given] + [g < -1e-9 for g in given] + [V.all([x <= 1e-6, x >= -1e-6])]), label)
        elif all(abs(float(g)) <= 1e-9 for g in given):
            for x in goal:
                V.check(abs(float(x)) <= 1e-6, label)
    implied(at.eq, want, 'the equalities force the zeros')
    implied(want, at.eq, 'the equalities only force the zeros')


def mismatch(V, modeler):
    """Bands and oversampling ratios have to correspond."""
    H = V.real('H', 1.01, 8)
    for f0, osr in (([0, 0.25], [32]), (0.1, [32, 32]), ([0.1], [8, 16])):
        env = None
        try:
            env = run(V, modeler, 2, osr, H, f0, False)
        except ValueError:
            continue
        V.check(False, 'bands and oversampling ratios have to correspond')


def size(V, alias):
    """Designs of the order documented when none is given."""
    H = V.real('H', 1.01, 8)
    env = run(V, 'picos', 32, 32, H, 0, False, alias=alias)
    z, p, k = env.result
    V.check(len(z) == 32 and len(p) == 32 and k == 1, 'order of the design when none is given')


def unknown(V):
    H = V.real('H', 1.01, 8)
    try:
        minmax.ntf_fir_minmax(2, 32, H, modeler='nothing')
    except ValueError:
        return
    V.check(False, 'unknown modellers are refused')


def options(V, modeler, solver=None, over=None):
    """The options reach the solver."""
    t = dict(TOLS)
    o = dict(show_progress=V.bool('show'))
    want = dict(t)
    if modeler == 'cvxpy':
        if solver == 'scs':
            want = dict(SCS)
            want.pop('acceleration_lookback')
            o['scs_opts'] = dict(want)
        else:
            o['cvxopt_opts'] = t
        o['cvxpy_opts'] = {'solver': solver, 'override_kktsolver': over}
    else:
        o['cvxopt_opts'] = t
    for k in want:
        if isinstance(want[k], float):
            want[k] = V.real('o_' + k, 1e-9, 1e-3)
            (o.get('scs_opts') if solver == 'scs' else t)[k] = want[k]
    show = bool(o['show_progress'])
    o['show_progress'] = show
    env = run(V, modeler, 2, 32, 1.5, 0, False, o)
    delivered(V, env, modeler, solver, over, show, want)


def instances(tier):
    out = []

    def add(body, **p):
        nm = body.__name__ + ''.join('-%s' % (v,) for k, v in sorted(p.items()))
        out.append(Instance(nm.replace(' ', ''), body, p, skip=('pydsm.cvxpy_tdr',), timeout=20, samples=3, rtol=1e-6, nodiv0=True,
                            bounds='gain limit any real in [1.01,8] or none, coefficients, levels and certificates any reals in [-2,2], bands %s of osr %s, order %s'
                            % (p.get('f0'), p.get('osr'), p.get('order', 2))))
    for m in lmi.MODELERS:
        for n, f0, osr, H, zf in ((1, 0, 32, 'real', False), (2, 0, 8, 'real', True), (2, 0.25, 32, 'real', False), (3, 0.1, 5.5, 'real', True),
                                  (2, (0, 0.2), (32, 12), 'inf', True), (2, (0.3, 0.5), 64, 'real', False), (3, (0, 0.5), (8, 16), 'inf', True),
                                  (1, 0.5, 20, 'real', True)):
            if m == 'cvxpy_old' and tier == 'quick' and n == 3:
                n = 2       # slower to record
            add(posed, modeler=m, order=n, f0=f0, osr=osr, H=H, zf=zf)
        add(posed, modeler=m, order=2, f0=0.125, osr=16, H='real', zf=True, alias=True)
        if tier != 'quick':
            for n, f0, osr, H, zf in ((4, 0, 32, 'real', True), (5, 0.2, 16, 'real', True), (4, (0, 0.1, 0.4), (8, 32, 50), 'real', True)):
                add(posed, modeler=m, order=n, f0=f0, osr=osr, H=H, zf=zf)
        add(mismatch, modeler=m)
        for al in (False, True):
            add(posed, modeler=m, order=1, f0=0, osr=32, H='usual', zf=False, alias=al)
        if m == 'cvxpy':
            for s in ('cvxopt', 'scs'):
                for o in (True, False):
                    add(options, modeler=m, solver=s, over=o)
        else:
            add(options, modeler=m)
    add(unknown)
    for al in (False, True):
        add(size, alias=al)
    return out
