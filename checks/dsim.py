# -*- coding: utf-8 -*-
"""Shared by the simulator checks: an independent reference for the modulator."""
import warnings
import numpy as np
from pydsm.delsig import simulateDSM
from .dsgn import brief

BACKENDS = ('scipy', 'scipy_blas', 'cblas')


def quantize(V, y, n):
    """Nearest legal level, ties upwards, saturating."""
    if n % 2 == 0:
        q = 2 * V.floor(y / 2) + 1
    else:
        q = 2 * V.floor((y + 1) / 2)
    return V.max(V.min(q, n - 1), 1 - n)


def rows(a):
    return [list(r) for r in a]


def dot(V, r, x):
    s = 0
    for a, b in zip(r, x):
        s = s + a * b
    return s


def reference(V, ABCD, nu, nlev, u, x0):
    """u: nu rows of N samples. -> v, y (nq rows), xs (states after each sample)"""
    nq = len(nlev)
    n = len(ABCD) - nq
    N = len(u[0])
    x = list(x0)
    vs, ys, xs = [[] for _ in nlev], [[] for _ in nlev], []
    for i in range(N):
        ui = [u[k][i] for k in range(nu)]
        y = [dot(V, ABCD[n + j], x + ui) for j in range(nq)]
        v = [quantize(V, y[j], nlev[j]) for j in range(nq)]
        x = [dot(V, ABCD[k], x + ui + v) for k in range(n)]
        for j in range(nq):
            vs[j].append(v[j])
            ys[j].append(y[j])
        xs.append(x)
    return vs, ys, xs


SHORT = brief(lambda *a, **k: simulateDSM(*a, **k), 'u arg2 nlev x0 store_xn store_xmax store_y backend', nlev=2, x0=0, store_xn=False, store_xmax=False, store_y=False,
              backend='auto')


def sim(u, arg2, nlev=2, x0=0, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return SHORT(u, arg2, nlev, x0, **k)


def flat(V, a, n):
    """1-D view of something of n elements (whatever its shape)."""
    a = V.mk(a)
    return a.reshape(-1)


def modulator(V, n, nu, nq, lo=-2, hi=2):
    """A modulator with a free ABCD matrix.  The D2 block (quantizer to its own
    input, algebraic loop) is free as well: it must play no role."""
    return V.array('M', (n + nq, n + nu + nq), lo, hi)


def check_sim(V, backend, n, nu, nq, N, nlev, x0mode='array', u1d=False, chain=False,
              stores=(True, True, True)):
    """chain: sparse modulator (free coefficients only on the loop filter chain)."""
    if chain:
        M = chain_modulator(V, n, nu, nq)
    else:
        M = modulator(V, n, nu, nq)
    u = V.array('u', (nu, N), -2, 2)
    if x0mode == 'zero':
        x0, x0l = 0, [0.0] * n
    else:
        xa = V.array('x0', n, -2, 2)
        x0l = list(xa)
        x0 = xa if x0mode == 'array' else xa.reshape(-1, 1)
    xn_s, xm_s, y_s = stores
    ua = u[0] if u1d else u
    v, xn, xmax, y = sim(ua, M, nlev if nq > 1 else nlev[0], x0, store_xn=xn_s,
                         store_xmax=xm_s, store_y=y_s, backend=backend)
    rv, ry, rx = reference(V, rows(M), nu, nlev, rows(u), x0l)
    # values, then shapes
    V.eq(V.mk(v), V.mk(np.squeeze(V.mk(rv))), 'output v')
    if y_s:
        V.eq(V.mk(y), V.mk(np.squeeze(V.mk(ry))), 'quantizer input y')
    else:
        V.check(np.size(y) == 0, 'y is null when not stored')
    if n == 0:
        V.check(np.size(V.mk(xn)) == 0, 'no state')
        return
    xcols = [[rx[i][k] for i in range(N)] for k in range(n)]
    if xn_s:
        V.eq(V.mk(xn), V.mk(np.squeeze(V.mk(xcols))), 'state history xn')
    else:
        V.eq(V.mk(xn).reshape(-1), V.mk(rx[-1]), 'final state xn')
    if xm_s:
        xm = []
        for k in range(n):
            m = abs(x0l[k])
            for i in range(N):
                m = V.max(m, abs(xcols[k][i]))
            xm.append(m)
        V.eq(V.mk(xmax).reshape(-1), V.mk(xm), 'state maxima xmax')
    else:
        V.check(np.size(xmax) == 0, 'xmax is null when not stored')


def chain_modulator(V, n, nu, nq):
    rows_ = []
    for i in range(n + nq):
        r = []
        for j in range(n + nu + nq):
            if i < n and (j == i or j == i - 1 or j >= n) or i >= n and j >= n - 1:
                r.append(V.real('M[%d,%d]' % (i, j), -2, 2))
            else:
                r.append(float((i + 2 * j) % 3) - 1.0)
        rows_.append(r)
    return V.mk(rows_)
