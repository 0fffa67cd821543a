# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from pydsm.correlations import raw_acorr, raw_xcorr

ASSUMPTIONS = ('real arithmetic in the symbolic runs (IEEE rounding is outside)',)


def acorr(V, m, N, lst, ir=False):
    x = V.array('x', m, -4, 4)
    q = raw_acorr(list(x) if lst else x, N)
    V.check(np.shape(q) == (N + 1,), 'lags from 0 to N')
    for k in range(N + 1):
        e = 0.0
        for n in range(k, m):
            e = e + x[n] * x[n - k]
        V.eq(q[k], e, 'autocorrelation')
    V.check(q[0] >= 0, 'the power is not negative')
    r = raw_xcorr(x, x, N)
    V.eq(V.mk(r), V.mk(q), 'crosscorrelation of a vector with itself')
    V.eq(V.mk(raw_acorr(x[::-1], N)), V.mk(q), 'time reversal')


def cplx(V, m, N):
    """Complex vectors: the sums are as defined, without conjugation."""
    x, y = V.carray('x', m, -4, 4), V.carray('y', m + 1, -4, 4)
    q, r = raw_acorr(x, N), raw_xcorr(x, y, N)
    V.check(np.shape(q) == np.shape(r) == (N + 1,), 'lags from 0 to N')
    for k in range(N + 1):
        e = f = 0.0
        for n in range(k, m):
            e = e + x[n] * x[n - k]
            f = f + x[n] * y[n - k]
        V.eq(q[k], e, 'autocorrelation of complex vectors')
        V.eq(r[k], f, 'crosscorrelation of complex vectors')


def cauchy(V, m, N):
    """No lag exceeds the power."""
    x = V.array('x', m, -4, 4)
    q = raw_acorr(x, N)
    for k in range(1, N + 1):
        # 2 x(n) x(n-k) <= x(n)^2 + x(n-k)^2: a sum of squares
        V.check(2 * q[k] <= 2 * q[0], 'no lag exceeds the power')
        V.check(-2 * q[0] <= 2 * q[k], 'no lag exceeds the power')


def xcorr(V, mx, my, N, lst):
    x = V.array('x', mx, -4, 4)
    y = V.array('y', my, -4, 4)
    q = raw_xcorr(list(x), list(y), N) if lst else raw_xcorr(x, y, N)
    V.check(np.shape(q) == (N + 1,), 'lags from 0 to N')
    for k in range(N + 1):
        e = 0.0
        for n in range(k, min(mx - 1, my + k - 1) + 1):
            e = e + x[n] * y[n - k]
        V.eq(q[k], e, 'crosscorrelation')


def instances(tier):
    out = []
    top = 6 if tier == 'quick' else 9
    for m in range(1, top):
        for N in range(0, m + 1):
            out.append(Instance('acorr-%d-%d' % (m, N), acorr, dict(m=m, N=N, lst=N % 2 == 0), timeout=15,
                                bounds='%d samples in [-4,4], lags to %d' % (m, N)))
    for m, N in ((1, 1), (2, 1), (3, 3)) + (((5, 4),) if tier != 'quick' else ()):
        out.append(Instance('complex-%d-%d' % (m, N), cplx, dict(m=m, N=N), timeout=15, bounds='%d complex samples in [-4,4], lags to %d' % (m, N)))
    for m, N in ((2, 1), (3, 2)):
        out.append(Instance('power-%d' % m, cauchy, dict(m=m, N=N), timeout=15, bounds='%d samples in [-4,4]' % m))
    for mx in range(1, top - 1):
        for my in range(1, top - 1):
            for N in sorted({0, mx // 2, mx - 1, mx}):
                out.append(Instance('xcorr-%d-%d-%d' % (mx, my, N), xcorr, dict(mx=mx, my=my, N=N, lst=(mx + my) % 2 == 0), timeout=15,
                                    bounds='%d and %d samples in [-4,4], lags to %d' % (mx, my, N)))
    return out
