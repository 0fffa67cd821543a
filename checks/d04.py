# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from sx import arr, core
from .dsim import sim, BACKENDS, quantize

ASSUMPTIONS = (
    'scipy.linalg.orth([c | I]) is modelled by its contract: an orthonormal basis whose first '
    'vector is +-c/|c| (the dominant left singular vector), completed in either orientation',
    'modulators given with concrete coefficients are realised in floating point by the real '
    'scipy; the claim then carries a tolerance of 1e-6')


def orth_stub(sign, flip):
    """Orthonormal range basis of [c | I] for 1 or 2 states."""
    def orth(M, *a, **k):
        O = arr.obj(M)
        n = O.shape[0]
        if not arr.contains_sym(O):
            import scipy.linalg
            return scipy.linalg.orth(np.array(O.tolist(), dtype=float))
        ok = O.shape == (n, n + 1) and all(
            not core.is_sym(O[i, 1 + j]) and O[i, 1 + j] == (i == j)
            for i in range(n) for j in range(n))
        if not ok or n > 2:
            raise core.Unsupported('orth of an unexpected matrix')
        if n == 1:
            return arr.to_sarr([[float(sign)]])
        c = [real(O[0, 0]), real(O[1, 0])]
        nrm = core.ssqrt(c[0] * c[0] + c[1] * c[1])
        core.ctx().assume(core.bexpr(nrm > 0))     # the NTF is not identically 1
        a, b = sign * c[0] / nrm, sign * c[1] / nrm
        return arr.to_sarr([[a, -flip * b], [b, flip * a]])
    return orth


def real(x):
    return x.re if isinstance(x, core.SComplex) else x


def polymul(r, roots):
    p = [1.0]
    for z in roots:
        q = p + [0.0]
        for i, c in enumerate(p):
            q[i + 1] = q[i + 1] - z * c
        p = q
    return [x.real if hasattr(x, 'real') and not isinstance(x, (int, float)) else x for x in p]


def response(zeros, poles, n):
    num, den = polymul(None, zeros), polymul(None, poles)
    h = []
    for i in range(n):
        s = num[i] if i < len(num) else 0.0
        for j in range(1, len(den)):
            if i - j >= 0:
                s = s - den[j] * h[i - j]
        h.append(s)
    return h


def realises(V, backend, zeros, poles, N, nlev, tol, K=1.0):
    u = V.array('u', N, -2, 2)
    v, _, _, y = sim(u, (zeros, poles, K), nlev, 0, store_y=True, backend=backend)
    v, y = V.mk(v).reshape(-1), V.mk(y).reshape(-1)
    V.check(len(v) == N and len(y) == N, 'one output sample per input sample')
    h = response(list(zeros), list(poles), N)
    for n in range(N):
        s = u[n]
        for k in range(n + 1):
            s = s + h[k] * (v[n - k] - y[n - k])
        V.eq(v[n], s, 'output is input plus shaped error at sample %d' % n, tol=tol)
        V.eq(v[n], quantize(V, y[n], nlev), 'error is the quantizer error at sample %d' % n)


def sym1(V, backend, N, nlev):
    z, p = V.real('z', -1, 1), V.real('p', -1, 1)
    V.assume(V.any([z - p >= 0.125, z - p <= -0.125]))
    realises(V, backend, V.mk([z]), V.mk([p]), N, nlev, 0.0 if V.symbolic else 1e-6)


def sym2(V, backend, N, nlev, kind):
    if kind == 'pairs':
        z, p = V.conj_roots('z', 1, 0, -1, 1), V.conj_roots('p', 1, 0, -1, 1)
    elif kind == 'reals':
        z, p = V.conj_roots('z', 0, 2, -1, 1), V.conj_roots('p', 0, 2, -1, 1)
    else:
        z, p = V.conj_roots('z', 1, 0, -1, 1), V.conj_roots('p', 0, 2, -1, 1)
    d = (z[0] + z[1]) - (p[0] + p[1])
    d = d.real if hasattr(d, 'real') else d
    V.assume(d * d >= 0.01)
    realises(V, backend, z, p, N, nlev, 0.0 if V.symbolic else 1e-6)


def conc(V, backend, zeros, poles, N, nlev):
    realises(V, backend, np.array(zeros), np.array(poles), N, nlev, 1e-6)


def ntf(order, osr, hinf):
    """A plausible modulator: zeros on the unit circle, poles inside."""
    n = order // 2
    z, p = [], []
    for i in range(n):
        w = np.pi / osr * (2 * i + 1) / (2.0 * n + 1)
        z += [np.exp(1j * w), np.exp(-1j * w)]
        r = 0.5 + 0.12 * i * hinf / 1.5
        p += [r * np.exp(0.3j * (i + 1)), r * np.exp(-0.3j * (i + 1))]
    if order % 2:
        z.append(1.0)
        p.append(0.45)
    return z, p


def instances(tier):
    out = []
    for be in BACKENDS:
        for s in (1, -1):
            st = {'scipy.linalg.orth': orth_stub(s, 1)}
            out.append(Instance('%s-order1-sign%+d' % (be, s), sym1, dict(backend=be, N=3, nlev=2),
                                stubs=st, grid=16, timeout=20,
                                bounds='order 1, any real zero and pole in [-1,1] at least 1/8 apart, '
                                       '3 samples, input in [-2,2], 2 levels'))
            for f in (1, -1):
                st = {'scipy.linalg.orth': orth_stub(s, f)}
                for kind in ('pairs', 'reals', 'mixed'):
                    thorough = not (s == f == 1 or (kind == 'pairs' and be == 'scipy_blas'))
                    out.append(Instance('%s-order2-%s%+d%+d' % (be, kind, s, f), sym2,
                                        dict(backend=be, N=3, nlev=3, kind=kind),
                                        stubs=st, grid=16, timeout=20, thorough=thorough,
                                        bounds='order 2, any %s of zeros and poles in [-1,1], 3 samples, '
                                               'input in [-2,2], 3 levels' % kind))
        for order, N, nlev in ((2, 4, 2), (3, 5, 3), (4, 6, 2), (5, 6, 4)):
            z, p = ntf(order, 32, 1.5)
            out.append(Instance('%s-fixed%d' % (be, order), conc,
                                dict(backend=be, zeros=z, poles=p, N=N, nlev=nlev), timeout=20,
                                bounds='a fixed order %d noise transfer function, %d levels, '
                                       '%d samples of any input in [-2,2]' % (order, nlev, N)))
    return out
