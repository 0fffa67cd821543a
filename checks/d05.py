# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from sx import core
from .dsim import sim, BACKENDS, modulator, chain_modulator, rows
from .d04 import orth_stub

ASSUMPTIONS = ('real arithmetic in the symbolic runs (IEEE rounding is outside)',)


def snapshot(V, *arrays):
    return [V.mk(a).copy() if np.ndim(a) else a for a in arrays]


def unchanged(V, before, arrays, names):
    for b, a, n in zip(before, arrays, names):
        V.eq(a, b, 'argument %s left as it was' % n)


def resume(V, backend, n, nu, nq, N1, N2, nlev, chain, store1, store2):
    """A simulation split in two gives the same histories as a single one."""
    M = chain_modulator(V, n, nu, nq) if chain else modulator(V, n, nu, nq)
    u = V.array('u', (nu, N1 + N2), -2, 2)
    x0 = V.array('x0', n, -2, 2)
    L = nlev if nq > 1 else nlev[0]
    args = [u, M, x0] + ([np.array(nlev)] if nq > 1 else [])
    names = ['u', 'ABCD', 'x0', 'nlev']
    if nq > 1:
        L = args[3]
    before = snapshot(V, *args)
    v, xn, xm, y = sim(u, M, L, x0, store_xn=True, store_xmax=True, store_y=True, backend=backend)
    unchanged(V, before, args, names)
    v, xn, y = [V.mk(a).reshape(k, N1 + N2) for a, k in ((v, nq), (xn, n), (y, nq))]
    ua, ub = u[:, :N1], u[:, N1:]
    va, xa, ma, ya = sim(ua, M, L, x0, store_xn=store1, store_xmax=store1, store_y=store1, backend=backend)
    xa = V.mk(xa)
    last = xa.reshape(n, N1)[:, -1] if store1 else xa.reshape(-1)
    V.eq(last, xn[:, N1 - 1], 'final state of the first part')
    b2 = snapshot(V, last)
    vb, xb, mb, yb = sim(ub, M, L, last, store_xn=store2, store_xmax=store2, store_y=store2, backend=backend)
    unchanged(V, b2, [last], ['x0 (resumed)'])
    V.eq(V.mk(va).reshape(nq, N1), v[:, :N1], 'output of the first part')
    V.eq(V.mk(vb).reshape(nq, N2), v[:, N1:], 'output of the second part')
    xb = V.mk(xb)
    V.eq(xb.reshape(n, N2) if store2 else xb.reshape(-1),
         xn[:, N1:] if store2 else xn[:, -1], 'state of the second part')
    if store1:
        V.eq(V.mk(ya).reshape(nq, N1), y[:, :N1], 'quantizer input of the first part')
    if store2:
        V.eq(V.mk(yb).reshape(nq, N2), y[:, N1:], 'quantizer input of the second part')
    if store1 and store2:
        mm = [V.max(a, b) for a, b in zip(V.mk(ma).reshape(-1), V.mk(mb).reshape(-1))]
        V.eq(V.mk(mm), V.mk(xm).reshape(-1), 'state maxima of the whole')


def ntf_resume(V, backend, N1, N2, nlev):
    z, p = V.real('z', -1, 1), V.real('p', -1, 1)
    V.assume(V.any([z - p >= 0.125, z - p <= -0.125]))
    Z, P = V.mk([z]), V.mk([p])
    u = V.array('u', N1 + N2, -2, 2)
    before = snapshot(V, u, Z, P)
    v, x, _, _ = sim(u, (Z, P, 1.0), nlev, 0, backend=backend)
    unchanged(V, before, [u, Z, P], ['u', 'zeros', 'poles'])
    va, xa, _, _ = sim(u[:N1], (Z, P, 1.0), nlev, 0, backend=backend)
    vb, xb, _, _ = sim(u[N1:], (Z, P, 1.0), nlev, V.mk(xa).reshape(-1), backend=backend)
    tol = 0.0
    V.eq(V.mk(va).reshape(-1), V.mk(v).reshape(-1)[:N1], 'output of the first part', tol=tol)
    V.eq(V.mk(vb).reshape(-1), V.mk(v).reshape(-1)[N1:], 'output of the second part', tol=tol)
    V.eq(V.mk(xb).reshape(-1), V.mk(x).reshape(-1), 'final state', tol=tol)


def layouts(V, backend, n, nu, nq, N, nlev):
    """The memory layout of the arguments plays no role."""
    M = modulator(V, n, nu, nq)
    u = V.array('u', (nu, N), -2, 2)
    x0 = V.array('x0', n, -2, 2)
    L = nlev if nq > 1 else nlev[0]
    k = dict(store_xn=True, store_xmax=True, store_y=True, backend=backend)
    a = sim(u, M, L, x0, **k)
    uf, Mf = u.copy(order='F'), M.copy(order='F')
    b = sim(uf, Mf, L, x0, **k)
    wide = V.mk([list(r) + [7.0] * 2 for r in rows(u)])
    xs = V.mk([e for t in x0 for e in (t, 9.0)])
    c = sim(wide[:, :N], Mf, L, xs[::2], **k)
    d = sim(u.tolist(), M.tolist(), L, x0.tolist(), **k)
    for i, nm in enumerate(('v', 'xn', 'xmax', 'y')):
        for o, w in ((b, 'column-major arguments'), (c, 'views'), (d, 'nested lists')):
            V.eq(o[i], a[i], '%s with %s' % (nm, w))


def instances(tier):
    out = []
    for be in BACKENDS:
        for (n, nu, nq, N1, N2, nlev, chain, s1, s2, th) in (
                (1, 1, 1, 2, 2, [2], False, True, True, False),
                (2, 1, 1, 1, 1, [3], False, False, True, False),
                (2, 1, 1, 1, 2, [2], True, False, False, False),
                (2, 2, 2, 1, 1, [2, 3], False, True, False, False),
                (3, 1, 1, 2, 1, [5], True, True, True, False),
                (3, 2, 3, 1, 1, [4, 3, 2], True, False, True, False),
                (2, 1, 1, 2, 3, [4], True, True, True, True),
                (3, 2, 2, 1, 2, [2, 3], False, False, True, True)):
            out.append(Instance('%s-resume-n%du%dq%d-%d+%d%s' % (be, n, nu, nq, N1, N2, '-%d%d' % (s1, s2)), resume,
                                dict(backend=be, n=n, nu=nu, nq=nq, N1=N1, N2=N2, nlev=nlev, chain=chain,
                                     store1=s1, store2=s2), grid=4, timeout=15, samples=3, thorough=th,
                                bounds='order %d, %d input(s), quantizers %s, %d+%d samples; any matrix, '
                                       'input and state with entries in [-2,2]' % (n, nu, nlev, N1, N2)))
        out.append(Instance('%s-ntf' % be, ntf_resume, dict(backend=be, N1=2, N2=2, nlev=2), grid=16,
                            stubs={'scipy.linalg.orth': orth_stub(1, 1)},
                            bounds='order 1 noise transfer function, zero and pole in [-1,1], 2+2 samples'))
        out.append(Instance('%s-layout' % be, layouts, dict(backend=be, n=2, nu=2, nq=1, N=2, nlev=[3]), grid=4,
                            bounds='order 2, 2 inputs, 2 samples: C order, Fortran order, strided views, lists'))
        out.append(Instance('%s-layout2' % be, layouts, dict(backend=be, n=2, nu=1, nq=2, N=2, nlev=[3, 2]), grid=4,
                            bounds='order 2, 2 quantizers, 2 samples: C order, Fortran order, strided views, lists'))
    return out
