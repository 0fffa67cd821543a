# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from .dsim import sim, BACKENDS

ASSUMPTIONS = ('real arithmetic: the value compared with the thresholds is the exact real',)
YMAX = 1000
NMAX = 300


def legal(V, v, y, n, lab):
    """v is the nearest legal level of an n-level quantizer, ties upwards."""
    top = n - 1
    V.check(V.all([v <= top, v >= -top]), lab + ' saturates at n-1')
    # parity: an extreme level, or a member of the ladder whose offset from n-1
    # is even by construction (2*floor(.) plus the parity bit)
    p = (n + 1) % 2
    V.check(V.any([v == top, v == -top, v == 2 * V.floor((y + 1 - p) / 2) + p]),
            lab + ' has the parity of n-1')
    V.check(V.any([v == top, y < v + 1]), lab + ' not below the nearest level (ties go up)')
    V.check(V.any([v == -top, y >= v - 1]), lab + ' not above the nearest level')


def memoryless(nu):
    """y = u for every quantizer; one idle state."""
    m = [[0.0] * (1 + 2 * nu) for _ in range(1 + nu)]
    for i in range(nu):
        m[1 + i][1 + i] = 1.0
    return np.array(m)


def counts(V, parity):
    return [2 * V.int('m%d' % i, 1 - p, NMAX // 2) + p for i, p in enumerate(parity)]


def via_sim(V, backend, nq, N, parity, single=False):
    y = V.array('y', (nq, N), -YMAX, YMAX)
    ns = counts(V, parity)
    v, _, _, yq = sim(y, memoryless(nq), ns[0] if single else ns, 0, store_y=True,
                      backend=backend)
    v = V.mk(v).reshape(nq, N)
    V.eq(V.mk(yq).reshape(nq, N), y, 'quantizer input is the modulator input')
    for i in range(nq):
        for j in range(N):
            legal(V, v[i, j], y[i, j], ns[i], 'level[%d,%d]' % (i, j))


def direct(V, nq, column, parity):
    from pydsm.delsig._simulateDSM_scipy import ds_quantize
    y = V.array('y', (nq, 1) if column else nq, -YMAX, YMAX)
    ns = counts(V, parity)
    v = V.mk(ds_quantize(y, ns if nq > 1 else ns[0]))
    V.check(np.shape(v) == np.shape(y), 'shape preserved')
    for i in range(nq):
        legal(V, v.reshape(-1)[i], y.reshape(-1)[i], ns[i], 'level[%d]' % i)


def concrete_levels(V, backend, ns):
    """Fixed level counts, several quantizers: each one has its own ladder."""
    nq = len(ns)
    y = V.array('y', (nq, 2), -20, 20)
    v, _, _, _ = sim(y, memoryless(nq), ns if nq > 1 else ns[0], 0, backend=backend)
    v = V.mk(v).reshape(nq, 2)
    for i in range(nq):
        for j in range(2):
            legal(V, v[i, j], y[i, j], ns[i], 'level[%d,%d]' % (i, j))


def instances(tier):
    out = []
    b = 'any real quantizer input in [-%d,%d], any number of levels in [1,%d]' % (YMAX, YMAX, NMAX)
    for be in BACKENDS:
        for par in ((0,), (1,), (0, 1), (1, 0), (1, 1), (0, 0)):
            nm = ''.join(map(str, par))
            out.append(Instance('%s-p%s' % (be, nm), via_sim, dict(
                backend=be, nq=len(par), N=1, single=len(par) == 1, parity=par), bounds=b, grid=8))
            out.append(Instance('%s-p%s-N2' % (be, nm), via_sim, dict(
                backend=be, nq=len(par), N=2, parity=par), bounds=b, grid=8, thorough=True))
        for ns in ([1], [2], [3], [2, 3, 4], [5, 1, 8, 17]):
            out.append(Instance(be + '-l' + '_'.join(map(str, ns)), concrete_levels,
                                dict(backend=be, ns=ns), grid=8,
                                bounds='levels %s, any real input in [-20,20], 2 samples' % ns))
    try:
        from pydsm.delsig._simulateDSM_scipy import ds_quantize  # noqa
    except ImportError:
        return out
    for par in ((0,), (1,), (0, 1), (1, 0)):
        out.append(Instance('direct-' + ''.join(map(str, par)), direct, dict(
            nq=len(par), column=len(par) > 1, parity=par), bounds=b, grid=8))
    return out
