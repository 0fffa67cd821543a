# -*- coding: utf-8 -*-
import math
import sys
import types
import numpy as np
from sx.run import Instance
from pydsm.NTFdesign import helpers
from .dsgn import patched

ASSUMPTIONS = ('scipy.optimize.minimize returns any point within the bounds it is given',)


def parts(q):
    return (q.real, q.imag) if hasattr(q, 'imag') else (q, 0.0)


def cis(V, a):
    return (V.cos(a), V.sin(a))


def same(V, z, want, label):
    """Same zeros in any order."""
    left = list(range(len(want)))
    V.check(len(z) == len(want), label + ' (number)')
    for q in z:
        re, im = parts(q)

        def alike(i):
            d = [x if isinstance(x, (int, float)) else x.const() for x in (re - want[i][0], im - want[i][1])]
            return all(x is not None and abs(x) < 1e-9 for x in d)
        k = next((i for i in left if alike(i)), None)
        V.check(k is not None, label)
        left.remove(k)


class Mini:
    def __init__(self, V, n, top, osr):
        self.osr, self.V, self.n, self.top, self.calls = osr, V, n, top, []

    def __call__(self, f, x0, args=(), method=None, bounds=None, options=None, **k):
        V, n = self.V, self.n
        V.check(not k and not args, 'the optimisation has no other options')
        V.check(str(method).lower() == 'l-bfgs-b', 'the optimisation can have bounds')
        V.check(len(x0) == n and len(bounds) == n, 'one angle for each pair of zeros')
        for lo, hi in bounds:
            V.eq(lo, 0, 'zeros are within the band')
            V.eq(hi, self.top, 'zeros are within the band', 1e-9)
        for x in x0:
            V.le(0, x * self.osr, 'the initial guess is within the band', 1e-9)
            V.le(x * self.osr, math.pi, 'the initial guess is within the band', 1e-9)
        x = V.array('x', n, 0, 3)
        y = V.array('y', n, 0, 3)
        for t in list(x) + list(y):
            V.assume(t <= self.top)
        self.calls.append((options, y, f(x), f(y)))
        self.x = x
        return types.SimpleNamespace(x=y, fun=0.0, success=True)


def spread(V, order):
    """Zeros are on the unit circle within the band, conjugate, with the odd one at z=1, and have the least cost."""
    osr = V.real('osr', 1.01, 512)
    a = V.real('a', 0.1, 5)
    cost = []
    res = [V.real('c%d' % i, 0.001, 100) for i in range(2)]

    def cf(ntf, u, v=0):
        cost.append((list(ntf[0]), list(ntf[1]), ntf[2], u, v))
        return res[min(len(cost), 2) - 1]
    n = order // 2
    top = math.pi / osr
    m = Mini(V, n, top, osr)
    with patched((helpers, 'minimize', m)):
        z = helpers.spread_fir_uc_zeros(order, osr, cf, [a], {'v': 7}, L_BFGS_B_opts={'maxiter': 33, 'ftol': 1e-4})
    V.check(len(m.calls) == 1, 'there is one optimisation')
    o, y, v0, v1 = m.calls[0]
    V.check(o['maxiter'] == 33 and o['ftol'] == 1e-4, 'options of the optimiser')

    def want(x):
        return [w for t in x for w in (cis(V, t), (V.cos(t), -V.sin(t)))] + [(1.0, 0.0)] * (order % 2)
    same(V, list(z), want(y), 'zeros')
    V.check(len(cost) >= 2, 'the cost is evaluated')
    for c, x in zip(cost, (m.x, y)):
        same(V, c[0], want(x), 'the cost is that of the zeros')
        V.check(len(c[1]) == order and all(complex(p) == 0 for p in c[1]) and c[2] == 1, 'the cost is that of a FIR transfer function with unit gain')
        V.eq(c[3], a, 'arguments of the cost')
        V.check(c[4] == 7, 'arguments of the cost')
    # what is minimised increases with the cost
    V.check(V.same(v0 < v1, res[0] < res[1]), 'the cost is minimised')


def flat(V, order, alpha):
    """Zeros of a maximally flat FIR transfer function."""
    z = helpers.maxflat_fir_zeros(order, alpha)
    V.check(np.shape(z) == (order,), 'as many zeros as the order')
    check_flat(V, [complex(x) for x in z], order, alpha)


def check_flat(V, z, order, alpha):
    tot = 0.0
    for q in z:
        V.check(abs(q) <= 1 + 1e-9, 'zeros are within the unit circle')
        tot += q.imag
    V.check(abs(tot) < 1e-9, 'zeros are in conjugate pairs')
    # |P(w)|^2 / |P(0)|^2 = 1 + (-1)^? k (1 - cos w)^order, a polynomial in cos w with all roots such that (u)^order is the same
    u = [(q + 1 / q) / 2 - 1 for q in z]
    for t in u:
        V.check(abs(t ** order + (-0.5) ** order / alpha) < 1e-6 * (0.5 ** order / alpha), 'the response is maximally flat, with the steepness required')
    V.check(len(set(np.round(np.array(u) / abs(u[0]), 6))) == order, 'zeros are distinct')


def flat1(V):
    """First order, any steepness."""
    alpha = V.real('alpha', 0.01, 100)
    z = helpers.maxflat_fir_zeros(1, alpha)
    V.check(np.shape(z) == (1,), 'as many zeros as the order')
    re, im = parts(z[0])
    V.eq(im, 0, 'the zero is real', 1e-9)
    V.le(re, 1, 'zeros are within the unit circle', 1e-9)
    V.le(0, re, 'zeros are within the unit circle', 1e-9)
    # (q - 1)^2 / 2q = 1 / (2 alpha)
    V.eq(alpha * (re - 1) * (re - 1), re, 'steepness', 1e-6)


def instances(tier):
    out = []

    def add(body, **p):
        nm = body.__name__ + ''.join('-%s' % (v,) for k, v in sorted(p.items()))
        out.append(Instance(nm, body, p, timeout=20, samples=4, rtol=1e-6, nodiv0=True, bounds='osr any in [1,512], angles any within the band'))
    for o in (1, 2, 3, 4, 5, 6) + ((7, 8, 9) if tier != 'quick' else ()):
        add(spread, order=o)
    add(flat1)
    for o in (1, 2, 3, 4, 5):
        for al in (0.0005, 0.05, 1.0, 30.0):
            add(flat, order=o, alpha=al)
    return out
