# -*- coding: utf-8 -*-
import sys
import numpy as np
from sx.run import Instance
from pydsm import delsig
from .dsgn import brief, patched

ASSUMPTIONS = ('scipy.signal.cheby2 is a stand-in that returns any zeros, poles and gain; pairing conjugates (R01) is the identity',)
CH = sys.modules['pydsm.delsig._synthesizeChebyshevNTF']

SHORT = brief(lambda *a, **k: delsig.synthesizeChebyshevNTF(*a, **k), 'order osr opt H_inf f0', order=3, osr=64, opt=0, H_inf=1.5, f0=0)


class Cheby:
    """Stand-in for cheby2: the gain at infinity is that for the attenuation."""

    def __init__(self, V, gain):
        self.V, self.gain, self.calls = V, gain, []

    def __call__(self, N, rs, Wn, btype='low', analog=False, output='ba', fs=None):
        n = int(N)
        self.V.check(n == N and isinstance(N, (int, np.integer)), 'the order is an integer')
        self.V.check(not analog and output == 'zpk' and fs is None, 'discrete time filters')
        i = len(self.calls)
        m = n * (2 if btype in ('stop', 'bandstop', 'bs') else 1)
        z = np.array([100.0 * (i + 1) + j for j in range(m)])
        p = np.array([100.0 * (i + 1) + j + 0.5 for j in range(m)])
        self.calls.append((n, rs, Wn, btype))
        return z, p, 1 / self.gain(i, rs)

    def run(self, *a, **k):
        with patched((CH, 'cheby2', self), (CH, 'cplxpair', lambda x, tol=100: x)):
            return SHORT(*a, **k)


def design(V, order, kind, usual=False):
    """What is designed, for any band."""
    f0 = 0 if kind == 'low' else V.real('f0', 0.01, 0.49)
    osr = V.real('osr', 1.5, 256) if not usual else 64
    if kind != 'low':
        V.assume(f0 * osr >= 0.2501)
        V.assume((0.5 - f0) * osr >= 0.2501)
    c = Cheby(V, lambda i, x: 1.5)
    try:
        r = c.run(order, osr, 0, 1.5, f0)
    except ValueError:
        V.check(kind != 'low' and order % 2, 'only odd band pass orders are refused')
        return
    V.check(kind == 'low' or order % 2 == 0, 'odd orders are refused for band pass designs')
    z, p, k = r
    V.check(k == 1 and len(z) == order and len(p) == order, 'order and gain')
    for n, rs, W, b in c.calls:
        if kind == 'low':
            V.check(b in ('high', 'highpass', 'hp') and n == order, 'low pass modulators have high pass NTFs')
            V.eq(W, 1 / osr, 'edge of the band', 1e-9)
        else:
            V.check(b in ('stop', 'bandstop', 'bs') and n == order // 2, 'band pass modulators have band stop NTFs')
            V.check(len(W) == 2, 'edges of the band')
            V.eq(W[0], 2 * (f0 - 0.25 / osr), 'edges of the band', 1e-9)
            V.eq(W[1], 2 * (f0 + 0.25 / osr), 'edges of the band', 1e-9)


def last(V, n):
    """The NTF is that of the last attenuation tried; attenuations stay in the bracket found so far."""
    H = V.real('H', 1.05, 10)
    g = [V.real('g%d' % i, 1.0, 20) for i in range(n)]
    c = Cheby(V, lambda i, x: g[min(i, n - 1)])     # the search ends when the gain does not change
    z, p, k = c.run(3, 32, 0, H)
    m = len(c.calls)
    V.check([float(x) for x in z] == [100.0 * m + j for j in range(3)], 'zeros are those of the last design')
    V.check([float(x) for x in p] == [100.0 * m + j + 0.5 for j in range(3)], 'poles are those of the last design')
    V.check(k == 1, 'unit gain')
    lo, hi = 0.0, 300.0
    for i, (_, x, _, _) in enumerate(c.calls):
        V.le(lo, x, 'attenuations are not less than those too small', 1e-6)
        V.le(x, hi, 'attenuations are not more than those too large', 1e-6)
        big = g[min(i, n - 1)] > H
        lo, hi = V.ite(big, lo, x), V.ite(big, x, hi)


def converges(V, side, usual=False):
    """When the gain is an affine function of the attenuation, the gain limit is met exactly, if any attenuation in the range allows it."""
    a = 0.03125
    H = V.real('H', 1.05, 10) if not usual else 1.5
    # attenuation at which the gain is H
    t = V.real('t', -100, 290 if side != 'high' else 400)
    V.assume(t >= 0) if side == 'in' else V.assume(t <= -1) if side == 'low' else V.assume(t >= 301)
    c = Cheby(V, lambda i, x: H + a * (x - t))
    c.run(3, 32, 0, H)
    x = c.calls[-1][1]
    V.check(len(c.calls) <= 10, 'the search ends')
    V.eq(x, t if side == 'in' else 0.0 if side == 'low' else 300.0, 'attenuation', 2e-4)


def instances(tier):
    out = []

    def add(body, **p):
        nm = body.__name__ + ''.join('-%s' % (v,) for k, v in sorted(p.items()))
        out.append(Instance(nm, body, p, timeout=30, samples=4, rtol=1e-6, nodiv0=True, bounds='osr any in [1.5,256], centers any in [0.01,0.49], gains any in [1,20]'))
    for kind in ('low', 'band'):
        for o in (1, 2, 3, 4, 5, 6) + ((7, 8) if tier != 'quick' else ()):
            add(design, order=o, kind=kind)
    for n in (1, 2, 3) + ((4,) if tier != 'quick' else ()):
        add(last, n=n)
    for s in ('in', 'low', 'high'):
        add(converges, side=s)
        add(converges, side=s, usual=True)
    add(design, order=3, kind='low', usual=True)
    add(design, order=2, kind='band', usual=True)
    return out
