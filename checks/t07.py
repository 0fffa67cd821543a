# -*- coding: utf-8 -*-
import cmath
import math
import numpy as np
from sx.run import Instance
from pydsm.delsig import rms, rmsGain

ASSUMPTIONS = ('real arithmetic in the symbolic runs (IEEE rounding is outside)',)


def sq(V, z):
    if hasattr(z, 'imag') and not isinstance(z, (int, float)):
        return z.real * z.real + z.imag * z.imag
    return z * z


def rms_value(V, n, cplx, lst, dc):
    x = V.carray('x', n, -4, 4) if cplx else V.array('x', n, -4, 4)
    a = list(x) if lst else x
    y = rms(a) if dc is None else rms(a, not dc)
    m = 0.0
    if dc is False:
        for v in x:
            m = m + v
        m = m * (1.0 / n)
    e = 0.0
    for v in x:
        e = e + sq(V, v - m)
    V.check(y >= 0, 'not negative')
    V.eq(y * y * n, e, 'mean of the squares', tol=1e-9)


def gain(V, form, f1, f2, N, nz=1, np_=1):
    """Square of the gain: average of the squared modulus on a linear grid."""
    if form == 'zpk':
        z = V.conj_roots('z', nz // 2, nz % 2, -2, 2)
        p = [0.5, -0.25, 0.3][:np_]
        k = V.real('k', -2, 2)
        H = (z, p, k)
        num = lambda s: k * prod([s - r for r in z])
    else:
        b = V.array('b', nz + 1, -2, 2)
        p = [0.5, -0.25, 0.3][:np_]
        H = (b, np.poly(p))
        num = lambda s: sum((c * s ** (nz - i) for i, c in enumerate(b)), 0.0)
    y = rmsGain(H, f1, f2) if N is None else rmsGain(H, f1, f2, N)
    M = 100 if N is None else N
    tot = 0.0
    for i in range(M):
        f = f1 + (f2 - f1) * i / (M - 1) if M > 1 else f1
        s = cmath.exp(2j * math.pi * f)
        d = prod([s - r for r in p])
        tot = tot + sq(V, num(s)) * (1.0 / abs(d) ** 2)
    V.check(y >= 0, 'not negative')
    V.eq(y * y * M, tot, 'average squared modulus of the response', tol=1e-6)


def prod(v):
    r = 1.0
    for x in v:
        r = r * x
    return r


def flat(V):
    """A pure delay has the gain of its scale factor on any band."""
    k = V.real('k', -3, 3)
    f1, f2 = V.real('f1', 0, 0.25), V.real('f2', 0.25, 0.5)
    y = rmsGain(([], [0.0, 0.0], k), f1, f2, 3)
    V.eq(y * y, k * k, 'gain of a delay', tol=1e-9)


def instances(tier):
    out = []

    def add(name, body, bounds, **p):
        out.append(Instance(name, body, p, bounds=bounds, timeout=15))
    for n in (1, 2, 3, 5, 8):
        for cplx in (False, True):
            for dc in (None, True, False):
                add('rms-%d%s-%s' % (n, 'c' if cplx else 'r', dc), rms_value, '%d samples in [-4,4]' % n, n=n, cplx=cplx, lst=n % 2 == 1, dc=dc)
    for form, f1, f2, N, nz, np_ in (('zpk', 0.0, 0.5, 8, 1, 1), ('zpk', 0.1, 0.2, 5, 2, 2), ('zpk', 0.0, 0.01, None, 2, 1), ('zpk', 0.0, 0.25, 4, 3, 3),
                                     ('nd', 0.0, 0.5, 8, 1, 1), ('nd', 0.2, 0.3, 6, 2, 2), ('nd', 0.0, 0.02, None, 2, 2), ('nd', 0.0, 0.0, 1, 2, 2)):
        add('gain-%s-%s-%d' % (form, N, nz), gain, 'order %d numerator with parameters in [-2,2], fixed poles, band [%g,%g]' % (nz, f1, f2),
            form=form, f1=f1, f2=f2, N=N, nz=nz, np_=np_)
    add('delay', flat, 'any band in [0,.5], scale in [-3,3]')
    return out
