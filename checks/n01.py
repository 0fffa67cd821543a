# -*- coding: utf-8 -*-
import numpy as np
from fractions import Fraction
from sx.run import Instance
from pydsm.delsig._ds import ds_optzeros, ds_f1f2

ASSUMPTIONS = ('optimality is with respect to the integral of the squared product of the distances from the zeros over the normalised band, '
               'as in the white noise, narrow band approximation',)


def noise(z, n):
    """Integral over [-1,1] of the squared product of (x - z_i), z paired; z: list of squares of the positive zeros, and n overall."""
    odd = n - 2 * len(z)
    # polynomial in x, coefficients from the lowest one
    p = [0] * odd + [1]
    for s in z:
        q = [0] * (len(p) + 2)
        for i, c in enumerate(p):
            q[i + 2] = q[i + 2] + c
            q[i] = q[i] - s * c
        p = q
    r = 0.0
    for i, a in enumerate(p):
        for j, b in enumerate(p):
            if (i + j) % 2 == 0:
                if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0:
                    continue
                r = r + a * b * (Fraction(2, i + j + 1) if isinstance(a * b, (int, Fraction)) else 2.0 / (i + j + 1))
    return r


def structure(V, n, opt):
    z = ds_optzeros(n, opt)
    V.check(np.shape(z) == (n,), 'as many zeros as requested')
    z = [float(x) for x in z]
    V.check(sorted(z) == sorted(-x for x in z), 'zeros are symmetric')
    V.check(all(-1 <= x <= 1 for x in z), 'zeros are in the signal band')
    if opt == 0:
        V.check(all(x == 0 for x in z), 'all the zeros are at the center of the band')
    if opt == 2 or n % 2:
        V.check(0.0 in z, 'a zero is at the center of the band')
    V.check(all(z[i] == -z[i + 1] for i in range(n % 2, n, 2)), 'zeros are paired')


def optimal(V, n, opt, i):
    """No value of a pair of zeros gives less noise."""
    z = sorted(float(x) for x in ds_optzeros(n, opt))
    pos = z[(n + 1) // 2:]
    free = [x for x in pos if x > 0]
    if opt == 1:
        V.check(len(free) == n // 2, 'only one zero is at the center of the band')
    else:
        V.check(len(free) >= n // 2 - 1, 'no more than two zeros are at the center of the band')
    if i >= len(free):
        return
    sq = [Fraction(x) ** 2 for x in free]
    best = noise(sq, n)
    t = V.real('t', 0, 1.5)
    if V.symbolic:
        sq = [float(s) for s in sq]
        best = float(best)
    else:
        t = Fraction(t)     # exact arithmetic
    V.pos(noise(sq[:i] + [t * t] + sq[i + 1:], n) / best - (1 - Fraction(1, 10 ** 8)), 'other zeros give no less noise')


def orders(V, n, opt):
    try:
        z = ds_optzeros(n, opt)
    except ValueError:
        V.check(n > 14 and opt != 0, 'zeros are available up to order 14')
    else:
        V.check(n <= 14 or opt == 0, 'zeros are available up to order 14')
        V.check(len(z) == n, 'as many zeros as requested')


def band(V, cplx):
    osr = V.real('osr', 1, 1024)
    f0 = V.real('f0', 0, 0.5)
    if cplx is None:
        f1, f2 = ds_f1f2(osr, f0)
    else:
        f1, f2 = ds_f1f2(osr, f0, cplx)
    if cplx:
        V.eq(f1 * osr, f0 * osr - 0.5, 'lower extreme')
        V.eq(f2 * osr, f0 * osr + 0.5, 'higher extreme')
        return
    lp = f0 * osr <= 0.25
    V.eq((f2 - f1) * osr, 0.5, 'width of the band')
    V.check(f1 >= 0, 'frequencies are not negative')
    if bool(lp):
        V.eq(f1, 0.0, 'lowpass band')
    else:
        V.eq((f2 + f1) / 2, f0, 'center of the band')


def defaults(V):
    f0 = V.real('f0', 0, 0.5)
    osr = V.real('osr', 1, 1024)
    V.eq(np.array(ds_f1f2()), np.array(ds_f1f2(64, 0)), 'default values')
    V.eq(np.array(ds_f1f2(f0=f0)), np.array(ds_f1f2(64, f0, False)), 'default values')
    V.eq(np.array(ds_f1f2(osr)), np.array(ds_f1f2(osr, 0, False)), 'default values')
    for n in (2, 3, 8):
        V.eq(ds_optzeros(n), ds_optzeros(n, 1), 'default values')


def instances(tier):
    out = []
    for n in range(1, 15):
        for opt in (0, 1, 2):
            out.append(Instance('structure-%d-%d' % (n, opt), structure, dict(n=n, opt=opt), bounds='order %d' % n))
            if opt:
                for i in range(n // 2):
                    out.append(Instance('optimal-%d-%d-%d' % (n, opt, i), optimal, dict(n=n, opt=opt, i=i), bounds='a pair of zeros any real in [0, 1.5]'))
    for n in (15, 16, 40):
        for opt in (0, 1, 2):
            out.append(Instance('orders-%d-%d' % (n, opt), orders, dict(n=n, opt=opt), bounds='order %d' % n))
    for c in (None, False, True):
        out.append(Instance('band-%s' % c, band, dict(cplx=c), bounds='osr any real in [1, 1024], f0 in [0, 0.5]'))
    out.append(Instance('defaults', defaults, bounds='osr any real in [1, 1024], f0 in [0, 0.5]'))
    return out
