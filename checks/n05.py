# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from sx import shim
from pydsm import NTFdesign
from pydsm.NTFdesign import filter_based, legacy, weighting, merit_factors

ASSUMPTIONS = ('scipy.integrate.quad is modelled by a 48 node Gauss-Legendre rule in the symbolic runs (its integrands are trigonometric polynomials or have '
               'poles away from the unit circle); concrete replays use the real one',)
TOL = 1e-7
POLES = {0: [], 1: [0.5], 2: [0.25, -0.4], 3: [0.3 + 0.4j, 0.3 - 0.4j]}


def impulse(num, den, n):
    """Impulse response of a filter."""
    y = []
    for i in range(n):
        s = num[i] if i < len(num) else 0.0
        for k in range(1, len(den)):
            if i - k >= 0 and den[k] != 0:
                s = s - y[i - k] * den[k]
        y.append(s)
    return y


def conv(a, b):
    r = [0.0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


def den(kind, order):
    d = [1.0]
    for p in POLES[kind]:
        d = conv(d, [1.0, -p])
    return [float(np.real(c)) for c in d]


def system(V, name, order, kind, form):
    """A filter with symbolic numerator and its impulse response (possibly truncated at negligible values)."""
    d = den(kind, order)
    n = 48 if kind else order + 1
    if form == 'zpk':
        z = V.array(name + 'z', order, -2, 2)
        k = V.real(name + 'k', 0.5, 2)
        num = [k]
        for i in range(order):
            num = conv(num, [1.0, -z[i]])
        p = POLES[kind] + [0.0] * (order - len(POLES[kind]))
        return (z, np.array(p), k), impulse(num, d, n)
    c = V.array(name, order + 1, -2, 2)
    c[0] = V.real(name + '0', 0.5, 2)
    V.changed(c)
    # as polynomials in z, same degree
    a = d + [0.0] * (order + 1 - len(d))
    return (c, np.array(a)), impulse(list(c), d, n)


def energy(h, f1, f2):
    """2 * integral of |H|^2 between f1 and f2."""
    r = 0.0
    for i, x in enumerate(h):
        for j, y in enumerate(h):
            w = 2 * (f2 - f1) if i == j else (np.sin(2 * np.pi * f2 * (i - j)) - np.sin(2 * np.pi * f1 * (i - j))) / (np.pi * (i - j))
            if abs(w) > 1e-14:
                r = r + x * y * float(w)
    return r


def plain(V, order, kind, form, bounds):
    ntf, h = system(V, 'b', order, kind, form)
    if bounds is None:
        g, (f1, f2) = NTFdesign.quantization_noise_gain(ntf), (0, 0.5)
    else:
        f1, f2 = bounds
        g = NTFdesign.quantization_noise_gain(ntf, bounds=bounds)
    e = energy(h, f1, f2)
    V.eq(g, e, 'noise gain', TOL)
    V.eq(NTFdesign.quantization_noise_gain(ntf, None, (f1, f2), True) * (f2 - f1) * 2, e, 'average noise gain', TOL)
    # a unit weight changes nothing
    V.eq(NTFdesign.quantization_noise_gain(ntf, lambda f: 1.0, (f1, f2)), e, 'noise gain with unit weight', TOL)


def filtered(V, order, kind, form, oh, kh, fh):
    """Weighting by a filter is the energy of the cascade."""
    ntf, h = system(V, 'b', order, kind, form)
    H, g = system(V, 'h', oh, kh, fh)
    e = energy(conv(h, g)[:60], 0, 0.5)
    V.eq(NTFdesign.quantization_noise_gain(ntf, H), e, 'noise gain after a filter', TOL)
    V.eq(filter_based.quantization_noise_gain(ntf, H, fh), e, 'noise gain after a filter (filter_based)', TOL)
    V.eq(weighting.quantization_weighted_noise_gain(ntf, H), e, 'noise gain after a filter (alias)', TOL)
    if not kh:
        V.eq(filter_based.quantization_noise_gain(ntf, np.array(g) if not V.symbolic else V._mkarr(g), 'imp'), e, 'noise gain after an impulse response', TOL)


def weighted(V, order, kind, form, m, bounds):
    """Weight functions that are cosine polynomials; magnitude responses are squared by filter_based."""
    ntf, h = system(V, 'b', order, kind, form)
    c = V.array('c', m, -2, 2)

    def w(f):
        r = c[0]
        for i in range(1, m):
            r = r + c[i] * np.cos(2 * np.pi * i * f)
        return r

    def w2(f):
        return w(f) ** 2
    f1, f2 = bounds

    def acc(weights):
        """2 * integral of |H|^2 * sum of weights[n] * cos(2 pi n f)"""
        r = 0.0
        for n, x in enumerate(weights):
            for i, a in enumerate(h):
                for j, b in enumerate(h):
                    t = 0.0
                    for s in (i - j + n, i - j - n):
                        t += (f2 - f1) if s == 0 else (np.sin(2 * np.pi * s * f2) - np.sin(2 * np.pi * s * f1)) / (2 * np.pi * s)
                    if abs(t) > 1e-14:
                        r = r + x * a * b * float(t)
        return r
    V.eq(NTFdesign.quantization_noise_gain(ntf, w, bounds), acc(list(c)), 'weighted noise gain', TOL)
    V.eq(NTFdesign.quantization_noise_gain(ntf, w, bounds, avg=True) * (2 * (f2 - f1)), acc(list(c)), 'weighted average noise gain', TOL)
    V.eq(weighting.quantization_weighted_noise_gain(ntf, w, bounds), acc(list(c)), 'weighted noise gain (alias)', TOL)
    if (f1, f2) == (0, 0.5) and m <= 2:
        sq = [0.0] * (2 * m - 1)
        for i in range(m):
            for j in range(m):
                for s in (i + j, abs(i - j)):
                    sq[s] = sq[s] + c[i] * c[j] * 0.5
        V.eq(filter_based.quantization_noise_gain(ntf, w, 'mag'), acc(sq), 'noise gain after a filter given by its magnitude response', TOL)


def byconv(V, order, form, oh, fh):
    ntf, h = system(V, 'b', order, 0, form)
    H, g = system(V, 'h', oh, 0, fh)
    e = energy(conv(h, g), 0, 0.5)
    for f in (legacy.quantization_noise_gain_by_conv, filter_based.quantization_noise_gain_by_conv):
        V.eq(f(ntf, np.array(g) if not V.symbolic else V._mkarr(g), 'imp'), e, 'noise gain by convolution with an impulse response', TOL)
        V.eq(f(ntf, H, fh), e, 'noise gain by convolution', TOL)
        try:
            f(ntf, H, 'mag')
        except ValueError:
            pass
        else:
            V.check(False, 'other filter types are refused')


def kinds(V):
    b = V.array('b', 2, -1, 1)
    ntf = (b, np.array([1.0, 0.0]))
    for bad in ('xyz', '', 'zpkx'):
        try:
            filter_based.quantization_noise_gain(ntf, ntf, bad)
        except ValueError:
            pass
        else:
            V.check(False, 'other filter types are refused')


def instances(tier):
    out = []

    def add(body, **p):
        nm = body.__name__ + ''.join('-%s' % (v,) for k, v in sorted(p.items()))
        out.append(Instance(nm.replace(' ', ''), body, p, stubs=shim.QUAD, timeout=20, nodiv0=True, samples=3, rtol=1e-6,
                            bounds='numerators or zeros any real in [-2,2], poles fixed'))
    for bounds in (None, (0.0, 0.125), (0.1, 0.4), (0.25, 0.5)):
        for form in ('ba', 'zpk'):
            add(plain, order=2, kind=0, form=form, bounds=bounds)
            if bounds is None or form == 'ba' and bounds[0] == 0.1:
                add(plain, order=2, kind=2, form=form, bounds=bounds)
            if tier == 'thorough':
                add(plain, order=3, kind=2, form=form, bounds=bounds)
    add(plain, order=1, kind=1, form='ba', bounds=None)
    add(plain, order=2, kind=3, form='zpk', bounds=(0.0, 0.25))
    for f in ('ba', 'zpk'):
        for g in ('ba', 'zpk'):
            add(filtered, order=2, kind=0, form=f, oh=1, kh=0, fh=g)
    add(filtered, order=1, kind=1, form='ba', oh=1, kh=0, fh='ba')
    add(filtered, order=1, kind=0, form='ba', oh=1, kh=1, fh='zpk')
    add(filtered, order=1, kind=0, form='ba', oh=2, kh=3, fh='ba')
    for m in (1, 2, 3):
        for bounds in ((0.0, 0.5), (0.05, 0.3)):
            add(weighted, order=2, kind=0, form='ba', m=m, bounds=bounds)
            add(weighted, order=1, kind=0, form='zpk', m=m, bounds=bounds)
    for f in ('ba', 'zpk'):
        for g in ('ba', 'zpk'):
            add(byconv, order=2, form=f, oh=1, fh=g)
    add(kinds)
    return out
