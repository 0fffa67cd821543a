# -*- coding: utf-8 -*-
import math
import numpy as np
from sx.run import Instance
from pydsm import audio_weightings as aw

ASSUMPTIONS = ('the curves of the standards are taken with the customary rounded pole frequencies (20.6, 107.7, 158.5, 737.9, 12200 Hz)',)
P2 = 12200.0


def ref(name, f):
    """Power weighting, up to a constant: squared amplitude response of the standard's network."""
    x = f * f
    if name in 'abc':
        r = x ** {'a': 4, 'b': 3, 'c': 2}[name]
        r = r / (x + 20.6 ** 2) ** 2 / (x + P2 ** 2) ** 2
        if name == 'a':
            r = r / (x + 107.7 ** 2) / (x + 737.9 ** 2)
        if name == 'b':
            r = r / (x + 158.5 ** 2)
        return r

    def pair(a, b):
        return (a * a + b * b - x) ** 2 + 4 * a * a * x
    if name == 'd':
        return x * pair(519.8, 876.2) / (x + 282.7 ** 2) / (x + 1160.0 ** 2) / pair(1712.0, 2628.0)
    r = x ** 3 * pair(580.0, 1030.0) * (pair(3180.0, 8750.0) / 1e16) ** 3
    r = r / (x + 180.0 ** 2) ** 3 / (x + 1630.0 ** 2) ** 2
    return r / (pair(2510.0, 3850.0) / 1e15) ** 4 / (pair(6620.0, 14290.0) / 1e17) ** 20


RANGE = {'a': (1, 50000), 'b': (1, 50000), 'c': (1, 50000), 'd': (1, 50000), 'f': (1, 24000)}
# the published D-weighting uses squared frequencies rounded to 5-7 digits
REL = {'a': 1e-9, 'b': 1e-9, 'c': 1e-9, 'd': 2e-3, 'f': 1e-9}


def freq(V, name):
    return V.real('f', *RANGE[name])


def curve(V, name):
    """The power weighting is the curve of the standard, normalised at 1 kHz."""
    w = getattr(aw, name + '_weighting')
    f = freq(V, name)
    V.near(w(f), ref(name, f) / ref(name, 1000.0), 'normalised power weighting', REL[name])


def raw(V, name):
    w = getattr(aw, name + '_weighting')
    f = freq(V, name)
    V.near(w(f, normal=False) / w(1000.0, normal=False), w(f), 'shape of the weighting without normalisation', 1e-9)
    g = getattr(aw, name + '_weighting_gain')
    if name != 'f':
        g = g * g
    V.near(w(f, normal=False) * g, w(f), 'normalization gain', 1e-9)
    V.near(w(1000.0), 1.0, 'unit gain at 1 kHz', 1e-9)
    V.near(w(1000.0, power=False), 1.0, 'unit gain at 1 kHz', 1e-9)


def power(V, name):
    """Power weighting is the square of the amplitude weighting, for scalars and arrays, with the same normalisation."""
    w = getattr(aw, name + '_weighting')
    f = V.array('f', 2, *RANGE[name])
    for normal in (True, False):
        a, p = w(f, normal=normal, power=False), w(f, normal, True)
        V.check(np.shape(a) == (2,) and np.shape(p) == (2,), 'as many values as frequencies')
        for i in range(2):
            V.near(a[i] * a[i], p[i], 'power weighting is the squared amplitude weighting', 1e-9)
            V.pos(a[i], 'amplitude weighting is positive')
            V.near(w(f[i], normal, True), p[i], 'values do not depend on the other frequencies', 1e-9)
            V.eq(w(f[i], normal, False), a[i], 'values do not depend on the other frequencies')


def zpk(V, name):
    """Filter form: amplitude response proportional to the weighting, stable and real."""
    z, p, k = getattr(aw, name + '_zpk')
    w = getattr(aw, name + '_weighting')
    V.check(len(z) <= len(p), 'the filter is proper')
    for x in p:
        V.check(complex(x).real < 0, 'the filter is stable')
    for r in (z, p):
        r = [complex(x) for x in r]
        V.check(all(abs(sum(1 for y in r if y == x) - sum(1 for y in r if y == x.conjugate())) == 0 for x in r), 'the filter is real')
    V.check(complex(k).imag == 0 and complex(k).real > 0, 'the gain is positive')

    def gain(f, f0):
        """|H(f)/H(f0)|^2"""
        r = 1.0
        for lst, sgn in ((z, 1), (p, -1)):
            # complex pairs are taken together, so that the response is a function of f^2
            rest = [complex(x) / (2 * math.pi) for x in lst]
            while rest:
                x = rest.pop()
                if abs(x.imag) < 1e-9 * (1 + abs(x)):
                    v, u = f * f + x.real ** 2, f0 * f0 + x.real ** 2
                else:
                    y = [t for t in rest if abs(t - x.conjugate()) < 1e-9 * abs(x)]
                    if y:
                        rest.remove(y[0])
                    a, m = x.real, abs(x) ** 2
                    v, u = (m - f * f) ** 2 + 4 * a * a * (f * f), (m - f0 * f0) ** 2 + 4 * a * a * f0 * f0
                v = v * (1 / u)
                r = r * v if sgn > 0 else r / v
        return r
    f = freq(V, name)
    V.near(gain(f, 1000.0), w(f), 'amplitude response of the filter', 1e-9 if name != 'd' else 2e-6)


def instances(tier):
    out = []
    for n in 'abcdf':
        for g in (curve, raw, power, zpk):
            out.append(Instance('%s-%s' % (g.__name__, n), g, dict(name=n), nodiv0=True, timeout=60, samples=4,
                                bounds='frequencies any real in [%d, %d] Hz' % RANGE[n]))
    return out
