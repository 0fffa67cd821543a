# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from pydsm.NTFdesign.weighting import mult_weightings

ASSUMPTIONS = ('the frequency enters through cos and sin of 2 pi f, a point of the unit circle',)


def zpoint(V, f):
    return V.cos(2 * np.pi * f), V.sin(2 * np.pi * f)


def cmul(x, y):
    return x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]


def pol(c, z):
    """Squared magnitude of a polynomial with real coefficients at a point."""
    r = (0.0, 0.0)
    for x in c:
        r = cmul(r, z)
        r = r[0] + x, r[1]
    return r[0] * r[0] + r[1] * r[1]


def monic(rs, z):
    d = 1.0
    for p in rs:
        d = d * ((z[0] - p) ** 2 + z[1] ** 2)
    return d


def factor(V, kind, n, nm):
    """A weighting, and its value at f as numerator and denominator."""
    if kind == 'fun':
        c = V.array(nm, n + 1, -2, 2)

        def w(f):
            r = c[n]
            for i in range(n):
                r = r * f + c[n - 1 - i]
            return r
        return w, lambda f, z: (w(f), 1.0)
    if kind == 'ba':
        b = V.array(nm + 'b', n + 1, -2, 2)
        a = V._mkarr(np.array([1.0] + [V.real(nm + 'a%d' % i, -0.9, 0.9) for i in range(n)], dtype=object))
        return (b, a), lambda f, z: (pol(list(b), z), pol(list(a), z))
    zz = V.array(nm + 'z', n, -2, 2)
    p = V.array(nm + 'p', n, -0.9, 0.9)
    k = V.real(nm + 'k', -3, 3)
    return (zz, p, k), lambda f, z: (k * k * monic(list(zz), z), monic(list(p), z))


def product(V, kinds, n, tol=1e-7):
    ws, vs = zip(*[factor(V, k, n, 'w%d' % i) for i, k in enumerate(kinds)])
    f = V.real('f', 0, 0.5)
    z = zpoint(V, f)
    got = mult_weightings(*ws)(f)
    num = den = 1.0
    for v in vs:
        x, y = v(f, z)
        num, den = num * x, den * y
    V.eq(got * den, num, 'the product of the weightings', tol)


def frequencies(V, kinds):
    """At an array of frequencies, an array."""
    ws, vs = zip(*[factor(V, k, 1, 'w%d' % i) for i, k in enumerate(kinds)])
    f = V.array('f', 3, 0, 0.5)
    got = mult_weightings(*ws)(f)
    V.check(np.shape(got) == (3,), 'shape')
    for i in range(3):
        V.eq(got[i], mult_weightings(*ws)(f[i]), 'value at each frequency', 1e-9)


def order(V, kinds):
    ws, vs = zip(*[factor(V, k, 1, 'w%d' % i) for i, k in enumerate(kinds)])
    f = V.real('f', 0, 0.5)
    V.eq(mult_weightings(*ws)(f), mult_weightings(*ws[::-1])(f), 'the order of the factors does not matter', 1e-7)


def instances(tier):
    out = []

    def add(body, **p):
        nm = body.__name__ + ''.join('-%s' % ('+'.join(v) if isinstance(v, tuple) else v,) for k, v in sorted(p.items()))
        out.append(Instance(nm, body, p, timeout=20, samples=4, rtol=1e-6, nodiv0=True,
                            bounds='weightings: polynomials of the frequency, filters with any real coefficients, zeros and gains in [-3,3], '
                                   'poles in [-0.9,0.9], frequency any in [0,1/2]'))
    for ks, n in ((('fun',), 2), (('fun', 'fun', 'fun'), 1), (('ba',), 1), (('ba',), 2), (('zpk',), 1), (('zpk',), 2), (('fun', 'ba'), 1), (('zpk', 'fun'), 1),
                  (('fun', 'zpk', 'fun'), 1)):
        add(product, kinds=ks, n=n)
    add(frequencies, kinds=('fun', 'fun'))
    add(frequencies, kinds=('ba', 'fun'))
    add(frequencies, kinds=('fun', 'zpk'))
    add(order, kinds=('ba', 'fun'))
    if tier != 'quick':
        add(product, kinds=('ba', 'zpk'), n=1)
        add(product, kinds=('ba', 'ba'), n=1)
        add(product, kinds=('zpk', 'zpk'), n=1)
    return out
