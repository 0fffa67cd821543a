# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from pydsm.relab import eps
from pydsm.utilities import is_negligible, chop, mdot, EPS

ASSUMPTIONS = ('real arithmetic in the symbolic runs (IEEE rounding is outside)',
               'np.spacing and np.nextafter are modelled by the binade of their argument (double precision, moduli in [2^-8,2^8))')


def distance(V, ax):
    """2^52 times the distance of ax to the next double."""
    r = 2.0 ** -4
    for k in range(-3, 4):
        r = V.ite(ax >= 2.0 ** k, 2.0 ** k, r)
    return r


def eps_value(V, n, form, neg):
    x = [V.real('x%d' % i, 0.0625, 15.999) for i in range(n)]
    s = [-t if neg and i % 2 == 0 else t for i, t in enumerate(x)]
    d = eps(s[0] if form == 'scalar' else list(s) if form == 'list' else V.mk(s))
    V.check(np.shape(d) == (() if form == 'scalar' else (n,)), 'same shape')
    for i in range(n):
        V.eq((d if form == 'scalar' else d[i]) * 2.0 ** 52, distance(V, x[i]), 'distance to the next number')


def eps_fixed(V):
    """Numeric types, integers and single precision."""
    for t, e in ((float, 2.0 ** -52), (np.float32, 2.0 ** -23), (np.float64, 2.0 ** -52), (np.dtype('f4'), 2.0 ** -23),
                 (complex, 2.0 ** -52), (np.complex64, 2.0 ** -23)):
        V.eq(float(eps(t)) / e, 1, 'accuracy of a numeric type')
    V.eq(eps() * 2.0 ** 52, 1, 'default')
    V.eq(eps(3) * 2.0 ** 51, 1, 'integer')
    V.eq(V.mk(eps([1, 4, -7])) * 2.0 ** 52, V.mk([1.0, 4.0, 4.0]), 'integers')
    V.eq(float(eps(np.float32(3))) * 2.0 ** 22, 1, 'single precision')


def negligible(V, n, cplx, tol, form):
    x = [V.cplx('x%d' % i, -1, 1) if cplx else V.real('x%d' % i, -1, 1) for i in range(n)]
    t = V.real('tol', 0.001, 1) if tol else None
    a = x[0] if form == 'scalar' else list(x) if form == 'list' else V.mk(x)
    y = is_negligible(a, t) if tol else is_negligible(a)
    z = chop(a, t) if tol else chop(a)
    if not tol:
        t = 100 * 2.0 ** -52
    if form != 'scalar':
        V.check(np.shape(y) == (n,) and np.shape(z) == (n,), 'same shape')
    for i, v in enumerate(x):
        yi, zi = (y, z) if form == 'scalar' else (y[i], z[i])
        if cplx:
            m = v.real * v.real + v.imag * v.imag < t * t
            V.eq(zi.real, V.ite(V.all([v.real < t, v.real > -t]), 0.0, v.real), 'chopped real part')
            V.eq(zi.imag, V.ite(V.all([v.imag < t, v.imag > -t]), 0.0, v.imag), 'chopped imaginary part')
        else:
            m = V.all([v < t, v > -t])
            V.eq(zi, V.ite(m, 0.0, v), 'chopped value')
        if V.symbolic or not cplx:
            V.check(V.same(yi, m), 'negligible when the modulus is below the tolerance')


def small(V, form):
    """Around the default tolerance."""
    x = V.real('x', -4, 4) * 2.0 ** -46
    t = 100 * 2.0 ** -52
    a = x if form == 'scalar' else V.mk([x, 1.0])
    z = chop(a)
    z = z if form == 'scalar' else z[0]
    V.eq(z * 2.0 ** 46, V.ite(V.all([x < t, x > -t]), 0.0, x * 2.0 ** 46), 'chopped value')
    y = is_negligible(a)
    y = y if form == 'scalar' else y[0]
    m = V.all([x < t, x > -t])
    V.check(V.same(y, m), 'negligible when the modulus is below the tolerance')


def copied(V):
    x = V.array('x', 3, -1, 1)
    keep = list(x)
    chop(x, 0.5)
    V.eq(x, V.mk(keep), 'the input is not altered')


def product(V, shapes):
    ms = [V.array('m%d' % i, int(np.prod(s)), -2, 2).reshape(s) for i, s in enumerate(shapes)]
    y = mdot(*ms)
    e = ms[0]
    for m in ms[1:]:
        if e.ndim == 1 and m.ndim == 1:
            e = sum((p * q for p, q in zip(e, m)), 0.0)
        else:
            A = e.reshape(1, -1) if e.ndim == 1 else e
            B = m.reshape(-1, 1) if m.ndim == 1 else m
            c = V.mk([[sum((A[i, k] * B[k, j] for k in range(A.shape[1])), 0.0) for j in range(B.shape[1])] for i in range(A.shape[0])])
            e = c.reshape(-1) if e.ndim == 1 or m.ndim == 1 else c
    V.eq(y, e, 'product of the matrices')


def instances(tier):
    out = []

    def add(name, body, bounds, **p):
        out.append(Instance(name, body, p, bounds=bounds, timeout=15))
    for form, n in (('scalar', 1), ('list', 2), ('array', 3)):
        for neg in (False, True):
            add('eps-%s-%d' % (form, neg), eps_value, 'moduli in [1/16,16)', n=n, form=form, neg=neg)
    add('eps-fixed', eps_fixed, 'numeric types, integers, single precision')
    for form, n in (('scalar', 1), ('list', 2), ('array', 2)):
        for cplx in (False, True):
            for tol in (False, True):
                add('chop-%s-%d%d' % (form, cplx, tol), negligible, 'parts in [-1,1], tolerance in [.001,1]', n=n, cplx=cplx, tol=tol, form=form)
        add('small-' + form, small, 'values around the default tolerance', form=form)
    add('copied', copied, '3 values in [-1,1]')
    for i, sh in enumerate((((2, 2),), ((2, 2), (2, 2)), ((2, 3), (3, 1), (1, 2)), ((3,), (3, 2), (2,)), ((2, 2), (2,)), ((1, 2), (2, 2), (2, 2), (2, 1)))):
        add('product%d' % i, product, 'entries in [-2,2]', shapes=sh)
    return out
