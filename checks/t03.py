# -*- coding: utf-8 -*-
import math
import numpy as np
from sx.run import Instance
from pydsm.delsig import dbv, dbp, dbm, undbv, undbp, undbm
from pydsm.relab import db

ASSUMPTIONS = ('real arithmetic in the symbolic runs (IEEE rounding is outside)',)
INF = float('inf')


def log10(V, x):
    return V.ln(x) / math.log(10)


def p10(V, x):
    return V.exp(x * math.log(10))


def wrap(V, x, shape):
    if shape == 'scalar':
        return x[0]
    if shape == 'list':
        return list(x)
    if shape == 'matrix':
        return V.mk(x).reshape(2, -1)
    return V.mk(x)


def compare(V, y, exp, shape, what, tol=1e-9):
    if shape == 'scalar':
        V.check(np.ndim(y) == 0, 'scalar for a scalar')
        V.eq(y, exp[0], what, tol=tol)
    else:
        n = len(exp)
        V.check(np.shape(y) == ((2, n // 2) if shape == 'matrix' else (n,)), 'same shape')
        V.eq(V.mk(y).reshape(-1), V.mk(exp), what, tol=tol)


def to_db(V, fn, n, shape, sign, R):
    x = [V.real('x%d' % i, 0.001, 1000) for i in range(n)]
    s = [-1.0 if sign and i % 2 == 0 else 1.0 for i in range(n)]
    a = wrap(V, [p * q for p, q in zip(x, s)], shape)
    if fn == 'dbv':
        y, e = dbv(a), [20 * log10(V, t) for t in x]
    elif fn == 'dbp':
        y, e = dbp(a), [10 * log10(V, t) for t in x]
    elif fn == 'dbm':
        r = V.real('R', 0.1, 100) if R else 50.0
        y = dbm(a, r) if R else dbm(a)
        e = [20 * log10(V, t) - 10 * log10(V, r) + 30 for t in x]
    elif fn == 'db-power':
        a = V.mk(a) if shape == 'list' else a
        y, e = db(a, 'power'), [10 * log10(V, t) for t in x]
    else:
        a = V.mk(a) if shape == 'list' else a
        r = V.real('R', 0.1, 100) if R else 1.0
        y = db(a, R=r) if R else db(a)
        e = [20 * log10(V, t) - 10 * log10(V, r) for t in x]
    compare(V, y, e, shape, 'decibel value')


def zeros(V, fn):
    """Null entries give minus infinity, the others are not affected."""
    x = V.real('x', 0.001, 1000)
    f = {'dbv': dbv, 'dbp': dbp, 'dbm': dbm}[fn]
    k = {'dbv': 20, 'dbp': 10, 'dbm': 20}[fn]
    off = 30 - 10 * math.log10(50.) if fn == 'dbm' else 0
    y = f(V.mk([0.0, x, 0.0, -x]))
    e = k * log10(V, x) + off
    V.eq(y[0], -INF, 'null entry')
    V.eq(y[2], -INF, 'null entry')
    V.eq(y[1], e, 'decibel value', tol=1e-9)
    V.eq(y[3], e, 'decibel value', tol=1e-9)
    V.eq(f(0.0), -INF, 'null scalar')
    V.eq(f(0), -INF, 'null integer')
    V.eq(V.mk(f(np.array([1, 10, 100]))), V.mk([off, k + off, 2 * k + off]), 'integers', tol=1e-9)


def complex_ratio(V, fn):
    x = V.cplx('x', 0.1, 10)
    f = {'dbv': dbv, 'dbp': dbp, 'db': db}[fn]
    m = log10(V, x.real * x.real + x.imag * x.imag)
    V.eq(f(x), (5 if fn == 'dbp' else 10) * m, 'modulus in decibel', tol=1e-9)


def from_db(V, fn, n, shape, R):
    x = [V.real('x%d' % i, -60, 60) for i in range(n)]
    a = wrap(V, x, shape)
    tol = 1e-6
    if fn == 'undbv':
        y, e = undbv(a), [p10(V, t / 20) for t in x]
    elif fn == 'undbp':
        y, e = undbp(a), [p10(V, t / 10) for t in x]
    else:
        r = V.real('R', 0.1, 100) if R else 50.0
        y = undbm(a, r) if R else undbm(a)
        for v in V.mk(y).ravel():
            V.check(v >= 0, 'ratio not negative')
        y = y * y
        e = [r * p10(V, (t - 30) / 10) for t in x]
    compare(V, y, e, shape, 'ratio', tol=0.0 if V.symbolic else tol)


def inverse(V, fn):
    f, g = {'v': (dbv, undbv), 'p': (dbp, undbp), 'm': (dbm, undbm)}[fn]
    x, y = V.real('x', 0.01, 100), V.real('y', -60, 60)
    V.eq(f(g(y)), y, 'decibel of the inverse', tol=1e-9)
    r = g(f(x))
    V.check(r >= 0, 'inverse of the decibel not negative')
    V.le(r * r, x * x * (1 + 1e-9), 'inverse of the decibel')
    V.le(x * x * (1 - 1e-9), r * r, 'inverse of the decibel')


def instances(tier):
    out = []

    def add(name, body, bounds, **p):
        out.append(Instance(name, body, p, bounds=bounds, timeout=15))
    for fn in ('dbv', 'dbp', 'dbm', 'db', 'db-power'):
        for shape, n in (('scalar', 1), ('list', 2), ('array', 3), ('matrix', 4)):
            for sign in ((False, True) if fn[:2] == 'db' and fn not in ('db-power',) else (False,)):
                R = shape == 'scalar' and fn in ('dbm', 'db')
                add('%s-%s%s' % (fn, shape, '-neg' if sign else ''), to_db, '%d value(s) of modulus in [.001,1000]' % n,
                    fn=fn, n=n, shape=shape, sign=sign, R=R)
    for fn in ('dbv', 'dbp', 'dbm'):
        add(fn + '-zero', zeros, 'null and non-null entries, integers', fn=fn)
    for fn in ('dbv', 'dbp', 'db'):
        add(fn + '-complex', complex_ratio, 'complex value with parts in [.1,10]', fn=fn)
    for fn in ('undbv', 'undbp', 'undbm'):
        for shape, n in (('scalar', 1), ('list', 2), ('array', 3), ('matrix', 4)):
            add('%s-%s' % (fn, shape), from_db, '%d value(s) in [-60,60] dB' % n, fn=fn, n=n, shape=shape, R=shape == 'scalar')
    for fn in 'vpm':
        add('inverse-' + fn, inverse, 'ratios in [.01,100], decibels in [-60,60]', fn=fn)
    return out
