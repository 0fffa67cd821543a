# -*- coding: utf-8 -*-
import itertools
import numpy as np
from sx.run import Instance
from pydsm.relab import cplxpair
import pydsm.utilities

ASSUMPTIONS = ('real arithmetic in the symbolic runs (IEEE rounding is outside): pairs are exact conjugates',)
UNPAIRED = 'exception of the documented kind'


def flag(V, x, y):
    """Truth value of x == y for numbers of the input."""
    return V.all([re(x) == re(y), im(x) == im(y)])


def re(x):
    return x.real


def im(x):
    return x.imag


def power_sums(V, x, y, lab):
    """Same values, whatever the order: same power sums."""
    n = len(x)
    for k in range(1, n + 1):
        a = b = 0.0
        for u, v in zip(x, y):
            a, b = a + u ** k, b + v ** k
        V.eq(b, a, lab, tol=1e-6)


def well_formed(V, y, npair, nreal, lab=''):
    V.check(np.shape(y) == (2 * npair + nreal,), lab + 'as many values')
    for i in range(npair):
        a, b = y[2 * i], y[2 * i + 1]
        V.eq(re(a), re(b), lab + 'members of a pair are together')
        V.eq(im(a), -im(b), lab + 'members of a pair are together')
        V.check(V.any([im(a) > 0, im(a) < 0]), lab + 'pairs come first')
        if i:
            V.le(re(y[2 * i - 1]), re(a), lab + 'pairs by increasing real part', tol=1e-8)
    for i in range(nreal):
        V.eq(im(y[2 * npair + i]), 0, lab + 'real values come last')
        if i:
            V.le(re(y[2 * npair + i - 1]), re(y[2 * npair + i]), lab + 'real values are sorted')


def values(V, npair, nreal, samere=False, negim=False):
    """Pairs with parts away from the real axis, and real values."""
    out = []
    r0 = V.real('re0', -2, 2) if npair else None
    for i in range(npair):
        r = r0 if samere or i == 0 else V.real('re%d' % i, -2, 2)
        m = V.real('im%d' % i, 0.1, 2)
        c = mk(V, r, m)
        out += [c, V.cj(c)]
    for i in range(nreal):
        out.append(V.real('x%d' % i, -2, 2))
    return out


def mk(V, r, m):
    return r + 1j * m


def pairs(V, npair, nreal, perm, samere, form, alias):
    x = values(V, npair, nreal, samere)
    if npair > 2 and not samere:
        # distinct real parts keep the cases few
        for i in range(npair):
            for j in range(i):
                d = x[2 * i].real - x[2 * j].real
                V.assume(V.any([d > 0.05, d < -0.05]))
    x = [x[i] for i in perm]
    a = V.mk(x) if form == 'array' else list(x)
    if alias:
        y = pydsm.utilities.cplxpair(a)
    else:
        y = cplxpair(a) if form != 'tol' else cplxpair(V.mk(x), 1e-9)
    well_formed(V, y, npair, nreal)
    power_sums(V, x, list(y), 'same values')


def near(V, nreal, tol, scale):
    """Values within the relative tolerance count as conjugate; the result has exact pairs."""
    r, m = V.real('r', 0.5, 2), V.real('m', 0.1, 2)
    d, e = V.real('d', -0.3, 0.3), V.real('e', -0.3, 0.3)
    r, m, d, e = r * scale, m * scale, d * scale, e * scale
    x = [mk(V, r, m), mk(V, r + d * tol, -m + e * tol)] + [V.real('x%d' % i, -2, 2) for i in range(nreal)]
    y = cplxpair(V.mk(x), tol)
    well_formed(V, y, 1, nreal)
    V.le(re(y[0]), r + tol * scale, 'real part within the tolerance')
    V.le(r - tol * scale, re(y[0]), 'real part within the tolerance')


def almost_real(V, tol):
    """An imaginary part within the relative tolerance is dropped."""
    r, m = V.real('r', 0.5, 2), V.real('m', -0.4, 0.4)
    y = cplxpair(V.mk([mk(V, r, m * tol), V.real('x', -2, 2)]), tol)
    well_formed(V, y, 0, 2)


def unpaired(V, kind):
    c = mk(V, V.real('r0', -2, 2), V.real('m0', 0.1, 2))
    d = mk(V, V.real('r1', -2, 2), V.real('m1', 0.1, 2))
    x = V.real('x', -2, 2)
    t = V.real('t', 0.01, 1)
    if kind == 'one':
        v = [x, c]
    elif kind == 'both-up':
        v = [c, d, x]
    elif kind == 'real-parts':
        v = [c, V.cj(c) + t]
    elif kind == 'imag-parts':
        v = [c, V.cj(c) - 1j * t]
    elif kind == 'relative':
        # close in absolute terms, but not with respect to their modulus
        c = mk(V, 0.001 * c.real, 0.001 * c.imag)
        r = V.call(cplxpair, (ValueError,), V.mk([c, V.cj(c) + (t + 3) * 1e-5]), 1e-3)
        V.check(r[0] == 'exc', 'values that cannot be paired raise ValueError')
        return
    elif kind == 'three':
        v = [c, d, V.cj(c)]
    elif kind == 'same-real':
        v = [c, V.cj(c), mk(V, c.real, d.imag), mk(V, c.real, -d.imag - t)]
    else:
        v = [V.cj(c), d, c, d]
    r = V.call(cplxpair, (ValueError,), V.mk(v))
    V.check(r[0] == 'exc', 'values that cannot be paired raise ValueError')


def along(V, shape, dim):
    """Multidimensional arrays are processed along one axis."""
    ax = dim if dim is not None else next((i for i, v in enumerate(shape) if v > 1), 0)
    n = shape[ax]
    lanes = int(np.prod(shape)) // n
    x = [[] for _ in range(lanes)]
    for l in range(lanes):
        m = V.real('im%d' % l, 0.1, 2)
        r = V.real('re%d' % l, -2, 2)
        rest = [V.real('x%d.%d' % (l, i), -2, 2) for i in range(n - 2)]
        c = mk(V, r, m)
        x[l] = ([c] + rest + [V.cj(c)]) if l % 2 == 0 else ([V.cj(c)] + rest + [c])
    sh = [s for i, s in enumerate(shape) if i != ax]
    a = V.mk(x).reshape(sh + [n])
    a = np.moveaxis(a, -1, ax)
    y = cplxpair(a) if dim is None else cplxpair(a, dim=dim)
    V.check(np.shape(y) == tuple(shape), 'same shape')
    y = np.moveaxis(y, ax, -1).reshape(lanes, n)
    for l in range(lanes):
        well_formed(V, y[l], 1, n - 2)
        power_sums(V, x[l], list(y[l]), 'same values')


def integers(V, data, dim, exp):
    y = cplxpair(data) if dim is None else cplxpair(data, dim=dim)
    V.eq(V.mk(y), V.mk(exp), 'integers')


def instances(tier):
    out = []

    def add(name, body, bounds, thorough=False, **p):
        out.append(Instance(name, body, p, bounds=bounds, timeout=20, thorough=thorough, max_paths=3000))
    for npair, nreal in ((0, 1), (0, 3), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (3, 0)):
        n = 2 * npair + nreal
        perms = [list(range(n)), list(range(n))[::-1], list(range(0, n, 2)) + list(range(1, n, 2)),
                 list(range(1, n, 2)) + list(range(0, n, 2))]
        seen = []
        for i, p in enumerate(perms):
            if p in seen:
                continue
            seen.append(p)
            for samere in (False, True) if npair > 1 else (False,):
                add('pairs-%d-%d-o%d%s' % (npair, nreal, i, '-same' if samere else ''), pairs,
                    '%d pairs (imaginary part in [.1,2], real part in [-2,2]), %d reals' % (npair, nreal),
                    thorough=npair == 3 and i > 1, npair=npair, nreal=nreal, perm=p, samere=samere,
                    form=('array', 'list', 'tol', 'list')[i], alias=i == 3)
    for t in (1e-3, 1e-9):
        for sc in (1.0, 1024.0):
            add('near-%g-%g' % (t, sc), near, 'a pair within the tolerance %g, scale %g' % (t, sc), thorough=t < 1e-4, nreal=1 if t < 1e-4 else 0, tol=t, scale=sc)
        add('almost-real-%g' % t, almost_real, 'imaginary part within the tolerance %g' % t, tol=t)
    for k in ('one', 'both-up', 'real-parts', 'imag-parts', 'relative', 'three', 'same-real', 'other'):
        add('unpaired-' + k, unpaired, 'values with parts in [-2,2], off the pairing by .01 or more', kind=k)
    for shape, dim in (((2, 2), None), ((2, 2), 1), ((3, 2), 0), ((2, 3), 1), ((1, 2), None), ((2, 1, 2), 2)):
        add('along-%s-%s' % ('x'.join(map(str, shape)), dim), along, 'one pair in each lane', shape=shape, dim=dim)
    for i, (d, dim, e) in enumerate((([3, 1, 2], None, [1, 2, 3]), (1, None, [1]), ([[5, 6, 4], [3, 2, 1]], None, [[3, 2, 1], [5, 6, 4]]),
                                     ([[5, 6, 4], [3, 2, 1]], 1, [[4, 5, 6], [1, 2, 3]]), ([], None, []), ([0, 0], None, [0, 0]))):
        add('integers%d' % i, integers, 'fixed integers', data=d, dim=dim, exp=e)
    return out
