# -*- coding: utf-8 -*-
import math
import numpy as np
from sx.run import Instance
from pydsm.ir import impulse_response, guess_ir_length
from .d04 import polymul

ASSUMPTIONS = ('real arithmetic in the symbolic runs (IEEE rounding is outside)',)


def series(V, num, den, n):
    h = []
    for i in range(n):
        s = num[i] if i < len(num) else 0.0
        for j in range(1, len(den)):
            if i - j >= 0:
                s = s - den[j] * h[i - j]
        h.append(s / den[0])
    return h


def from_zpk(V, nz, np_, m):
    z = V.conj_roots('z', nz // 2, nz % 2, -2, 2)
    p = V.conj_roots('p', np_ // 2, np_ % 2, -1, 1)
    k = V.real('k', -2, 2)
    h = impulse_response((z, p, k), m)
    num = [k * c for c in polymul(None, list(z))]
    V.check(np.shape(h) == (m,), 'requested number of samples')
    V.eq(h, V.mk(series(V, num, polymul(None, list(p)), m)), 'samples of the impulse response')


def from_nd(V, nb, na, m, lead):
    b = V.array('b', nb, -2, 2)
    a = V.array('a', na, -1, 1)
    if not lead:
        a = V.mk([1.0] + list(a)[1:])
    else:
        V.assume(V.any([a[0] >= 0.25, a[0] <= -0.25]))
    h = impulse_response((b, a), m)
    V.eq(h, V.mk(series(V, list(b), list(a), m)), 'samples of the impulse response')


def settled(V, m, nz, mags, db, lab):
    """m-nz-1 is the least number of steps in which every pole decays by db."""
    t = m - nz - 1
    c = db / 20 * math.log(10)
    for i, r in enumerate(mags):
        V.check(t * -V.ln(r) >= c * (1 - 1e-9), lab + ': pole %d has decayed' % i)
    V.check(V.any([(t - 1) * -V.ln(r) < c * (1 + 1e-9) for r in mags]), lab + ': no longer than that')


def guess_real(V, n, nz, lo, hi, dbr, neg):
    p = [V.real('p%d' % i, lo, hi) for i in range(n)]
    db = V.real('db', *dbr)
    z = [0.5] * nz
    s = [-1 if neg and i % 2 == 0 else 1 for i in range(n)]
    m = guess_ir_length((z, [a * b for a, b in zip(s, p)], 1.0), db)
    V.check(isinstance(m, int) or V.symbolic, 'an integer')
    settled(V, m, nz, p, db, 'length')


def guess_cases(V, poles, nz, default):
    """Fixed poles, any attenuation."""
    db = 80 if default else V.real('db', 1, 200)
    mags = [abs(x) for x in poles]
    h = ([0.3] * nz, poles, 1.0)
    m = guess_ir_length(h) if default else guess_ir_length(h, db)
    if not poles or max(mags) == 0:
        V.eq(m, nz + 1, 'nothing to wait for beyond the zeros')
    else:
        settled(V, m, nz, [max(mags)], db, 'length')


def guess_nd(V, neg):
    """The polynomial form gives the same length as the zero-pole form."""
    p = V.real('p', 0.1, 0.9)
    z = V.real('z', -1, 1)
    s = -1 if neg else 1
    db = V.real('db', 1, 200)
    a = guess_ir_length(([1.0, -z], [1.0, -s * p]), db)
    settled(V, a, 1, [p], db, 'length from coefficients')


def default_length(V, nd):
    """Without a length, the guess is used; its samples are the right ones."""
    p = V.real('p', 0.25, 0.5)
    db = V.real('db', 3, 10)
    h = ([0.0], [p], 1.0) if not nd else ([1.0, 0.0], [1.0, -p])
    r = impulse_response(h, db=db)
    m = guess_ir_length(h, db)
    V.check(len(r) == m, 'as many samples as guessed')
    e = [1.0]
    for i in range(len(r) - 1):
        e.append(e[-1] * p)
    V.eq(r, V.mk(e), 'samples of the impulse response')


def instances(tier):
    out = []

    def add(name, body, bounds, thorough=False, **p):
        out.append(Instance(name, body, p, bounds=bounds, thorough=thorough, timeout=15))
    for nz, np_, m in ((1, 1, 4), (2, 2, 5), (0, 1, 4), (3, 2, 5), (2, 0, 4), (4, 4, 6), (3, 3, 6)):
        add('zpk-%d-%d' % (nz, np_), from_zpk, '%d zeros and %d poles (conjugate pairs), %d samples' % (nz, np_, m), nz=nz, np_=np_, m=m)
    for nb, na, m, lead in ((2, 2, 4, False), (3, 3, 5, False), (1, 3, 5, False), (4, 1, 5, False), (2, 3, 4, True), (3, 2, 1, False), (5, 5, 8, False)):
        add('nd-%d-%d-%d%d' % (nb, na, m, lead), from_nd, '%d/%d coefficients, %d samples' % (nb, na, m), nb=nb, na=na, m=m, lead=lead)
    for n, nz, lo, hi, dbr, neg in ((1, 0, 0.05, 0.95, (1, 200), False), (1, 2, 0.5, 0.99, (20, 120), True), (2, 2, 0.1, 0.9, (1, 200), True), (3, 1, 0.1, 0.9, (40, 80), False)):
        add('guess-%d-%d-%d' % (n, nz, neg), guess_real, '%d poles of modulus in [%g,%g], attenuation in %s dB' % (n, lo, hi, dbr), n=n, nz=nz, lo=lo, hi=hi, dbr=dbr, neg=neg)
    for i, (poles, nz) in enumerate((([], 3), ([0.0], 1), ([0.5 + 0.5j, 0.5 - 0.5j], 2), ([0.9, -0.2, 0.3j, -0.3j], 4), ([0.0, 0.8, 0.1], 0))):
        for d in (False, True):
            add('guess-fixed%d%s' % (i, '-default' if d else ''), guess_cases, 'poles %s, any attenuation in [1,200] dB' % poles, poles=poles, nz=nz, default=d)
    for neg in (False, True):
        add('guess-nd%d' % neg, guess_nd, 'one pole of modulus in [.1,.9], attenuation in [1,200] dB', neg=neg)
        add('default%d' % neg, default_length, 'one pole in [.25,.5], attenuation in [3,10] dB', nd=neg)
    return out
