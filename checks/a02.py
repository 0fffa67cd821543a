# -*- coding: utf-8 -*-
import math
import numpy as np
import scipy.interpolate
from sx.run import Instance
from pydsm import iso226
from .dsgn import replaced

ASSUMPTIONS = ('tables typed from ISO 226:2003; interpolation itself (scipy) is replaced by a stand-in that records what it gets',)

F = [20, 25, 31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630, 800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000, 10000, 12500]
ALPHA = [.532, .506, .480, .455, .432, .409, .387, .367, .349, .330, .315, .301, .288, .276, .267, .259, .253, .250, .246, .244, .243, .243, .243,
         .242, .242, .245, .254, .271, .301]
LU = [-31.6, -27.2, -23.0, -19.1, -15.9, -13.0, -10.3, -8.1, -6.2, -4.5, -3.1, -2.0, -1.1, -0.4, 0.0, 0.3, 0.5, 0.0, -2.7, -4.1, -1.0, 1.7,
      2.5, 1.2, -2.1, -7.1, -11.2, -10.7, -3.1]
TF = [78.5, 68.7, 59.5, 51.1, 44.0, 37.5, 31.5, 26.5, 22.1, 17.9, 14.4, 11.4, 8.6, 6.2, 4.4, 3.0, 2.2, 2.4, 3.5, 1.7, -1.3, -4.2, -6.0, -5.4,
      -1.5, 6.0, 12.6, 13.9, 12.3]
TABLES = {'tabled_f': (F, 20000.0), 'tabled_alpha_f': (ALPHA, ALPHA[0]), 'tabled_L_U': (LU, LU[0]), 'tabled_T_f': (TF, TF[0])}
N = len(F)


def phons(V, lo=0, hi=90):
    """(E, L_N) with E = 10^(L_N/40)"""
    E = V.real('E', 10 ** (lo / 40.0) * (1 + 1e-9), 10 ** (hi / 40.0) * (1 - 1e-9))
    L = 40 * (V.ln(E) / math.log(10))
    V.assume(V.all([L >= lo, L <= hi]))
    return E, L


def dec(V, x):
    return V.exp(x * math.log(10))


def tables(V):
    for n, (t, last) in TABLES.items():
        for hfe in (False, True):
            V.eq(getattr(iso226, n)(hfe), np.array(t + [last] if hfe else t, dtype=float), '%s(%s)' % (n, hfe))


def thr(i):
    return (0.4 * 10 ** ((TF[i] + LU[i]) / 10 - 9)) ** ALPHA[i]


def levels(V, form):
    """L_p(L_N), ISO 226 sect. 4.1"""
    E, L = phons(V)
    for hfe in (False, True):
        if form == 'contour':
            f, lp = iso226.iso226_spl_contour(L, hfe)
            V.eq(f, np.array(F + [20000.0] if hfe else F), 'frequencies of the contour')
        else:
            lp = iso226.tabled_L_p(L, hfe)
        V.check(np.shape(lp) == (N + hfe,), 'one level for each tabled frequency')
        if hfe:
            V.eq(lp[N], lp[0], 'the level at 20 Hz is used at 20 kHz')
        if form == 'points':
            continue
        for i in range(N):
            A = 4.47e-3 * (E - 1.15) + thr(i)
            V.near(dec(V, (lp[i] + LU[i] - 94) * ALPHA[i] / 10), A, 'sound pressure level at %g Hz' % F[i], 1e-7)


def phon(V):
    """At 1 kHz sound pressure level and loudness level agree by definition (the rounded formulas: within 0.02 dB)."""
    E, L = phons(V)
    lp = iso226.tabled_L_p(L)[F.index(1000)]
    V.near(dec(V, lp / 40), E, 'sound pressure level at 1 kHz', 10 ** (0.02 / 40) - 1)


def loudness(V, lo):
    """L_N(L_p), ISO 226 sect. 4.2"""
    P = V.real('P', lo, 120)
    ln = iso226.tabled_L_N(P, True)
    V.check(np.shape(ln) == (N + 1,), 'one level for each tabled frequency')
    V.check(np.shape(iso226.tabled_L_N(P)) == (N,), 'one level for each tabled frequency')
    V.eq(ln[N], ln[0], 'the level at 20 Hz is used at 20 kHz')
    for i in range(N):
        if TF[i] > lo:
            continue
        B = (0.4 * dec(V, (P + LU[i]) / 10 - 9)) ** ALPHA[i] - thr(i) + 0.005135
        V.near(dec(V, (ln[i] - 94) / 40), B, 'loudness at %g Hz' % F[i], 1e-7)


def inverse(V):
    """Loudness of the sound pressure levels on a contour is that of the contour (rounded formulas: within 0.06 phon)."""
    E, L = phons(V)
    back = iso226.tabled_L_N(iso226.tabled_L_p(L))
    for i in range(N):
        V.near(dec(V, back[i] / 40), E, 'loudness of a point of the contour at %g Hz' % F[i], 10 ** (0.06 / 40) - 1)


def domain(V):
    L = V.real('L', -200, 400)
    ok = V.all([L >= 0, L <= 90])
    with replaced(V, STUB):
        contours(V, L, ok)


def contours(V, L, ok):
    for g in (iso226.iso226_spl_contour, iso226.iso226_spl_itpl):
        r, _ = V.call(g, (ValueError,), L)
        V.check((r == 'ok') == bool(ok), 'contours exist from 0 to 90 phon')


REC = []


class Spline(object):
    def __init__(self, x, y, w=None, bbox=[None] * 2, k=3, ext=0, check_finite=False):
        self.x, self.y, self.k = x, y, k
        REC.append((w, bbox, ext))

    def __call__(self, f):
        return (self, f)


STUB = {'scipy.interpolate.InterpolatedUnivariateSpline': Spline}


def itpl(V):
    E, L = phons(V)
    with replaced(V, STUB):
        for hfe in (False, True):
            for k in (None, 1, 2, 5):
                s = iso226.iso226_spl_itpl(L, hfe) if k is None else iso226.iso226_spl_itpl(L, hfe, k)
                f, y = iso226.iso226_spl_contour(L, hfe)
                V.check(s.k == (k or 3), 'order of the interpolation')
                V.check(REC[-1][0] is None and list(REC[-1][1]) == [None, None], 'all the points weigh the same')
                V.eq(s.x, f, 'frequencies of the interpolated points')
                V.eq(s.y, y, 'levels of the interpolated points')
        d, f = iso226.iso226_spl_itpl(), iso226.iso226_spl_contour(40)
        V.eq(d.x, f[0], 'the contour at 40 phon by default')
        V.eq(d.y, f[1], 'the contour at 40 phon by default')


def instances(tier):
    b = 'loudness levels any real in [0, 90] phon'
    out = [Instance('tables', tables, bounds='all the tables')]
    for form in ('points', 'table', 'contour'):
        out.append(Instance('levels-' + form, levels, dict(form=form), bounds=b, timeout=20))
    out.append(Instance('phon', phon, bounds=b))
    out.append(Instance('inverse', inverse, bounds=b))
    for lo in (20, 80):
        out.append(Instance('loudness-%d' % lo, loudness, dict(lo=lo), bounds='sound pressure levels any real in [%d, 120] dB' % lo))
    out.append(Instance('domain', domain, stubs=STUB, bounds='any real in [-200, 400]'))
    out.append(Instance('itpl', itpl, stubs=STUB, bounds=b + ', orders 1, 2, 3, 5'))
    return out
