# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from sx import shim
from pydsm import NTFdesign
from pydsm.NTFdesign import filter_based, legacy, weighting
from .n05 import system, conv, TOL, ASSUMPTIONS  # noqa


def acorr(h, P):
    return [sum((h[n] * h[n - k] for n in range(k, len(h))), 0.0) for k in range(P + 1)]


def is_row(V, q, e, label):
    V.check(np.shape(q) == (len(e),), 'P+1 entries')
    for k in range(len(e)):
        V.eq(q[k], e[k], '%s [%d]' % (label, k), TOL)


def fromfilter(V, P, order, kind, form):
    H, h = system(V, 'h', order, kind, form)
    e = acorr(h, P)
    is_row(V, weighting.q0_weighting(P, H), e, 'autocorrelation of the filter')
    is_row(V, filter_based.q0_from_filter(P, H, form), e, 'autocorrelation of the filter (filter_based)')
    if form == 'zpk':
        is_row(V, filter_based.q0_from_filter(P, H), e, 'zpk form is the default')
    for bad in ('', 'xyz'):
        try:
            filter_based.q0_from_filter(P, H, bad)
        except ValueError:
            pass
        else:
            V.check(False, 'other filter types are refused')


def fromir(V, P, m, lst):
    h = V.array('h', m, -2, 2)
    x = list(h) if lst else h
    e = acorr(list(h), P)
    is_row(V, legacy.q0_from_filter_ir(P, x), e, 'autocorrelation of the impulse response')
    is_row(V, filter_based.q0_from_filter(P, x, 'imp'), e, 'autocorrelation of the impulse response (filter_based)')


def fromweight(V, P, m):
    c = V.array('c', m, -2, 2)

    def w(f):
        r = c[0]
        for i in range(1, m):
            r = r + 2 * c[i] * np.cos(2 * np.pi * i * f)
        return r
    e = [c[k] if k < m else 0.0 for k in range(P + 1)]
    is_row(V, weighting.q0_weighting(P, w), e, 'inverse transform of the weighting')
    e = acorr([c[abs(k)] for k in range(-m + 1, m)], P)
    is_row(V, filter_based.q0_from_filter(P, w, 'mag'), e, 'inverse transform of the squared magnitude response')


def form(V, P, m):
    """b' Q b is the noise gain of the FIR with coefficients b."""
    c = V.array('c', m, -2, 2)
    b = V.array('b', P + 1, -2, 2)

    def w(f):
        r = c[0]
        for i in range(1, m):
            r = r + c[i] * np.cos(2 * np.pi * i * f)
        return r
    q = weighting.q0_weighting(P, w)
    g = NTFdesign.quantization_noise_gain((b, np.array([1.0] + [0.0] * P)), w)
    e = 0.0
    for i in range(P + 1):
        for j in range(P + 1):
            e = e + b[i] * b[j] * q[abs(i - j)]
    V.eq(g, e, 'the quadratic form is the noise gain', TOL)


def instances(tier):
    out = []

    def add(body, **p):
        nm = body.__name__ + ''.join('-%s' % (v,) for k, v in sorted(p.items()))
        out.append(Instance(nm, body, p, stubs=shim.QUAD, timeout=20, nodiv0=True, samples=3, rtol=1e-6,
                            bounds='numerators, zeros or coefficients any real in [-2,2], poles fixed'))
    for P in (0, 1, 3) if tier == 'quick' else (0, 1, 2, 3, 4, 6):
        for f in ('ba', 'zpk'):
            add(fromfilter, P=P, order=2, kind=0, form=f)
            add(fromfilter, P=P, order=1, kind=1, form=f)
        for m in (1, 2, 4):
            if m > P:
                add(fromir, P=P, m=m, lst=P == 1)
            add(fromweight, P=P, m=min(m, 3))
    add(fromfilter, P=2, order=2, kind=2, form='ba')
    for P, m in ((1, 2), (2, 2), (2, 3)):
        add(form, P=P, m=m)
    return out
