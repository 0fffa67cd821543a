# -*- coding: utf-8 -*-
import math
import numpy as np
from sx import shim
from sx.run import Instance
from pydsm.ft import dtft, dtft_hermitian, idtft, idtft_hermitian

ASSUMPTIONS = ('real arithmetic in the symbolic runs (IEEE rounding is outside)',
               'scipy.integrate.quad is modelled by 48-node Gauss-Legendre quadrature, which is exact to '
               'about 1e-13 on the trigonometric polynomials considered')


def kernel(V, w, n, sign=-1):
    return V.exp(0) if False else (V.cos(w * n) + (1j * sign) * V.sin(w * n))


def vec(V, n, cplx, name='x'):
    return V.carray(name, n, -4, 4) if cplx else V.array(name, n, -4, 4)


def forward(V, n, cplx, fs, t0, herm, lst):
    """The transform at any frequency is the documented sum."""
    x = vec(V, n, cplx)
    if herm and cplx:
        x = V.mk([x[0].real] + list(x[1:]))
    f = V.real('f', -3, 3)
    a = list(x) if lst else x
    w = f * (2 * math.pi / fs)
    if herm:
        y = dtft_hermitian(a, fs)(f) if fs != 1 else dtft_hermitian(a)(f)
        e = x[0]
        for i in range(1, n):
            e = e + x[i] * kernel(V, w, i) + V.cj(x[i]) * kernel(V, w, i, 1)
        V.eq(e.imag if hasattr(e, 'imag') else 0, 0, 'the transform of a hermitian sequence is real')
        V.eq(y, e.real, 'transform of the hermitian sequence')
    else:
        y = (dtft(a, fs, t0) if t0 else dtft(a, fs) if fs != 1 else dtft(a))(f)
        e = 0.0
        for i in range(n):
            e = e + x[i] * kernel(V, w, i - t0)
        V.eq(y, e, 'discrete time Fourier transform')


def forward_t0(V, n):
    """A symbolic time origin is a phase rotation of the transform."""
    x = vec(V, n, False)
    t0 = V.real('t0', -5, 5)
    for f in (0.0, 0.1, 0.5, 2.25):
        y = dtft(x, 1, t0)(f)
        e = dtft(x)(f) * kernel(V, t0 * (2 * math.pi * f), 1, 1)
        V.eq(y, e, 'time origin', tol=1e-9)


def real_hermitian(V, n, fs):
    """A real (or hermitian) sequence transforms as its two-sided version."""
    x = vec(V, n, False)
    full = V.mk(list(x)[:0:-1] + list(x))
    f = V.real('f', -3, 3)
    V.eq(dtft_hermitian(x, fs)(f), dtft(full, fs, n - 1)(f), 'one-sided and two-sided transforms agree')


def inverse_of(V, n, cplx, fs, t0, tts):
    """The inverse transform takes the samples back at every integer time."""
    x = vec(V, n, cplx)
    F = dtft(x, fs, t0)
    tt = list(range(-t0 - 1, n - t0 + 1))
    y = idtft(F, tt if tts == 'list' else np.array(tt), fs)
    V.check(np.shape(y) == (len(tt),), 'one sample for each time')
    V.eq(V.mk(y), V.mk([x[t + t0] if 0 <= t + t0 < n else 0.0 for t in tt]), 'inverse transform of the transform', tol=1e-6)
    V.eq(idtft(F, tt[1], fs), x[tt[1] + t0], 'inverse transform at one time', tol=1e-6)


def inverse_hermitian(V, n, cplx, fs):
    x = vec(V, n, cplx)
    if cplx:
        x = V.mk([x[0].real] + list(x[1:]))
    F = dtft_hermitian(x, fs)
    if not cplx:
        tt = range(n + 2)
        y = idtft_hermitian(F, list(tt), fs)
        V.eq(V.mk(y), V.mk(list(x) + [0.0, 0.0]), 'inverse hermitian transform', tol=1e-6)
        V.eq(idtft_hermitian(F, -1, fs), x[1], 'the sequence is symmetric', tol=1e-6)
    # transform of a real causal sequence: hermitian function of frequency
    r = vec(V, n, False, 'r')
    y = idtft_hermitian(dtft(r, fs), np.arange(-1, n + 1), fs)
    V.eq(V.mk(y), V.mk([0.0] + list(r) + [0.0]), 'inverse transform of a hermitian function', tol=1e-6)


def between(V, n, fs, herm):
    """At any time, the inverse transform is the integral that defines it."""
    x = vec(V, n, not herm)
    for t in (0.5, -1.3):
        if herm:
            y = idtft_hermitian(dtft_hermitian(x, fs), t, fs)
            e = sum((x[abs(i)] * np.sinc(t - i) for i in range(1 - n, n)), 0.0)
        else:
            y = idtft(dtft(x, fs), t, fs)
            e = sum((x[i] * np.sinc(t - i) for i in range(n)), 0.0)
        V.eq(y, e, 'inverse transform between the samples', tol=1e-6)


def instances(tier):
    out = []

    def add(name, body, bounds, quad=False, thorough=False, **p):
        out.append(Instance(name, body, p, bounds=bounds, timeout=15, thorough=thorough,
                            stubs=shim.QUAD if quad else None))
    for n in (1, 2, 4):
        for cplx in (False, True):
            for fs in (1, 2.0, 44100):
                for t0 in (0, 2) if n == 4 else (0,):
                    add('dtft-%d%s-%g-%d' % (n, 'c' if cplx else 'r', fs, t0), forward, '%d samples in [-4,4], frequency in [-3,3]' % n,
                        n=n, cplx=cplx, fs=fs, t0=t0, herm=False, lst=cplx)
                add('hermitian-%d%s-%g' % (n, 'c' if cplx else 'r', fs), forward, '%d one-sided samples, frequency in [-3,3]' % n,
                    n=n, cplx=cplx, fs=fs, t0=0, herm=True, lst=not cplx)
    add('origin', forward_t0, '3 samples, any time origin in [-5,5]', n=3)
    for n in (2, 4):
        for fs in (1, 8):
            add('sides-%d-%d' % (n, fs), real_hermitian, '%d samples' % n, n=n, fs=fs)
    for n, cplx, fs, t0, tts in ((3, False, 1, 0, 'list'), (3, True, 1, 1, 'array'), (2, True, 8.0, 0, 'list'), (6, False, 44100, 2, 'array')):
        add('inverse-%d%s-%g' % (n, 'c' if cplx else 'r', fs), inverse_of, '%d samples in [-4,4]' % n, quad=True, n=n, cplx=cplx, fs=fs, t0=t0, tts=tts)
    for n, cplx, fs in ((3, False, 1), (3, True, 1), (5, False, 48000)):
        add('inverse-hermitian-%d%s-%g' % (n, 'c' if cplx else 'r', fs), inverse_hermitian, '%d samples in [-4,4]' % n, quad=True, n=n, cplx=cplx, fs=fs)
    for fs in (1, 8):
        for herm in (False, True):
            add('between-%d-%d' % (fs, herm), between, '3 samples in [-4,4]; times 0.5 and -1.3', quad=True, n=3, fs=fs, herm=herm)
    return out
