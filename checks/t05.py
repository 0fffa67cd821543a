# -*- coding: utf-8 -*-
import cmath
import math
import numpy as np
from sx.run import Instance
from pydsm.ft import fft_centered

ASSUMPTIONS = ('real arithmetic in the symbolic runs (IEEE rounding is outside)',
               'the library FFT is modelled by the sum that defines the DFT')


def centered(V, n, cplx, fs, lst):
    x = V.carray('x', n, -4, 4) if cplx else V.array('x', n, -4, 4)
    a = list(x) if lst else x
    s = V.real('fs', 0.5, 1000) if fs == 'any' else fs
    ff, X = fft_centered(a) if fs is None else fft_centered(a, s)
    s = 1 if fs is None else s
    V.check(np.shape(ff) == (n,), 'one frequency for each sample')
    V.check(np.shape(X) == (n,), 'one value for each sample')
    V.eq(ff[n // 2], 0, 'null frequency at the center')
    for i in range(n):
        k = i - n // 2
        V.eq(ff[i] * n, s * k, 'frequency grid', tol=0 if V.symbolic else 1e-9)
        e = 0.0
        for j in range(n):
            e = e + x[j] * cmath.exp(-2j * math.pi * k * j / n)
        V.eq(X[i], e, 'transform at its frequency', tol=1e-9)


def instances(tier):
    out = []
    for n in (1, 2, 3, 4, 5, 8) + ((16, 17) if tier == 'thorough' else ()):
        for cplx in (False, True):
            for fs in (None, 2.0, 48000, 'any'):
                out.append(Instance('n%d%s-fs%s' % (n, 'c' if cplx else 'r', fs), centered,
                                    dict(n=n, cplx=cplx, fs=fs, lst=n % 2 == 1), timeout=15,
                                    bounds='%d samples in [-4,4]%s' % (n, ', sample rate in [.5,1000]' if fs == 'any' else '')))
    return out
