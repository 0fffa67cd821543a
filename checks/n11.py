# -*- coding: utf-8 -*-
import math
import sys
import warnings
import numpy as np
from sx.run import Instance
from pydsm import audio_weightings as aw
from pydsm.delsig import undbp
from pydsm.exceptions import PyDsmDeprecationWarning
from pydsm.NTFdesign import psychoacoustic as ps
from .dsgn import brief, patched

ASSUMPTIONS = ('synthesizeNTF (N02) and ntf_fir_weighting (N08) are stand-ins that return any NTF',)
# Dunn and Sandler, table of the zeros, kHz
KHZ = {1: [0.0], 2: [4.014], 3: [0.0, 6.443], 4: [3.590, 11.954], 5: [0.0, 4.308, 12.959], 6: [3.325, 7.078, 13.389], 7: [0.0, 4.017, 10.471, 13.842],
       8: [2.933, 5.167, 12.012, 14.381]}


def zeros(V, n):
    """Zeros in the table, symmetric, and scaled to the sample rate."""
    z = ps.dunn_optzeros(n)
    V.check(np.shape(z) == (n,), 'as many zeros as requested')
    want = sorted([s * f / 22.05 for f in KHZ[n] for s in ((1, -1) if f else (1,))])
    got = sorted(float(x) for x in z)
    V.check(all(abs(a - b) < 1e-9 for a, b in zip(got, want)), 'zeros are those of the table')
    osr = V.real('osr', 1, 1024)
    c = ps.dunn_optzeros_cplx(n, osr)
    V.check(np.shape(c) == (n,), 'as many zeros as requested')
    for x, t in zip(c, z):
        V.eq(x.real, V.cos(math.pi * float(t) / osr), 'zeros are on the unit circle within the band', 1e-9)
        V.eq(x.imag, V.sin(math.pi * float(t) / osr), 'zeros are on the unit circle within the band', 1e-9)


def refused(V, n):
    try:
        ps.dunn_optzeros(n)
        ok = True
    except ValueError:
        ok = False
    V.check(not ok, 'orders out of the table are refused')


def dunn(V, alias, usual=()):
    """ntf_dunn has poles as synthesizeNTF has them for Dunn's zeros."""
    osr = V.real('osr', 1, 1024) if 'osr' not in usual else 64
    H = V.real('H', 1.01, 10) if 'H_inf' not in usual else 1.5
    for n in range(1, 9):
        got = []

        def synth(*a, **k):
            names = ['order', 'osr', 'opt', 'H_inf', 'f0', 'use_optimizer']
            d = dict(zip(names, a))
            d.update(k)
            got.append(d)
            return 'ntf'
        with patched((ps, 'synthesizeNTF', synth)), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = brief(ps.synthesize_ntf_dunn if alias else ps.ntf_dunn, 'order osr H_inf', order=3, osr=64, H_inf=1.5)(n, osr, H)
        V.check(any(issubclass(x.category, PyDsmDeprecationWarning) for x in w) == alias, 'deprecated functions warn')
        V.check(r == 'ntf' and len(got) == 1, 'the NTF is that designed')
        d = got[0]
        V.check(d['order'] == n and d.get('f0', 0) == 0, 'order and center')
        V.eq(d['osr'], osr, 'oversampling ratio')
        V.eq(d['H_inf'], H, 'gain limit')
        z = d['opt']
        V.check(len(z) == n, 'zeros')
        for a, b in zip(z, ps.dunn_optzeros_cplx(n, osr)):
            V.eq(a, b, 'zeros', 1e-9)


def capture(V, f, *a, **k):
    got = []

    def design(order, w, *a, **k):
        d = dict(zip(['H_inf', 'normalize'], a))
        d.update(k)
        got.append((order, w, d))
        return 'ntf'
    with patched((ps, 'ntf_fir_weighting', design)), warnings.catch_warnings(record=True) as wn:
        warnings.simplefilter('always')
        r = f(*a, **k)
    V.check(r == 'ntf' and len(got) == 1, 'the NTF is that designed')
    return got[0], any(issubclass(x.category, PyDsmDeprecationWarning) for x in wn)


def weight(V, alias, usual=False):
    """The weight: that of the frequency in Hz within the band, nothing above, never less than the attenuation limit."""
    osr = V.real('osr', 1, 256)
    band = V.real('band', 1000, 30000) if not usual else 22.05e3
    attn = V.real('attn', 20, 150) if not usual else 120
    H = V.real('H', 1.01, 10) if not usual else 1.5
    normal = 7.5 if not usual else 'auto'
    f = V.real('f', 0, 0.5)
    g = V.real('g', 0, 1)
    at = []

    def curve(x):
        at.append(x)
        return g
    fn = brief(ps.synthesize_ntf_from_audio_weighting if alias else ps.ntf_fir_audio_weighting, 'order osr audio_weighting audio_band max_attn H_inf normalize',
               audio_band=22.05e3, max_attn=120, H_inf=1.5, normalize='auto')
    (order, w, d), warned = capture(V, fn, 5, osr, curve, band, attn, H, normal, show_progress=False, cvxopt_opts={'maxiters': 44}, quad_opts={'limit': 55})
    V.check(warned == alias, 'deprecated functions warn')
    V.check(order == 5 and d.get('normalize', 'auto') == normal, 'order and normalization')
    V.eq(d.get('H_inf', 1.5), H, 'gain limit')
    V.check(d['show_progress'] is False and d['cvxopt_opts']['maxiters'] == 44 and d['quad_opts']['limit'] == 55, 'options')
    hz = 2 * f * osr * band
    inside = f * osr < 0.5
    V.assume(V.no(f * osr == 0.5))
    V.assume(V.no(hz == band))
    floor = undbp(-attn)
    v = w(f)
    inside = bool(inside)
    if inside:
        V.check(len(at) >= 1, 'weights are taken within the band')
        V.eq(at[-1], hz, 'the frequency is in Hz', 1e-6)
    V.near(v, max(g if inside else 0.0, floor), 'weight', 1e-6)


def named(V, name):
    """Weightings given by name."""
    x = V.real('x', 0.01, 0.999)
    (order, w, d), _ = capture(V, ps.ntf_fir_audio_weighting, 5, 64, *([] if name is None else [name]), max_attn=3000)
    c = getattr(aw, (name or 'f') + '_weighting')
    band = 22.05e3
    v = c(x / 128 * band * 128)
    V.assume(v >= 1e-100)
    V.near(w(x / 128), v, 'weight', 1e-6)
    V.check('H_inf' not in d or d['H_inf'] == 1.5, 'default gain limit')


def instances(tier):
    out = []

    def add(body, **p):
        nm = body.__name__ + ''.join('-%s' % (v,) for k, v in sorted(p.items()))
        out.append(Instance(nm, body, p, timeout=30, samples=4, rtol=1e-6, nodiv0=True,
                            bounds='osr any in [1,1024], bands any in [1,30] kHz, attenuations any in [20,150] dB, frequencies any in [0,1/2]'))
    for n in range(1, 9):
        add(zeros, n=n)
    for n in (9, 10, 15):
        add(refused, n=n)
    for a in (False, True):
        add(dunn, alias=a)
        add(weight, alias=a)
        add(weight, alias=a, usual=True)
        for u in (('osr',), ('H_inf',), ('osr', 'H_inf')):
            add(dunn, alias=a, usual=u)
    for n in (None, 'a', 'b', 'c', 'd', 'f'):
        add(named, name=n)
    return out
