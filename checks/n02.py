# -*- coding: utf-8 -*-
import math
import sys
import warnings
import numpy as np
from sx.run import Instance
from pydsm import delsig, NTFdesign
from pydsm.exceptions import PyDsmApproximationWarning
from pydsm.delsig._ds import ds_optzeros
from .dsgn import brief, patched, own_defaults

ASSUMPTIONS = ('evaluating the NTF (T01), pairing conjugates (R01) and the optimisation of scipy are stand-ins: the first returns any values, the second '
               'its argument, the third any point within the bounds it is given',
               'the peak of the gain is at z=-1, or at z=1 for bands in the upper half of the spectrum')
TOP = sys.modules['pydsm.delsig._synthesizeNTF']
M = (sys.modules['pydsm.delsig._synthesizeNTF0'], sys.modules['pydsm.delsig._synthesizeNTF1'])

SHORT = brief(lambda *a, **k: delsig.synthesizeNTF(*a, **k), 'order osr opt H_inf f0', order=3, osr=64, opt=0, H_inf=1.5, f0=0)


class Probe:
    """Runs a design with stand-ins, recording."""

    def __init__(self, V, variant, gains, best=None):
        self.V, self.variant, self.gains = V, variant, list(gains)
        self.evals, self.calls, self.paired = [], [], []
        self.best = best

    def evalTF(self, tf, x):
        self.evals.append((tf, x))
        return self.H + self.gains[min(len(self.evals), len(self.gains)) - 1]

    def cplxpair(self, x, tol=100):
        self.paired.append(x)
        return x

    def optimise(self, f, x0, args=(), approx_grad=False, bounds=None, **k):
        self.calls.append((f, np.array(x0), args, bounds, self.evals[-1]))
        x = self.best(len(self.calls), x0)
        return x, 0.0, {}

    def run(self, order, osr, opt, H, f0):
        self.H = H
        m = M[self.variant]
        ps = [(m, 'evalTF', self.evalTF), (m, 'cplxpair', self.cplxpair)]
        if self.variant:
            ps.append((m, 'fmin_l_bfgs_b', self.optimise))
        with patched(*ps), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = SHORT(order, osr, opt, H, f0, use_optimizer=bool(self.variant))
        self.warned = [x for x in w if issubclass(x.category, PyDsmApproximationWarning)]
        return r


# -- requests

def entry(V, optimizer, order, usual=()):
    """Requests are validated and passed on."""
    f0 = V.real('f0', 0, 1) if 'f0' not in usual else 0
    osr = V.real('osr', 1, 1024) if 'osr' not in usual else 64
    H = V.real('H', 1.01, 100) if 'H_inf' not in usual else 1.5
    otype = 2 if 'opt' not in usual else 0
    got = []

    def f(which, order, osr, opt, H_inf, f0):
        got.append((which, order, osr, opt, H_inf, f0))
        return 'ntf'
    with patched((TOP, 'synthesizeNTF0', lambda *a, **k: f(0, *a, **k)), (TOP, 'synthesizeNTF1', lambda *a, **k: f(1, *a, **k))), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        kw = {} if optimizer is None else {'use_optimizer': optimizer}
        try:
            r = SHORT(order, osr, otype, H, f0, **kw)
        except ValueError:
            V.check(not got, 'refused requests are not served')
            low = V.all([f0 < 0.25 / osr])
            V.check(V.any([f0 > 0.5, V.all([f0 >= 0.25 / osr, f0 > 0]) if order % 2 else False]), 'only wrong requests are refused')
            return
    V.check(V.no(f0 > 0.5), 'center frequencies above 1/2 are refused')
    V.check(r == 'ntf' and len(got) == 1, 'the NTF is that designed')
    k, o, s, opt, h, f = got[0]
    V.check(k == (0 if optimizer is False else 1), 'use of the optimizer')
    V.check(o == order and opt == otype, 'order and type')
    V.eq(s, osr, 'oversampling ratio')
    V.eq(h, H, 'gain limit')
    lowpass = bool(f0 * osr < 0.25)
    warned = any(issubclass(x.category, PyDsmApproximationWarning) for x in w)
    if lowpass:
        V.eq(f, 0, 'center frequencies too low give low pass designs')
        V.check(warned == bool(f0 != 0), 'a warning tells that the design is low pass')
    else:
        V.check(order % 2 == 0, 'odd orders are refused for band pass designs')
        V.eq(f, f0, 'center frequency')
        V.check(not warned, 'no warning')


def vector(V, order, n, f0):
    """Zeros that are given have to be as many as the order."""
    H = V.real('H', 1.01, 100)
    got = []
    with patched((TOP, 'synthesizeNTF1', lambda *a: got.append(a) or 'ntf'), (TOP, 'synthesizeNTF0', lambda *a: got.append(a) or 'ntf')):
        for uo in (True, False):
            try:
                delsig.synthesizeNTF(order, 32, [1.0] * n, H, f0, use_optimizer=uo)
                ok = True
            except ValueError:
                ok = False
            V.check(ok == (n == order), 'given zeros are as many as the order')


# -- zeros

def angles(order, opt, osr, f0):
    """The angles of the zeros."""
    if f0 == 0:
        z = [float(x) for x in ds_optzeros(order, opt)]
        return [math.pi * x / osr for x in z]
    z = [float(x) for x in ds_optzeros(order // 2, opt)]
    return [s * (2 * math.pi * f0 + math.pi / 2 * x / osr) for x in z for s in (1, -1)]


def matching(got, want):
    """For each of the values, which of the expected ones it is."""
    left = list(range(len(want)))
    out = []
    for g in got:
        k = min(left, key=lambda i: abs(complex(want[i]) - complex(g)), default=None)
        if k is None:
            return None
        left.remove(k)
        out.append(k)
    return out


def same(V, got, want, got0, want0, label, tol=1e-9):
    """Same values in any order, which is found on an example."""
    V.check(len(got) == len(want) == len(got0), label + ' (number)')
    m = matching(got0, want0)
    for g, k in zip(got, m):
        V.eq(g, want[k], label, tol)


def cis(V, a):
    c, s = V.cos(a), V.sin(a)
    return np.exp(1j * a) if not V.symbolic else c + 1j * s


def zeros(V, variant, order, opt, f0):
    """Where the zeros are, for any oversampling ratio."""
    def run(osr):
        p = Probe(V, variant, [0.0])
        z, pp, k = p.run(order, osr, opt, 1.5, f0)
        V.check(len(p.paired) >= 1 and not p.warned, 'conjugates are paired')
        return list(z), list(pp), k
    o = {1: 1, 2: 2, 0: 0, 3: 1, 4: 2}[opt]
    osr0 = 13.7
    z0, _, _ = run(osr0)
    osr = V.real('osr', 2, 1024)
    V.assume(osr * f0 >= 0.26) if f0 else None
    z, p, k = run(osr)
    same(V, z, [cis(V, a) for a in angles(order, o, osr, f0)], z0, [np.exp(1j * a) for a in angles(order, o, osr0, f0)], 'zeros')
    V.check(k == 1, 'unit gain')
    V.check(len(p) == order, 'as many poles as zeros')


def given(V, variant, n, f0):
    """Given zeros are used as they are."""
    zs = V.conj_roots('z', n // 2, n % 2)
    p = Probe(V, variant, [0.0])
    z, pp, k = p.run(n, 32, zs, 1.5, f0)
    V.eq(V._mkarr(np.array(list(z), dtype=object)), zs, 'the zeros are those given')
    V.check(not p.calls, 'given zeros are not optimised')
    V.check(k == 1 and len(pp) == n, 'unit gain and as many poles')


# -- poles

def unreachable(V, variant, order, opt):
    """Too high gains are renounced to, with a warning."""
    H = V.real('H', 1.01, 600)
    p = Probe(V, variant, [0.0])
    p.best = lambda i, x0: x0
    z, pp, k = p.run(order, 32, opt, H, 0)
    if bool(H >= 2 ** order):
        V.check(len(p.warned) >= 1, 'a warning tells that the gain cannot be reached')
        V.check(len(pp) == order and all(x == 0 for x in pp), 'all poles are null')
    else:
        V.check(not p.warned, 'no warning for gains that can be reached')
    V.check(len(z) == order, 'number of zeros')


def poles(V, variant, order, f0, f1=None):
    """The poles: inside the unit circle, maximally flat, and with the gain required."""
    if f1 is None:
        f1 = V.real('f1', -200, 60)
        H = V.real('H', 1.01, 1.99)
    else:
        H = 1.5
    p = Probe(V, variant, [f1, 0.0])
    z, pp, k = p.run(order, 32, 0, H, f0)
    V.check(len(pp) == order, 'as many poles as the order')
    V.check(len(p.evals) in (1, 2), 'the search ends when the gain is that required')
    if len(p.evals) == 1:
        V.check(V.all([f1 <= 1.1e-8, f1 >= -1.1e-8]), 'the search ends only when the gain is that required')
    tf, x = p.evals[-1]
    V.check(x == (1 if f0 > 0.25 else -1), 'the gain is that at the far end of the spectrum')
    V.check(len(tf) == 3 and tf[2] == 1, 'the gain is that of the NTF')
    for a, b in zip(tf[1], pp):
        V.eq(a, b, 'the poles are those for which the gain was evaluated', 1e-9)
    for a, b in zip(tf[0], z):
        V.eq(a, b, 'the zeros are those for which the gain was evaluated', 1e-9)
    c = math.cos(2 * math.pi * f0)
    # maximally flat denominator: (q + 1/q)/2 - c are the roots of a real number
    sign = 1 if f0 == 0 and order % 2 else -1
    ref = None
    for q in pp:
        re, im = parts(q)
        V.le(re * re + im * im, 1, 'poles are inside the unit circle', 1e-7)
        num = mul((re, im), (re, im))
        num = num[0] + 1 - 2 * c * re, num[1] - 2 * c * im      # q^2 + 1 - 2 c q = q u
        a, b = (1.0, 0.0), (1.0, 0.0)
        for _ in range(order):
            a, b = mul(a, num), mul(b, (re, im))
        # a / b = u^n real, the same for all
        V.eq(a[0] * b[1] - a[1] * b[0], 0, 'the denominator is maximally flat (phase)', 1e-6)
        V.le(0, sign * (a[0] * b[0] + a[1] * b[1]), 'the denominator is maximally flat (sign)', 1e-6)
        if ref is not None:
            V.eq(a[0] * ref[1][0] - a[1] * ref[1][1] - (ref[0][0] * b[0] - ref[0][1] * b[1]), 0, 'the denominator is maximally flat', 1e-6)
        ref = ref or (a, b)


def parts(q):
    return (q.real, q.imag) if hasattr(q, 'imag') else (q, 0.0)


def mul(x, y):
    return x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]


# -- optimised zeros

def optimised(V, order, opt, f0, osr):
    """Zeros found by the optimiser."""
    half = order // 2
    n = half if f0 == 0 else half - (1 if opt == 4 and half % 2 else 0)
    lo, hi = (0, 1) if f0 == 0 else (-0.5, 0.5)
    xs = []

    def best(i, x0):
        x = V.array('x%d' % i, len(x0), lo, hi)
        xs.append(x)
        return x
    H = 1.5
    p = Probe(V, 1, [0.0, 0.5, 0.0, 0.0], best)      # the gain after the first optimisation is wrong
    z, pp, k = p.run(order, osr, opt, H, f0)
    V.check(len(p.calls) >= 1, 'zeros are optimised')
    for f, x0, args, bounds, ev in p.calls:
        V.check(len(args) == 3, 'the objective depends on poles, oversampling ratio and center')
        V.check(args[1] == osr and args[2] == f0, 'the objective depends on poles, oversampling ratio and center')
        for a, b in zip(args[0], ev[0][1]):
            V.eq(a, b, 'the objective is for the current poles', 1e-9)
        V.check([(float(a), float(b)) for a, b in bounds] == [(lo, hi)] * len(x0), 'zeros can be anywhere in the band')
    V.check(all(lo - 1e-9 <= x <= hi + 1e-9 for x in p.calls[0][1]), 'the initial guess is in the band')
    V.check(len(p.calls) == 2, 'zeros are optimised until the gain is that required')
    x = list(xs[-1])
    check_zeros(V, list(z), x, order, f0, osr)
    V.check(len(pp) == order and k == 1, 'poles and gain')


def check_zeros(V, z, x, order, f0, osr):
    def want(x, W):
        a = [2 * math.pi * (f0 + 0.5 / osr * t) for t in x]
        out = [w for t in a for w in (W(t), W(-t))]
        c = 2 * math.pi * f0
        while len(out) < order:
            out += [1.0] if f0 == 0 else [np.exp(1j * c), np.exp(-1j * c)]
        return out
    V.check(len(z) == order, 'as many zeros as the order')
    # which is which: by the atoms they are made of
    ws = want(x, lambda t: cis(V, t))
    left = list(range(order))
    for g in z:
        k = next((i for i in left if alike(V, g, ws[i])), None)
        V.check(k is not None, 'zeros')
        left.remove(k)
        V.eq(g, ws[k], 'zeros', 1e-9)


def alike(V, a, b):
    (p, q), (r, s) = parts(a), parts(b)
    if not V.symbolic:
        return abs(p - r) + abs(q - s) < 1e-9
    d = [x if isinstance(x, (int, float)) else x.const() for x in (p - r, q - s)]
    return all(x is not None and abs(x) < 1e-9 for x in d)


def objective(V, order, n, f0, osr):
    """What is minimised: the in-band gain of the NTF with the zeros that would be returned."""
    ds = sys.modules['pydsm.delsig._ds']
    r = V.real('r', 0.001, 10)
    lo, hi = (0, 1) if f0 == 0 else (-0.5, 0.5)
    x = V.array('x', n, lo, hi)
    p = np.array([0.1 * i for i in range(order)])
    got = []
    with patched((ds, 'rmsGain', lambda H, f1, f2, *a: got.append((H, f1, f2)) or r)):
        v = ds.ds_synNTFobj1(x, p, osr, f0)
    V.check(len(got) == 1, 'the gain is evaluated')
    (z, pp, k), f1, f2 = got[0]
    V.check(abs(f1 - (f0 - 0.25 / osr if f0 else 0)) < 1e-12 and abs(f2 - (f0 + 0.25 / osr if f0 else 0.5 / osr)) < 1e-12, 'the gain is that in the band')
    V.check(list(pp) == list(p) and k == 1, 'poles and gain of the NTF')
    check_zeros(V, list(z), list(x), order, f0, osr)
    V.eq(v, 20 * V.ln(r) / math.log(10), 'in dB', 1e-9)


def instances(tier):
    out = []

    def add(body, **p):
        nm = body.__name__ + ''.join('-%s' % (v,) for k, v in sorted(p.items()))
        out.append(Instance(nm, body, p, timeout=1 if body is poles and tier == 'quick' else 10, samples=4, rtol=1e-6, nodiv0=True,
                            bounds='oversampling ratio any in [2,1024], gain limits any in [1.01,600], orders and centers %s %s' % (p.get('order'), p.get('f0'))))
    for o in (1, 2, 3, 4):
        for u in (None, True, False):
            add(entry, optimizer=u, order=o)
    for u in (('f0',), ('osr',), ('H_inf',), ('opt',), ('osr', 'H_inf'), ('opt', 'f0'), ('osr', 'opt', 'H_inf', 'f0')):
        for o in (2, 3):
            add(entry, optimizer=None, order=o, usual=u)
    for o, n, f0 in ((2, 2, 0), (2, 3, 0), (4, 4, 0.25), (4, 2, 0.25), (3, 1, 0), (1, 1, 0)):
        add(vector, order=o, n=n, f0=f0)
    for v in (0, 1):
        for order, f0 in ((1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (2, 0.25), (4, 0.125), (6, 0.4)) + (((8, 0), (7, 0), (8, 0.3)) if tier != 'quick' else ()):
            for opt in (0, 1, 2):
                add(zeros, variant=v, order=order, opt=opt, f0=f0)
        add(given, variant=v, n=2, f0=0)
        add(given, variant=v, n=3, f0=0)
        add(given, variant=v, n=4, f0=0.25)
        for order, opt in ((1, 0), (2, 1), (3, 2), (4, 1)):
            add(unreachable, variant=v, order=order, opt=opt)
        for order, f0 in ((1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (2, 0.2), (4, 0.2), (2, 0.3), (4, 0.3), (6, 0.26)):
            for f1 in (0.0, -3.0, 0.4, 400.0, -2500.0):
                add(poles, variant=v, order=order, f0=f0, f1=f1)
        if tier != 'quick':
            add(poles, variant=v, order=1, f0=0)
            add(poles, variant=v, order=2, f0=0.2)
            add(poles, variant=v, order=2, f0=0)
            add(poles, variant=v, order=2, f0=0.3)
    for order, opt, f0, osr in ((2, 3, 0, 32), (3, 3, 0, 16), (4, 3, 0, 16), (5, 4, 0, 32), (4, 4, 0, 8), (2, 3, 0.2, 16), (4, 3, 0.25, 32), (6, 4, 0.1, 32), (6, 3, 0.3, 16)):
        add(optimised, order=order, opt=opt, f0=f0, osr=osr)
    for order, n, f0, osr in ((3, 1, 0, 32), (4, 1, 0, 32), (4, 2, 0.25, 16), (6, 2, 0.1, 16), (5, 2, 0, 8)):
        add(objective, order=order, n=n, f0=f0, osr=osr)
    return out
