# -*- coding: utf-8 -*-
import math
import sys
import types
import numpy as np
from sx.core import SComplex, Unsupported
from sx.run import Instance
from pydsm import delsig
from pydsm.delsig._dsclansNTF import dsclansNTF
from .dsgn import brief, patched, standin

ASSUMPTIONS = ('scipy.optimize.minimize returns any parameters; synthesizeNTF (N02), evalTF (T01), impulse_response (T03) and cplxpair (R01) return any values',)
CL = sys.modules['pydsm.delsig._clans']


def parts(q):
    return (q.real, q.imag) if hasattr(q, 'imag') else (q, 0.0)

SHORT = brief(lambda *a, **k: delsig.clans(*a, **k), 'order osr nq rmax opt', order=4, osr=64, nq=5, rmax=0.95, opt=0)

def zk(n):
    return np.array([np.exp(0.01j * (i + 1)) for i in range(n)])


def quad(V, got):
    """Roots of quadratics, as any two values which have the right sum and product."""
    def f(c):
        c = list(c)
        if len(c) != 3:
            raise NotImplementedError('roots of degree %d' % (len(c) - 1))
        b, c = c[1] / c[0], c[2] / c[0]
        r = (np.array if not V.symbolic else V.mk)(list(np.roots([1.0, b, c])))
        got.append((b, c, r))
        return r
    return f


def left(V):
    """Roots of real quadratics, as any two values which are in the left half plane if the coefficients have the same sign."""
    n = [0]

    def f(c):
        c = list(c)
        if not V.symbolic:
            return roots(c)
        if len(c) != 3 or any(isinstance(k, (complex, SComplex)) for k in c):
            raise Unsupported('roots of another polynomial')
        k = n[0] = n[0] + 1
        ok = V.no(V.all([c[1] * c[0] >= 0, c[2] * c[0] >= 0]))
        if V.bool('pair%d' % k):
            s = V.real('re%d' % k, -200, 200), V.real('im%d' % k, -200, 200)
            V.assume(V.any([ok, s[0] <= 0]))
            return V.mk([s[0] + 1j * s[1], s[0] - 1j * s[1]])
        s = V.real('re%d' % k, -200, 200), V.real('im%d' % k, -200, 200)
        V.assume(V.any([ok, V.all([s[0] <= 0, s[1] <= 0])]))
        return V.mk(list(s))
    roots = np.roots
    return f


def stable(V, order):
    """For all parameters the poles are within the circle required."""
    x = V.array('x', order, -3, 3)
    rmax = V.real('rmax', 0.1, 1)
    Hz = zk(order)
    with standin(V, {'numpy.roots': left(V)}):
        z, p, k = dsclansNTF(x, order, rmax, Hz)
    V.check(k == 1 and len(p) == order and len(z) == order, 'as many poles as zeros, unit gain')
    for a, b in zip(z, Hz):
        V.eq(a, b, 'zeros are kept')
    tot = 0.0
    for q in p:
        re, im = parts(q)
        V.le(re * re + im * im, rmax * rmax, 'poles are within the circle of radius rmax', 1e-7)
        tot = tot + im
    V.eq(tot, 0, 'poles are in conjugate pairs', 1e-7)


def image(V, order):
    """The poles are the bilinear images of the roots of s^2 + 2 zeta wn s + wn^2."""
    x = V.array('x', order, 0.1, 3)
    rmax = V.real('rmax', 0.1, 1)
    z, p, k = dsclansNTF(x, order, rmax, zk(order))
    odd = order % 2
    # (r + p)/(r - p) = -1/s; s = (p - r)/(p + r)
    prods = []
    for q in p:
        re, im = parts(q)
        prods.append((re, im))
    if odd:
        re, im = prods[0]
        V.eq(im, 0, 'the odd pole is real')
        V.eq(re * (1 + x[0] * x[0]), rmax * (1 - x[0] * x[0]), 'the odd pole', 1e-7)
    for i in range(odd, order, 2):
        ze, w = x[i] * x[i], x[i + 1] * x[i + 1]
        (a, b), (c, d) = prods[i], prods[i + 1]
        # sum and product of the poles: from s^2 + 2 ze w s + w^2 with s = (p-r)/(p+r)
        D = 1 + 2 * ze * w + w * w
        V.eq((a + c) * D, 2 * rmax * (1 - w * w), 'sum of the poles', 1e-6)
        V.eq((a * c - b * d) * D, rmax * rmax * (1 - 2 * ze * w + w * w), 'product of the poles', 1e-6)


class Stop(Exception):
    pass


def guess(V, order, kind):
    """The optimisation starts from the poles of synthesizeNTF, moved within the circle."""
    rmax = V.real('rmax', 0.2, 1)
    odd = order % 2
    # complex pole pairs then the real one, as cplxpair gives them
    pr = []
    for i in range(order // 2):
        if kind == 'in':
            c = V.cplx('p%d' % i, -0.9, 0.9)
            V.assume(c.imag >= 0.05)
            V.assume((c * c.conjugate()).real <= rmax * rmax)
        else:
            c = rmax * V.real('m%d' % i, 1.0001, 5) * [0.6 + 0.8j, -0.28 + 0.96j][(i + order) % 2]
        pr += [c.conjugate(), c]
    if odd:
        r = V.real('r', -0.85, 0.9)
        if kind == 'in':
            V.assume(r * r <= rmax * rmax * 0.99)
        else:
            V.assume(r >= rmax)
        pr.append(r)
    poles = V.mk(pr)
    got = []
    calls = []
    opt = 0 if kind == 'out' else 1

    def synth(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0, use_optimizer=True):
        calls.append((order, osr, opt, H_inf, f0))
        return zk(order), poles, 1

    def mini(f, x, **k):
        got.append((f, x, k))
        raise Stop
    with patched((CL, 'synthesizeNTF', synth), (CL, 'cplxpair', lambda x, tol=100: x), (CL, 'minimize', mini)):
        try:
            SHORT(order, 32, 5, rmax, opt)
        except Stop:
            pass
    V.check(len(calls) == 1 and list(calls[0]) == [order, 32, opt, 6, 0], 'zeros and poles to start from')
    x = list(got[0][1])
    V.check(len(x) == order, 'as many parameters as poles')
    if odd:
        t = pr[-1] / rmax if kind == 'in' else 1.0
        V.eq(x[0] * x[0] * (1 + t), 1 - t, 'initial guess for the odd pole', 1e-6)
    for i in range(order // 2):
        # pairs can be taken in any order
        c = pr[2 * (order // 2 - 1 - i)]
        re, im = c.real, c.imag
        d = re * re + im * im
        m = rmax if kind == 'in' else rmax * V.real('m%d' % (order // 2 - 1 - i), 1.0001, 5)
        a, w = x[odd + 2 * i], x[odd + 2 * i + 1]
        ze, w2 = a * a, w * w * w * w
        # with t = c/m: |s|^2 = |t-1|^2/|t+1|^2, -2 Re s = 2 (1-|t|^2)/|t+1|^2
        dp, dm = d + 2 * re * m + m * m, d - 2 * re * m + m * m
        V.eq(w2 * dp, dm, 'initial guess for the frequencies', 1e-6)
        V.eq(ze * w * w * dp, m * m - d, 'initial guess for the damping', 1e-6)


def problem(V, order, usual=()):
    """What is optimised: the gain at the edge of the band, with the quantizer never overloaded, for NTFs as dsclansNTF has them."""
    osr = V.real('osr', 4, 128) if 'osr' not in usual else 64
    nq = V.real('nq', 1, 50) if 'nq' not in usual else 5
    rmax = 0.9 if 'rmax' not in usual else 0.95
    Hz = zk(order)
    g = V.cplx('g', -2, 2)
    h = V.array('h', 5, -3, 3)
    x = [0.5 + 0.1 * i for i in range(order)]
    best = [0.4 + 0.05 * i for i in range(order)]
    hp = [dsclansNTF(np.array(v), order, rmax, Hz) for v in (x, best)]
    ev, ir = [], []
    got = []
    show = order % 2 == 1

    def evaluate(tf, p):
        ev.append((tf, p))
        return g

    def impulse(tf, m=None, db=80, *a, **k):
        ir.append((tf, m, db))
        return h

    def mini(f, x0, args=(), method=None, constraints=(), options=None, **k):
        V.check(not k, 'the optimisation has no other options')
        V.check(str(method).lower() == 'slsqp', 'the optimisation can have constraints')
        V.check(options.get('maxiter') == 77 and options.get('ftol') == 1e-5 and options.get('eps') == 1e-7 and bool(options.get('disp', False)) == show, 'options of the optimiser')
        cs = [constraints] if isinstance(constraints, dict) else list(constraints)
        V.check(len(cs) == 1 and cs[0]['type'] == 'ineq', 'one inequality')
        v = f(np.array(x), *args)
        V.check(len(ev) == 1, 'the gain is evaluated')
        check_tf(V, ev[0][0], hp[0])
        re, im = parts(ev[0][1])
        V.eq(re, V.cos(math.pi / osr), 'the gain is that at the edge of the band', 1e-9)
        V.eq(im, V.sin(math.pi / osr), 'the gain is that at the edge of the band', 1e-9)
        V.le(0, v, 'gain', 1e-9)
        V.eq(v * v, g.real * g.real + g.imag * g.imag, 'the gain is minimised', 1e-6)
        c = cs[0]['fun'](np.array(x), *cs[0].get('args', ()))
        V.check(len(ir) == 1, 'the impulse response is computed')
        check_tf(V, ir[0][0], hp[0])
        V.check(ir[0][1] is None or ir[0][1] >= 50, 'the response is long enough')
        s = 0.0
        for t in h:
            s = s + V.abs(t)
        V.eq(c, nq + 1 - s, 'the quantizer is not overloaded', 1e-9)
        got.append(1)
        return {'x': np.array(best)}
    with patched((CL, 'synthesizeNTF', lambda *a, **k: (Hz, np.array([0.5 * np.exp(0.1j * s * (i + 1)) for i in range(order // 2) for s in (-1, 1)] + [0.3] * (order % 2)), 1)),
                 (CL, 'evalTF', evaluate), (CL, 'impulse_response', impulse), (CL, 'minimize', mini)):
        r = SHORT(order, osr, nq, rmax, 0, show_progress=show, slsqp_opts={'maxiter': 77, 'ftol': 1e-5, 'eps': 1e-7})
    V.check(len(got) == 1, 'there is one optimisation')
    check_tf(V, r, hp[1])


def check_tf(V, a, b):
    V.check(len(a) == 3 and a[2] == b[2] and len(a[0]) == len(b[0]) and len(a[1]) == len(b[1]), 'the NTF is that of the parameters')
    V.check(np.allclose(np.array(list(a[0]), dtype=complex), b[0]) and np.allclose(np.array(list(a[1]), dtype=complex), b[1]), 'the NTF is that of the parameters')


def instances(tier):
    out = []

    def add(body, to=20, **p):
        nm = body.__name__ + ''.join('-%s' % (v,) for k, v in sorted(p.items()))
        out.append(Instance(nm, body, p, timeout=to, samples=4, rtol=1e-6, nodiv0=True,
                            bounds='order %d, parameters any in [-3,3], rmax any in [0.1,1]' % p['order']))
    for o in (1, 2, 3) + ((4, 5) if tier != 'quick' else ()):
        add(stable, order=o)
        add(image, order=o)
    for o in (1, 2, 3) + ((4, 5) if tier != 'quick' else ()):
        for kind in ('in', 'out'):
            add(guess, order=o, kind=kind)
    for o in (1, 2, 3, 4):
        add(problem, order=o)
    for u in (('osr',), ('nq',), ('rmax',), ('osr', 'nq', 'rmax')):
        for o in (3, 4):
            add(problem, order=o, usual=u)
    return out
