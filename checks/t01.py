# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from pydsm.delsig import evalTF
from pydsm.delsig._tf import evalRPoly

ASSUMPTIONS = ('real arithmetic in the symbolic runs (IEEE rounding is outside)',
               'points where the denominator vanishes are excluded')
INF = float('inf')


def prod(k, roots, x):
    r = k
    for z in roots:
        r = r * (x - z)
    return r


def horner(c, x):
    r = 0.0
    for a in c:
        r = r * x + a
    return r


def away(V, d):
    """d is not close to 0."""
    re, im = (d.real, d.imag) if hasattr(d, 'imag') else (d, 0.0)
    V.assume(re * re + im * im >= 0.01)


def points(V, kind, npts):
    if kind == 'real':
        return [V.real('x%d' % i, -2, 2) for i in range(npts)]
    if kind == 'int':
        return [i - 1 for i in range(npts)]
    if kind == 'jw':
        return [V.cplx('x%d' % i, -2, 2) for i in range(npts)]
    return [V.cplx('x%d' % i, -2, 2) for i in range(npts)]


def roots_of(V, nm, spec):
    """spec: sequence of 'c' (any complex), 'r' (real), 'i' (infinity)"""
    out = []
    for i, s in enumerate(spec):
        out.append(V.cplx('%s%d' % (nm, i), -2, 2) if s == 'c' else
                   V.real('%s%d' % (nm, i), -2, 2) if s == 'r' else INF)
    return out


def zpk(V, zs, ps, kind, npts, container):
    z, p, k = roots_of(V, 'z', zs), roots_of(V, 'p', ps), V.real('k', -2, 2)
    xs = points(V, kind, npts)
    for x in xs:
        for q in p:
            if q is not INF:
                away(V, x - q)
    arg = xs[0] if npts == 0 else (list(xs) if container == 'list' else V.mk(xs))
    if npts == 1 and container == 'scalar':
        arg = xs[0]
    if container == 'matrix':
        arg = V.mk(xs).reshape(2, -1)
    y = evalTF((V.mk(z) if container == 'list' else z, p, k), arg)
    exp = [prod(k, [t for t in z if t is not INF], x) / prod(1.0, [t for t in p if t is not INF], x) for x in xs]
    check(V, y, exp, container)


def check(V, y, exp, container):
    if len(exp) == 1:
        V.check(np.ndim(y) == 0, 'a single value is returned as a scalar')
        V.eq(y, exp[0], 'value of the transfer function')
    else:
        V.check(np.shape(y) == ((2, len(exp) // 2) if container == 'matrix' else (len(exp),)), 'one value per point')
        V.eq(V.mk(y).reshape(-1), V.mk(exp), 'value of the transfer function')


def ba(V, nb, na, kind, npts, container):
    b = [V.real('b%d' % i, -2, 2) for i in range(nb)]
    a = [V.real('a%d' % i, -2, 2) for i in range(na)]
    xs = points(V, kind, npts)
    for x in xs:
        away(V, horner(a, x))
    arg = xs[0] if container == 'scalar' else list(xs) if container == 'list' else V.mk(xs)
    if container == 'matrix':
        arg = V.mk(xs).reshape(2, -1)
    y = evalTF((b, a) if container == 'list' else (V.mk(b), V.mk(a)), arg)
    check(V, y, [horner(b, x) / horner(a, x) for x in xs], container)


def rpoly(V, spec, kind, npts, default_k):
    r = roots_of(V, 'r', spec)
    xs = points(V, kind, npts)
    k = 1 if default_k else V.real('k', -2, 2)
    y = evalRPoly(r, V.mk(xs)) if default_k else evalRPoly(V.mk(r), V.mk(xs), k)
    V.eq(V.mk(y).reshape(-1), V.mk([prod(k, [t for t in r if t is not INF], x) for x in xs]),
         'value of the polynomial')


def forms_agree(V, nz, np_, cp):
    """The two forms of the same transfer function have the same values."""
    z = V.conj_roots('z', nz // 2, nz % 2, -1, 1)
    p = V.conj_roots('p', np_ // 2, np_ % 2, -1, 1)
    k = V.real('k', -2, 2)
    x = V.cplx('x', -2, 2) if cp else V.real('x', -2, 2)
    for q in list(p):
        away(V, x - q)
    num, den = [k], [1.0]
    for dst, rts in ((num, z), (den, p)):
        for t in list(rts):
            n = dst + [0.0]
            for i, c in enumerate(dst):
                n[i + 1] = n[i + 1] - t * c
            dst[:] = n
    num = [c.real if hasattr(c, 'real') else c for c in num]
    den = [c.real if hasattr(c, 'real') else c for c in den]
    V.eq(evalTF((z, p, k), x), evalTF((num, den), x), 'same value in both forms')


def instances(tier):
    out = []

    def add(name, body, bounds, thorough=False, **p):
        out.append(Instance(name, body, p, bounds=bounds, thorough=thorough, timeout=15,
                            nodiv0=True))
    for zs, ps, kind, npts, c in (('c', 'c', 'z', 1, 'scalar'), ('cc', 'cr', 'z', 1, 'scalar'), ('', 'r', 'real', 2, 'array'),
                                  ('r', '', 'z', 2, 'list'), ('cr', 'cc', 'z', 2, 'array'), ('ci', 'irc', 'z', 2, 'array'),
                                  ('i', 'r', 'real', 2, 'list'), ('ii', '', 'z', 2, 'list'), ('rr', 'r', 'int', 3, 'array'),
                                  ('crc', 'rcr', 'z', 4, 'matrix'), ('cr', 'c', 'z', 1, 'list'), ('', '', 'z', 2, 'array')):
        add('zpk-%s-%s-%s%d-%s' % (zs or '0', ps or '0', kind, npts, c), zpk,
            '%d zeros, %d poles (i: at infinity), %d points' % (len(zs), len(ps), npts), zs=zs, ps=ps, kind=kind, npts=npts, container=c)
    for nb, na, kind, npts, c in ((1, 1, 'z', 1, 'scalar'), (3, 2, 'z', 1, 'scalar'), (2, 3, 'real', 2, 'array'),
                                  (3, 3, 'z', 2, 'list'), (4, 1, 'z', 2, 'array'), (2, 2, 'z', 4, 'matrix'), (5, 4, 'z', 2, 'array')):
        add('ba-%d-%d-%s%d-%s' % (nb, na, kind, npts, c), ba, '%d/%d coefficients, %d points' % (nb, na, npts),
            nb=nb, na=na, kind=kind, npts=npts, container=c)
    for spec, kind, npts, d in (('', 'z', 2, True), ('crc', 'z', 2, True), ('icr', 'z', 2, False), ('rrrr', 'real', 3, False), ('ccccc', 'z', 1, False)):
        add('rpoly-%s%d' % (spec or '0', d), rpoly, '%d roots, %d points' % (len(spec), npts), spec=spec, kind=kind, npts=npts, default_k=d)
    for nz, np_, cp in ((1, 1, True), (2, 2, False), (2, 2, True), (3, 3, False)):
        add('forms-%d%d%d' % (nz, np_, cp), forms_agree, '%d zeros, %d poles' % (nz, np_), nz=nz, np_=np_, cp=cp)
    return out
