# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from pydsm.NTFdesign import weighting
from pydsm.NTFdesign.weighting import _fir_weighting
from . import conic, lmi
from .dsgn import brief, patched, own_defaults
from .n08 import ASSUMPTIONS, ROWS, posed, quadratic, clipped


SHORT = brief(lambda *a, **k: weighting.ntf_hybrid_weighting(*a, **k), 'order w H_inf poles normalize', H_inf=1.5, poles=[], normalize='auto')


def run(V, modeler, order, poles, H, normalize, q0, seen, w=None, opts=None):
    be = lmi.backend('weighting', modeler)
    o = dict(show_progress=False, modeler=modeler)
    o.update(opts or {})

    def q0w(P, w, **k):
        seen.append((P, w, k))
        return np.array(q0)
    with own_defaults(), patched((_fir_weighting, 'q0_weighting', q0w)):
        return conic.record(V, modeler, be, lambda: SHORT(order, w or (lambda f: 1.0), H, poles, normalize, **o))


def den(ps):
    """Coefficients of the polynomial with given roots, real part."""
    c = [1.0 + 0j]
    for p in ps:
        c = [x - p * y for x, y in zip(c + [0.0], [0.0] + c)]
    return c


def real(x):
    return x.real if hasattr(x, 'real') else x


def hybrid(V, modeler, order, kind, row, normalize, usual=False):
    q = ROWS[row][:order + 1]
    fixed = {'none': [], 'real': [0.5], 'two': [0.5, -0.25], 'pair': [0.5 + 0.25j, 0.5 - 0.25j],
             'all': [0.5, 0.25, -0.5][:order]}[kind]
    sh = run(V, modeler, order, fixed, 1.75, normalize, q, [])
    cpos = lmi.coefs(V, sh, order)
    roles = lmi.Roles(sh, cpos)
    H = V.real('H', 1.01, 8) if not usual else 1.5
    if kind == 'none':
        ps, poles = [], []
    elif modeler == 'cvxpy_old' and kind != 'real':     # its sparse matrices branch on zeros
        ps, poles = fixed, fixed
    elif kind == 'pair':
        poles = V.conj_roots('p', 1, 0)
        ps = list(poles)
    else:
        m = len(fixed)
        poles = V.array('p', m, -0.9, 0.9)
        ps = list(poles)
    seen = []
    env = run(V, modeler, order, poles, H, normalize, q, seen)
    V.check(lmi.coefs(V, env, order) == cpos, 'the coefficients are those found by the optimiser')
    ar = [real(c) for c in den(ps)][1:] + [0.0] * (order - len(ps))
    form = (lambda b: clipped(q, b)) if row == 'neg' else (lambda b: quadratic(q, b))
    posed(V, env, roles, cpos, order, H, ar, form, 1e-7)
    z, p, k = env.result
    V.eq(z, np.array([1000.25 + i for i in range(order)]), 'the zeros are the roots')
    V.check(len(p) == order, 'as many poles as the order')
    V.eq(p, V._mkarr(np.array(ps + [0.0] * (order - len(ps)), dtype=object)), 'the poles are those given, the others are null')
    V.check(k == 1, 'unit gain')
    V.check(len(seen) == 1 and seen[0][0] == order, 'quadratic form of the right size')


def weight(V, kind, m):
    """The weight the form comes from includes the poles."""
    c0, c1 = V.real('c0', 0, 3), V.real('c1', -1, 1)

    def w(f):
        return c0 + c1 * f
    if kind == 'pair':
        poles = V.conj_roots('p', 1, 0)
    else:
        poles = V.array('p', m, -0.9, 0.9)
    seen = []
    run(V, 'cvxpy', 3, poles, 1.5, None, ROWS['pd'][:4], seen, w)
    V.check(len(seen) == 1 and seen[0][0] == 3, 'quadratic form of the right size')
    wn = seen[0][1]
    f = V.real('f', 0, 0.5)
    z = V.cos(2 * np.pi * f), V.sin(2 * np.pi * f)
    d = 1.0
    if kind == 'pair':
        p = list(poles)[0]
        x, y = p.real, p.imag
        for s in (1, -1):
            d = d * ((z[0] - x) ** 2 + (z[1] - s * y) ** 2)
    else:
        for p in list(poles):
            d = d * ((z[0] - p) ** 2 + z[1] ** 2)
    V.eq(wn(f) * d, w(f), 'the weight is divided by the squared magnitude of the denominator', 1e-7)


def toomany(V, modeler):
    H = V.real('H', 1.1, 4)
    p = V.array('p', 3, -0.9, 0.9)
    try:
        run(V, modeler, 2, p, H, None, ROWS['pd'][:3], [])
    except ValueError:
        return
    V.check(False, 'more poles than the order are refused')


def instances(tier):
    out = []

    def add(body, **p):
        nm = body.__name__ + ''.join('-%s' % (v,) for k, v in sorted(p.items()))
        out.append(Instance(nm, body, p, skip=('pydsm.cvxpy_tdr',), timeout=20, samples=3, rtol=1e-6, nodiv0=True,
                            bounds='gain limit any real in [1.01,8], poles any reals in [-0.9,0.9] or conjugate pairs in the unit circle (%s), '
                                  
                                   'coefficients and certificates any reals in [-2,2], order %s' % ('given for more than one pole' if p.get('modeler') == 'cvxpy_old' else 'any', p.get('order', 3))))
    for m in lmi.MODELERS:
        for n, kind, row, norm in ((1, 'none', 'pd', 'auto'), (1, 'real', 'pd', 'auto'), (2, 'real', 'wide', None), (2, 'two', 'neg', 'auto'),
                                   (2, 'pair', 'pd', 0.25), (3, 'two', 'pd', 'auto')):
            add(hybrid, modeler=m, order=n, kind=kind, row=row, normalize=norm)
        if tier != 'quick':
            add(hybrid, modeler=m, order=3, kind='all', row='wide', normalize='auto')
            add(hybrid, modeler=m, order=4, kind='pair', row='pd', normalize='auto')
        add(toomany, modeler=m)
        for kind in ('none', 'real'):
            add(hybrid, modeler=m, order=1, kind=kind, row='wide', normalize='auto', usual=True)
    add(weight, kind='real', m=1)
    add(weight, kind='real', m=2)
    add(weight, kind='pair', m=2)
    return out
