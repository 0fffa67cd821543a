# -*- coding: utf-8 -*-
import math
import numpy as np
from sx.run import Instance
from pydsm.NTFdesign import weighting
from pydsm.NTFdesign.weighting import _fir_weighting
from . import conic, lmi
from .dsgn import brief, patched, standin, own_defaults

ASSUMPTIONS = ('the modelling libraries cvxpy, picos and the solver cvxopt are stand-ins that record the problem being posed; cvxpy_tdr is the real one, '
               'recorded where it hands its cone program to cvxopt', 'the bounded real lemma (a stable filter has peak gain at most H iff the matrix inequality is feasible)',
               'numpy.linalg.eigh returns an orthogonal diagonalisation; numpy.roots returns the roots of the polynomial it is given')
ROWS = {'pd': [1.0, 0.6, 0.25, 0.1, 0.05, 0.02], 'wide': [3.5, -2.0, 1.25, -0.5, 0.25, 0.0], 'neg': [1.0, 0.9, 0.1, -0.2, 0.0, 0.0]}
TOLS = {'maxiters': 57, 'abstol': 1.5e-7, 'reltol': 2.5e-6, 'feastol': 3.5e-6}
SCS = {'max_iters': 77, 'eps': 1.5e-9, 'alpha': 1.7, 'normalize': False, 'use_indirect': True, 'acceleration_lookback': 3}


def eigen(V):
    """All the positive semidefinite symmetric Toeplitz matrices of size 2, by their eigenvalues and eigenvectors."""
    r = math.sqrt(0.5)
    l1, l2 = V.real('l1', 0, 1), V.real('l2', 0.01, 1)
    return [(l1 + l2) / 2, (l1 - l2) / 2], [l1, l2], [[r, r], [r, -r]]


SHORT = brief(lambda *a, **k: weighting.ntf_fir_from_q0(*a, **k), 'q0 H_inf normalize', H_inf=1.5, normalize='auto')
SHORTW = brief(lambda *a, **k: weighting.ntf_fir_weighting(*a, **k), 'order w H_inf normalize', H_inf=1.5, normalize='auto')


def run(V, modeler, q0, H, normalize, eig=None, opts=None, poles=None):
    be = lmi.backend('weighting', modeler)
    o = dict(show_progress=False, modeler=modeler)
    o.update(opts or {})
    ps = {}
    if eig is not None:
        def eigh(M):
            return V._mkarr(np.array(eig[0], dtype=object)), V._mkarr(np.array(eig[1], dtype=object))
        ps = {'numpy.linalg.eigh': eigh}
    with standin(V, ps), own_defaults():
        return conic.record(V, modeler, be, lambda: SHORT(q0, H, normalize, **o))


def quadratic(q0, b):
    s = 0.0
    for i in range(len(b)):
        for j in range(len(b)):
            s = s + b[i] * b[j] * q0[abs(i - j)]
    return s


def clipped(q0, b):
    """The form with its negative eigenvalues removed."""
    n = len(q0)
    d, v = np.linalg.eigh(np.array([[q0[abs(i - j)] for j in range(n)] for i in range(n)]))
    Q = (v * np.maximum(d, 0)) @ v.T
    s = 0.0
    for i in range(n):
        for j in range(n):
            s = s + b[i] * b[j] * float(Q[i, j])
    return s


def cost(V, env, roles, cpos, cs, a):
    """Squared objective, for objectives that are norms (possibly through auxiliary unknowns)."""
    at = env.at(a)
    kind, e = at.obj
    if kind == 'norm':
        V.check(not at.soc and not at.ge, 'no other constraint')
        return e, []
    V.check(len(at.soc) == 1 and kind == 'lin', 'the objective is a norm')
    return at.soc[0][0], [(at.soc[0][1], e[0], at.ge)]


def posed(V, env, roles, cpos, n, H, ar, form, tol=1e-9):
    """The problem is: minimise the form, subject to the bound on the gain."""
    cs = [V.real('c%d' % (k + 1), -2, 2) for k in range(n)]
    a = lmi.assignment(V, env, cpos, 'x', cs)
    at = env.at(a)
    V.check(not at.eq, 'no equality constrains the coefficients')
    e, epi = cost(V, env, roles, cpos, cs, a)
    z = [0.0] * n
    e0, _ = cost(V, env, roles, cpos, z, lmi.assignment(V, env, cpos, 'y', z))
    s = sum((x * x for x in e), 0.0)
    s0 = sum((x * x for x in e0), 0.0)
    V.pos(s0, 'the objective depends on the form') if V.symbolic and False else V.check(s0 > 0, 'the objective depends on the form')
    V.eq(s * form([1.0] + z), s0 * form([1.0] + cs), 'the objective is the quadratic form', tol)
    big = [b for b in range(roles.nblocks) if b not in roles.direct]
    V.check(len(big) == 1, 'one gain constraint')
    ds = roles.deps(big[0])
    V.check(len(ds) == 1 and ds[0] in roles.sym, 'one certificate')
    V.check(set(roles.direct.values()) <= {ds[0]}, 'no constraint on other unknowns')
    for b, g in roles.direct.items():
        for i in range(n):
            for j in range(n):
                V.eq(at.psd[b][i][j], a[g][i][j], 'the certificate is positive semidefinite', tol)
    lmi.lee(V, at.psd[big[0]], cs, ar, H, a[ds[0]], tol)
    for y, o, ge in epi:
        for g in ge:
            V.assume(g >= 0)
        V.le(y, o, 'the objective is not less than the norm', tol)
        # equality is reached when the auxiliary unknowns are all the same
        t = V.real('tt', 0, 50)
        b = lmi.assignment(V, env, cpos, 'x', cs)
        for g, (s_, sym) in enumerate(env.groups()):
            if g not in roles.c and g != ds[0]:
                V.check(s_ == (1, 1), 'auxiliary unknowns are scalars')
                b[g] = [[t]]
        at = env.at(b)
        V.eq(at.obj[1][0], t, 'the objective is the norm', tol)
        V.eq(at.soc[0][1], t, 'the objective is the norm (cone)', tol)
        for g in at.ge:
            V.le(0, g, 'the objective can be the norm', tol)


def fir(V, modeler, order, row, normalize, fix_pos=True, usual=False):
    # roles of the unknowns
    sh = run(V, modeler, np.array(ROWS['pd'][:order + 1]), 1.75, normalize, opts={'fix_pos': fix_pos})
    cpos = lmi.coefs(V, sh, order)
    roles = lmi.Roles(sh, cpos)
    H = V.real('H', 1.01, 8) if not usual else 1.5
    eig = None
    if row == 'eigen':
        q, d, v = eigen(V)
        V.assume(q[0] > 0.001)
        eig = ([x / q[0] for x in d] if normalize == 'auto' else d if normalize is None else [x * normalize for x in d], v)
        q0 = V._mkarr(np.array(q, dtype=object))
    else:
        q = ROWS[row][:order + 1]
        q0 = np.array(q)
    env = run(V, modeler, q0, H, normalize, eig, {'fix_pos': fix_pos})
    V.check(lmi.coefs(V, env, order) == cpos, 'the coefficients are those found by the optimiser')
    posed(V, env, roles, cpos, order, H, [0.0] * order, (lambda b: clipped(q, b)) if row == 'neg' else lambda b: quadratic(q, b), 1e-7)
    z, p, k = env.result
    V.eq(z, np.array([1000.25 + i for i in range(order)]), 'the zeros are the roots')
    V.eq(p, np.zeros(order), 'the poles are null')
    V.check(k == 1, 'unit gain')


def weight(V, modeler, order, m, usual=False):
    """Starting from a weighting function."""
    be = lmi.backend('weighting', modeler)
    got = []

    def from_q0(q0, H_inf=1.5, normalize='auto', **o):
        got.append((q0, H_inf, normalize, o))
        return 'ntf'
    c = V.array('c', m, -2, 2)
    H = V.real('H', 1.01, 8) if not usual else 1.5
    normal = 'auto' if usual else 0.5

    def w(f):
        r = c[0]
        for i in range(1, m):
            r = r + 2 * c[i] * np.cos(2 * np.pi * i * f)
        return r
    with patched((_fir_weighting, 'ntf_fir_from_q0', from_q0)), own_defaults():
        r = SHORTW(order, w, H, normal, modeler=modeler, show_progress=False)
    V.check(r == 'ntf' and len(got) == 1, 'the design comes from the quadratic form')
    q0, h, norm, o = got[0]
    V.eq(h, H, 'gain limit')
    V.check(norm == normal, 'normalisation')
    V.check(o.get('modeler') == modeler and o.get('show_progress') is False, 'options')
    V.eq(q0, V._mkarr(np.array([c[k] if k < m else 0.0 for k in range(order + 1)], dtype=object)), 'quadratic form of the weighting', 1e-7)


def options(V, modeler, solver=None, func='q0', over=None):
    """The options reach the solver."""
    t = dict(TOLS)
    be = lmi.backend('weighting', modeler)
    o = dict(modeler=modeler, show_progress=V.bool('show'))
    want = dict(t)
    if modeler == 'cvxpy':
        if solver == 'scs':
            o['scs_opts'] = dict(SCS)
            want = dict(SCS)
        else:
            o['cvxopt_opts'] = t
        o['cvxpy_opts'] = {'solver': solver, 'override_kktsolver': over}
    else:
        o['cvxopt_opts'] = t
    for k in want:
        if isinstance(want[k], float):
            want[k] = V.real('o_' + k, 1e-9, 1e-3)
            (o.get('scs_opts') if solver == 'scs' else t)[k] = want[k]
    show = bool(o['show_progress'])
    o['show_progress'] = show
    q0 = np.array(ROWS['pd'][:3])
    with own_defaults():
        if func == 'q0':
            env = conic.record(V, modeler, be, lambda: weighting.ntf_fir_from_q0(q0, **o))
        elif func == 'weighting':
            env = conic.record(V, modeler, be, lambda: weighting.ntf_fir_weighting(2, lambda f: 1.0 + f, **o))
        else:
            env = conic.record(V, modeler, be, lambda: weighting.ntf_hybrid_weighting(2, lambda f: 1.0 + f, poles=[0.25], **o))
    delivered(V, env, modeler, solver, over, show, want)


def delivered(V, env, modeler, solver, over, show, want):
    kw = env.kw
    if modeler == 'cvxpy':
        V.check(kw.get('verbose') is show, 'progress')
        V.check(kw.get('solver') == ('SCS' if solver == 'scs' else 'CVXOPT'), 'solver')
        V.check((kw.get('kktsolver') == 'chol') == (solver == 'cvxopt' and over), 'kkt solver')
        V.check('override_kktsolver' not in kw, 'the option of the package is not passed on')
        for k, v in want.items():
            V.check(k in kw, 'option %s reaches the solver' % k)
            V.check(kw[k] == v, 'value of option %s' % k)
    elif modeler == 'picos':
        V.check(kw.get('verbosity') == (1 if show else 0), 'progress')
        for k, k2 in (('maxiters', 'max_iterations'), ('abstol', 'abs_ipm_opt_tol'), ('reltol', 'rel_ipm_opt_tol')):
            V.check(k2 in kw, 'option %s reaches the solver' % k)
            V.check(kw[k2] == want[k], 'value of option %s' % k)
    else:
        V.check(kw.get('show_progress') is show, 'progress')
        for k, v in want.items():
            V.check(k in kw, 'option %s reaches the solver' % k)
            V.check(kw[k] == v, 'value of option %s' % k)


def unknown(V):
    H = V.real('H', 1.1, 4)
    for f in (lambda: weighting.ntf_fir_from_q0(np.array([1.0, 0.5]), H, modeler='nothing'),
              lambda: weighting.ntf_fir_weighting(2, lambda f: 1.0, H, modeler='nothing'),
              lambda: weighting.ntf_hybrid_weighting(2, lambda f: 1.0, H, modeler='nothing')):
        try:
            f()
        except ValueError:
            continue
        V.check(False, 'unknown modellers are refused')


def instances(tier):
    out = []

    def add(body, **p):
        nm = body.__name__ + ''.join('-%s' % (v,) for k, v in sorted(p.items()))
        out.append(Instance(nm, body, p, skip=('pydsm.cvxpy_tdr',), timeout=20, samples=3, rtol=1e-6, nodiv0=True,
                            stubs=__import__('sx.shim').shim.QUAD if body is weight else None,
                            bounds='gain limit any real in [1.01,8], coefficients and certificates any reals in [-2,2], orders %s' % (p.get('order', 2),)))
    for m in lmi.MODELERS:
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5):
            add(fir, modeler=m, order=n, row='pd', normalize='auto')
        add(fir, modeler=m, order=2, row='wide', normalize=None, fix_pos=False)
        add(fir, modeler=m, order=2, row='neg', normalize='auto')
        add(fir, modeler=m, order=3, row='wide', normalize=0.25)
        if m != 'cvxpy_old':        # its sparse matrices branch on zeros
            add(fir, modeler=m, order=1, row='eigen', normalize='auto')
        add(weight, modeler=m, order=2, m=2)
        add(weight, modeler=m, order=1, m=2, usual=True)
        add(fir, modeler=m, order=1, row='wide', normalize='auto', usual=True)
        for f in ('q0', 'weighting', 'hybrid'):
            if m == 'cvxpy':
                for s in ('cvxopt', 'scs'):
                    for o in (True, False):
                        add(options, modeler=m, solver=s, over=o, func=f)
            else:
                add(options, modeler=m, func=f)
    add(unknown)
    return out
