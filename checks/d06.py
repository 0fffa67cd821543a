# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from .dsim import sim, BACKENDS

ASSUMPTIONS = ('matrix entries and samples are fixed numbers; the dimensions are the symbolic '
               'variables, and every feasible combination is a path decided by the solver',)


def pick(V, name, lo, hi):
    """A symbolic dimension, split by the solver into its feasible values."""
    x = V.int(name, lo, hi)
    for k in range(lo, hi):
        if x == k:
            return k
    return hi


def numbers(*sh):
    n = int(np.prod(sh, dtype=int))
    return (((np.arange(n) * 7) % 11 - 5) / 8.0).reshape(sh)


def outcome(V, valid, why, *a, **k):
    st, r = V.call(sim, (ValueError,), *a, **k)
    if valid:
        V.check(st == 'ok', 'a consistent request is served (%s)' % why)
    else:
        V.check(st == 'exc', 'an inconsistent request is rejected with ValueError (%s)' % why)
    return st, r


def abcd(V, backend, rmax, cmax, nqmax, numax, N):
    nq, nu = pick(V, 'quantizers', 1, nqmax), pick(V, 'inputs', 1, numax)
    r, c = pick(V, 'rows', 1, rmax), pick(V, 'columns', 1, cmax)
    valid = c == r + nu and r >= nq
    st, res = outcome(V, valid, 'matrix dimensions', numbers(nu, N), numbers(r, c), [2] * nq, 0,
                      store_xn=True, store_y=True, backend=backend)
    if st == 'ok' and valid:
        V.check(np.size(res[0]) == nq * N, 'one output per quantizer and sample')
        V.check(np.size(res[1]) == (r - nq) * N, 'one state per order and sample')


def state(V, backend, nmax, lmax, form):
    n, ln = pick(V, 'order', 1, nmax), pick(V, 'state', 1, lmax)
    col = pick(V, 'column', 0, 1)
    x0 = numbers(ln)
    x0 = x0.reshape(-1, 1) if col else x0
    spec = numbers(n + 1, n + 2) if form == 'abcd' else \
        ([1.0] * n, list(np.arange(1, n + 1) / 8.0), 1.0)
    outcome(V, ln == n, 'initial state', numbers(3), spec, 2, x0, backend=backend)


def ntf(V, backend, zmax, pmax, nqmax, numax):
    nz, np_ = pick(V, 'zeros', 1, zmax), pick(V, 'poles', 1, pmax)
    nq, nu = pick(V, 'quantizers', 1, nqmax), pick(V, 'inputs', 1, numax)
    valid = nz == np_ and nq == 1 and nu == 1
    outcome(V, valid, 'zero-pole-gain form', numbers(nu, 3),
            (np.ones(nz), np.arange(1, np_ + 1) / 8.0, 1.0), [2] * nq if nq > 1 else 2, 0, backend=backend)


def backend_name(V, k):
    """Anything but the documented backends is refused."""
    names = ['auto', 'scipy', 'scipy_blas', 'cblas', 'none', 'SCIPY', '', 'blas']
    i = pick(V, 'backend', 0, len(names) - 1)
    st, r = V.call(sim, (RuntimeError,), numbers(3), numbers(2, 3), 2, 0, backend=names[i])
    V.check((st == 'ok') == (i < 4), 'backend %r' % names[i])
    st, r = V.call(sim, (TypeError,), numbers(3), numbers(2, 3), 2, 0, backend='scipy', nosuch=1)
    V.check(st == 'exc', 'an unknown option is refused')


def instances(tier):
    out = []
    for be in BACKENDS:
        k = 1 if tier == 'thorough' else 0
        out.append(Instance(be + '-abcd', abcd, dict(backend=be, rmax=4 + k, cmax=6 + k, nqmax=2 + k, numax=2 + k, N=2),
                            max_paths=2000, samples=6,
                            bounds='1..%d rows, 1..%d columns, 1..%d inputs and quantizers, 2 samples' % (4 + k, 6 + k, 2 + k)))
        for form in ('abcd', 'ntf'):
            out.append(Instance(be + '-state-' + form, state, dict(backend=be, nmax=3 + k, lmax=4 + k, form=form),
                                max_paths=500, bounds='order 1..%d, initial states of 1..%d entries' % (3 + k, 4 + k)))
        out.append(Instance(be + '-ntf', ntf, dict(backend=be, zmax=3 + k, pmax=3 + k, nqmax=2, numax=2),
                            max_paths=500, bounds='1..%d zeros and poles, 1..2 inputs and quantizers' % (3 + k)))
    out.append(Instance('backend', backend_name, dict(k=0), bounds='8 backend names'))
    return out
