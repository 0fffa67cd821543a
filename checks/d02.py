# -*- coding: utf-8 -*-
from sx.run import Instance
from .dsim import check_sim

ASSUMPTIONS = ('real arithmetic in the symbolic runs (IEEE rounding is outside); '
               'concrete replays use dyadic inputs, for which the arithmetic is exact',)


def cases(backend):
    out = []

    def add(n, nu, nq, N, nlev, thorough=False, **k):
        nm = '%s-n%d-u%d-q%d-N%d-l%s%s' % (backend, n, nu, nq, N, '_'.join(map(str, nlev)),
                                         ''.join('-%s%s' % (a, b) for a, b in sorted(k.items())))
        kw = dict(backend=backend, n=n, nu=nu, nq=nq, N=N, nlev=nlev)
        kw.update(k)
        out.append(Instance(nm.replace(' ', ''), check_sim, kw, grid=4, max_paths=64, timeout=10,
                            thorough=thorough, samples=3,
                            bounds='order %d, %d input(s), %d quantizer(s) with %s levels, %d samples; '
                                   'every ABCD entry, input and initial state any real in [-2,2]' % (
                                       n, nu, nq, list(nlev), N)))
    add(1, 1, 1, 3, [2], u1d=True)
    add(1, 1, 1, 2, [3], x0mode='zero')
    add(2, 1, 1, 2, [2], x0mode='col')
    add(2, 1, 1, 2, [5], u1d=True, x0mode='zero', stores=(False, False, False))
    add(2, 2, 1, 2, [4], stores=(False, True, False))
    add(2, 1, 2, 2, [2, 3], stores=(True, False, True))
    add(3, 2, 2, 2, [3, 4], chain=True)
    add(2, 3, 2, 1, [2, 5])
    add(3, 1, 3, 2, [2, 3, 6], chain=True, stores=(False, True, True))
    add(0, 1, 1, 3, [3], x0mode='zero', u1d=True)
    add(0, 2, 2, 2, [2, 4], x0mode='zero')
    add(2, 1, 1, 4, [2], chain=True, x0mode='zero', u1d=True, thorough=True)
    add(3, 2, 2, 3, [3, 8], thorough=True)
    add(4, 1, 1, 3, [3], chain=True, thorough=True)
    return out


def instances(tier):
    return cases('scipy')
