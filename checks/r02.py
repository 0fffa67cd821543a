# -*- coding: utf-8 -*-
import itertools
import numpy as np
from sx.run import Instance
from pydsm.relab import shiftdim

ASSUMPTIONS = ()


def leading(shape):
    return next((i for i, v in enumerate(shape) if v > 1), 0)


def shift(V, shape, n, form):
    size = int(np.prod(shape))
    x = V.array('x', size, -4, 4).reshape(shape)
    a = x.tolist() if form == 'list' and not V.symbolic else x
    if form == 'one':
        y, m = (shiftdim(a, nargout=1), None) if n is None else (shiftdim(a, n, nargout=1), None)
    else:
        y, m = shiftdim(a) if n is None else shiftdim(a, n)
    nd = len(shape)
    k = leading(shape) if n is None else n % nd if n > 0 else n
    if m is not None:
        V.eq(m, k, 'actual shift')
    if k <= 0:
        V.check(np.shape(y) == (1,) * -k + tuple(shape), 'unit axes are inserted')
        f = lambda ix: (0,) * -k + ix
    elif k <= leading(shape):
        V.check(np.shape(y) == tuple(shape[k:]), 'leading unit axes are removed')
        f = lambda ix: ix[k:]
    else:
        V.check(np.shape(y) == tuple(shape[k:]) + tuple(shape[:k]), 'axes are rotated')
        f = lambda ix: ix[k:] + ix[:k]
    for ix in np.ndindex(*shape):
        V.eq(y[f(ix)], x[ix], 'entries follow their axes')


def back(V, shape):
    """Removing and inserting the leading unit axes are inverse operations."""
    size = int(np.prod(shape))
    x = V.array('x', size, -4, 4).reshape(shape)
    y, n = shiftdim(x)
    z = shiftdim(y, -n, nargout=1)
    V.check(np.shape(z) == tuple(shape), 'original shape')
    for ix in np.ndindex(*shape):
        V.eq(z[ix], x[ix], 'original entries')


def instances(tier):
    out = []
    shapes = [(3,), (1,), (2, 3), (1, 3), (3, 1), (1, 1), (1, 1, 3), (1, 2, 3), (2, 1, 3), (2, 3, 1), (1, 1, 3, 1, 2), (1, 1, 1), (2, 2, 2)]
    if tier == 'thorough':
        shapes += [(1, 2, 1, 2), (2, 3, 2, 1), (1, 1, 1, 2), (3, 2, 4)]
    for sh in shapes:
        nm = 'x'.join(map(str, sh))
        for n in (None, 0, 1, 2, 3, 4, 5, 7, -1, -2, -3):
            form = 'one' if n in (3, -1) else 'list' if n == 1 else 'array'
            out.append(Instance('%s-%s' % (nm, n), shift, dict(shape=sh, n=n, form=form), bounds='entries in [-4,4]'))
        out.append(Instance(nm + '-back', back, dict(shape=sh), bounds='entries in [-4,4]'))
    return out
