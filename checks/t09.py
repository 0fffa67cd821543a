# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from pydsm.delsig import padl, padr, padt, padb

ASSUMPTIONS = ()


def pad(V, fn, r, c, n, cplx, default):
    """c None: a vector of r entries."""
    f = {'l': padl, 'r': padr, 't': padt, 'b': padb}[fn]
    k = r if c is None else r * c
    x = V.carray('x', k, -4, 4) if cplx else V.array('x', k, -4, 4)
    x = x if c is None else x.reshape(r, c)
    val = 0 if default else V.real('val', -4, 4)
    y = f(x, n) if default else f(x, n, val)
    if c is None:
        off = n - r if fn in 'lt' else 0
        V.check(np.shape(y) == (n,), 'length of the padded vector')
        for i in range(n):
            V.eq(y[i], x[i - off] if 0 <= i - off < r else val, 'entries of the padded vector')
    else:
        hor = fn in 'lr'
        V.check(np.shape(y) == ((r, n) if hor else (n, c)), 'size of the padded matrix')
        oi = n - r if fn == 't' else 0
        oj = n - c if fn == 'l' else 0
        for i in range(r if hor else n):
            for j in range(n if hor else c):
                inside = 0 <= i - oi < r and 0 <= j - oj < c
                V.eq(y[i, j], x[i - oi, j - oj] if inside else val, 'entries of the padded matrix')


def instances(tier):
    out = []
    for fn in 'lrtb':
        for r, c in ((1, None), (3, None), (1, 1), (1, 3), (3, 1), (2, 3), (3, 2)):
            ln = r if c is None or fn in 'tb' else c
            for n in (ln, ln + 1, ln + 3):
                for cplx, default in ((False, True), (False, False), (True, False)):
                    out.append(Instance('pad%s-%s-to%d-%d%d' % (fn, r if c is None else '%dx%d' % (r, c), n, cplx, default), pad,
                                        dict(fn=fn, r=r, c=c, n=n, cplx=cplx, default=default),
                                        bounds='entries and fill value in [-4,4]'))
    return out
