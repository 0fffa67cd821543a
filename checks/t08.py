# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from pydsm.delsig import partitionABCD

ASSUMPTIONS = ()


def partition(V, n, m, p, guess, form):
    M = V.array('m', (n + p) * (n + m), -4, 4).reshape(n + p, n + m)
    a = [list(r) for r in M] if form == 'list' else M
    A, B, C, D = partitionABCD(a) if guess else partitionABCD(a, m)
    for x, sh in ((A, (n, n)), (B, (n, m)), (C, (p, n)), (D, (p, m))):
        V.check(np.shape(x) == sh, 'sizes of the blocks')
    for i in range(n + p):
        for j in range(n + m):
            blk = ((A, B), (C, D))[i >= n][j >= n]
            V.eq(blk[i - n if i >= n else i, j - n if j >= n else j], M[i, j], 'entries of the blocks')
    if form == 'array' and n:
        v = V.real('v', 5, 6)
        M[0, n] = v
        V.changed(M)
        V.eq(B[0, 0], v, 'the content is not copied')


def instances(tier):
    out = []
    top = 3 if tier == 'quick' else 5
    for n in range(0, top + 1):
        for m in range(1, top + 1):
            for p in range(1, top + 1):
                for guess in (False, True):
                    if guess and min(m, p) != 1:
                        continue    # the least acceptable number of inputs or outputs is assumed
                    out.append(Instance('n%d-m%d-p%d%s' % (n, m, p, '-guess' if guess else ''), partition,
                                        dict(n=n, m=m, p=p, guess=guess, form='list' if (n + m + p) % 3 == 0 else 'array'),
                                        bounds='%d states, %d inputs, %d outputs, entries in [-4,4]' % (n, m, p)))
    return out
