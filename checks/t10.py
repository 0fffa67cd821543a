# -*- coding: utf-8 -*-
import numpy as np
from sx.run import Instance
from pydsm.delsig import axisLabels

ASSUMPTIONS = ('the text that %g yields for a number is not encoded: symbolic values are followed '
               'through the formatting by stand-in numbers that %g prints exactly',)


def labels(V, n, incr, lim, lst):
    x = V.array('x', n, -lim, lim)
    keep = list(x)
    s = axisLabels(list(x) if lst else x, incr)
    start, step = incr if not isinstance(incr, int) else (0, incr)
    idx = list(range(start, n, step))
    V.check(isinstance(s, list), 'a list of labels')
    V.check(len(s) == len(idx), 'one label for each step')
    for t, i in zip(s, idx):
        p = x[i]
        small = V.all([p < 1e-6, p > -1e-6])
        V.printed(t, V.ite(small, 0.0, p), 'label')
    V.eq(x, V.mk(keep), 'the points are not altered')


def errors(V, incr):
    x = V.array('x', 3, -1, 1)
    r = V.call(axisLabels, (TypeError,), x, incr)
    V.check(r[0] == 'exc', 'an increment that is not an integer is rejected')


def matrix(V):
    x = V.array('x', 6, -4, 4)
    s = axisLabels(x.reshape(2, 3), 1)
    V.check(len(s) == 6, 'points are flattened')
    for t, p in zip(s, x):
        V.printed(t, V.ite(V.all([p < 1e-6, p > -1e-6]), 0.0, p), 'label')


def step_of(incr):
    return incr if isinstance(incr, int) else incr[1]


def instances(tier):
    out = []
    for n in (0, 1, 3, 5):
        for incr in (1, 2, 3, (0, 1), (1, 2), [2, 1], (2, 3), (4, 2)):
            for lim in (4, 2e-6):
                if n == 0 and lim != 4:
                    continue
                out.append(Instance('n%d-%s-%g' % (n, incr, lim), labels, dict(n=n, incr=incr, lim=lim, lst=(n, step_of(incr)) in ((1, 1), (3, 1), (5, 1))),
                                    bounds='%d points in [-%g,%g]' % (n, lim, lim), tokens=True))
    out.append(Instance('matrix', matrix, {}, bounds='2x3 points in [-4,4]', tokens=True))
    for i, incr in enumerate((1.5, (1.0, 2), (1, 2, 3), None, 'a', (1,))):
        out.append(Instance('error%d' % i, errors, dict(incr=incr), bounds='3 points in [-1,1]', tokens=True))
    return out
