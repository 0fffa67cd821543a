# -*- coding: utf-8 -*-
"""What the matrix inequalities of the FIR design problems have to say."""
import cmath
import importlib
import math
import numpy as np
from . import conic

MODELERS = ('cvxpy', 'cvxpy_old', 'picos')
SUFFIX = {'cvxpy': 'cvxpy', 'cvxpy_old': 'cvxpy_tdr', 'picos': 'picos'}


def backend(kind, modeler):
    return importlib.import_module('pydsm.NTFdesign.%s._fir_%s_%s' % (kind, kind, SUFFIX[modeler]))


def coefs(V, env, n):
    """The entries of the unknowns that are returned as coefficients."""
    V.check(env.n == 1, 'one problem is solved')
    V.check(len(env.ir) == 1 and len(env.ir[0]) == n + 1, 'the polynomial has the given order')
    c = env.ir[0]
    V.check(c[0] == 1, 'the polynomial is monic')
    pos = [env.tokens.get(float(t)) for t in c[1:]]
    V.check(None not in pos and len(set(pos)) == n, 'the coefficients are those found by the optimiser')
    return pos


class Roles:
    """Roles of the unknowns, found out numerically on a problem without symbols."""

    def __init__(self, env, cpos):
        gs = env.groups()
        self.c = {p[0] for p in cpos}
        z = env.zeros()
        base = env.at(z).flat()
        self.dep = {}
        for g, (s, sym) in enumerate(gs):
            d = set()
            for i in range(s[0]):
                for j in range(s[1]):
                    if sym and j > i:
                        continue
                    a = env.zeros()
                    a[g][i][j] = 1.0
                    if sym:
                        a[g][j][i] = 1.0
                    for k, v in env.at(a).flat().items():
                        if any(abs(float(x) - float(y)) > 1e-12 for x, y in zip(v, base[k])):
                            d.add(k)
            self.dep[g] = d
        self.base = env.at(z)
        self.nblocks = len(self.base.psd)
        self.size = [len(m) for m in self.base.psd]
        self.sym = [g for g, (s, sym) in enumerate(gs) if g not in self.c and s[0] == s[1] and (sym or s[0] == 1)]
        # groups that are simply required to be positive semidefinite
        self.direct = {}
        for b, m in enumerate(self.base.psd):
            ds = [g for g in range(len(gs)) if ('psd', b) in self.dep[g]]
            if len(ds) == 1 and ds[0] not in self.c and len(m) == gs[ds[0]][0][0]:
                self.direct[b] = ds[0]

    def deps(self, b):
        return [g for g in self.dep if ('psd', b) in self.dep[g] and g not in self.c]


def assignment(V, env, cpos, name, cs, lo=-2, hi=2):
    """Symbolic values for all the unknowns, given the coefficients."""
    a = env.zeros()
    for g, (s, sym) in enumerate(env.groups()):
        for i in range(s[0]):
            for j in range(s[1]):
                if sym and j > i:
                    continue
                if (g, i, j) in cpos:
                    continue
                a[g][i][j] = V.real('%s%d_%d_%d' % (name, g, i, j), lo, hi)
                if sym:
                    a[g][j][i] = a[g][i][j]
    for p, c in zip(cpos, cs):
        a[p[0]][p[1]][p[2]] = c
    return a


def poly(cs, z):
    """1 z^n + c1 z^(n-1) + ...: the numerator at a point, real and imaginary part."""
    n = len(cs)
    re, im = (z ** n).real, (z ** n).imag
    for k, c in enumerate(cs):
        w = z ** (n - 1 - k)
        re = re + c * w.real
        im = im + c * w.imag
    return re, im


def form(N, v):
    """v^H N v for a real symmetric N and v given by real and imaginary parts."""
    s = 0.0
    for i in range(len(v)):
        for j in range(len(v)):
            if conic.iszero(N[i][j]):
                continue
            w = v[i][0] * v[j][0] + v[i][1] * v[j][1]
            s = s + N[i][j] * w
    return s


def state(n, z):
    return [((z ** i).real, (z ** i).imag) for i in range(n)]


def symmetric(V, N, label, tol):
    for i in range(len(N)):
        for j in range(i):
            V.eq(N[i][j], N[j][i], label + ' is symmetric', tol)


def lee(V, N, cs, ar, H, X, tol=1e-9):
    """The matrix inequality N >= 0 says that |num/den| <= H everywhere."""
    n = len(cs)
    V.check(len(N) == n + 2, 'size of the Lee constraint')
    symmetric(V, N, 'the Lee constraint', tol)
    # sound: on the unit circle it reduces to the gain, whatever the certificate
    for k in range(n + 2):
        z = cmath.exp(1j * math.pi * k / (n + 1))
        num = poly(cs, z)
        den = poly(ar, z)
        v = state(n, z) + [den, num]
        V.eq(form(N, v), H * H * (den[0] * den[0] + den[1] * den[1]) - (num[0] * num[0] + num[1] * num[1]),
             'the Lee constraint bounds the gain at %d/%d pi' % (k, n + 1), tol)
    # complete: it is the matrix of the bounded real lemma
    A, C = companion(cs, ar)
    E = brl(A, C, X, H * H)
    for i in range(n + 2):
        for j in range(i + 1):
            V.eq(N[i][j], E[i][j], 'the Lee constraint is that of the bounded real lemma [%d,%d]' % (i, j), tol)


def companion(cs, ar):
    n = len(cs)
    A = [[0.0] * n for _ in range(n)]
    for i in range(n - 1):
        A[i][i + 1] = 1.0
    for j in range(n):
        A[n - 1][j] = -ar[n - 1 - j]
    return A, [cs[n - 1 - j] - ar[n - 1 - j] for j in range(n)]


def brl(A, C, X, g):
    """-[[A'XA-X, A'XB, C'], [., B'XB-g, 1], [., ., -1]] with B the last unit vector."""
    n = len(C)
    XA = conic.mm(X, A)
    AXA = conic.mm(conic.tr(A), XA)
    N = [[0.0] * (n + 2) for _ in range(n + 2)]
    for i in range(n):
        for j in range(n):
            N[i][j] = X[i][j] - AXA[i][j]
        N[i][n] = N[n][i] = -XA[n - 1][i]
        N[i][n + 1] = N[n + 1][i] = -C[i]
    N[n][n] = g - X[n - 1][n - 1]
    N[n][n + 1] = N[n + 1][n] = -1.0
    N[n + 1][n + 1] = 1.0
    return N


