# -*- coding: utf-8 -*-
"""Symbolic scalars, canonical polynomials, path exploration and the solver.

Real numbers of the code under test are z3 reals.  exp/log/sqrt/cos/sin/...
become *atoms*: fresh z3 reals keyed by the canonical form of their argument,
with the axioms that tie them to it (see `Ctx.axioms`).
"""
import math
import operator
import time
import builtins
import numbers
from fractions import Fraction
import numpy as np
import z3

O_abs = builtins.abs
PI = math.pi


class Unsupported(Exception):
    """The engine has no model for what the code did on this path."""


class Infeasible(BaseException):
    """Current path is infeasible (steering exception)."""


class PathLimit(BaseException):
    pass


# ---------------------------------------------------------------- context
class Stats(object):
    def __init__(self):
        self.queries = 0
        self.branch_queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.solver_time = 0.0
        self.paths = 0

    def absorb(self, o):
        for k in ('queries', 'branch_queries', 'sat', 'unsat', 'unknown', 'solver_time', 'paths'):
            setattr(self, k, getattr(self, k) + getattr(o, k))


class Ctx(object):
    nodiv0 = False
    """One symbolic exploration of one harness instance."""

    def __init__(self, timeout_ms=20000, branch_timeout_ms=2000, stats=None,
                 deadline=None):
        self.timeout_ms = timeout_ms
        self.branch_timeout_ms = branch_timeout_ms
        self.stats = stats or Stats()
        self.deadline = deadline
        self.reset([])

    def reset(self, prefix):
        self.prefix = list(prefix)
        self.trace = []         # list of (taken, other_feasible)
        self.pc = []            # z3 bools
        self.axioms = []        # z3 bools, definitions of atoms
        self.atoms = {}         # key -> z3 const
        self.meta = {}          # z3 const name -> (kind, payload)
        self.bounds = {}        # const name -> (lo, hi) of inputs
        self.angle_base = {}    # monomial key -> (Fraction base, C, S)
        self.trig_pairs = {}    # name of S -> (C const, S const)
        self.fresh_n = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_timeout_ms)
        self._pushed = 0        # how many of pc+axioms are in the solver
        self._logic = []
        self.last_model = None
        self._lin = None
        self._branches = ({}, 0)
        self.tokens = None      # printed number -> symbol, where an instance wants it

    # --- names
    def fresh(self, hint='t', sort='real'):
        self.fresh_n += 1
        nm = '%s!%d' % (hint, self.fresh_n)
        return z3.Int(nm) if sort == 'int' else z3.Real(nm)

    def add_axiom(self, e):
        self.axioms.append(e)

    def assume(self, e):
        self.pc.append(e)

    def constraints(self):
        return self.pc + self.axioms

    # --- solving
    def _check(self, solver, *extra):
        t = time.time()
        if self.deadline is not None and t > self.deadline:
            return z3.unknown
        r = solver.check(*extra)
        self.stats.solver_time += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def _sync(self):
        # axioms may be appended in between: keep a single log
        cur = self.axioms + self.pc
        if len(self._logic) != len(cur):
            na = getattr(self, '_na', 0)
            np_ = getattr(self, '_np', 0)
            for e in self.axioms[na:]:
                self.solver.add(e)
            for e in self.pc[np_:]:
                self.solver.add(e)
            self._na, self._np = len(self.axioms), len(self.pc)
            self._logic = cur

    def feasible(self, e):
        """Is path condition /\\ e satisfiable? unknown counts as yes."""
        e = z3.simplify(e)
        if z3.is_false(e):
            return False
        self._sync()
        self.stats.branch_queries += 1
        if self.lin().refutes([e]):
            return False
        if self.lin().exact and self.lin().is_linear(e):
            return True
        r = self._check(self.solver, e)
        return r != z3.unsat

    def lin(self):
        if self._lin is None:
            self._lin = Lin(self)
        return self._lin

    def _known_branches(self):
        """Conditions of the path, by identity of their terms (equal terms are shared)."""
        m, n = self._branches
        if n > len(self.pc):
            m, n = {}, 0
        for p in self.pc[n:]:
            if z3.is_not(p):
                m.setdefault(p.arg(0).get_id(), False)
            m.setdefault(p.get_id(), True)
        self._branches = (m, len(self.pc))
        return m

    def decide(self, e):
        """Fork on the z3 boolean e; returns the branch of this path."""
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        known = self._known_branches().get(e.get_id())
        if known is not None:
            return known
        k = len(self.trace)
        if k < len(self.prefix):
            taken, other = self.prefix[k][:2]
        else:
            t_ok = self.feasible(e)
            f_ok = self.feasible(z3.Not(e)) if t_ok else True
            if t_ok:
                taken, other = True, f_ok
            else:
                taken, other = False, False
        self.trace.append((taken, other))
        self.pc.append(e if taken else z3.Not(e))
        if len(self.trace) > 4000:
            raise PathLimit()
        return taken

    def entails(self, e):
        """True when path condition implies e (unknown -> False)."""
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        self._sync()
        self.stats.branch_queries += 1
        if self.lin().refutes([z3.Not(e)]):
            return True
        if self.lin().exact and self.lin().is_linear(e):
            return False
        return self._check(self.solver, z3.Not(e)) == z3.unsat


CMPS = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)


class Lin(object):
    """Sound linear abstraction: every nonlinear monomial of the canonical
    polynomials becomes one variable (boxed when its factors are), floors get
    their defining inequalities.  unsat here is unsat there."""

    def __init__(self, cx):
        self.cx = cx
        self.s = z3.Solver()
        self.s.set('timeout', cx.branch_timeout_ms)
        self.cache = {}
        self.vars = {}
        self.side = []
        self.nside = 0
        self.na = self.np = 0
        self.opaque = 0
        self.keep = []
        self.exact = True
        self.lincache = {}

    def sync(self):
        cx = self.cx
        for lst, n in ((cx.axioms, self.na), (cx.pc, self.np)):
            for e in lst[n:]:
                o = self.opaque
                f = self.b(e)
                if self.opaque != o or not self.is_linear(e):
                    self.exact = False
                self.s.add(f)
        self.na, self.np = len(cx.axioms), len(cx.pc)
        self.flush()

    def flush(self):
        for e in self.side[self.nside:]:
            self.s.add(e)
        self.nside = len(self.side)

    def is_linear(self, e):
        """No nonlinear monomial below e."""
        i = e.get_id()
        r = self.lincache.get(i)
        if r is None:
            self.b(e)
            r = (e, not self.nonlinear_below(e))
            self.lincache[i] = r
        return r[1]

    def nonlinear_below(self, e):
        stack = [e]
        seen = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL:
                if sum(1 for c in x.children() if frac_of(c) is None) > 1:
                    return True
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
                if frac_of(x.arg(1)) is None:
                    return True
            elif k == z3.Z3_OP_POWER:
                return True
            stack.extend(x.children())
        return False

    def refutes(self, extra, sub=False):
        if not sub:
            self.sync()
            ex = [self.b(e) for e in extra]
        else:
            x, y = extra[0].arg(0), extra[0].arg(1)
            ex = [self.expand(x) != self.expand(y)]
        self.flush()
        return self.cx._check(self.s, *ex) == z3.unsat

    def expand(self, x):
        """Like t, for a (coerced) if-then-else, without naming it."""
        if x.decl().kind() == z3.Z3_OP_TO_REAL:
            return toreal(self.expand(x.arg(0)))
        if x.decl().kind() == z3.Z3_OP_ITE:
            return toreal(z3.If(self.b(x.arg(0)), self.expand(x.arg(1)), self.expand(x.arg(2))))
        return toreal(self.t(x))

    # --- translation
    def b(self, e):
        i = e.get_id()
        if i in self.cache:
            return self.cache[i]
        k = e.decl().kind()
        if k in CMPS or k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_arith(e.arg(0)):
            a, c = e.arg(0), e.arg(1)
            if z3.is_int(a) and z3.is_int(c):
                d = self.t(a) - self.t(c)
                zero = z3.RealVal(0) if z3.is_real(d) else z3.IntVal(0)
            else:
                d = self.t(toreal(a) - toreal(c))
                zero = z3.RealVal(0)
            r = {z3.Z3_OP_LE: lambda: d <= zero, z3.Z3_OP_LT: lambda: d < zero,
                 z3.Z3_OP_GE: lambda: d >= zero, z3.Z3_OP_GT: lambda: d > zero,
                 z3.Z3_OP_EQ: lambda: d == zero, z3.Z3_OP_DISTINCT: lambda: d != zero}[k]()
        elif k == z3.Z3_OP_NOT:
            r = z3.Not(self.b(e.arg(0)))
        elif k == z3.Z3_OP_AND:
            r = z3.And(*[self.b(c) for c in e.children()])
        elif k == z3.Z3_OP_OR:
            r = z3.Or(*[self.b(c) for c in e.children()])
        elif k == z3.Z3_OP_IMPLIES:
            r = z3.Implies(self.b(e.arg(0)), self.b(e.arg(1)))
        elif k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_XOR, z3.Z3_OP_DISTINCT):
            x, y = self.b(e.arg(0)), self.b(e.arg(1))
            r = (x == y) if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) else (x != y)
        elif k == z3.Z3_OP_ITE:
            r = z3.If(self.b(e.arg(0)), self.b(e.arg(1)), self.b(e.arg(2)))
        else:
            r = e
        self.cache[i] = r
        self.keep.append(e)
        return r

    def t(self, e):
        """Linear term for an arithmetic term."""
        if frac_of(e) is not None or (z3.is_const(e) and
                                      e.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return e
        i = ('t', e.get_id())
        if i in self.cache:
            return self.cache[i]
        self.keep.append(e)
        if z3.is_int(e):
            r = self.tint(e)
        else:
            r = self.tp(to_poly(e, self.cx))
        self.cache[i] = r
        return r

    def tp(self, p):
        terms = []
        for m, c in sorted(p.t.items()):
            v = self.mono(m)
            terms.append(rv(c) if v is None else (v if c == 1 else rv(c) * v))
        return z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))

    def tint(self, e):
        k = e.decl().kind()
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(e.arg(0)), self.t(e.arg(1)), self.t(e.arg(2)))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            ch = [self.t(c) for c in e.children()]
            return -ch[0] if k == z3.Z3_OP_UMINUS else (
                z3.Sum(ch) if k == z3.Z3_OP_ADD else ch[0] - z3.Sum(ch[1:]))
        if k == z3.Z3_OP_MUL and sum(1 for c in e.children() if frac_of(c) is None) <= 1:
            return z3.Product([self.t(c) for c in e.children()])
        if k == z3.Z3_OP_TO_INT:
            return self.floor(e.arg(0))
        if k in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV, z3.Z3_OP_REM) and frac_of(e.arg(1)) not in (None, 0):
            a = self.t(e.arg(0))
            c = e.arg(1)
            return a % c if k == z3.Z3_OP_MOD else (a / c if k == z3.Z3_OP_IDIV else e)
        self.opaque += 1
        return self.var(('i', e.get_id()), True)

    def floor(self, a):
        q, c = split_floor(to_poly(toreal(a), self.cx), self.cx)
        key = ('floor', q.key())
        if key not in self.vars:
            k = self.var(key, True)
            la = self.tp(q)
            self.side.append(z3.ToReal(k) <= la)
            self.side.append(la < z3.ToReal(k) + 1)
        r = self.vars[key]
        return r + int(c) if c else r

    def var(self, key, isint=False):
        if key not in self.vars:
            n = 'L!%d' % len(self.vars)
            self.vars[key] = z3.Int(n) if isint else z3.Real(n)
        return self.vars[key]

    def atom(self, n):
        x = self.cx.__dict__.setdefault('_atomtab', {}).get(n)
        if x is None:
            return self.var(('n', n))
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return toreal(x)
        k = x.decl().kind()
        if k == z3.Z3_OP_ITE:
            return toreal(z3.If(self.b(x.arg(0)), self.t(x.arg(1)), self.t(x.arg(2))))
        if z3.is_int(x):
            return z3.ToReal(self.t(x))
        return self.var(('n', n))

    def mono(self, m):
        if not m:
            return None
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(m[0][0])
        key = ('m', m)
        if key not in self.vars:
            self.opaque += 1
            v = self.var(key)
            lo, hi = Fraction(1), Fraction(1)
            for n, e in m:
                b = self.cx.bounds.get(n)
                if e < 0 or b is None or None in b:
                    lo = hi = None
                    break
                a, c = frac(b[0]), frac(b[1])
                if e % 2 == 0:
                    mx = max(abs(a), abs(c)) ** e
                    mn = Fraction(0) if a <= 0 <= c else min(abs(a), abs(c)) ** e
                else:
                    mn, mx = a ** e, c ** e
                q = [lo * mn, lo * mx, hi * mn, hi * mx]
                lo, hi = min(q), max(q)
            if lo is not None:
                self.side.append(v >= rv(lo))
                self.side.append(v <= rv(hi))
            elif all(e % 2 == 0 for n, e in m):
                self.side.append(v >= 0)
        return self.vars[key]


def frac(x):
    return Fraction(x) if isinstance(x, (int, Fraction)) else Fraction(float(x))


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    if CTX is None:
        raise Unsupported('symbolic value used outside symbolic mode')
    return CTX


# ---------------------------------------------------------------- helpers
def snap(x, tol=1e-13, maxden=5040):
    """Closest simple rational of a float if within relative tol, else exact."""
    f = Fraction(x)
    if f.denominator <= maxden:
        return f
    g = f.limit_denominator(maxden)
    if g != 0 and O_abs(f - g) <= tol * O_abs(g):
        return g
    return f


def is_sym(x):
    return isinstance(x, (SNum, SComplex, SBool))


def is_pynum(x):
    return isinstance(x, (int, float, complex, np.number, np.bool_, bool, Fraction))


def rv(x):
    """z3 numeral of an exact python number."""
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    f = x if isinstance(x, Fraction) else Fraction(float(x))
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def frac_of(e):
    """Fraction of a z3 numeral or None."""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def toreal(e):
    return z3.ToReal(e) if z3.is_int(e) else e


# ---------------------------------------------------------------- canonical polynomials
# A polynomial is {monomial: Fraction}; a monomial is a sorted tuple of
# (atom_name, exponent) with possibly negative exponents.
class Poly(object):
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = t or {}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(n):
        return Poly({((n, 1),): Fraction(1)})

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def scale(self, k):
        k = Fraction(k)
        return Poly({m: c * k for m, c in self.t.items()} if k else {})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        if len(self.t) * len(o.t) > 400000:
            raise Unsupported('polynomial too large')
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constval(self):
        return self.t.get((), Fraction(0))

    def key(self):
        return tuple(sorted(self.t.items()))

    def __repr__(self):
        return 'Poly(%s)' % self.t


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for n, e in b:
        d[n] = d.get(n, 0) + e
        if d[n] == 0:
            del d[n]
    return tuple(sorted(d.items()))


def mono_pow(m, k):
    return tuple((n, e * k) for n, e in m)


_poly_cache = {}


def to_poly(e, cx=None, depth=0):
    """Canonical polynomial of a z3 arithmetic term (atoms by name)."""
    cx = cx or ctx()
    cache = cx.__dict__.setdefault('_pc', {})
    return _to_poly(e, cx, cache)


def _to_poly(e, cx, cache):
    # iterative post-order to avoid recursion limits on long sums
    root = e
    stack = [(e, False)]
    while stack:
        x, done = stack.pop()
        i = x.get_id()
        if i in cache:
            continue
        if not done:
            k = x.decl().kind()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS,
                     z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL, z3.Z3_OP_POWER):
                stack.append((x, True))
                for c in x.children():
                    if c.get_id() not in cache:
                        stack.append((c, False))
                continue
            f = frac_of(x)
            if f is not None:
                cache[i] = (x, Poly.const(f))
            elif k == z3.Z3_OP_TO_INT:
                cache[i] = (x, floor_poly(to_poly(x.arg(0), cx), cx))
            else:
                cache[i] = (x, Poly.atom(atom_name(x, cx)))
            continue
        ch = [cache[c.get_id()][1] for c in x.children()]
        k = x.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = ch[0]
            for c in ch[1:]:
                r = r + c
        elif k == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]:
                r = r - c
        elif k == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]:
                r = r * c
            r = reduce_trig(r, cx)
        elif k == z3.Z3_OP_UMINUS:
            r = ch[0].scale(-1)
        elif k == z3.Z3_OP_DIV:
            r = reduce_trig(ch[0] * inv_poly(ch[1], cx), cx)
        elif k == z3.Z3_OP_TO_REAL:
            r = ch[0]
        else:
            if ch[1].is_const() and ch[1].constval().denominator == 1 \
                    and ch[1].constval() >= 0:
                r = Poly.const(1)
                for _ in range(int(ch[1].constval())):
                    r = r * ch[0]
            else:
                r = Poly.atom(atom_name(x, cx))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL) and cx.__dict__.get('_sqpoly'):
            r = fold_sqrt(r, cx)
        cache[i] = (x, r)
    return cache[root.get_id()][1]


def fold_sqrt(p, cx):
    """Rewrite m * (argument of a square root atom s) * s^-k as m * s^(2-k)."""
    sq = cx.__dict__['_sqpoly']
    if len(p.t) < 2 or not any(e < 0 and n in sq for m in p.t for n, e in m):
        return p
    m, q = content(p)
    if not m or not any(e < 0 and n in sq for n, e in m):
        return p
    for n, rad in sq.items():
        if len(rad.t) == len(q.t):
            k = max(q.t)
            if k in rad.t and q.t == rad.scale(q.t[k] / rad.t[k]).t:
                return Poly({mono_mul(m, ((n, 2),)): q.t[k] / rad.t[k]})
    return p


def split_floor(p, cx):
    """p = q + c, c integer, 0 <= constant of q < 1"""
    k = p.t.get((), Fraction(0))
    c = Fraction(math.floor(k))
    return (p - Poly.const(c) if c else p), c


def floor_poly(p, cx):
    q, c = split_floor(p, cx)
    if q.is_const():
        return Poly.const(c)
    tab = cx.__dict__.setdefault('_atomtab', {})
    if all(v.denominator == 1 and all(e > 0 and n in tab and z3.is_int(tab[n]) for n, e in m)
           for m, v in q.t.items()):
        return p
    fl = cx.__dict__.setdefault('_floors', {})
    n = fl.setdefault(q.key(), 'floor:%d' % len(fl))
    if n not in tab:
        tab[n] = z3.ToInt(poly_z3(q, cx))
    return Poly.atom(n) + Poly.const(c) if c else Poly.atom(n)


def atom_name(x, cx):
    tab = cx.__dict__.setdefault('_atomtab', {})
    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        n = x.decl().name()
    elif x.decl().kind() == z3.Z3_OP_ITE:
        return unify_ite(x, cx)
    else:
        n = '#' + x.sexpr() if len(x.sexpr()) < 200 else '#%d' % x.get_id()
    tab[n] = x
    return n


class Evaluator(object):
    """Floating point value of a term at a pseudo-random point (only to find
    candidates for equality; never decides anything)."""

    def __init__(self, cx, seed):
        self.cx, self.seed, self.c = cx, seed, {}

    def const(self, x):
        n = x.decl().name()
        h = (hash((n, self.seed)) * 2654435761 & 0xffffffff) / 2.0 ** 32
        lo, hi = self.cx.bounds.get(n, (-3, 3))
        lo, hi = (-3 if lo is None else float(lo)), (3 if hi is None else float(hi))
        v = lo + h * (hi - lo)
        return round(v) if z3.is_int(x) else v

    def __call__(self, x):
        stack = [(x, False)]
        c = self.c
        while stack:
            e, done = stack.pop()
            i = e.get_id()
            if i in c:
                continue
            if not done:
                if not e.num_args():
                    f = frac_of(e)
                    c[i] = (e, float(f) if f is not None else
                            True if z3.is_true(e) else False if z3.is_false(e) else self.const(e))
                    continue
                stack.append((e, True))
                stack.extend((k, False) for k in e.children())
                continue
            c[i] = (e, self.op(e, [c[k.get_id()][1] for k in e.children()]))
        return c[x.get_id()][1]

    def op(self, e, a):
        k = e.decl().kind()
        try:
            if k == z3.Z3_OP_ADD:
                return sum(a)
            if k == z3.Z3_OP_SUB:
                return a[0] - sum(a[1:])
            if k == z3.Z3_OP_MUL:
                r = 1.0
                for v in a:
                    r *= v
                return r
            if k == z3.Z3_OP_UMINUS:
                return -a[0]
            if k == z3.Z3_OP_DIV:
                return a[0] / a[1]
            if k == z3.Z3_OP_IDIV:
                return a[0] // a[1]
            if k in (z3.Z3_OP_MOD, z3.Z3_OP_REM):
                return a[0] % a[1]
            if k == z3.Z3_OP_TO_REAL:
                return a[0]
            if k == z3.Z3_OP_TO_INT:
                return math.floor(a[0])
            if k == z3.Z3_OP_POWER:
                return a[0] ** a[1]
            if k == z3.Z3_OP_ITE:
                return a[1] if a[0] else a[2]
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
                return a[0] == a[1]
            if k in (z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR):
                return a[0] != a[1]
            if k == z3.Z3_OP_LE:
                return a[0] <= a[1]
            if k == z3.Z3_OP_LT:
                return a[0] < a[1]
            if k == z3.Z3_OP_GE:
                return a[0] >= a[1]
            if k == z3.Z3_OP_GT:
                return a[0] > a[1]
            if k == z3.Z3_OP_NOT:
                return not a[0]
            if k == z3.Z3_OP_AND:
                return all(a)
            if k == z3.Z3_OP_OR:
                return any(a)
            if k == z3.Z3_OP_IMPLIES:
                return (not a[0]) or a[1]
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            pass
        return float(e.get_id())


def unify_ite(x, cx):
    """Name of an if-then-else atom; terms the solver proves equal share it."""
    tab = cx.__dict__.setdefault('_atomtab', {})
    st = cx.__dict__.setdefault('_ites', {'ev': [Evaluator(cx, k) for k in range(3)],
                                         'sig': {}, 'id': {}})
    i = x.get_id()
    if i in st['id']:
        return st['id'][i][1]
    # inner terms first, so that a representative never contains its class
    stack, seen, order = [(c, False) for c in x.children()], set(), []
    while stack:
        y, done = stack.pop()
        if done:
            order.append(y)
            continue
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.decl().kind() == z3.Z3_OP_ITE and z3.is_arith(y):
            if y.get_id() in st['id']:
                continue
            stack.append((y, True))
        stack.extend((c, False) for c in y.children())
    for y in order:
        if y.get_id() not in st['id']:
            unify_ite(y, cx)
    try:
        sig = tuple(round(float(ev(x)), 7) for ev in st['ev'])
    except (OverflowError, ValueError, TypeError):
        sig = None
    cands = st['sig'].setdefault(sig, [])
    prov = 'ite:%d' % len(st['id'])
    tab[prov] = x
    st['id'][i] = (x, prov)
    for nm, y in (list(cands) if sig is not None else ()):
        if cx.lin().refutes([toreal(x) != toreal(y)], sub=True):
            st['id'][i] = (x, nm)
            return nm
    cands.append((prov, x))
    return prov


def inv_poly(p, cx):
    if not p.t:
        return Poly.atom('1/0')
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Poly({mono_pow(m, -1): 1 / c})
    m, p = content(p)
    if m:
        p = reduce_trig(p, cx)
        return Poly({mono_pow(m, -1): Fraction(1)}) * inv_poly(p, cx)
    for n, rad in cx.__dict__.get('_sqpoly', {}).items():
        if len(rad.t) == len(p.t):
            k = max(p.t)
            if k in rad.t and p.t == rad.scale(p.t[k] / rad.t[k]).t:
                # a multiple of the argument of a square root atom
                return Poly({((n, -2),): rad.t[k] / p.t[k]})
    lead = max(p.t)
    c = p.t[lead]
    q = p.scale(1 / c)
    n = 'inv:%d' % cx.__dict__.setdefault('_invtab', {}).setdefault(
        q.key(), len(cx.__dict__['_invtab']))
    cx.__dict__.setdefault('_invpoly', {})[n] = q
    return Poly({((n, 1),): 1 / c})


def content(p):
    """(m, q) with p = m * q, q without common factors or negative powers."""
    low = None
    for mm in p.t:
        d = dict(mm)
        if low is None:
            low = d
        else:
            low = {n: min(e, d.get(n, 0)) for n, e in low.items() if n in d or e < 0}
            for n, e in d.items():
                if e < 0 and n not in low:
                    low[n] = e
        low = {n: e for n, e in low.items() if e}
    m = tuple(sorted(low.items()))
    if not m:
        return (), p
    inv = mono_pow(m, -1)
    return m, Poly({mono_mul(x, inv): c for x, c in p.t.items()})


def reduce_trig(p, cx):
    """S^2 -> 1 - C^2 and sqrt-atom^2 -> its argument."""
    if not cx.trig_pairs and not cx.__dict__.get('_sqpoly'):
        return p
    sq = cx.__dict__.get('_sqpoly', {})
    while True:
        hit = None
        for m in p.t:
            for n, e in m:
                if e >= 2 and (n in cx.trig_pairs or n in sq):
                    hit = (m, n, e)
                    break
            if hit:
                break
        if not hit:
            return p
        m, n, e = hit
        c = p.t[m]
        rest = Poly({mono_mul(tuple(x for x in m if x[0] != n),
                              ((n, e % 2),) if e % 2 else ()): c})
        if n in sq:
            base = sq[n]
        else:
            cn = cx.trig_pairs[n][0].decl().name()
            base = Poly({(): Fraction(1), ((cn, 2),): Fraction(-1)})
        for _ in range(e // 2):
            rest = rest * base
        q = dict(p.t)
        del q[m]
        p = Poly(q) + rest


def poly_z3(p, cx):
    """z3 term of a canonical polynomial."""
    tab = cx.__dict__.setdefault('_atomtab', {})
    inv = cx.__dict__.get('_invpoly', {})
    terms = []
    for m, c in sorted(p.t.items()):
        num = [rv(c)] if c != 1 or not m else []
        den = []
        for n, e in m:
            if n in inv:
                a = poly_z3(inv[n], cx)
                e = -e
            elif n == '1/0':
                a = z3.RealVal(0)
                e = -e
            else:
                a = toreal(tab[n])
            (num if e > 0 else den).extend([a] * O_abs(e))
        t = z3.Product(num) if len(num) > 1 else (num[0] if num else z3.RealVal(1))
        if den:
            t = t / (z3.Product(den) if len(den) > 1 else den[0])
        terms.append(t)
    if not terms:
        return z3.RealVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def clear_signed(p, cx):
    """(p times denominators, the denominators that have to be positive)."""
    inv = cx.__dict__.get('_invpoly', {})
    sq = cx.__dict__.get('_sqpoly', {})
    dens = []
    for _ in range(40):
        worst = {}
        for m in p.t:
            for n, e in m:
                if n in inv and e > 0:
                    worst[n] = max(worst.get(n, 0), e)
                elif n in sq and e < 0:
                    worst[n] = max(worst.get(n, 0), -(e // 2))
        if not worst:
            break
        n = sorted(worst)[-1]
        k = worst[n]
        base = inv[n] if n in inv else sq[n]
        if k % 2:
            dens.append(base)
        pw = [Poly.const(1)]
        for _ in range(k):
            pw.append(pw[-1] * base)
        r = Poly()
        for m, c in p.t.items():
            e = dict(m).get(n, 0)
            rest = tuple(x for x in m if x[0] != n)
            if n in sq:
                h = e // 2
                rest = mono_mul(rest, ((n, e - 2 * h),) if e - 2 * h else ())
                e = -h
            r = r + Poly({rest: c}) * pw[k - e]
        p = r
    for n in list(sq):
        # odd powers of a positive square root common to all terms
        if p.t and all(dict(m).get(n, 0) % 2 for m in p.t):
            dens.append(sq[n])
            p = reduce_trig(p * Poly({((n, -1),): Fraction(1)}), cx)
    neg = {}
    for m in p.t:
        for n, e in m:
            if e < 0:
                neg[n] = min(neg.get(n, 0), e)
    if neg:
        for n, e in neg.items():
            if e % 2:
                dens.append(Poly.atom(n))
        p = p * Poly({tuple(sorted((n, -e) for n, e in neg.items())): Fraction(1)})
    return p, dens


def uni_decide(p, cx, strict=False, timeout=None):
    """unsat when p <= 0 (p < 0 when strict) for all values of its only, bounded input; (verdict, model)."""
    p, dens = clear_signed(p, cx)
    work = list(dens)
    while work:
        q, more = clear_signed(work.pop(), cx)
        work += more
        # the denominators have to be positive
        r, m = uni_query(cx, q, -1, timeout)
        if r != z3.unsat:
            return z3.unknown, None
    return uni_query(cx, p.scale(-1), -1, timeout) if strict else uni_query(cx, p, 1, timeout)


def uni_query(cx, p, sign, timeout=None):
    """Is there an input with p > 0 (p <= 0 for a negative sign)?  (verdict, {input: value})"""
    names = {n for m in p.t for n, e in m}
    if len(names) > 1 or any(e < 0 for m in p.t for n, e in m):
        return z3.unknown, None
    s = z3.SolverFor('QF_NRA')
    s.set('timeout', int(timeout or cx.timeout_ms))
    e = z3.RealVal(0)
    n = None
    if names:
        n = names.pop()
        x = z3.Real('x')
        lo, hi = [None if b is None else frac(b) for b in cx.bounds.get(n, (None, None))]
        co = {(m[0][1] if m else 0): c * sign for m, c in p.t.items()}
        step = 1
        if lo is not None and lo >= 0 and hi is not None:
            if all(k % 2 == 0 for k in co):
                step, lo, hi = 2, lo * lo, hi * hi
                co = {k // 2: c for k, c in co.items()}
            # unit of measure of the input, rounding of long coefficients upwards (x >= 0)
            u = Fraction(2) ** round(math.log2(hi)) if hi > 0 else Fraction(1)
            lo, hi = lo / u, hi / u
            co = {k: round_up(c * u ** k) for k, c in co.items()}
        else:
            u = Fraction(1)
        if lo is not None:
            s.add(x >= rv(lo))
        if hi is not None:
            s.add(x <= rv(hi))
        for k in range(max(co), -1, -1):
            e = e * x + rv(co.get(k, 0))
    else:
        e = rv(p.t.get((), 0) * sign)
    s.add(e > 0 if sign > 0 else e >= 0)
    r = cx._check(s)
    if r != z3.sat or n is None:
        return r, {}
    v = s.model().eval(x, model_completion=True)
    f = frac_of(v)
    if f is None:
        v = v.approx(20)
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
    f = f * u
    return r, {n: math.sqrt(f) if step == 2 else float(f)}


def round_up(c, bits=260):
    """c <= result, c * 2**-bits apart at most."""
    if not c or max(c.numerator.bit_length(), c.denominator.bit_length()) < 2 * bits:
        return c
    e = c.numerator.bit_length() - c.denominator.bit_length() - bits
    return -(-c / Fraction(2) ** e // 1) * Fraction(2) ** e


def positive(x):
    """x > 0, shown by the univariate query (bounded input)."""
    cx = ctx()
    p = to_poly(x.e)
    return univariate(p, cx) and uni_decide(p.scale(-1), cx, True, 5000)[0] == z3.unsat


def has_den(p):
    return any(n.startswith('inv:') or e < 0 for m in p.t for n, e in m)


def univariate(p, cx):
    """p is a rational function of one bounded input."""
    inv = cx.__dict__.get('_invpoly', {})
    sq = cx.__dict__.get('_sqpoly', {})
    seen, work = set(), [p]
    names = set()
    while work:
        for m in work.pop().t:
            for n, e in m:
                if n in seen:
                    continue
                seen.add(n)
                if n in inv:
                    work.append(inv[n])
                elif n in sq:
                    work.append(sq[n])
                elif None in cx.bounds.get(n, (None, None)):
                    return False
                else:
                    names.add(n)
    return len(names) == 1


def snap_poly(p):
    return Poly({m: snap(c) for m, c in p.t.items() if O_abs(c) > 1e-15})


# ---------------------------------------------------------------- symbolic base
class SymBase(object):
    __slots__ = ()
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.function_dispatch(func, args, kwargs)

    # ndarray-like attributes of numpy scalars
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def squeeze(self, *a, **k):
        from . import arr
        return arr.to_sarr(self)

    def reshape(self, *shape, **k):
        from . import arr
        return arr.to_sarr(self).reshape(*shape, **k)

    def ravel(self, *a, **k):
        return self.reshape(-1)

    flatten = ravel

    def astype(self, dt, *a, **k):
        from . import arr
        return arr.cast_scalar(self, dt)

    def tolist(self):
        return self

    def any(self, *a, **k):
        return SBool_of(self)

    def all(self, *a, **k):
        return SBool_of(self)

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    @property
    def dtype(self):
        return np.dtype(object)


def SBool_of(x):
    if isinstance(x, SBool):
        return x
    return x != 0


# ---------------------------------------------------------------- booleans
class SBool(SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.And(self.e, bexpr(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.Or(self.e, bexpr(o)))
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.Xor(self.e, bexpr(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def num(self):
        return SNum(z3.If(self.e, z3.RealVal(1), z3.RealVal(0)))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def _n(self, name, o):
        return getattr(self.num(), name)(o)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SBool)):
            return mkbool(self.e == bexpr(o))
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else (not r)

    def __hash__(self):
        return self.e.get_id()

    def __repr__(self):
        return 'SBool(%s)' % self.e


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv',
           'pow', 'rpow', 'lt', 'le', 'gt', 'ge', 'mod', 'floordiv'):
    def _mk(nm):
        def f(self, o):
            return getattr(self.num(), nm)(o)
        f.__name__ = nm
        return f
    setattr(SBool, '__%s__' % _n, _mk('__%s__' % _n))
SBool.__neg__ = lambda self: -self.num()
SBool.__abs__ = lambda self: self.num()
SBool.conjugate = lambda self: self
SBool.real = property(lambda self: self)
SBool.imag = property(lambda self: 0)


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def bexpr(b):
    """z3 boolean of a python/symbolic truth value."""
    if isinstance(b, SBool):
        return b.e
    if isinstance(b, (bool, np.bool_)):
        return z3.BoolVal(bool(b))
    if isinstance(b, SNum):
        return b.e != 0
    if isinstance(b, SComplex):
        return z3.Or(bexpr(b.re != 0), bexpr(b.im != 0))
    if is_pynum(b):
        return z3.BoolVal(bool(b))
    raise Unsupported('not a truth value: %r' % (b,))


def And(*bs):
    es = [bexpr(b) for b in bs]
    return mkbool(z3.simplify(z3.And(*es))) if es else True


def Or(*bs):
    es = [bexpr(b) for b in bs]
    return mkbool(z3.simplify(z3.Or(*es))) if es else False


def Not(b):
    return mkbool(z3.simplify(z3.Not(bexpr(b))))


# ---------------------------------------------------------------- reals / ints
def nexpr(x):
    """z3 arithmetic term of a finite real number (symbolic or not)."""
    if isinstance(x, SNum):
        return x.e
    if isinstance(x, SBool):
        return x.num().e
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return rv(x)
    if isinstance(x, (float, np.floating)):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported('non finite constant in a term')
        return rv(x)
    raise Unsupported('not a real number: %r' % (type(x),))


def isrealpy(x):
    return isinstance(x, (int, float, bool, np.integer, np.floating, np.bool_, Fraction))


def nonfinite(x):
    return isinstance(x, (float, np.floating)) and (math.isinf(x) or math.isnan(x))


def mknum(e):
    return SNum(e)


def both(a, b):
    if z3.is_int(a) and not z3.is_int(b):
        a = num_real(a)
    if z3.is_int(b) and not z3.is_int(a):
        b = num_real(b)
    return a, b


def num_real(e):
    if z3.is_int_value(e):
        return z3.RealVal(e.as_long())
    return z3.ToReal(e) if z3.is_int(e) else e


def defer(o):
    return isinstance(o, np.ndarray) or hasattr(o, '_sx_defer') or \
        isinstance(o, (list, tuple, str)) or o is None


class SNum(SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    # -- arithmetic
    def _coerce(self, o):
        if isinstance(o, SNum):
            return o
        if isinstance(o, SBool):
            return o.num()
        if isrealpy(o):
            return o
        return None

    def __add__(self, o):
        if isinstance(o, (SComplex, complex, np.complexfloating)):
            return SComplex.of(self) + o
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, SNum):
            if o == 0:
                return self
            if nonfinite(o):
                return float(o)
        a, b = both(self.e, nexpr(o))
        return SNum(a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SComplex, complex, np.complexfloating)):
            return SComplex.of(self) - o
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, SNum):
            if o == 0:
                return self
            if nonfinite(o):
                return -float(o)
        a, b = both(self.e, nexpr(o))
        if a.eq(b):
            return 0 if z3.is_int(a) else 0.0
        return SNum(a - b)

    def __rsub__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return o - SComplex.of(self)
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, SNum):
            if nonfinite(o):
                return float(o)
            if o == 0:
                return -self
        a, b = both(nexpr(o), self.e)
        return SNum(a - b)

    def __mul__(self, o):
        if isinstance(o, (SComplex, complex, np.complexfloating)):
            return SComplex.of(self) * o
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, SNum):
            if nonfinite(o):
                return self._times_nonfinite(o)
            if o == 0:
                return o * 0
            if o == 1:
                return self if isinstance(o, (int, np.integer)) else self.asreal()
        a, b = both(self.e, nexpr(o))
        return SNum(a * b)
    __rmul__ = __mul__

    def _times_nonfinite(self, o):
        if math.isnan(o):
            return float('nan')
        if bool(self > 0):
            return float(o)
        if bool(self < 0):
            return -float(o)
        return float('nan')

    def asreal(self):
        return SNum(num_real(self.e)) if z3.is_int(self.e) else self

    def __truediv__(self, o):
        if isinstance(o, (SComplex, complex, np.complexfloating)):
            return SComplex.of(self) / o
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return real_div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return SComplex.of(o) / SComplex.of(self)
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return real_div(o, self)

    def __floordiv__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return sfloordiv(self, o)

    def __rfloordiv__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return sfloordiv(o, self)

    def __mod__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return smod(self, o)

    def __rmod__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return smod(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if defer(o):
            return NotImplemented
        return spow(self, o)

    def __rpow__(self, o):
        if defer(o):
            return NotImplemented
        return spow(o, self)

    def __neg__(self):
        return SNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        try:
            cx = ctx()
            cx._sync()
            if cx.lin().refutes([self.e < 0]):
                return self
        except (Unsupported, AttributeError):
            pass
        return SNum(z3.If(self.e >= 0, self.e, -self.e))

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, SBool):
            o = o.num()
        if isinstance(o, SNum):
            a, b = both(self.e, o.e)
            return mkbool(OPS[op](a, b))
        if isrealpy(o):
            if nonfinite(o):
                return PYOPS[op](0.0, float(o))
            a, b = both(self.e, nexpr(o))
            return mkbool(OPS[op](a, b))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        if isinstance(o, (SComplex, complex, np.complexfloating)):
            return SComplex.of(self) == o
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __ne__(self, o):
        if isinstance(o, (SComplex, complex, np.complexfloating)):
            return SComplex.of(self) != o
        r = self._cmp(o, 'ne')
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __hash__(self):
        return self.e.hash()

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def const(self):
        s = z3.simplify(self.e)
        return frac_of(s)

    def __float__(self):
        c = self.const()
        if c is None:
            p = to_poly(self.e)
            if p.is_const():
                c = p.constval()
        if c is None:
            if CTX is not None and CTX.tokens is not None:
                # a stand-in that only serves to be printed
                CTX.tokens[len(CTX.tokens) + 100001] = self
                return float(len(CTX.tokens) + 100000)
            raise Unsupported('symbolic real forced to a float')
        return float(c)

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        return concretize_int(strunc(self))

    def __index__(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        if not z3.is_int(self.e):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize_int(self)

    def __trunc__(self):
        return strunc(self)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return sceil(self)

    def __round__(self, n=None):
        if n in (None, 0):
            return srint(self)
        raise Unsupported('round(x, n)')

    def is_integer(self):
        if z3.is_int(self.e):
            return True
        return mkbool(z3.IsInt(self.e))

    # -- numpy protocol methods used by object loops
    real = property(lambda self: self)
    imag = property(lambda self: 0.0)

    def conjugate(self):
        return self
    conj = conjugate

    def __repr__(self):
        s = str(self.e)
        return 'SNum(%s)' % (s if len(s) < 200 else s[:200] + '...')

    __str__ = __repr__

    def __format__(self, spec):
        return str(self)


numbers.Real.register(SNum)

OPS = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
       'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
       'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}
PYOPS = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
         'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
         'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}


def concretize_int(x, limit=200):
    """Enumerate, by forking, the feasible values of an integer term."""
    cx = ctx()
    for _ in range(limit):
        k = len(cx.trace)
        if k < len(cx.prefix):
            # replaying: the value tried is stored in the prefix entry
            ent = cx.prefix[k]
            v = ent[2] if len(ent) > 2 else None
            if v is None:
                raise Unsupported('replay mismatch in concretisation')
            taken, other = ent[0], ent[1]
            cond = (x == v)
            cx.trace.append((taken, other, v))
            cx.pc.append(bexpr(cond) if taken else z3.Not(bexpr(cond)))
            if taken:
                return v
            continue
        cx._sync()
        r = cx._check(cx.solver)
        if r == z3.unsat:
            raise Infeasible()
        if r != z3.sat:
            raise Unsupported('cannot concretise an integer')
        m = cx.solver.model()
        v = m.eval(x.e if isinstance(x, SNum) else nexpr(x), model_completion=True)
        f = frac_of(v)
        if f is None:
            raise Unsupported('non rational value')
        v = int(f)
        cond = bexpr(x == v)
        other = cx.feasible(z3.Not(cond))
        cx.trace.append((True, other, v))
        cx.pc.append(cond)
        return v
    raise PathLimit()


def real_div(a, b):
    """IEEE style division of reals, forking on a zero divisor."""
    if isinstance(b, SNum):
        c = b.const()
        if c is not None and c != 0:
            b = c
    if not isinstance(b, SNum):
        if nonfinite(b):
            return float('nan') if math.isnan(b) or nonfinite(a) else 0.0
        if b == 0:
            return div_by_zero(a)
        if isinstance(a, SNum):
            return SNum(num_real(a.e) / rv(b)) if O_abs(b) != 1 else \
                (a.asreal() if b == 1 else -a.asreal())
        return a / b
    if nonfinite(a):
        if math.isnan(a):
            return a
        return float(a) if bool(b >= 0) else -float(a)
    if ctx().nodiv0 and to_poly(b.e).t:
        # harness option: inputs on which a divisor vanishes are out of bounds
        c = bexpr(b != 0)
        if not any(c.eq(q) for q in ctx().pc):
            ctx().assume(c)
    elif ctx().decide(bexpr(b == 0)):
        return div_by_zero(a)
    if not isinstance(a, SNum) and a == 0:
        return 0.0
    return SNum(num_real(nexpr(a)) / num_real(b.e)) if not isinstance(a, SNum) \
        else SNum(toreal(a.e) / toreal(b.e))


def div_by_zero(a):
    if isinstance(a, SNum):
        if bool(a > 0):
            return float('inf')
        if bool(a < 0):
            return -float('inf')
        return float('nan')
    if a > 0:
        return float('inf')
    return -float('inf') if a < 0 else float('nan')


def ite(c, a, b):
    """If-then-else over numbers."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(c, SNum):
        c = (c != 0)
        if not isinstance(c, SBool):
            return a if c else b
    if a is b:
        return a
    if isinstance(a, (SComplex, complex, np.complexfloating)) or \
            isinstance(b, (SComplex, complex, np.complexfloating)):
        a, b = SComplex.of(a), SComplex.of(b)
        return SComplex(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return mkbool(z3.If(c.e, bexpr(a), bexpr(b)))
    if (not isinstance(a, SNum) and not isrealpy(a)) or nonfinite(a) or \
            (not isinstance(b, SNum) and not isrealpy(b)) or nonfinite(b):
        return a if bool(c) else b
    ea, eb = both(nexpr(a), nexpr(b))
    if ea.eq(eb):
        return a
    return SNum(z3.If(c.e, ea, eb))


def smax(a, b):
    if isinstance(a, (SNum, SBool)) or isinstance(b, (SNum, SBool)):
        if nonfinite(a) or nonfinite(b):
            f, o = (a, b) if nonfinite(a) else (b, a)
            return f if math.isnan(f) or f > 0 else o
        return ite(a >= b, a, b)
    if nonfinite(a) and math.isnan(a):
        return a
    if nonfinite(b) and math.isnan(b):
        return b
    return a if a >= b else b


def smin(a, b):
    return -smax(-a, -b)


def sfloor(x):
    """floor, as numpy (float result)."""
    if isinstance(x, SBool):
        return x.num()
    if isinstance(x, SNum):
        if z3.is_int(x.e):
            return x
        return SNum(z3.ToReal(z3.ToInt(x.e)))
    if nonfinite(x):
        return x
    return float(math.floor(x))


def sceil(x):
    return -sfloor(-x)


def strunc(x):
    if isinstance(x, SNum):
        if z3.is_int(x.e):
            return x
        return SNum(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    return math.trunc(x)


def srint(x):
    """round half to even."""
    if isinstance(x, SNum):
        if z3.is_int(x.e):
            return x
        f = z3.ToInt(x.e)
        d = x.e - z3.ToReal(f)
        half = z3.RealVal('1/2')
        r = z3.If(d < half, f, z3.If(d > half, f + 1,
                                    z3.If(f % 2 == 0, f, f + 1)))
        return SNum(z3.ToReal(r))
    return float(np.rint(x))


def sfloordiv(a, b):
    ea, eb = nexpr(a), nexpr(b)
    if z3.is_int(ea) and z3.is_int(eb):
        if ctx().decide(eb == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if ctx().decide(eb > 0):
            return SNum(ea / eb)
        return SNum((-ea) / (-eb))
    q = real_div(a, b)
    return sfloor(q)


def smod(a, b):
    ea, eb = nexpr(a), nexpr(b)
    if z3.is_int(ea) and z3.is_int(eb):
        if ctx().decide(eb == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if ctx().decide(eb > 0):
            return SNum(ea % eb)
        return SNum(-((-ea) % (-eb)))
    return a - b * sfloordiv(a, b)


def sfmod(a, b):
    """C fmod / C remainder."""
    q = strunc(real_div(a, b))
    return a - b * q


# ---------------------------------------------------------------- atoms
def ln_atom(p):
    """ln of a canonical polynomial known to be positive."""
    cx = ctx()
    p = Poly(p.t)
    if p.is_const():
        return math.log(p.constval())
    if len(p.t) == 1:
        (m, c), = p.t.items()
        acc = SNum(z3.RealVal(0))
        ok = c > 0
        parts = []
        for n, e in m:
            if n in cx.meta and cx.meta[n][0] == 'exp':
                parts.append((e, None, cx.meta[n][1]))
            elif n in cx.meta and cx.meta[n][0] == 'sqrt' and isinstance(cx.meta[n][1], Poly) \
                    and cx.entails(toreal(cx._atomtab[n]) > 0):
                l = ln_atom(cx.meta[n][1])
                parts.append((Fraction(e, 2), None, l))
            elif n in cx.__dict__.get('_invpoly', {}):
                q = cx.__dict__['_invpoly'][n]
                if cx.entails(poly_z3(q, cx) > 0):
                    parts.append((-e, q, None))
                else:
                    ok = False
            else:
                a = toreal(cx._atomtab[n])
                if cx.entails(a > 0):
                    parts.append((e, Poly.atom(n), None))
                elif e % 2 == 0:
                    ab = O_abs(SNum(a))
                    parts.append((e, to_poly(ab.e), None))
                else:
                    ok = False
        if ok and (len(parts) > 1 or c != 1 or (parts and (
                parts[0][0] != 1 or parts[0][2] is not None))):
            acc = math.log(c) if c != 1 else 0.0
            for e, q, arg in parts:
                if isinstance(arg, Poly):
                    acc = acc + SNum(poly_z3(arg, cx)) * e
                elif arg is not None:
                    acc = acc + arg * e
                else:
                    acc = acc + ln_raw(q) * e
            return acc
    pt = cx.__dict__.get('_powtab')
    if pt and len(p.t) > 1:
        lead = p.t[max(p.t)]
        hit = pt.get(p.scale(1 / lead).key())
        if hit and lead > 0:
            w, c, wl = hit
            return ln_raw(w) * c + math.log(lead / wl ** c)
    return ln_raw(p)


def ln_raw(p):
    cx = ctx()
    k = ('ln', p.key())
    if k not in cx.atoms:
        a = cx.fresh('ln')
        cx._atomtab = cx.__dict__.setdefault('_atomtab', {})
        cx._atomtab[a.decl().name()] = a
        arg = poly_z3(p, cx)
        # tangent bound ln u <= u-1, ln u >= 1-1/u ; sign
        cx.add_axiom(a <= arg - 1)
        cx.add_axiom((a > 0) == (arg > 1))
        cx.add_axiom((a < 0) == (arg < 1))
        for (kk, pk), b in list(cx.atoms.items()):
            if kk == 'ln':
                barg = poly_z3(cx.meta[b.decl().name()][1], cx)
                cx.add_axiom((a < b) == (arg < barg))
                cx.add_axiom((a == b) == (arg == barg))
        cx.atoms[k] = a
        cx.meta[a.decl().name()] = ('ln', p)
    return SNum(cx.atoms[k])


def sln(x):
    """Natural logarithm with numpy edge semantics."""
    if isinstance(x, SBool):
        x = x.num()
    if not isinstance(x, SNum):
        x = float(x)
        if x == 0:
            return -float('inf')
        return math.log(x) if x > 0 else float('nan')
    cx = ctx()
    if positive(x):
        return ln_atom(to_poly(x.e))
    if cx.decide(toreal(x.e) == 0):
        return -float('inf')
    if cx.decide(toreal(x.e) < 0):
        return float('nan')
    return ln_atom(to_poly(settle_ite(x.e)))


def settle_ite(e):
    """The branch of a top level if-then-else settled by the path condition."""
    for _ in range(4):
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            if ctx().entails(e.arg(0)):
                e = e.arg(1)
                continue
            if ctx().entails(z3.Not(e.arg(0))):
                e = e.arg(2)
                continue
        break
    return e


LN10 = math.log(10.0)
LN2 = math.log(2.0)


def slog10(x):
    r = sln(x)
    return r / LN10


def slog2(x):
    return sln(x) / LN2


def exp_atom(p):
    """exp of a canonical polynomial."""
    cx = ctx()
    p = snap_exp(p)
    if p.is_const():
        return math.exp(p.constval())
    mult = None
    rest = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in cx.meta and \
                cx.meta[m[0][0]][0] == 'ln':
            u = SNum(poly_z3(cx.meta[m[0][0]][1], cx))
            c2 = c * 2
            if c2.denominator == 1 and O_abs(c2) <= 40:
                f = u ** int(c) if c.denominator == 1 else ssqrt(u) ** int(c2)
                w = cx.meta[m[0][0]][1]
                if c.denominator == 1 and c > 2 and len(w.t) > 1:
                    pw = to_poly(f.e)
                    cx.__dict__.setdefault('_powtab', {})[pw.scale(1 / pw.t[max(pw.t)]).key()] = (w, int(c), w.t[max(w.t)])
                mult = f if mult is None else mult * f
                continue
        if m == () and rest is not None:
            f = math.exp(c)
            mult = f if mult is None else mult * f
            continue
        rest[m] = c
    if not rest:
        return mult
    q = Poly(rest)
    # normalise sign so that exp(-t) = 1/exp(t)
    lead = max(q.t)
    flip = q.t[lead] < 0
    if flip:
        q = q.scale(-1)
    k = ('exp', q.key())
    if k not in cx.atoms:
        a = cx.fresh('exp')
        cx.__dict__.setdefault('_atomtab', {})[a.decl().name()] = a
        arg = poly_z3(q, cx)
        cx.add_axiom(a > 0)
        cx.add_axiom(a >= 1 + arg)
        cx.add_axiom((a > 1) == (arg > 0))
        cx.add_axiom((a < 1) == (arg < 0))
        cx.add_axiom(z3.Implies(arg < 1, a * (1 - arg) <= 1))
        for (kk, pk), b in list(cx.atoms.items()):
            if kk == 'exp':
                barg = poly_z3(cx.meta[b.decl().name()][1], cx)
                cx.add_axiom((a < b) == (arg < barg))
                cx.add_axiom((a == b) == (arg == barg))
        cx.atoms[k] = a
        cx.meta[a.decl().name()] = ('exp', q)
        lo = hi = 0.0
        for m, c in q.t.items():
            bd = cx.bounds.get(m[0][0], (None, None)) if len(m) == 1 and m[0][1] == 1 else (None, None)
            if None in bd:
                lo = None
                break
            v = sorted(float(c) * float(b) for b in bd)
            lo, hi = lo + v[0], hi + v[1]
        if lo is not None and max(O_abs(lo), O_abs(hi)) < 600:
            cx.bounds[a.decl().name()] = (Fraction(math.exp(lo) * (1 - 1e-9)), Fraction(math.exp(hi) * (1 + 1e-9)))
    r = SNum(cx.atoms[k])
    if flip:
        r = SNum(z3.RealVal(1) / r.e)
    return r if mult is None else r * mult


def snap_exp(p):
    return Poly({m: snap(c, 1e-12) for m, c in p.t.items() if O_abs(c) > 1e-15})


def sexp(x):
    if isinstance(x, (SComplex, complex, np.complexfloating)):
        x = SComplex.of(x)
        c, s = scossin(x.im)
        if isrealpy(x.re) and x.re == 0:
            return SComplex(c, s)
        m = sexp(x.re)
        return SComplex(m * c, m * s)
    if isinstance(x, SBool):
        x = x.num()
    if not isinstance(x, SNum):
        try:
            return math.exp(x)
        except OverflowError:
            return float('inf')
    return exp_atom(to_poly(x.e))


def ssqrt(x, nonneg=False):
    """nonneg: the caller knows that x >= 0 (a sum of squares)."""
    if isinstance(x, (SComplex, complex, np.complexfloating)):
        x = SComplex.of(x)
        if isrealpy(x.im) and x.im == 0 and not isinstance(x.re, SNum):
            v = np.emath.sqrt(x.re)
            return complex(v)
        if isinstance(x.re, SNum) and isinstance(x.im, SNum):
            # imaginary parts that are rounding errors, far from the branch cut
            q = to_poly(x.im.e)
            if q.t and all(abs(c) < 1e-13 for c in q.t.values()):
                re, im, e = toreal(x.re.e), toreal(x.im.e), z3.RealVal('1/1000000000')
                if ctx().entails(z3.And(im <= e * re, -im <= e * re, re >= 1000 * e)):
                    return SComplex(ssqrt(x.re), 0.0)
        # principal square root: re>=0
        r = ssqrt(x.re * x.re + x.im * x.im, nonneg=True)
        cx = ctx()
        a = cx.fresh('csr')
        b = cx.fresh('csi')
        for v in (a, b):
            cx.__dict__.setdefault('_atomtab', {})[v.decl().name()] = v
        xr, xi = nexpr(x.re), nexpr(x.im)
        cx.add_axiom(a >= 0)
        cx.add_axiom(a * a - b * b == toreal(xr))
        cx.add_axiom(2 * a * b == toreal(xi))
        cx.add_axiom(z3.Implies(a == 0, b >= 0))
        cx.meta[a.decl().name()] = ('csqrt_re', (xr, xi))
        cx.meta[b.decl().name()] = ('csqrt_im', (xr, xi))
        return SComplex(SNum(a), SNum(b))
    if isinstance(x, SBool):
        return x.num()
    if not isinstance(x, SNum):
        return math.sqrt(x) if x >= 0 else float('nan')
    cx = ctx()
    p = to_poly(x.e)
    if not nonneg and has_den(p) and univariate(p, cx) and uni_decide(p.scale(-1), cx)[0] == z3.unsat:
        nonneg = True
    if not nonneg and cx.decide(toreal(x.e) < 0):
        return float('nan')
    if p.is_const():
        return math.sqrt(max(p.constval(), 0) if nonneg else p.constval())
    # perfect square of a single monomial
    if len(p.t) == 1:
        (m, c), = p.t.items()
        sc = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator)) if c > 0 else None
        if sc is not None and sc * sc == c and all(e % 2 == 0 for _, e in m) \
                and not any(n.startswith('inv:') or n == '1/0' for n, _ in m):
            t = SNum(poly_z3(Poly({mono_pow2(m): sc}), cx))
            if cx.entails(t.e >= 0):
                return t
            return O_abs(t)
    k = ('sqrt', p.key())
    if k not in cx.atoms:
        a = cx.fresh('sqrt')
        n = a.decl().name()
        cx.__dict__.setdefault('_atomtab', {})[n] = a
        cx.add_axiom(a >= 0)
        cx.add_axiom(a * a == poly_z3(p, cx))
        cx.atoms[k] = a
        cx.meta[n] = ('sqrt', p)
        cx.__dict__.setdefault('_sqpoly', {})[n] = p
    return SNum(cx.atoms[k])


def mono_pow2(m):
    return tuple((n, e // 2) for n, e in m)


def scbrt_pow(x, y):
    raise Unsupported('power')


def ang_snap(c):
    """c = r*pi -> r as a simple rational."""
    r = Fraction(float(c) / PI) if not isinstance(c, Fraction) else Fraction(float(c) / PI)
    return snap(r, 1e-12, 720720)


def scossin(x):
    """(cos x, sin x)."""
    if isinstance(x, SBool):
        x = x.num()
    if not isinstance(x, SNum):
        return cs_const(x)
    cx = ctx()
    p = to_poly(x.e)
    if p.is_const():
        return cs_const(float(p.constval()))
    c, s = 1.0, 0.0
    for m, coef in sorted(p.t.items()):
        if m == ():
            c2, s2 = cs_const(float(coef))
        else:
            c2, s2 = trig_mono(m, ang_snap(coef), cx)
        c, s = c * c2 - s * s2, s * c2 + c * s2
    return c, s


def cs_const(x):
    r = snap(x / PI, 1e-13, 12)
    if (r * 2).denominator == 1 and O_abs(float(r) * PI - x) <= 1e-13 * max(1, O_abs(x)):
        k = int(r * 2) % 4
        return [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][k]
    return math.cos(x), math.sin(x)


def trig_mono(m, r, cx):
    """cos/sin of pi*r*m through powers of a base unit-circle point."""
    tab = cx.angle_base
    sgn = 1
    if r < 0:
        r, sgn = -r, -1
    if m not in tab:
        tab[m] = []
    for base, C, S in tab[m]:
        k = r / base
        if k.denominator == 1 and k <= 64:
            break
    else:
        # keep integer multiples of small bases reachable
        base = r if (r / 2).denominator != 1 or r == 2 or r == 1 else (
            Fraction(2) if r.denominator == 1 and r % 2 == 0 else r)
        C, S = cx.fresh('cos'), cx.fresh('sin')
        for v in (C, S):
            cx.__dict__.setdefault('_atomtab', {})[v.decl().name()] = v
        cx.add_axiom(C * C + S * S == 1)
        cx.trig_pairs[S.decl().name()] = (C, S)
        cx.meta[C.decl().name()] = ('cos', (base, m))
        cx.meta[S.decl().name()] = ('sin', (base, m))
        for b2, C2, S2 in tab[m]:
            # tie the new base to the ones already in use
            for (lo, lc, ls, hi, hc, hs) in ((base, C, S, b2, C2, S2),
                                             (b2, C2, S2, base, C, S)):
                q = hi / lo
                if q.denominator == 1 and q <= 64:
                    cc, ss = moivre(SNum(lc), SNum(ls), int(q))
                    cx.add_axiom(hc == nexpr(cc))
                    cx.add_axiom(hs == nexpr(ss))
        tab[m].append((base, C, S))
        k = r / base
    c, s = moivre(SNum(C), SNum(S), int(k))
    return c, (s if sgn > 0 else -s)


def moivre(bc, bs, k):
    """(cos, sin) of k times an angle, by repeated squaring."""
    c, s = 1.0, 0.0
    while k:
        if k & 1:
            c, s = c * bc - s * bs, s * bc + c * bs
        k >>= 1
        if k:
            bc, bs = bc * bc - bs * bs, 2 * bc * bs
    return c, s


def scos(x):
    if isinstance(x, (SComplex, complex, np.complexfloating)):
        raise Unsupported('complex cos')
    return scossin(x)[0]


def ssin(x):
    if isinstance(x, (SComplex, complex, np.complexfloating)):
        raise Unsupported('complex sin')
    return scossin(x)[1]


def stan(x):
    c, s = scossin(x)
    return s / c


def sabs(x):
    if isinstance(x, SComplex):
        if isrealpy(x.im) and x.im == 0:
            return O_abs(x.re)
        if isrealpy(x.re) and x.re == 0:
            return O_abs(x.im)
        return ssqrt(x.re * x.re + x.im * x.im, nonneg=True)
    return O_abs(x)


def ssign(x):
    if isinstance(x, SNum):
        return SNum(z3.If(x.e > 0, z3.RealVal(1), z3.If(x.e < 0, z3.RealVal(-1), z3.RealVal(0))))
    return float(np.sign(x))


def spow(a, b):
    """a ** b."""
    if isinstance(b, SBool):
        b = b.num()
    if isinstance(a, SBool):
        a = a.num()
    if isinstance(b, SNum):
        c = b.const()
        if c is not None:
            b = int(c) if c.denominator == 1 else float(c)
    if isinstance(b, (float, np.floating)) and float(b).is_integer() and O_abs(b) < 1e6:
        b = int(b)
    if isinstance(b, (int, np.integer, bool)):
        b = int(b)
        if b >= 0:
            if b == 0:
                return 1.0
            r = a
            for ch in bin(b)[3:]:
                r = r * r
                if ch == '1':
                    r = r * a
            return r
        return 1.0 / spow(a, -b)
    if isinstance(b, (SComplex, complex, np.complexfloating)):
        b = SComplex.of(b)
        if is_sym(a):
            raise Unsupported('complex power of a symbolic base')
        if isrealpy(a) and a > 0:
            return sexp(b * math.log(a))
        # complex constant base: exp(b log a)
        import cmath
        return sexp(b * cmath.log(complex(a)))
    if isinstance(a, (SComplex, complex, np.complexfloating)):
        a0 = SComplex.of(a)
        if isinstance(b, SNum):
            if isrealpy(a0.re) and isrealpy(a0.im):
                import cmath
                return sexp(SComplex.of(b) * cmath.log(complex(a0.re, a0.im)))
            raise Unsupported('symbolic power of a complex')
        if b == 0.5:
            return ssqrt(a0)
        raise Unsupported('fractional power of a complex')
    if not isinstance(a, SNum) and isrealpy(a):
        if a > 0:
            if nonfinite(a):
                raise Unsupported('inf ** symbolic')
            return sexp(b * math.log(a))
        raise Unsupported('symbolic power of a non positive constant')
    if b == 0.5:
        return ssqrt(a)
    if not isinstance(b, SNum):
        f = snap(b)
        if f.denominator == 2:
            return spow(ssqrt(a), f.numerator)
    if positive(a):
        return sexp(b * ln_atom(to_poly(a.e)))
    if ctx().decide(toreal(a.e) == 0):
        if isinstance(b, SNum):
            raise Unsupported('0 ** symbolic')
        return 0.0 if b > 0 else float('inf')
    if ctx().decide(toreal(a.e) < 0):
        return float('nan')
    return sexp(b * sln(a))


# ---------------------------------------------------------------- complex
class SComplex(SymBase):
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        if isinstance(x, SComplex):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SComplex(float(x.real), float(x.imag))
        if isinstance(x, SBool):
            return SComplex(x.num(), 0.0)
        return SComplex(x, 0.0)

    @staticmethod
    def coerce(x):
        if isinstance(x, (SComplex, SNum, SBool)) or is_pynum(x):
            return SComplex.of(x)
        return None

    real = property(lambda self: self.re)
    imag = property(lambda self: self.im)

    def conjugate(self):
        return SComplex(self.re, -self.im)
    conj = conjugate

    def __add__(self, o):
        o = self.coerce(o)
        if o is None:
            return NotImplemented
        return SComplex(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = self.coerce(o)
        if o is None:
            return NotImplemented
        return SComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = self.coerce(o)
        if o is None:
            return NotImplemented
        return SComplex(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        o = self.coerce(o)
        if o is None:
            return NotImplemented
        return SComplex(self.re * o.re - self.im * o.im,
                        self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self.coerce(o)
        if o is None:
            return NotImplemented
        if isrealpy(o.im) and o.im == 0:
            return SComplex(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return SComplex(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        o = self.coerce(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, o, mod=None):
        if defer(o):
            return NotImplemented
        return spow(self, o)

    def __rpow__(self, o):
        if defer(o):
            return NotImplemented
        return spow(o, self)

    def __neg__(self):
        return SComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __eq__(self, o):
        o = self.coerce(o)
        if o is None:
            return False
        return And(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        r = self.__eq__(o)
        return Not(r)

    def _lex(self, o, strict):
        o = SComplex.of(o)
        lt = self.re < o.re
        eq = self.re == o.re
        il = (self.im < o.im) if strict else (self.im <= o.im)
        return Or(lt, And(eq, il))

    def __lt__(self, o):
        raise TypeError("'<' not supported between instances of 'complex'")

    __gt__ = __le__ = __ge__ = __lt__

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash((self.re, self.im))

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __float__(self):
        raise TypeError("can't convert complex to float")

    def __repr__(self):
        return 'SComplex(%r, %r)' % (self.re, self.im)


numbers.Complex.register(SComplex)


def _list_operands(cls):
    """Numpy scalars combine with lists as arrays; so do symbolic scalars."""
    def wrap(nm, orig):
        base = nm.strip('_')
        rev = base.startswith('r') and base[1:] in BASE

        def f(self, o, *a):
            if type(o) in (list, tuple):
                from . import arr
                o = arr.to_sarr(o)
                op = getattr(operator, '__%s__' % (base[1:] if rev else base))
                return op(o, self) if rev else op(self, o)
            return orig(self, o, *a)
        f.__name__ = nm
        return f
    BASE = ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow')
    for b in BASE:
        for nm in ('__%s__' % b, '__r%s__' % b):
            if nm in cls.__dict__:
                setattr(cls, nm, wrap(nm, cls.__dict__[nm]))


_list_operands(SNum)
_list_operands(SComplex)
