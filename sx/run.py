# -*- coding: utf-8 -*-
"""Harness runner: one harness body, run symbolically (solver decides) and
concretely (replay of counterexamples, validation of the encoding)."""
import argparse
import cmath
import hashlib
import json
import math
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
SRC = os.path.join(REPO, 'src')
if SRC in sys.path:
    sys.path.remove(SRC)
sys.path.insert(0, SRC)
if VT not in sys.path:
    sys.path.append(VT)
# never pick up another editable copy
import types  # noqa
import numpy as np  # noqa
import z3  # noqa
from . import core, arr  # noqa
from .core import (Ctx, SNum, SBool, SComplex, Unsupported, Infeasible, PathLimit,
                   is_sym, is_pynum, isrealpy, to_poly, poly_z3, bexpr, nexpr,
                   And, Or, Not, toreal, rv, Poly, frac_of)


def ensure_version():
    """pydsm/_version.py is generated by the build; provide it if absent."""
    if not os.path.exists(os.path.join(SRC, 'pydsm', '_version.py')):
        m = types.ModuleType('pydsm._version')
        m.__version__ = version = '0.0'
        sys.modules['pydsm._version'] = m


BUILD_ERRORS = []
ensure_version()
from . import simmod  # noqa
simmod.install(SRC)


class Violated(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label + (': ' + detail if detail else ''))
        self.label = label
        self.detail = detail


class AssumeFailed(Exception):
    pass


class Found(object):
    """A reproduced violation."""

    def __init__(self, inst, label, inputs, detail):
        self.inst, self.label, self.inputs, self.detail = inst, label, inputs, detail


# ---------------------------------------------------------------- views of the harness
class Base(object):
    def array(self, name, shape, lo=-4, hi=4):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = arr.O['empty'](shape, dtype=object)
        for ix in np.ndindex(*shape):
            a[ix] = self.real('%s[%s]' % (name, ','.join(map(str, ix))), lo, hi)
        return self._given(name, self._mkarr(a))

    def carray(self, name, n, lo=-4, hi=4):
        a = arr.O['empty']((n,), dtype=object)
        for i in range(n):
            a[i] = self.cplx('%s[%d]' % (name, i), lo, hi)
        return self._given(name, self._mkarr(a))

    def _given(self, name, a):
        """Keeps what an array is like when it is made."""
        if a.size <= 64:
            self.__dict__.setdefault('given', []).append((name, a, arr.O['array'](arr.strip(a), dtype=object, copy=True)))
        return a

    def changed(self, a):
        """The check itself changed an array it made."""
        self.given = [(n, b, k if not np.shares_memory(b, a) else arr.O['array'](arr.strip(b), dtype=object, copy=True)) for n, b, k in self.given]

    def unaltered(self):
        """Arrays made for the code under check are as they were at first."""
        for name, a, keep in self.__dict__.get('given', ()):
            for ix in np.ndindex(*keep.shape):
                x, y = arr.strip(a)[ix], keep[ix]
                if x is not y and not (not is_sym(x) and not is_sym(y) and x == y):
                    self.eq(x, y, 'the array %s given is left alone' % name)

    def conj_roots(self, name, npairs, nreal, lo=-2, hi=2):
        """Roots closed under conjugation: pairs then reals."""
        out = []
        for i in range(npairs):
            c = self.cplx('%sp%d' % (name, i), lo, hi)
            out += [c, c.conjugate()]
        for i in range(nreal):
            out.append(self.real('%sr%d' % (name, i), lo, hi))
        a = arr.O['empty']((len(out),), dtype=object)
        for i, v in enumerate(out):
            a[i] = v
        return self._given(name, self._mkarr(a))

    def mk(self, x):
        """Array of a nested list, in either mode."""
        a = arr.to_sarr(x) if self.symbolic else np.asarray(x)
        return self._given('of values', a) if type(x) in (list, tuple) else a

    # scalar functions for oracles, in either mode
    @staticmethod
    def floor(x):
        return core.sfloor(x) if is_sym(x) else math.floor(x)

    @staticmethod
    def max(a, b):
        return core.smax(a, b) if is_sym(a) or is_sym(b) else max(a, b)

    @staticmethod
    def min(a, b):
        return core.smin(a, b) if is_sym(a) or is_sym(b) else min(a, b)

    @staticmethod
    def ite(c, a, b):
        return core.ite(c, a, b) if isinstance(c, SBool) else (a if c else b)

    @staticmethod
    def all(cs):
        cs = list(cs)
        return And(*cs) if any(isinstance(c, SBool) for c in cs) else all(cs)

    @staticmethod
    def any(cs):
        cs = list(cs)
        return Or(*cs) if any(isinstance(c, SBool) for c in cs) else any(cs)

    @staticmethod
    def no(c):
        return core.Not(c) if isinstance(c, SBool) else not c

    def same(self, a, b):
        """Equivalence of two truth values."""
        return self.any([self.all([a, b]), self.all([self.no(a), self.no(b)])])

    def exp(self, x):
        return core.sexp(x) if is_sym(x) else (cmath.exp(x) if isinstance(x, complex) else math.exp(x))

    def ln(self, x):
        return core.sln(x) if is_sym(x) else math.log(x)

    def sqrt(self, x):
        return core.ssqrt(x) if is_sym(x) else math.sqrt(x)

    def cos(self, x):
        return core.scos(x) if is_sym(x) else math.cos(x)

    def sin(self, x):
        return core.ssin(x) if is_sym(x) else math.sin(x)

    def abs(self, x):
        return abs(x)

    def cj(self, x):
        return x.conjugate() if hasattr(x, 'conjugate') else x


class Sym(Base):
    """Symbolic run."""
    symbolic = True

    def __init__(self, cx, inst):
        self.cx = cx
        self.inst = inst
        self.inputs = {}
        self.claims = []
        self.witness = {}
        self.trig = []

    def _mkarr(self, a):
        return arr.to_sarr(a)

    def real(self, name, lo=-4, hi=4):
        if name in self.inputs:
            return self.inputs[name]
        v = z3.Real(name)
        self.cx.__dict__.setdefault('_atomtab', {})[name] = v
        pin = self.inst.pins.get(name) if self.inst.pins else None
        if pin is not None:
            self.inputs[name] = float(pin)
            return float(pin)
        if lo is not None:
            self.cx.add_axiom(v >= rv(lo))
        if hi is not None:
            self.cx.add_axiom(v <= rv(hi))
        self.cx.bounds[name] = (lo, hi)
        self.inputs[name] = SNum(v)
        return self.inputs[name]

    def int(self, name, lo, hi):
        if name in self.inputs:
            return self.inputs[name]
        pin = self.inst.pins.get(name) if self.inst.pins else None
        if pin is not None:
            self.inputs[name] = int(pin)
            return int(pin)
        v = z3.Int(name)
        self.cx.__dict__.setdefault('_atomtab', {})[name] = v
        self.cx.add_axiom(v >= lo)
        self.cx.add_axiom(v <= hi)
        self.cx.bounds[name] = (lo, hi)
        self.inputs[name] = SNum(v)
        return self.inputs[name]

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def cplx(self, name, lo=-4, hi=4):
        return SComplex(self.real(name + '.re', lo, hi), self.real(name + '.im', lo, hi))

    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise Infeasible()
            return
        e = bexpr(c)
        if not self.cx.feasible(e):
            raise Infeasible()
        self.cx.assume(e)

    def check(self, c, label):
        self.claims.append((label, list(self.cx.pc), 'bool', bexpr(c), None))

    def eq(self, a, b, label, tol=0.0, rtol=0.0):
        sa, sb = np.shape(strip(a)), np.shape(strip(b))
        if sa != sb:
            self.claims.append((label + ' [shape %s vs %s]' % (sa, sb),
                                list(self.cx.pc), 'bool', z3.BoolVal(False), None))
            return
        A, B = arr.obj(a), arr.obj(b)
        for ix in np.ndindex(*A.shape):
            x, y = A[ix], B[ix]
            lab = label + (str(list(ix)) if ix else '')
            self._eq1(x, y, lab, tol)

    def _eq1(self, x, y, lab, tol):
        if arr.is_cplx(x) or arr.is_cplx(y):
            x, y = SComplex.of(x), SComplex.of(y)
            self._eq1(x.re, y.re, lab + '.re', tol)
            self._eq1(x.im, y.im, lab + '.im', tol)
            return
        pc = list(self.cx.pc)
        if isinstance(x, (bool, np.bool_, SBool)) and isinstance(y, (bool, np.bool_, SBool)):
            self.claims.append((lab, pc, 'bool', bexpr(x) == bexpr(y), None))
            return
        if isinstance(x, (SNum, SBool)) or isrealpy(x):
            pass
        else:
            self.claims.append((lab + ' [not a number: %r]' % (type(x),), pc, 'bool',
                                z3.BoolVal(False), None))
            return
        fx, fy = core.nonfinite(x), core.nonfinite(y)
        if fx or fy:
            ok = fx and fy and (float(x) == float(y) or (math.isnan(x) and math.isnan(y)))
            self.claims.append((lab + ' [%s vs %s]' % (x if fx else 'finite', y if fy else 'finite'),
                                pc, 'bool', z3.BoolVal(bool(ok)), None))
            return
        self.claims.append((lab, pc, 'eq', (toreal(nexpr(x)), toreal(nexpr(y))), tol))

    def printed(self, s, e, label):
        """The text s is the number e, as %g prints it."""
        self.check(isinstance(s, str), label + ' is a text')
        if isinstance(s, str):
            if s in {str(t) for t in self.cx.tokens}:
                self.eq(self.cx.tokens[int(s)], e, label)
            elif is_sym(e) and not (isinstance(e, SNum) and e.const() is not None):
                try:
                    v = float(s)
                except ValueError:
                    v = None
                if v is None:
                    self.check(False, label)
                else:
                    self.eq(v, e, label)
            else:
                self.check(s == '%g' % float(e), label)

    def le(self, a, b, label, tol=0.0):
        """a <= b (+tol), elementwise."""
        A, B = arr.obj(a), arr.obj(b)
        sh = np.broadcast_shapes(A.shape, B.shape)
        A, B = arr.O['broadcast_to'](A, sh), arr.O['broadcast_to'](B, sh)
        for ix in np.ndindex(*sh):
            c = A[ix] <= B[ix] + tol if tol else A[ix] <= B[ix]
            self.check(c, label + (str(list(ix)) if ix else ''))

    def near(self, a, b, label, rel):
        """|a - b| <= rel * b for rational functions of one input (b > 0)."""
        A, B = to_poly(toreal(nexpr(a)), self.cx), to_poly(toreal(nexpr(b)), self.cx)
        r = core.frac(rel)
        what = (A - B.scale(1 + r), B.scale(1 - r) - A)
        self.claims.append((label, list(self.cx.pc), 'uni', what, None))

    def pos(self, a, label):
        """a > 0 for a rational function of one input (or its square root)."""
        A = to_poly(toreal(nexpr(a)), self.cx)
        self.claims.append((label, list(self.cx.pc), 'uni', (A.scale(-1),), 'strict'))

    def call(self, f, exc=(), *a, **k):
        """Run f; returns ('ok', value) or ('exc', exception) for the listed types."""
        try:
            return 'ok', f(*a, **k)
        except exc as e:
            return 'exc', e

    def pi(self):
        return math.pi


def strip(x):
    return arr.strip(x) if isinstance(x, (arr.SArr, core.SymBase)) else (
        arr.obj(x) if isinstance(x, (list, tuple)) else x)


class Conc(Base):
    """Concrete run on the real, unpatched code."""
    symbolic = False

    def __init__(self, values, rng=None, inst=None):
        self.values = dict(values)
        self.rng = rng or random.Random(1)
        self.used = {}
        self.fails = []
        self.nchecks = 0
        self.inst = inst

    def _mkarr(self, a):
        els = a.ravel().tolist()
        dt = complex if any(isinstance(e, complex) for e in els) else float
        return np.array(els, dtype=dt).reshape(a.shape)

    def real(self, name, lo=-4, hi=4):
        if name in self.used:
            return self.used[name]
        if name in self.values:
            v = float(self.values[name])
            if lo is not None:
                v = max(v, float(lo))
            if hi is not None:
                v = min(v, float(hi))
        else:
            v = self.gen(lo, hi)
        g = self.inst.grid if self.inst else None
        if g:
            v = round(v * g) / g
        self.used[name] = v
        return v

    def gen(self, lo, hi):
        r = self.rng
        a = -5.0 if lo is None else float(lo)
        b = 5.0 if hi is None else float(hi)
        k = r.random()
        if k < 0.1:
            return a if lo is not None else 0.0
        if k < 0.2:
            return b if hi is not None else 0.0
        if k < 0.3 and a <= 0 <= b:
            return 0.0
        if k < 0.5:
            q = round(r.uniform(a, b))
            if a <= q <= b:
                return float(q)
        return r.uniform(a, b)

    def int(self, name, lo, hi):
        if name in self.used:
            return self.used[name]
        if name in self.values:
            v = int(self.values[name])
        else:
            v = self.rng.randint(lo, hi)
        self.used[name] = v
        return v

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def cplx(self, name, lo=-4, hi=4):
        return complex(self.real(name + '.re', lo, hi), self.real(name + '.im', lo, hi))

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    def check(self, c, label):
        self.nchecks += 1
        if not bool(c):
            self.fails.append((label, 'condition is false'))

    def eq(self, a, b, label, tol=0.0, rtol=0.0):
        self.nchecks += 1
        A, B = np.asarray(a), np.asarray(b)
        if A.shape != B.shape:
            self.fails.append((label, 'shape %s vs %s' % (A.shape, B.shape)))
            return
        if A.dtype == object or B.dtype == object:
            try:
                A = A.astype(complex)
                B = B.astype(complex)
            except (TypeError, ValueError):
                self.fails.append((label, 'not numeric: %r vs %r' % (a, b)))
                return
        with np.errstate(all='ignore'):
            d = np.abs(A.astype(complex) - B.astype(complex))
            mag = np.maximum(np.abs(B.astype(complex)), np.abs(A.astype(complex)))
            same = (A == B) | (np.isnan(A.astype(complex)) & np.isnan(B.astype(complex)))
            lim = tol * 1.0 + 1e-9 + max(rtol, self.inst.rtol if self.inst else 1e-7) * np.where(np.isfinite(mag), mag, 0)
            bad = ~same & ~(d <= lim)
        if np.any(bad):
            ix = tuple(int(t[0]) for t in np.nonzero(np.atleast_1d(bad)))
            self.fails.append((label, 'at %s: got %r, expected %r' % (
                ix, np.atleast_1d(A)[ix], np.atleast_1d(B)[ix])))

    def le(self, a, b, label, tol=0.0):
        self.nchecks += 1
        with np.errstate(all='ignore'):
            A, B = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            ok = A <= B + tol + 1e-9 + 1e-7 * np.abs(B)
        if not np.all(ok):
            self.fails.append((label, '%r <= %r is false' % (A.tolist(), B.tolist())))

    def pos(self, a, label):
        self.nchecks += 1
        if not a > 0:
            self.fails.append((label, '%r > 0 is false' % (a,)))

    def near(self, a, b, label, rel):
        self.nchecks += 1
        if not abs(a - b) <= (rel + 1e-9) * abs(b):
            self.fails.append((label, 'got %r, expected %r' % (a, b)))

    def printed(self, s, e, label):
        self.check(isinstance(s, str), label + ' is a text')
        self.nchecks += 1
        if s != '%g' % e:
            self.fails.append((label, 'got %r, expected %r' % (s, '%g' % e)))

    call = Sym.call

    def pi(self):
        return math.pi


# ---------------------------------------------------------------- instances
class Instance(object):
    """One harness with fixed structural parameters."""

    def __init__(self, name, body, params=None, bounds='', stubs=None, skip=(),
                 max_paths=400, timeout=20.0, budget=None, samples=6, rtol=1e-7,
                 crash_ok=(), patch='pydsm', thorough=False, grid=None,
                 nodiv0=False, tokens=False):
        self.name, self.body, self.params = name, body, params or {}
        self.bounds, self.stubs, self.skip = bounds, stubs or {}, skip
        self.max_paths, self.timeout, self.samples = max_paths, timeout, samples
        self.budget = budget
        self.rtol = rtol
        self.crash_ok = crash_ok
        self.patch = patch
        self.pins = None
        self.thorough = thorough
        self.tokens = tokens  # symbols may be printed
        self.nodiv0 = nodiv0  # inputs on which a divisor vanishes are excluded
        self.grid = grid      # concrete runs use multiples of 1/grid (exact arithmetic)

    def run_concrete(self, values, rng=None):
        save = core.CTX
        core.set_ctx(None)
        try:
            return self._run_concrete(values, rng)
        finally:
            core.set_ctx(save)

    def _run_concrete(self, values, rng=None):
        """-> (fails, conc) ; fails is None when an assumption failed."""
        V = Conc(values, rng, self)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                with np.errstate(all='ignore'):
                    self.body(V, **self.params)
                    V.unaltered()
            except (AssumeFailed, Unsupported):
                return None, V
            except simmod.BuildFailed as e:
                if not BUILD_ERRORS:
                    BUILD_ERRORS.append(str(e))
                    print('NOT-BUILT: %s' % e)
                return None, V
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [t for t in tb if SRC in t.filename]
                w = ' at %s:%d' % (os.path.relpath(where[-1].filename, REPO), where[-1].lineno) if where else ''
                V.fails.append(('exception', '%s: %s%s' % (type(e).__name__, e, w)))
        return V.fails, V


class Result(object):
    def __init__(self):
        self.found = []
        self.undecided = []
        self.errors = []
        self.obligations = 0
        self.discharged = 0
        self.paths = 0
        self.validated = 0
        self.functions = set()
        self.samples = []
        self.witnesses = 0
        self.degraded = []
        self.checked_labels = {}

    def absorb(self, o):
        self.undecided += o.undecided
        self.errors += o.errors
        self.obligations += o.obligations
        self.discharged += o.discharged
        self.paths += o.paths
        self.validated += o.validated
        self.functions |= o.functions
        self.samples = (self.samples + o.samples)[:40]
        self.witnesses += o.witnesses
        self.degraded += o.degraded
        self.checked_labels.update(o.checked_labels)


class Explorer(object):
    def __init__(self, prop, tier, seed, stats, known=()):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.stats = stats
        self.known = list(known)
        self.known_hit = {}

    def rng(self, *tag):
        h = hashlib.sha256(repr((self.seed, self.prop) + tag).encode()).digest()
        return random.Random(h)

    # --- known findings
    def is_known(self, inst, label, detail):
        for k in self.known:
            if k['instance'] in ('*', inst.name) and label.startswith(k['label']) and \
                    (not k.get('detail') or k['detail'] in detail):
                self.known_hit[k['id']] = k
                return True
        return False

    # --- symbolic exploration of one instance
    def run(self, inst, res):
        t0 = time.time()
        deadline = t0 + inst.budget if inst.budget else None
        try:
            self._explore(inst, res, deadline)
        except Unsupported as e:
            self.degrade(inst, res, 'unsupported: %s' % e)
        except PathLimit:
            self.degrade(inst, res, 'path limit')
        except z3.Z3Exception as e:
            self.degrade(inst, res, 'solver: %s' % e)
        except RecursionError as e:
            self.degrade(inst, res, 'recursion')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.degrade(inst, res, 'engine error %s: %s (%s:%d)' % (
                type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno))
        finally:
            core.set_ctx(None)

    def degrade(self, inst, res, why):
        """The engine could not finish this instance: nothing is claimed for
        it; concrete replays of the same harness still look for violations."""
        res.degraded.append('%s: %s' % (inst.name, why))
        if os.environ.get('SX_DEBUG'):
            traceback.print_exc()
        self.probe(inst, res, n=200)

    def probe(self, inst, res, n=40):
        rng = self.rng('probe', inst.name)
        ok = 0
        t_end = time.time() + 20
        for k in range(n):
            if time.time() > t_end:
                break
            fails, V = inst.run_concrete({}, rng)
            if fails is None:
                continue
            ok += 1
            for lab, det in fails:
                self.report(inst, res, lab, V.used, det)
            if res.found:
                return
        return ok

    def report(self, inst, res, label, inputs, detail):
        if self.is_known(inst, label, detail):
            return False
        res.found.append(Found(inst, label, dict(inputs), detail))
        return True

    def _explore(self, inst, res, deadline):
        from . import shim
        cx = Ctx(timeout_ms=int(inst.timeout * 1000), stats=self.stats)
        cx.nodiv0 = inst.nodiv0
        prefix = []
        n = 0
        first = True
        completed = 0
        seen = [0, 0]       # paths that can be taken (or may be), paths that turn out to be impossible
        labels = set()
        while True:
            if deadline and time.time() > deadline:
                res.undecided.append('%s: time budget after %d paths' % (inst.name, n))
                self.probe(inst, res)
                break
            n += 1
            if n > inst.max_paths:
                res.undecided.append('%s: more than %d paths' % (inst.name, inst.max_paths))
                self.probe(inst, res)
                break
            cx.reset(prefix)
            cx.tokens = {} if inst.tokens else None
            cx.__dict__.pop('_pc', None)
            for kk in ('_atomtab', '_ites', '_floors'):
                cx.__dict__.pop(kk, None)
            cx.__dict__.pop('_invtab', None)
            cx.__dict__.pop('_invpoly', None)
            cx.__dict__.pop('_sqpoly', None)
            cx._na = cx._np = 0
            V = Sym(cx, inst)
            core.set_ctx(cx)
            crash = None
            feasible = True
            rec = Recorder(res.functions) if first else None
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    with shim.patched(inst.patch, inst.stubs, inst.skip):
                        if rec:
                            rec.start()
                        try:
                            with np.errstate(all='ignore'):
                                inst.body(V, **inst.params)
                            V.unaltered()
                        finally:
                            if rec:
                                rec.stop()
                except Infeasible:
                    feasible = False
                except Unsupported:
                    raise
                except (PathLimit, z3.Z3Exception, RecursionError):
                    raise
                except Exception as e:
                    crash = e
                    if os.environ.get('SX_DEBUG'):
                        traceback.print_exc()
            first = False
            if feasible:
                res.paths += 1
                self.stats.paths += 1
                if crash is not None:
                    self.handle_crash(inst, res, cx, V, crash)
                else:
                    completed += 1
                for c in V.claims:
                    self.decide(inst, res, cx, V, c)
                    labels.add(c[0].split('[')[0])
                if crash is None and V.claims and not seen[0]:
                    seen[self.witness(inst, res, cx, V) == z3.unsat] += 1
                if len(res.found) > 6:
                    break
            core.set_ctx(None)
            # backtrack
            tr = cx.trace
            while tr and not tr[-1][1]:
                tr.pop()
            if not tr:
                break
            last = tr[-1]
            prefix = tr[:-1] + [(not last[0], False) + tuple(last[2:])]
        core.set_ctx(None)
        res.checked_labels[inst.name] = sorted(labels)
        if seen[1] and not seen[0] and not res.found:
            res.degraded.append('%s: reachability witness is unsatisfiable' % inst.name)
        if completed == 0 and not res.found:
            res.degraded.append('%s: no path completed (vacuous)' % inst.name)
        self.validate(inst, res)

    # --- reachability twin: the negation of `false` must be satisfiable
    def witness(self, inst, res, cx, V):
        s = z3.Solver()
        s.set('timeout', 5000)
        for e in cx.constraints():
            s.add(e)
        r = cx._check(s)
        if r == z3.sat:
            res.witnesses += 1
        return r

    def validate(self, inst, res):
        """The same body on concrete inputs and the real code: the claims that
        the solver discharged must hold there (encoding validation)."""
        rng = self.rng('validate', inst.name)
        tries = 0
        done = 0
        while done < inst.samples and tries < inst.samples * 6:
            tries += 1
            fails, V = inst.run_concrete({}, rng)
            if fails is None:
                continue
            done += 1
            res.validated += 1
            if done == 1 and len(res.samples) < 6:
                res.samples.append({'instance': inst.name, 'inputs': short(V.used),
                                    'checks_evaluated': V.nchecks})
            for lab, det in fails:
                self.report(inst, res, lab, V.used, det)

    # --- crashes
    def handle_crash(self, inst, res, cx, V, crash):
        res.obligations += 1
        s = z3.Solver()
        s.set('timeout', cx.timeout_ms)
        for e in cx.constraints():
            s.add(e)
        r = cx._check(s)
        label = 'exception'
        if r == z3.unsat:
            res.discharged += 1
            return
        if r == z3.sat:
            for vals in self.models(cx, V, s, z3.BoolVal(True), 4):
                fails, C = inst.run_concrete(vals, self.rng('c', inst.name))
                for lab, det in fails or []:
                    self.report(inst, res, lab, C.used, det)
                    if res.found:
                        return
                if fails and all(self.is_known(inst, l, d) for l, d in fails):
                    return
                if isinstance(crash, simmod.memory_violation()):
                    # an access out of bounds may well go unnoticed natively:
                    # replay it through the bounds-checked translation
                    simmod.CHECKED = True
                    try:
                        fails, C = inst.run_concrete(vals, self.rng('c', inst.name))
                    finally:
                        simmod.CHECKED = False
                    for lab, det in fails or []:
                        if 'MemoryViolation' in det:
                            self.report(inst, res, 'out of bounds access', C.used,
                                        det + ' (bounds-checked execution of the current source)')
                            return
        k = self.probe(inst, res, 60)
        if not res.found:
            tb = traceback.extract_tb(crash.__traceback__)
            res.degraded.append('%s: engine raised %s: %s (%s:%d), not reproduced' % (
                inst.name, type(crash).__name__, crash,
                os.path.basename(tb[-1].filename), tb[-1].lineno))

    # --- obligations
    def decide(self, inst, res, cx, V, claim):
        label, pc, kind, what, tol = claim
        res.obligations += 1
        if os.environ.get('SX_DEBUG') == '2':
            print('claim %s: %s %s' % (label, what, pc), flush=True)
        if kind == 'eq':
            a, b = what
            r = self.prove_eq(cx, pc, a, b, tol)
            neg = self.neg_eq(a, b, tol)
        elif kind == 'uni':
            r, bad = self.prove_uni(cx, V, what, tol == 'strict')
            if r == 'refuted':
                for vals in bad:
                    fails, C = inst.run_concrete(vals, self.rng('r', inst.name))
                    for lab, det in fails or ():
                        if self.report(inst, res, lab, C.used, det):
                            return
            neg = z3.BoolVal(False)
        else:
            r = self.prove_bool(cx, pc, what)
            neg = z3.Not(what)
        if r == 'proved':
            res.discharged += 1
            return
        if os.environ.get('SX_DEBUG'):
            print('not proved: %s %s: %s' % (inst.name, label, r), flush=True)
            if os.environ['SX_DEBUG'] == '2':
                print('  pc', pc)
                print('  neg', neg)
        # counterexample search
        if self.refute(inst, res, cx, V, pc, neg, label, kind, what, tol):
            return
        res.undecided.append('%s: %s (%s)' % (inst.name, label, r))

    def prove_uni(self, cx, V, polys, strict):
        """p <= 0 (p < 0 when strict) for rational functions p of one bounded input."""
        out = []
        for p in polys:
            r, m = core.uni_decide(p, cx, strict)
            if r == z3.sat:
                out.append(m)
            elif r != z3.unsat:
                return 'unknown', []
        return ('refuted' if out else 'proved'), out

    @staticmethod
    def neg_eq(a, b, tol):
        d = a - b
        if not tol:
            return d != 0
        t = rv(tol)
        return z3.Or(d > t, d < -t)

    def base_solver(self, cx, pc, timeout=None, nl=False):
        s = z3.SolverFor('QF_NRA') if nl else z3.Solver()
        s.set('timeout', int(timeout or cx.timeout_ms))
        for e in cx.axioms:
            s.add(e)
        for e in pc:
            s.add(e)
        return s

    def prove_bool(self, cx, pc, c):
        if z3.is_true(z3.simplify(c)):
            s = z3.Solver()
            s.add(z3.Not(c))
            cx._check(s)
            return 'proved'
        if self.lin_proves(cx, pc, z3.Not(c)):
            return 'proved'
        s = self.base_solver(cx, pc)
        r = cx._check(s, z3.Not(c))
        if r == z3.unsat:
            return 'proved'
        if r == z3.sat:
            return 'refuted'
        try:
            s = self.base_solver(cx, pc, nl=True)
            r = cx._check(s, z3.Not(c))
        except z3.Z3Exception:
            r = z3.unknown
        return verdict(r)

    def lin_proves(self, cx, pc, neg):
        """Refutation of neg in the linear abstraction."""
        try:
            if len(pc) == len(cx.pc):
                L = cx.lin()
                L.sync()
                f = L.b(neg)
                L.flush()
                L.s.push()
                L.s.set('timeout', cx.timeout_ms)
                L.s.add(f)
                r = cx._check(L.s)
                L.s.pop()
                L.s.set('timeout', cx.branch_timeout_ms)
                return r == z3.unsat
            L = core.Lin(cx)
            fs = [L.b(e) for e in cx.axioms] + [L.b(e) for e in pc] + [L.b(neg)]
        except Unsupported:
            return False
        s = z3.Solver()
        s.set('timeout', cx.timeout_ms)
        for e in fs + L.side:
            s.add(e)
        return cx._check(s) == z3.unsat

    def prove_eq(self, cx, pc, a, b, tol):
        # 1. canonical difference, denominators cleared
        try:
            p = to_poly(a - b, cx)
        except Unsupported:
            p = None
        if p is not None:
            p = clear_den(p, cx)
            if not p.t:
                s = z3.Solver()
                s.add(poly_z3(p, cx) != 0)
                cx._check(s)
                return 'proved'
            q = strip_noise(p, cx, tol)
            if q is not None:
                # linear abstraction: each monomial is any value of its box
                s = z3.Solver()
                terms = []
                for i, (c, bd) in enumerate(q):
                    m = z3.Real('m!%d' % i)
                    s.add(m <= rv(bd), m >= -rv(bd))
                    terms.append(rv(c) * m)
                d = z3.Sum(terms)
                s.add(z3.Or(d > rv(tol), d < -rv(tol)))
                s.set('timeout', cx.timeout_ms)
                if cx._check(s) == z3.unsat:
                    return 'proved'
        neg = self.neg_eq(a, b, tol)
        if self.lin_proves(cx, pc, neg):
            return 'proved'
        # quick attempt to refute/prove with a short timeout, then nlsat
        s = self.base_solver(cx, pc, timeout=min(3000, cx.timeout_ms))
        r = cx._check(s, neg)
        if r == z3.unknown:
            try:
                s = self.base_solver(cx, pc, nl=True)
                neg2 = neg
                if p is not None and not tol:
                    neg2 = poly_z3(p, cx) != 0 if not has_inv(p) else neg
                r = cx._check(s, neg2)
            except z3.Z3Exception:
                r = z3.unknown
        return verdict(r)

    # --- counterexamples
    def models(self, cx, V, solver, neg, k):
        """Up to k input assignments satisfying the solver's constraints."""
        solver.push()
        solver.add(neg)
        solver.set('timeout', 5000)
        for i in range(k):
            if cx._check(solver) != z3.sat:
                break
            m = solver.model()
            yield self.values(cx, V, m)
            # move away from this point
            diff = []
            for n, v in V.inputs.items():
                if isinstance(v, SNum):
                    val = m.eval(v.e, model_completion=True)
                    f = approx(val)
                    if f is not None:
                        if z3.is_int(v.e):
                            diff.append(v.e != val)
                        else:
                            diff.append(z3.Or(v.e > rv(f + 0.3), v.e < rv(f - 0.3)))
            if not diff:
                break
            solver.add(z3.Or(diff))
        solver.pop()

    def values(self, cx, V, m):
        out = {}
        for n, v in V.inputs.items():
            if isinstance(v, SNum):
                val = m.eval(v.e, model_completion=True)
                f = approx(val)
                if f is None:
                    f = 0.0
                out[n] = int(f) if z3.is_int(v.e) else f
            else:
                out[n] = v
        return out

    def refute(self, inst, res, cx, V, pc, neg, label, kind, what, tol):
        """Concrete counterexample reproduced on the real code?"""
        negs = [neg]
        if kind == 'eq':
            d = what[0] - what[1]
            negs = [z3.Or(d > rv(t), d < -rv(t)) for t in (0.1, 1e-3) if t > (tol or 0)] + [neg]
        seen = 0
        kn = len(self.known_hit)
        for ng in negs:
            s = self.base_solver(cx, pc, timeout=6000)
            for vals in self.models(cx, V, s, ng, 5):
                seen += 1
                fails, C = inst.run_concrete(vals, self.rng('r', inst.name))
                if fails:
                    hit = False
                    for lab, det in fails:
                        hit = self.report(inst, res, lab, C.used, det) or hit
                    if hit or all(self.is_known(inst, l, dd) for l, dd in fails):
                        return True
        # pinned inputs: ground queries decided by the solver
        rng = self.rng('pin', inst.name, label)
        t_end = time.time() + 15
        for i in range(60):
            if time.time() > t_end:
                break
            fails, C = inst.run_concrete({}, rng)
            if fails:
                hit = False
                for lab, det in fails:
                    hit = self.report(inst, res, lab, C.used, det) or hit
                if hit:
                    return True
        return False


def verdict(r):
    return 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'


def approx(val):
    f = frac_of(val)
    if f is not None:
        return float(f)
    if z3.is_algebraic_value(val):
        a = val.approx(17)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None


def has_inv(p):
    return any(n.startswith('inv:') or e < 0 or n == '1/0' for m in p.t for n, e in m)


def clear_den(p, cx):
    """Multiply by the (non-zero on this path) denominators."""
    inv = cx.__dict__.get('_invpoly', {})
    for _ in range(40):
        worst = {}
        for m in p.t:
            for n, e in m:
                if n in inv and e > 0:
                    worst[n] = max(worst.get(n, 0), e)
        if not worst:
            break
        n = sorted(worst)[-1]
        k = worst[n]
        r = Poly()
        for m, c in p.t.items():
            e = dict(m).get(n, 0)
            t = Poly({tuple(x for x in m if x[0] != n): c})
            for _ in range(k - e):
                t = t * inv[n]
            r = r + t
        p = core.reduce_trig(r, cx)
    # negative powers of plain atoms
    neg = {}
    for m in p.t:
        for n, e in m:
            if e < 0 and n != '1/0':
                neg[n] = min(neg.get(n, 0), e)
    if neg:
        mul = Poly({tuple(sorted((n, -e) for n, e in neg.items())): Fraction(1)})
        p = core.reduce_trig(p * mul, cx)
    return p


def strip_noise(p, cx, tol):
    """[(coef, bound of monomial)] when every atom of p is bounded."""
    if not tol:
        return None
    out = []
    for m, c in p.t.items():
        bd = 1.0
        for n, e in m:
            if e < 0:
                return None
            if n in cx.bounds and None not in cx.bounds[n]:
                lo, hi = cx.bounds[n]
                bd *= max(abs(float(lo)), abs(float(hi))) ** e
            elif n in cx.meta and cx.meta[n][0] in ('cos', 'sin'):
                pass
            else:
                return None
        out.append((c, bd * (1 + 1e-12)))
    return out


def short(d, n=12):
    items = list(d.items())[:n]
    return {k: (round(v, 6) if isinstance(v, float) else v) for k, v in items}


class Recorder(object):
    """Functions of the package entered while running symbolically."""

    def __init__(self, acc):
        self.acc = acc

    def start(self):
        src = SRC + os.sep
        acc = self.acc

        def prof(frame, event, arg):
            if event == 'call':
                f = frame.f_code.co_filename
                if f.startswith(src):
                    acc.add('%s:%s' % (f[len(src):], frame.f_code.co_qualname))
        sys.setprofile(prof)

    def stop(self):
        sys.setprofile(None)


# ---------------------------------------------------------------- check driver
LEVEL = 'model_checking'


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == prop]


_W = {}


def worker(i):
    """One instance, in a forked worker: a picklable account of what happened."""
    w = _W
    inst = w['instances'][i]
    res, stats = Result(), core.Stats()
    ex = Explorer(w['prop'], w['tier'], w['seed'], stats, w['known'])
    t1 = time.time()
    if t1 - w['t0'] > w['budget']:
        res.undecided.append('%s: not started, check budget used up' % inst.name)
        ex.probe(inst, res)
        ran = 0
    else:
        ex.run(inst, res)
        ran = 1
    found = [(f.label, f.inputs, f.detail) for f in res.found]
    res.found = []
    return i, res, found, stats, sorted(ex.known_hit), ran, round(time.time() - t1, 2)


def patient(it, limit, t0):
    """The results that arrive in time (a worker may have been ended)."""
    import multiprocessing
    while True:
        try:
            yield it.next(max(1.0, limit - (time.time() - t0)))
        except StopIteration:
            return
        except multiprocessing.TimeoutError:
            return


def run_check(prop, instances, tier, seed, extra=None, assumptions=(), replay=None, budget=600):
    """Run the instances of one property; returns the exit code."""
    t0 = time.time()
    stats = core.Stats()
    known = load_known(prop)
    ex = Explorer(prop, tier, seed, stats, known)
    if replay:
        return do_replay(prop, instances, replay)
    res = Result()
    bounds = []
    skipped = 0
    per = {}
    ran = 0
    todo = []
    for k, inst in enumerate(instances):
        if inst.thorough and tier != 'thorough':
            skipped += 1
            continue
        todo.append(k)
        if inst.bounds:
            bounds.append('%s: %s' % (inst.name, inst.bounds))
    _W.update(instances=instances, prop=prop, tier=tier, seed=seed, known=known, t0=t0, budget=budget)
    jobs = int(os.environ.get('SX_JOBS', '6'))
    jobs = max(1, min(jobs, os.cpu_count() or 1, len(todo)))
    results = {}
    nfound = 0
    if 'checks.dsim' in sys.modules and jobs > 1:
        simmod.prepare()
    pool = None
    if jobs > 1:
        import multiprocessing
        pool = multiprocessing.get_context('fork').Pool(jobs)
        stream = patient(pool.imap_unordered(worker, todo), budget + 120, t0)
    else:
        stream = map(worker, todo)
    for i, r, found, st, hit, done, secs in stream:
        inst = instances[i]
        results[i] = (r, found, st, hit, done, secs)
        nfound += len(found)
        if os.environ.get('SX_VERBOSE'):
            print('%-40s obligations %d discharged %d  %.1fs' % (
                inst.name, r.obligations, r.discharged, secs), flush=True)
        if nfound >= 3:
            break
    if pool is not None:
        pool.terminate()
        pool.join()
    for i in todo:
        if i not in results and nfound < 3:
            res.undecided.append('%s: no answer from its worker' % instances[i].name)
    for i in sorted(results):
        r, found, st, hit, done, secs = results[i]
        inst = instances[i]
        res.absorb(r)
        res.found += [Found(inst, *f) for f in found]
        for k in hit:
            ex.known_hit[k] = next(x for x in known if x['id'] == k)
        stats.absorb(st)
        ran += done
        per[inst.name] = [r.obligations, r.discharged, secs]
    extra_ev = {}
    if extra is not None and len(res.found) < 3:
        extra_ev = extra(ex, res) or {}
    # known findings reported on this tree
    for kid, k in sorted(ex.known_hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    cov = {
        'states': res.paths,
        'transitions': stats.branch_queries + stats.paths,
        'traces_validated_against_impl': res.validated,
        'samples': res.samples,
        'obligations': res.obligations,
        'discharged': res.discharged,
        'undecided': res.undecided,
        'not_encoded': res.degraded,
        'functions_encoded': sorted(res.functions),
        'bounds': bounds,
        'solver': {'name': 'z3 ' + z3.get_version_string(), 'queries': stats.queries,
                   'sat': stats.sat, 'unsat': stats.unsat, 'unknown': stats.unknown,
                   'time_s': round(stats.solver_time, 3)},
        'reachability_witnesses': res.witnesses,
        'harness_instances': ran,
        'instances_left_to_thorough': skipped,
        'per_instance_obligations_discharged_seconds': per,
        'meaning': 'states = symbolic paths explored to the end; transitions = '
                   'solver-decided branches plus path ends; '
                   'traces_validated_against_impl = concrete runs of the same '
                   'harness on the unpatched code',
        'known_findings': sorted(ex.known_hit),
    }
    cov.update(extra_ev)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL,
          'coverage': cov, 'assumptions': list(assumptions),
          'wall_s': round(time.time() - t0, 2), 'violations': len(res.found)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for u in res.undecided[:10]:
        print('UNDECIDED: %s' % u)
    for u in res.degraded[:10]:
        print('NOT-ENCODED: %s' % u)
    if res.found:
        v = res.found[0]
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'instance': v.inst.name, 'label': v.label,
                       'detail': v.detail, 'inputs': v.inputs,
                       'others': [[o.inst.name, o.label, o.detail] for o in res.found[1:]]},
                      f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s: %s' % (v.inst.name, v.label, v.detail))
        print('  inputs: %s' % json.dumps(short(v.inputs, 40), default=str))
        return 1
    if res.errors:
        for e in res.errors:
            print('ERROR: %s' % e)
        return 2
    print('OK property=%s obligations=%d discharged=%d queries=%d solver_s=%.1f wall_s=%.1f' % (
        prop, res.obligations, res.discharged, stats.queries, stats.solver_time, time.time() - t0))
    return 0


def do_replay(prop, instances, path):
    with open(path) as f:
        r = json.load(f)
    for inst in instances:
        if inst.name == r['instance']:
            simmod.CHECKED = r['label'] == 'out of bounds access'
            fails, V = inst.run_concrete(r['inputs'])
            for lab, det in fails or []:
                print('REPLAY property=%s %s: %s' % (prop, lab, det))
            return 1 if fails else 0
    print('no such instance')
    return 2


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, VERIF)
    import importlib
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('checks.' + a.property.lower())
    insts = mod.instances(a.tier)
    if a.only:
        insts = [i for i in insts if a.only in i.name]
    rc = run_check(a.property, insts, a.tier, seed, getattr(mod, 'extra', None),
                   getattr(mod, 'ASSUMPTIONS', ()), a.replay,
                   budget=getattr(mod, 'BUDGET', {'quick': 500, 'thorough': 3000})[a.tier])
    return rc
