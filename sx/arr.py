# -*- coding: utf-8 -*-
"""Object arrays of symbolic scalars and the numpy functions over them."""
import builtins
import itertools
import math
import operator
import numpy as np
from .core import (SymBase, SNum, SComplex, SBool, Unsupported, is_sym,
                   is_pynum, isrealpy, ite, smax, smin, sfloor, sceil, srint,
                   strunc, sfmod, smod, sfloordiv, ssqrt, sexp, sln, slog10,
                   slog2, scos, ssin, stan, sabs, ssign, spow, And, Or, Not,
                   bexpr, mkbool, SBool_of, nonfinite, scossin, nexpr, num_real)

# originals, captured before any patching
O = {k: getattr(np, k) for k in dir(np) if not k.startswith('__')}
OL = {k: getattr(np.linalg, k) for k in dir(np.linalg) if not k.startswith('_')}
ND = np.ndarray


class SArr(np.ndarray):
    """ndarray of dtype object holding symbolic and concrete scalars."""

    def __new__(cls, data, kind=None):
        a = O['empty'](O['shape'](data), dtype=object) if not isinstance(data, ND) else None
        if a is not None:
            a[...] = data
        else:
            a = data
        r = ND.astype(a, object).view(cls) if a.dtype != object else a.view(cls)
        r.kind = kind
        return r

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, 'kind', None)
        self.dt = getattr(obj, 'dt', None)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __array_wrap__(self, obj, context=None, return_scalar=False):
        if obj.ndim == 0:
            return obj.item() if isinstance(obj, ND) else obj
        return obj.view(SArr)

    # --- complex parts
    @property
    def real(self):
        if not builtins.any(is_cplx(e) for e in ND.view(self, ND).flat):
            return self
        return emap1(lambda x: x.real if not isinstance(x, SBool) else x, self)

    @real.setter
    def real(self, v):
        b = ND.view(self, ND)
        vv = O['broadcast_to'](obj(v), b.shape)
        for i in np.ndindex(*b.shape):
            b[i] = mkcomplex(vv[i], imag_of(b[i]))

    @property
    def imag(self):
        return emap1(imag_of, self)

    @imag.setter
    def imag(self, v):
        b = ND.view(self, ND)
        vv = O['broadcast_to'](obj(v), b.shape)
        for i in np.ndindex(*b.shape):
            b[i] = mkcomplex(b[i].real, vv[i])

    def conj(self):
        return emap1(conj1, self)
    conjugate = conj

    # --- indexing
    def __getitem__(self, ix):
        ix = fix_index(ix)
        r = ND.__getitem__(self, ix)
        return r

    def __setitem__(self, ix, v):
        m = lone_mask(ix)
        if m is not None and m.shape == self.shape and scalar_like(v):
            # masked assignment of a scalar: element-wise if-then-else
            base = ND.view(self, ND)
            vv = unwrap0(v)
            for i in np.ndindex(*self.shape):
                base[i] = ite(mask_elt(m[i]), store_cast(self.kind, vv), base[i])
            return
        ix = fix_index(ix)
        k = self.kind
        if isinstance(v, (list, tuple)):
            v = obj(v)
        if isinstance(v, ND) and v.dtype != object:
            v = v.astype(object)
        if k is not None:
            if isinstance(v, ND):
                v = O['frompyfunc'](lambda x: store_cast(k, x), 1, 1)(ND.view(v, ND)) \
                    if v.size else v
            else:
                v = store_cast(k, v)
        if isinstance(v, ND):
            v = ND.view(v, ND)
            # numpy float arrays accept a size-1 array for one element
            tgt = ND.__getitem__(ND.view(self, ND), ix)
            if not isinstance(tgt, ND):
                if v.ndim == 0 or v.size == 1:
                    if v.ndim > 0 and k is not None and False:
                        pass
                    v = v.reshape(-1)[0]
                else:
                    raise ValueError('setting an array element with a sequence.')
        ND.__setitem__(ND.view(self, ND), ix, v)

    # --- python protocol
    def __bool__(self):
        if self.size == 1:
            return bool(ND.view(self, ND).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __complex__(self):
        return complex(self.item())

    def __index__(self):
        if self.ndim == 0:
            return operator.index(self.item())
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def item(self, *a):
        return ND.view(self, ND).item(*a)

    def tolist(self):
        return ND.view(self, ND).tolist()

    def astype(self, dt, *a, **k):
        return cast_array(self, dt)

    def copy(self, order='C'):
        return ND.copy(self, order)

    def dot(self, o, out=None):
        return np_dot(self, o)

    def __matmul__(self, o):
        if getattr(type(o), '__array_ufunc__', 0) is None:
            return NotImplemented
        return np_matmul(self, o)

    def __rmatmul__(self, o):
        if getattr(type(o), '__array_ufunc__', 0) is None:
            return NotImplemented
        return np_matmul(o, self)

    def __pow__(self, o):
        return ufunc_dispatch(O['power'], '__call__', (self, o), {})

    def __rpow__(self, o):
        return ufunc_dispatch(O['power'], '__call__', (o, self), {})

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(operator.add, self, axis, 0, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(operator.mul, self, axis, 1, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_mean(self, axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np_var(self, axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return emap1(ssqrt, np_var(self, axis, ddof=ddof, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(smax, self, axis, None, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(smin, self, axis, None, keepdims)

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(Or2, self, axis, False, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(And2, self, axis, True, keepdims)

    def argmax(self, axis=None, **k):
        return np_argmax(self, axis)

    def argmin(self, axis=None, **k):
        return np_argmin(self, axis)

    def cumsum(self, axis=None, **k):
        return accumulate_(operator.add, self, axis)

    def cumprod(self, axis=None, **k):
        return accumulate_(operator.mul, self, axis)

    def clip(self, min=None, max=None, out=None, **k):
        return np_clip(self, min, max)

    def round(self, decimals=0, out=None):
        return np_around(self, decimals)

    def sort(self, axis=-1, *a, **k):
        r = np_sort(self, axis)
        ND.view(self, ND)[...] = ND.view(r, ND)

    def argsort(self, axis=-1, *a, **k):
        return np_argsort(self, axis)

    def nonzero(self):
        return np_nonzero(self)

    def trace(self, *a, **k):
        return O['sum']([1]) and reduce_(operator.add, np_diag(self), None, 0, False)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(Or(*[y == x for y in ND.view(self, ND).ravel()]))

    def __abs__(self):
        return emap1(sabs, self)

    def __repr__(self):
        return 'SArr(%s)' % (ND.view(self, ND).tolist(),)

    __str__ = __repr__


def Or2(a, b):
    return Or(a, b)


def And2(a, b):
    return And(a, b)


def imag_of(x):
    if isinstance(x, SComplex):
        return x.im
    if isinstance(x, (complex, np.complexfloating)):
        return x.imag
    return 0.0


def conj1(x):
    if isinstance(x, (SComplex, complex, np.complexfloating)):
        return x.conjugate()
    return x


def mkcomplex(re, im):
    if isrealpy(re) and isrealpy(im):
        return complex(re, im)
    return SComplex(re, im)


def is_cplx(x):
    return isinstance(x, (SComplex, complex, np.complexfloating))


def unwrap0(v):
    if isinstance(v, ND):
        return ND.view(v, ND).reshape(-1)[0] if v.dtype == object else v.reshape(-1)[0].item()
    return v


def scalar_like(v):
    return is_sym(v) or is_pynum(v) or (isinstance(v, ND) and v.ndim == 0)


def mask_elt(b):
    return b


def has_symbool(a):
    return builtins.any(isinstance(x, SBool) for x in ND.view(a, ND).ravel())


def lone_mask(ix):
    if isinstance(ix, tuple) and len(ix) == 1:
        ix = ix[0]
    if isinstance(ix, SBool):
        r = O['empty']((), dtype=object)
        r[()] = ix
        return r
    if isinstance(ix, SArr) and has_symbool(ix):
        return ND.view(ix, ND)
    return None


def fix_index(ix):
    """Make an index concrete (forking on symbolic masks and integers)."""
    if isinstance(ix, tuple):
        return tuple(fix_index1(i) for i in ix)
    return fix_index1(ix)


def fix_index1(i):
    if isinstance(i, SBool):
        return bool(i)
    if isinstance(i, SNum):
        return operator.index(i)
    if isinstance(i, slice):
        f = lambda v: operator.index(v) if isinstance(v, SNum) else v
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, ND) and i.dtype == object:
        b = ND.view(i, ND)
        flat = [bool(x) if isinstance(x, (SBool, bool, np.bool_)) else operator.index(x)
                for x in b.ravel()]
        if flat and builtins.all(isinstance(x, bool) for x in flat):
            return O['array'](flat, dtype=bool).reshape(b.shape)
        return O['array'](flat, dtype=int).reshape(b.shape)
    if isinstance(i, list):
        return fix_index1(obj(i)) if contains_sym(i) else i
    return i


def store_cast(kind, x):
    """Cast as numpy does when storing in an array of the given dtype kind."""
    if kind is None or kind == 'O':
        return x
    if isinstance(x, ND):
        x = unwrap0(x)
    if kind == 'f':
        if is_cplx(x):
            if isinstance(x, SComplex):
                if isrealpy(x.im) and x.im == 0:
                    return x.re
                if isinstance(x.im, SNum) and x.im.const() == 0:
                    return x.re
            raise TypeError("float() argument must be a string or a real "
                            "number, not 'complex'")
        if isinstance(x, SBool):
            return x.num()
        if isinstance(x, SNum):
            return x.asreal()
        if x is None:
            return float('nan')
        return float(x)
    if kind == 'i':
        if isinstance(x, (SNum,)):
            return SNum(strunc(x).e)
        if isinstance(x, SBool):
            return x.num()
        if is_cplx(x):
            raise TypeError("int() argument must be a real number, not 'complex'")
        return int(x)
    if kind == 'c':
        if is_sym(x):
            return SComplex.of(x)
        return complex(x)
    if kind == 'b':
        if is_sym(x):
            return SBool_of(x)
        return bool(x)
    return x


def dkind(dt):
    if dt is None:
        return None
    if dt is object:
        return 'O'
    try:
        k = np.dtype(dt).kind
    except TypeError:
        return None
    return {'f': 'f', 'i': 'i', 'u': 'i', 'c': 'c', 'b': 'b', 'O': 'O'}.get(k)


def cast_scalar(x, dt):
    k = dkind(dt)
    if k == 'f' and is_cplx(x):
        return SComplex.of(x).re
    return store_cast(k, x)


def cast_array(a, dt):
    k = dkind(dt)
    r = emap1(lambda x: (SComplex.of(x).re if k == 'f' and is_cplx(x)
                         else store_cast(k, x)), a)
    if isinstance(r, SArr):
        r.kind = k if k != 'O' else None
    return r


# ---------------------------------------------------------------- conversion
def contains_sym(x, depth=0):
    if isinstance(x, (SymBase, SArr)):
        return True
    if isinstance(x, ND):
        return x.dtype == object and builtins.any(
            isinstance(e, (SymBase, SArr)) for e in x.ravel())
    if isinstance(x, (list, tuple)) and depth < 6:
        return builtins.any(contains_sym(y, depth + 1) for y in x)
    return False


def obj(x):
    """Base object ndarray of anything numeric."""
    if isinstance(x, SymBase):
        r = O['empty']((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, ND):
        r = ND.view(x, ND) if type(x) is not ND else x
        if r.dtype == object:
            return r
        q = O['empty'](r.shape, dtype=object)
        q[...] = r
        if r.dtype.kind in 'fiucb':
            for i, v in zip(np.ndindex(*r.shape), r.ravel().tolist()):
                q[i] = v
        return q
    if is_pynum(x):
        r = O['empty']((), dtype=object)
        r[()] = x.item() if isinstance(x, np.generic) else x
        return r
    if isinstance(x, (list, tuple, range)) or hasattr(x, '__iter__'):
        items = [obj(y) for y in x]
        if not items:
            return O['empty']((0,), dtype=object)
        sh = items[0].shape
        if builtins.any(y.shape != sh for y in items):
            raise ValueError('setting an array element with a sequence. The '
                             'requested array has an inhomogeneous shape')
        r = O['empty']((len(items),) + sh, dtype=object)
        for i, y in enumerate(items):
            r[i] = y if sh else y[()]
        return r
    raise Unsupported('array of %r' % type(x))


def to_sarr(x, kind=None):
    r = obj(x).view(SArr)
    if isinstance(x, SArr):
        r.kind = x.kind
    elif isinstance(x, ND) and x.dtype != object:
        r.kind = None
    if kind is not None:
        r.kind = kind
    return r


def wrap(r):
    """Result of an elementwise computation."""
    if isinstance(r, ND):
        if r.ndim == 0:
            return ND.view(r, ND)[()] if r.dtype == object else r
        if r.dtype == object:
            r = r.view(SArr)
            r.kind = None
            r.dt = None
        return r
    return r


def emap1(f, x):
    if not isinstance(x, ND):
        return f(x)
    b = obj(x)
    r = O['empty'](b.shape, dtype=object, order=layout(b))
    for i in np.ndindex(*b.shape):
        r[i] = f(b[i])
    return wrap(r)


def layout(*os):
    """Memory order numpy gives to an elementwise result ('K')."""
    return 'F' if builtins.all(o.flags.f_contiguous and not o.flags.c_contiguous
                               for o in os) else 'C'


def emap2(f, x, y):
    a, b = obj(x), obj(y)
    sh = np.broadcast_shapes(a.shape, b.shape)
    full = [o for o in (a, b) if o.shape == sh]
    lay = layout(*full) if full else 'C'
    a, b = O['broadcast_to'](a, sh), O['broadcast_to'](b, sh)
    r = O['empty'](sh, dtype=object, order=lay)
    for i in np.ndindex(*sh):
        r[i] = f(a[i], b[i])
    return wrap(r)


def emapn(f, *xs):
    os = [obj(x) for x in xs]
    sh = np.broadcast_shapes(*[o.shape for o in os])
    os = [O['broadcast_to'](o, sh) for o in os]
    r = O['empty'](sh, dtype=object)
    for i in np.ndindex(*sh):
        r[i] = f(*[o[i] for o in os])
    return wrap(r)


# ---------------------------------------------------------------- reductions
def norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(operator.index(a) % nd for a in axis)
    a = operator.index(axis)
    if not -nd <= a < max(nd, 1):
        raise np.exceptions.AxisError(a, nd) if hasattr(np, 'exceptions') else IndexError(a)
    return (a % nd if nd else 0,)


def reduce_(f, x, axis=None, identity=None, keepdims=False, initial=None):
    b = obj(x)
    if b.ndim == 0:
        b = b.reshape(1) if axis is None else b.reshape(1)
        axis = 0
        scalar = True
    axes = norm_axes(axis, b.ndim)
    rest = [i for i in range(b.ndim) if i not in axes]
    t = b.transpose(rest + list(axes))
    rsh = tuple(b.shape[i] for i in rest)
    n = 1
    for i in axes:
        n *= b.shape[i]
    t = t.reshape(rsh + (n,))
    r = O['empty'](rsh, dtype=object)
    for i in np.ndindex(*rsh):
        els = list(t[i])
        if initial is not None:
            acc = initial
        elif not els:
            if identity is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            acc = identity
        else:
            acc, els = els[0], els[1:]
            if identity is True or identity is False:
                acc = f(acc, acc) if is_sym(acc) or is_pynum(acc) else acc
        for e in els:
            acc = f(acc, e)
        if isinstance(acc, bool) and f not in (And2, Or2):
            acc = int(acc)
        r[i] = acc
    if keepdims:
        r = r.reshape([1 if i in axes else b.shape[i] for i in range(b.ndim)])
    return wrap(r)


def accumulate_(f, x, axis=None):
    b = obj(x)
    if axis is None:
        b, axis = b.ravel(), 0
    b = O['moveaxis'](b, axis, 0)
    r = O['empty'](b.shape, dtype=object)
    for i in range(b.shape[0]):
        if i == 0:
            r[0] = b[0]
        elif b.ndim == 1:
            r[i] = f(r[i - 1], b[i])
        else:
            r[i] = obj(emap2(f, r[i - 1], b[i]))
    return wrap(O['moveaxis'](r, 0, axis))


# ---------------------------------------------------------------- ufuncs
def c_eq(a, b):
    return a == b


def hypot(a, b):
    return ssqrt(a * a + b * b, nonneg=True)


def copysign(a, b):
    return ite(b >= 0, sabs(a), -sabs(a))


def atan2(a, b):
    if is_sym(a) or is_sym(b):
        return satan2(a, b)
    return math.atan2(a, b)


def satan2(y, x):
    from .core import ctx, to_poly, num_real
    import z3
    cx = ctx()
    py, px = to_poly(nexpr(y)), to_poly(nexpr(x))
    k = ('atan2', py.key(), px.key())
    if k not in cx.atoms:
        a = cx.fresh('atan2')
        cx.__dict__.setdefault('_atomtab', {})[a.decl().name()] = a
        ye, xe = nexpr(y), nexpr(x)
        pi = z3.RealVal('3.141592653589793')
        cx.add_axiom(a <= pi)
        cx.add_axiom(a > -pi)
        cx.add_axiom((a > 0) == z3.Or(ye > 0, z3.And(ye == 0, xe < 0)))
        cx.add_axiom((a < 0) == (ye < 0))
        cx.add_axiom(z3.And(a > -pi / 2, a < pi / 2) == z3.Or(xe > 0, z3.And(xe == 0, ye == 0)))
        cx.atoms[k] = a
        cx.meta[a.decl().name()] = ('atan2', (ye, xe))
    return SNum(cx.atoms[k])


def arith(name):
    op = getattr(operator, name)

    def f(a, b):
        if name == 'truediv' and not is_sym(a) and not is_sym(b):
            with np.errstate(all='ignore'):
                return (np.asarray(a) / np.asarray(b)).item() \
                    if b == 0 else a / b
        if name in ('add', 'mul') and isinstance(a, (bool, np.bool_)) and \
                isinstance(b, (bool, np.bool_)):
            return (a or b) if name == 'add' else (a and b)
        if name in ('add', 'mul') and isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return Or(a, b) if name == 'add' else And(a, b)
        return op(a, b)
    return f


def py_pow(a, b):
    if is_sym(a) or is_sym(b):
        return spow(a, b)
    return O['power'](a, b).item()


def isnan1(x):
    if isinstance(x, SComplex):
        return isnan1(x.re) or isnan1(x.im)
    return (not is_sym(x)) and bool(O['isnan'](x))


def isinf1(x):
    if isinstance(x, SComplex):
        return isinf1(x.re) or isinf1(x.im)
    return (not is_sym(x)) and bool(O['isinf'](x))


def pyfloor(x):
    return sfloor(x)


def conc(fname):
    uf = O[fname]

    def g(f):
        def h(*a):
            if builtins.any(is_sym(x) for x in a):
                return f(*a)
            with np.errstate(all='ignore'):
                return uf(*a).item() if hasattr(uf(*a), 'item') else uf(*a)
        return h
    return g


def not_modelled(name):
    def f(*a):
        raise Unsupported('ufunc ' + name)
    return f


def fabs1(x):
    return sabs(x)


def cmpop(name):
    op = getattr(operator, name)

    def f(a, b):
        if is_cplx(a) or is_cplx(b):
            if name == 'eq':
                return SComplex.of(a) == SComplex.of(b) if (is_sym(a) or is_sym(b)) else a == b
            if name == 'ne':
                return SComplex.of(a) != SComplex.of(b) if (is_sym(a) or is_sym(b)) else a != b
            A, B = SComplex.of(a), SComplex.of(b)
            if name == 'lt':
                return A._lex(B, True)
            if name == 'le':
                return A._lex(B, False)
            if name == 'gt':
                return B._lex(A, True)
            return B._lex(A, False)
        return op(a, b)
    return f


def sinh(x):
    e = sexp(x)
    return (e - 1 / e) / 2


def cosh(x):
    e = sexp(x)
    return (e + 1 / e) / 2


def tanh(x):
    e = sexp(2 * x)
    return (e - 1) / (e + 1)


def deg2rad(x):
    return x * (math.pi / 180)


def sinc(x):
    if is_sym(x):
        if bool(x == 0):
            return 1.0
        return ssin(x * math.pi) / (x * math.pi)
    return float(O['sinc'](x))


def spacing(x):
    """Distance to the next double, for moduli in [2^-8, 2^8)."""
    if isinstance(x, SBool):
        x = x.num()
    a = sabs(x)
    from .core import ctx
    if not (ctx().entails(bexpr(a >= 2.0 ** -8)) and ctx().entails(bexpr(a < 2.0 ** 8))):
        raise Unsupported('spacing out of the encoded range')
    r = 2.0 ** (-8 - 52)
    for k in range(-7, 8):
        r = ite(a >= 2.0 ** k, 2.0 ** (k - 52), r)
    return ite(x >= 0, r, -r)


def nextafter(x, y):
    if is_sym(y) or not math.isinf(y):
        raise Unsupported('nextafter')
    s = spacing(x)
    s = ite(s >= 0, s, -s)
    if y > 0 and ctx_entails(x > 0):
        return x + s
    if y < 0 and ctx_entails(x < 0):
        return x - s
    raise Unsupported('nextafter towards zero')


def ctx_entails(b):
    from .core import ctx
    return ctx().entails(bexpr(b))


U1 = {
    'spacing': spacing,
    'negative': lambda x: -x, 'positive': lambda x: x, 'absolute': sabs,
    'fabs': fabs1, 'sqrt': ssqrt, 'square': lambda x: x * x,
    'exp': sexp, 'log': sln, 'log10': slog10, 'log2': slog2,
    'log1p': lambda x: sln(1 + x), 'expm1': lambda x: sexp(x) - 1,
    'exp2': lambda x: spow(2.0, x),
    'cos': scos, 'sin': ssin, 'tan': stan, 'sinh': sinh, 'cosh': cosh, 'tanh': tanh,
    'floor': sfloor, 'ceil': sceil, 'rint': srint,
    'trunc': lambda x: SNum(num_real(strunc(x).e)), 'sign': ssign,
    'conjugate': conj1, 'reciprocal': lambda x: 1.0 / x,
    'logical_not': lambda x: Not(x if not isinstance(x, SNum) else x != 0),
    'invert': lambda x: ~x,
    'isfinite': lambda x: not isnan1(x) and not isinf1(x),
    'isnan': isnan1, 'isinf': isinf1, 'deg2rad': deg2rad, 'radians': deg2rad,
    'signbit': lambda x: x < 0,
}
U2 = {
    'add': arith('add'), 'subtract': arith('sub'), 'multiply': arith('mul'),
    'divide': arith('truediv'), 'true_divide': arith('truediv'),
    'floor_divide': sfloordiv, 'remainder': smod, 'mod': smod, 'fmod': sfmod,
    'power': py_pow, 'float_power': py_pow,
    'maximum': smax, 'minimum': smin, 'fmax': smax, 'fmin': smin,
    'less': cmpop('lt'), 'less_equal': cmpop('le'), 'greater': cmpop('gt'),
    'greater_equal': cmpop('ge'), 'equal': cmpop('eq'), 'not_equal': cmpop('ne'),
    'logical_and': And2, 'logical_or': Or2,
    'logical_xor': lambda a, b: mkbool(__import__('z3').Xor(bexpr(a), bexpr(b))),
    'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b,
    'bitwise_xor': lambda a, b: a ^ b,
    'hypot': hypot, 'copysign': copysign, 'nextafter': nextafter, 'arctan2': atan2,
}
IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False}


def conv_in(f, uname):
    uf = O[uname]

    def g(*a):
        if not builtins.any(is_sym(x) for x in a):
            with np.errstate(all='ignore'):
                r = uf(*a)
            return r.item() if hasattr(r, 'item') else r
        return f(*a)
    return g


for _k in list(U1):
    if _k in O:
        U1[_k] = conv_in(U1[_k], _k)
for _k in list(U2):
    if _k in O:
        U2[_k] = conv_in(U2[_k], _k)


def store_out(out, r, where=True):
    o = out[0] if isinstance(out, tuple) else out
    if isinstance(o, ND):
        if o.dtype != object and contains_sym(r):
            raise Unsupported('symbolic result into a %s array' % o.dtype)
        if isinstance(o, SArr):
            if where is not True:
                b = ND.view(o, ND)
                w = O['broadcast_to'](obj(where), b.shape)
                rr = O['broadcast_to'](obj(r), b.shape)
                for i in np.ndindex(*b.shape):
                    b[i] = ite(w[i], rr[i], b[i])
            else:
                SArr.__setitem__(o, Ellipsis, r)
        else:
            o[...] = obj(r) if o.dtype == object else r
        return o
    raise Unsupported('out=')


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    name = {'divide': 'true_divide', 'conj': 'conjugate', 'abs': 'absolute'}.get(name, name)
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    dt = kw.pop('dtype', None)
    for k in ('casting', 'order', 'subok', 'signature'):
        kw.pop(k, None)
    if method == '__call__':
        if ufunc.nin == 1 and name in U1:
            r = emap1(U1[name], inputs[0] if isinstance(inputs[0], (ND, SymBase))
                      else obj(inputs[0]))
        elif ufunc.nin == 2 and name in U2:
            a, b = inputs
            if any_foreign(a) or any_foreign(b):
                return NotImplemented
            if not isinstance(a, ND) and not isinstance(b, ND) and \
                    not isinstance(a, (list, tuple)) and not isinstance(b, (list, tuple)):
                r = U2[name](unnp(a), unnp(b))
            else:
                r = emap2(U2[name], a, b)
        elif name == 'matmul':
            r = np_matmul(*inputs)
        elif name == 'vecdot':
            r = reduce_(operator.add, conj_(inputs[0]) * inputs[1], -1, 0)
        elif name == 'divmod':
            return emap2(sfloordiv, *inputs), emap2(smod, *inputs)
        elif name == 'modf':
            t = emap1(U1['trunc'], inputs[0])
            return inputs[0] - t, t
        else:
            # user-made or unknown ufuncs: elementwise if frompyfunc
            raise Unsupported('ufunc %s' % name)
        if dt is not None:
            r = cast_array(r, dt) if isinstance(r, ND) else cast_scalar(r, dt)
        if out is not None:
            return store_out(out, r, where)
        return r
    if method == 'reduce':
        ax = kw.get('axis', 0)
        x = inputs[0]
        if len(inputs) > 1:
            ax = inputs[1]
        if where is not True:
            raise Unsupported('reduce where')
        init = kw.get('initial', None)
        if init is np._NoValue:
            init = None
        r = reduce_(U2[name], x, ax, IDENT.get(name), kw.get('keepdims', False), init)
        if out is not None and out != (None,):
            return store_out(out, r)
        return r
    if method == 'accumulate':
        return accumulate_(U2[name], inputs[0], kw.get('axis', 0))
    if method == 'outer':
        a, b = obj(inputs[0]), obj(inputs[1])
        return emap2(U2[name], a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at':
        a, ix = inputs[0], fix_index(inputs[1])
        raise Unsupported('ufunc.at')
    raise Unsupported('ufunc %s.%s' % (name, method))


def unnp(x):
    return x.item() if isinstance(x, np.generic) else x


def any_foreign(x):
    """operand of a type with its own arithmetic (scipy.sparse, cvxpy...)."""
    return not (isinstance(x, (ND, SymBase, list, tuple)) or is_pynum(x) or x is None)


def conj_(x):
    return emap1(conj1, x if isinstance(x, ND) else to_sarr(x))


# ---------------------------------------------------------------- functions
F = {}      # numpy function name -> model


def model(*names):
    def d(f):
        for n in names:
            F[n] = f
        return f
    return d


def function_dispatch(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, '__module__', '') or ''
    if 'linalg' in mod and name in FL:
        return FL[name](*args, **kwargs)
    if name in F:
        return F[name](*args, **kwargs)
    if name in GENERIC:
        return generic(func, args, kwargs)
    raise Unsupported('numpy function %s.%s' % (mod, name))


# shape-only functions for which the object-array implementation is exact
GENERIC = set('''concatenate hstack vstack stack dstack column_stack reshape
ravel transpose squeeze expand_dims swapaxes moveaxis rollaxis flip fliplr
flipud roll tile repeat shape size ndim atleast_1d atleast_2d atleast_3d
broadcast_to broadcast_arrays split array_split hsplit vsplit append insert
delete copyto tril triu diagonal rot90 block resize put take take_along_axis
row_stack result_type diag_indices_from tril_indices_from triu_indices_from
ix_ meshgrid fill_diagonal pad put_along_axis
'''.split())


def strip(x):
    if isinstance(x, SArr):
        return ND.view(x, ND)
    if isinstance(x, SymBase):
        return obj(x)
    if isinstance(x, tuple):
        return tuple(strip(y) for y in x)
    if isinstance(x, list):
        return [strip(y) for y in x]
    return x


def rewrap(r):
    if isinstance(r, ND) and r.dtype == object and not isinstance(r, SArr):
        return wrap(r) if r.ndim else r.view(SArr)
    if isinstance(r, tuple):
        return tuple(rewrap(y) for y in r)
    if isinstance(r, list):
        return [rewrap(y) for y in r]
    return r


def normal_list(x):
    """Nested lists with symbols -> object arrays, so that numpy is exact."""
    if isinstance(x, (list, tuple)) and contains_sym(x):
        try:
            return obj(x)
        except (ValueError, Unsupported):
            return type(x)(normal_list(y) for y in x)
    return strip(x)


SEQFIRST = set('''concatenate hstack vstack stack dstack column_stack block
row_stack broadcast_arrays meshgrid'''.split())


def generic(func, args, kwargs):
    name = func.__name__
    f = getattr(func, '_sx_orig', func)
    f0 = O.get(name, f)
    if name in SEQFIRST and args and isinstance(args[0], (list, tuple)):
        seq = args[0]
        a0 = [obj(y) if contains_sym(y) else strip(y) for y in seq] \
            if name != 'block' else [normal_list(y) for y in seq]
        if name != 'block':
            a0 = [obj(y) for y in a0] if builtins.any(
                isinstance(y, ND) and y.dtype == object for y in a0) else a0
        args = (tuple(a0) if name != 'block' else a0,) + tuple(strip(y) for y in args[1:])
    else:
        args = tuple(normal_list(a) for a in args)
    kwargs = {k: strip(v) for k, v in kwargs.items()}
    return rewrap(f0(*args, **kwargs))


def kw_dtype(args, kw, pos):
    dt = kw.get('dtype', None)
    if dt is None and len(args) > pos:
        dt = args[pos]
    return dt


@model('asarray', 'array', 'asanyarray', 'ascontiguousarray', 'asfarray',
       'asarray_chkfinite', 'asfortranarray')
def np_asarray(x, dtype=None, copy=None, order=None, ndmin=0, subok=False, like=None, **k):
    r = to_sarr(x)
    if isinstance(x, SArr) and dtype is None and not copy:
        r = x
    if dtype is not None and dkind(dtype) not in ('O', None):
        kd = dkind(dtype)
        if kd in ('f', 'i'):
            for e in obj(r).ravel():
                if is_cplx(e) and not (isinstance(e, SComplex) and isrealpy(e.im) and e.im == 0):
                    if not isinstance(x, ND):
                        raise TypeError("float() argument must be a string or a "
                                        "real number, not 'complex'")
        same = isinstance(x, SArr) and x.kind == kd and not copy
        if not same:
            kind = kd
            r0 = to_sarr(emap1(lambda e: (SComplex.of(e).re if kind == 'f' and is_cplx(e)
                                          else store_cast(kind, e)), r))
            r0.kind = kind
            r = r0.reshape(r.shape)
            r.kind = kind
    elif r is not x and isinstance(x, SArr):
        r.kind = x.kind
    fl = ND.view(r, ND).flags
    if copy or (order == 'C' and not fl.c_contiguous) or (order == 'F' and not fl.f_contiguous):
        k, t = r.kind, r.dt
        r = ND.copy(r, 'K' if order is None else order)
        r.kind, r.dt = k, t
    if dtype is not None and dkind(dtype) in ('f', 'i', 'c', 'b'):
        if r is x and r.dt != np.dtype(dtype).str[1:]:
            r = r.view(SArr)
        r.dt = np.dtype(dtype).str[1:]
    while r.ndim < ndmin:
        r = r[None]
    return r


def np_array(x, dtype=None, *, copy=True, order=None, subok=False, ndmin=0, like=None):
    return np_asarray(x, dtype=dtype, copy=copy, ndmin=ndmin, order=order)


F['ascontiguousarray'] = lambda a, dtype=None, **k: np_asarray(a, dtype, order='C')
F['asfortranarray'] = lambda a, dtype=None, **k: np_asarray(a, dtype, order='F')


F['array'] = np_array


@model('copy')
def np_copy(a, *k, **kk):
    return ND.copy(to_sarr(a))


@model('isscalar')
def np_isscalar(x):
    return isinstance(x, SymBase)


@model('real')
def np_real(x):
    return to_sarr(x).real if isinstance(x, (ND, list, tuple)) else x.real


@model('imag')
def np_imag(x):
    return to_sarr(x).imag if isinstance(x, (ND, list, tuple)) else imag_of(x)


@model('iscomplexobj')
def np_iscomplexobj(x):
    if isinstance(x, SArr) and x.kind == 'c':
        return True
    return builtins.any(is_cplx(e) for e in obj(x).ravel())


@model('isrealobj')
def np_isrealobj(x):
    return not np_iscomplexobj(x)


@model('iscomplex')
def np_iscomplex(x):
    return emap1(lambda e: (imag_of(e) != 0), to_sarr(x))


@model('isreal')
def np_isreal(x):
    return emap1(lambda e: (imag_of(e) == 0), to_sarr(x))


@model('real_if_close')
def np_real_if_close(a, tol=100):
    b = to_sarr(a)
    if not np_iscomplexobj(b):
        return b
    eps = np.finfo(float).eps
    t = tol * eps if tol > 1 else tol
    ok = And(*[sabs(imag_of(e)) < t for e in obj(b).ravel()])
    if bool(ok):
        return b.real
    return b


@model('angle')
def np_angle(z, deg=False):
    r = emap1(lambda e: atan2(imag_of(e), e.real), to_sarr(z))
    return r * (180 / math.pi) if deg else r


@model('where')
def np_where(c, *xy):
    if not xy:
        return np_nonzero(c)
    return emapn(lambda m, a, b: ite(SBool_of(m) if is_sym(m) else bool(m), a, b),
                 c, xy[0], xy[1])


@model('nonzero', 'flatnonzero')
def np_nonzero(c):
    b = obj(c)
    m = O['empty'](b.shape, dtype=bool)
    for i in np.ndindex(*b.shape):
        m[i] = bool(b[i])
    return O['nonzero'](m)


def _flatnonzero(c):
    return np_nonzero(to_sarr(c).ravel())[0]


F['flatnonzero'] = _flatnonzero


@model('argwhere')
def np_argwhere(c):
    return O['transpose'](np_nonzero(c))


@model('count_nonzero')
def np_count_nonzero(c, axis=None, **k):
    return reduce_(operator.add, emap1(lambda e: ite(SBool_of(e), 1, 0) if is_sym(e)
                                       else int(bool(e)), to_sarr(c)), axis, 0)


@model('sum', 'nansum')
def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if not isinstance(a, (ND, SymBase, list, tuple)):
        a = list(a)
    init = k.get('initial')
    return reduce_(arith_add, a, axis, 0, keepdims is True, init if init is not np._NoValue else None)


def arith_add(a, b):
    if isinstance(a, (SBool, bool)):
        a = ite(a, 1, 0) if isinstance(a, SBool) else int(a)
    if isinstance(b, (SBool, bool)):
        b = ite(b, 1, 0) if isinstance(b, SBool) else int(b)
    return a + b


@model('prod', 'product', 'nanprod')
def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_(operator.mul, a, axis, 1, keepdims is True)


@model('cumsum')
def np_cumsum(a, axis=None, *r, **k):
    return accumulate_(operator.add, a, axis)


@model('cumprod')
def np_cumprod(a, axis=None, *r, **k):
    return accumulate_(operator.mul, a, axis)


@model('mean', 'nanmean')
def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    b = obj(a)
    axes = norm_axes(axis, b.ndim) if b.ndim else ()
    n = 1
    for i in axes:
        n *= b.shape[i]
    return reduce_(operator.add, b, axis, 0, keepdims is True) / n


@model('average')
def np_average(a, axis=None, weights=None, **k):
    if weights is None:
        return np_mean(a, axis)
    w = to_sarr(weights)
    return np_sum(to_sarr(a) * w, axis) / np_sum(w, axis)


@model('var')
def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    b = to_sarr(a)
    m = np_mean(b, axis, keepdims=True)
    d = b - m
    sq = emap1(lambda e: e * conj1(e) if is_cplx(e) else e * e, d)
    sq = sq.real if np_iscomplexobj(sq) else sq
    s = reduce_(operator.add, sq, axis, 0, keepdims is True)
    n = b.size if axis is None else b.shape[axis]
    return s / (n - ddof)


@model('std')
def np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return emap1(ssqrt, np_var(a, axis, ddof=ddof, keepdims=keepdims))


@model('max', 'amax', 'nanmax')
def np_max(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(smax, a, axis, None, keepdims is True)


@model('min', 'amin', 'nanmin')
def np_min(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(smin, a, axis, None, keepdims is True)


@model('ptp')
def np_ptp(a, axis=None, *r, **k):
    return np_max(a, axis) - np_min(a, axis)


@model('any')
def np_any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(Or2, a, axis, False, keepdims is True)


@model('all')
def np_all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(And2, a, axis, True, keepdims is True)


F['alltrue'] = np_all
F['sometrue'] = np_any


@model('clip')
def np_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = a if isinstance(a, (ND, SymBase)) else to_sarr(a)
    if a_min is not None:
        r = emap2(smax, r, a_min)
    if a_max is not None:
        r = emap2(smin, r, a_max)
    if out is not None:
        return store_out(out, r)
    return r


@model('around', 'round', 'round_')
def np_around(a, decimals=0, out=None):
    k = 10 ** decimals
    return emap1(lambda e: srint(e * k) / k if decimals else srint(e), to_sarr(a))


@model('fix')
def np_fix(a, out=None):
    return emap1(U1['trunc'], to_sarr(a))


@model('sinc')
def np_sinc(a):
    return emap1(sinc, a if isinstance(a, (ND, SymBase)) else to_sarr(a))


@model('abs', 'absolute')
def np_abs(a, *r, **k):
    return emap1(sabs, a if isinstance(a, (ND, SymBase)) else to_sarr(a))


@model('isclose')
def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if isnan1(x) or isnan1(y):
            return equal_nan and isnan1(x) and isnan1(y)
        if isinf1(x) or isinf1(y):
            return x == y if not is_sym(x) and not is_sym(y) else False
        return sabs(x - y) <= atol + rtol * sabs(y)
    return emap2(f, a, b)


@model('allclose')
def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np_isclose(a, b, rtol, atol, equal_nan)
    return bool(np_all(r))


@model('array_equal')
def np_array_equal(a, b, equal_nan=False):
    a, b = to_sarr(a), to_sarr(b)
    if a.shape != b.shape:
        return False
    return bool(np_all(emap2(U2['equal'], a, b)))


@model('dot')
def np_dot(a, b, out=None):
    A, B = obj(a), obj(b)
    if A.ndim == 0 or B.ndim == 0:
        r = emap2(U2['multiply'], A, B)
    else:
        ka, kb = A.shape[-1], B.shape[0 if B.ndim == 1 else -2]
        if ka != kb:
            raise ValueError('shapes %s and %s not aligned' % (A.shape, B.shape))
        B2 = B.reshape(-1, 1) if B.ndim == 1 else B
        if B2.ndim > 2:
            raise Unsupported('dot with ndim > 2')
        A2 = A.reshape(int(np.prod(A.shape[:-1], dtype=int)), ka)
        r = O['empty']((A2.shape[0], B2.shape[1]), dtype=object)
        for i in range(r.shape[0]):
            for j in range(r.shape[1]):
                r[i, j] = dotsum(A2[i], B2[:, j])
        sh = A.shape[:-1] + ((B.shape[1],) if B.ndim == 2 else ())
        r = wrap(r.reshape(sh))
    if out is not None:
        return store_out(out, r)
    return r


def dotsum(u, v):
    acc = 0.0
    for x, y in zip(u, v):
        if (not is_sym(x) and x == 0) or (not is_sym(y) and y == 0):
            if nonfinite(x) or nonfinite(y):
                return float('nan')
            continue
        t = x * y
        acc = t if (not is_sym(acc) and acc == 0) else acc + t
    return acc


@model('matmul')
def np_matmul(a, b, out=None, **k):
    A, B = obj(a), obj(b)
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if A.ndim <= 2 and B.ndim <= 2:
        return np_dot(A, B, out)
    sh = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = O['broadcast_to'](A, sh + A.shape[-2:])
    B = O['broadcast_to'](B, sh + B.shape[-2:])
    r = O['empty'](sh + (A.shape[-2], B.shape[-1]), dtype=object)
    for i in np.ndindex(*sh):
        r[i] = obj(np_dot(A[i], B[i]))
    return wrap(r)


@model('vdot')
def np_vdot(a, b):
    return np_dot(conj_(to_sarr(a).ravel()), to_sarr(b).ravel())


@model('inner')
def np_inner(a, b):
    A, B = obj(a), obj(b)
    if A.ndim == 0 or B.ndim == 0:
        return emap2(U2['multiply'], A, B)
    return np_dot(A, B.T if B.ndim > 1 else B)


@model('outer')
def np_outer(a, b, out=None):
    return emap2(U2['multiply'], obj(a).reshape(-1, 1), obj(b).reshape(1, -1))


@model('kron')
def np_kron(a, b):
    A, B = np.atleast_2d(obj(a)), np.atleast_2d(obj(b))
    r = emap2(U2['multiply'], A[:, None, :, None], B[None, :, None, :])
    return r.reshape(A.shape[0] * B.shape[0], A.shape[1] * B.shape[1])


@model('tensordot')
def np_tensordot(a, b, axes=2):
    if axes == 1:
        return np_dot(a, b)
    raise Unsupported('tensordot')


@model('einsum')
def np_einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise Unsupported('einsum')
    spec = spec.replace(' ', '')
    lhs, _, rhs = spec.partition('->')
    ins = lhs.split(',')
    if '...' in spec:
        raise Unsupported('einsum ellipsis')
    if '->' not in spec:
        cnt = ''.join(ins)
        rhs = ''.join(sorted(c for c in set(cnt) if cnt.count(c) == 1))
    os = [obj(o) for o in ops]
    dims = {}
    for s, o in zip(ins, os):
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError('einsum dims')
    summed = [c for c in dims if c not in rhs]
    r = O['empty'](tuple(dims[c] for c in rhs), dtype=object)
    for ro in np.ndindex(*r.shape):
        env = dict(zip(rhs, ro))
        acc = 0.0
        for si in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, si))
            t = 1
            for s, o in zip(ins, os):
                t = t * o[tuple(env[c] for c in s)]
            acc = acc + t
        r[ro] = acc
    return wrap(r)


@model('trace')
def np_trace(a, offset=0, *r, **k):
    return np_sum(np_diag(a, offset))


@model('diag')
def np_diag(v, k=0):
    b = obj(v)
    if b.ndim == 1:
        n = len(b) + abs(k)
        r = O['empty']((n, n), dtype=object)
        r[...] = 0.0
        for i in range(len(b)):
            r[i + max(-k, 0), i + max(k, 0)] = b[i]
        return wrap(r)
    return rewrap(O['diagonal'](b, k).copy())


@model('diff')
def np_diff(a, n=1, axis=-1, **k):
    b = to_sarr(a)
    for _ in range(n):
        sl1 = [slice(None)] * b.ndim
        sl2 = [slice(None)] * b.ndim
        sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
        b = b[tuple(sl1)] - b[tuple(sl2)]
    return b


@model('convolve')
def np_convolve(a, v, mode='full'):
    A, V = list(obj(a).ravel()), list(obj(v).ravel())
    if not A or not V:
        raise ValueError('a cannot be empty')
    if len(V) > len(A):
        A, V = V, A
    n = len(A) + len(V) - 1
    r = O['empty'](n, dtype=object)
    for k in range(n):
        lo = max(0, k - len(V) + 1)
        hi = min(k, len(A) - 1)
        r[k] = dotsum([A[i] for i in range(lo, hi + 1)],
                      [V[k - i] for i in range(lo, hi + 1)])
    if mode in ('full', 2):
        return wrap(r)
    if mode in ('same', 1):
        s = (len(V) - 1) // 2
        return wrap(r[s:s + len(A)])
    return wrap(r[len(V) - 1:len(A)])


@model('correlate')
def np_correlate(a, v, mode='valid'):
    return np_convolve_corr(a, v, mode)


def np_convolve_corr(a, v, mode):
    A, V = obj(a).ravel(), obj(conj_(to_sarr(v))).ravel()
    full = []
    for k in range(-(len(V) - 1), len(A)):
        acc = 0.0
        for n in range(len(V)):
            if 0 <= n + k < len(A):
                acc = acc + A[n + k] * V[n]
        full.append(acc)
    if mode == 'full':
        return to_sarr(full)
    swap = len(V) > len(A)
    if mode == 'same':
        L, s = max(len(A), len(V)), (min(len(A), len(V)) - 1) // 2
        if swap:
            s = (len(A)) // 2
        return to_sarr(full[s:s + L])
    m = min(len(A), len(V))
    return to_sarr(full[m - 1:len(full) - m + 1])


@model('poly')
def np_poly(z):
    z = obj(z)
    if z.ndim == 2 and z.shape[0] == z.shape[1] and z.shape[0] != 0:
        raise Unsupported('poly of a matrix')
    a = to_sarr([1.0])
    zs = list(z.reshape(-1))
    for r in zs:
        a = np_convolve(a, to_sarr([1.0, -r]))
    if builtins.any(is_cplx(x) for x in zs):
        # numpy drops the imaginary part when the roots are conjugate-paired
        if conj_closed(zs):
            a = to_sarr([e.real for e in obj(a)])
    return a


def conj_closed(zs):
    """Roots come (exactly) in conjugate pairs?  Decided by the solver."""
    left = list(zs)
    while left:
        x = left.pop(0)
        if not is_cplx(x):
            continue
        im0 = imag_of(x) == 0
        if im0 is True:
            continue
        for i, y in enumerate(left):
            d = SComplex.of(y) == SComplex.of(conj1(x))
            if d is True or (isinstance(d, SBool) and bool_entailed(d)):
                left.pop(i)
                break
        else:
            if isinstance(im0, SBool) and bool(im0):
                continue
            # maybe equal on this path only
            hit = None
            for i, y in enumerate(left):
                d = SComplex.of(y) == SComplex.of(conj1(x))
                if bool(d):
                    hit = i
                    break
            if hit is None:
                return False
            left.pop(hit)
    return True


def bool_entailed(b):
    from .core import ctx
    return ctx().entails(b.e)


@model('polyval')
def np_polyval(p, x):
    p = to_sarr(p)
    x = x if isinstance(x, (ND, SymBase)) or is_pynum(x) else to_sarr(x)
    y = to_sarr(O['zeros'](O['shape'](x))) if isinstance(x, ND) else 0.0
    for c in p.ravel():
        y = y * x + c
    return y


@model('polymul')
def np_polymul(a, b):
    return np_convolve(a, b)


@model('polyadd')
def np_polyadd(a, b):
    a, b = to_sarr(a).ravel(), to_sarr(b).ravel()
    n = max(len(a), len(b))
    z = lambda k: to_sarr([0.0] * k)
    g = lambda u: generic(np.concatenate, ((z(n - len(u)), u),), {}) if len(u) < n else u
    return g(a) + g(b)


@model('polysub')
def np_polysub(a, b):
    return np_polyadd(a, -to_sarr(b))


@model('polyder')
def np_polyder(p, m=1):
    p = to_sarr(p)
    for _ in range(m):
        n = len(p) - 1
        p = p[:-1] * O['arange'](n, 0, -1)
    return p


@model('trim_zeros')
def np_trim_zeros(f, trim='fb', **k):
    v = list(obj(f))
    if 'f' in trim.lower():
        while v and bool(v[0] == 0):
            v.pop(0)
    if 'b' in trim.lower():
        while v and bool(v[-1] == 0):
            v.pop()
    return to_sarr(v) if v else to_sarr([])


@model('roots')
def np_roots(p):
    p = list(obj(p).ravel())
    while p and bool(p[0] == 0):
        p.pop(0)
    tail = 0
    while p and bool(p[-1] == 0):
        p.pop()
        tail += 1
    if len(p) == 0:
        return to_sarr([])
    if not contains_sym(p):
        r = O['roots'](O['array'](p))
        return to_sarr(list(r) + [0.0] * tail)
    if len(p) == 1:
        return to_sarr([0.0] * tail)
    if len(p) == 2:
        return to_sarr([-p[1] / p[0]] + [0.0] * tail)
    if len(p) == 3:
        a, b, c = p
        if builtins.any(is_cplx(x) for x in p):
            raise Unsupported('complex quadratic')
        d = b * b - 4 * a * c
        if bool(d >= 0):
            s = ssqrt(d)
            r = [(-b + s) / (2 * a), (-b - s) / (2 * a)]
        else:
            s = ssqrt(-d)
            r = [SComplex(-b / (2 * a), s / (2 * a)), SComplex(-b / (2 * a), -(s / (2 * a)))]
        return to_sarr(r + [0.0] * tail)
    raise Unsupported('roots of a symbolic polynomial of degree %d' % (len(p) - 1))


def sort_list(els, key=None):
    """Insertion sort that forks on symbolic comparisons; returns indices."""
    idx = []
    lt = U2['less']
    for i, e in enumerate(els):
        j = len(idx)
        while j > 0 and bool(lt(e, els[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return idx


@model('sort')
def np_sort(a, axis=-1, *r, **k):
    b = obj(a)
    if axis is None:
        b, axis = b.ravel(), 0
    t = O['moveaxis'](b, axis, -1)
    o = O['empty'](t.shape, dtype=object)
    for i in np.ndindex(*t.shape[:-1]):
        els = list(t[i])
        o[i] = [els[j] for j in sort_list(els)]
    return wrap(O['moveaxis'](o, -1, axis))


@model('sort_complex')
def np_sort_complex(a):
    return np_sort(a)


@model('argsort')
def np_argsort(a, axis=-1, *r, **k):
    b = obj(a)
    if axis is None:
        b, axis = b.ravel(), 0
    t = O['moveaxis'](b, axis, -1)
    o = O['empty'](t.shape, dtype=int)
    for i in np.ndindex(*t.shape[:-1]):
        o[i] = sort_list(list(t[i]))
    return O['moveaxis'](o, -1, axis)


@model('lexsort')
def np_lexsort(keys, axis=-1):
    ks = [list(obj(k)) for k in keys]
    n = len(ks[0])
    idx = list(range(n))
    for k in ks:
        order = sort_list([k[i] for i in idx])
        idx = [idx[i] for i in order]
    return O['array'](idx)


@model('argmax')
def np_argmax(a, axis=None, *r, **k):
    b = obj(a)
    if axis is None:
        b, axis = b.ravel(), 0
    t = O['moveaxis'](b, axis, -1)
    o = O['empty'](t.shape[:-1], dtype=int)
    for i in np.ndindex(*t.shape[:-1]):
        best = 0
        for j in range(1, t.shape[-1]):
            if bool(U2['greater'](t[i][j], t[i][best])):
                best = j
        o[i] = best
    return o if o.ndim else int(o)


@model('argmin')
def np_argmin(a, axis=None, *r, **k):
    return np_argmax(-to_sarr(a), axis)


@model('unique')
def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    els = list(obj(a).ravel())
    idx = sort_list(els)
    out, first, counts, inv = [], [], [], [0] * len(els)
    for i in idx:
        if out and bool(els[i] == out[-1]):
            counts[-1] += 1
            first[-1] = min(first[-1], i)
        else:
            out.append(els[i])
            first.append(i)
            counts.append(1)
        inv[i] = len(out) - 1
    r = [to_sarr(out)]
    if return_index:
        r.append(O['array'](first, dtype=int))
    if return_inverse:
        r.append(O['array'](inv, dtype=int))
    if return_counts:
        r.append(O['array'](counts, dtype=int))
    return r[0] if len(r) == 1 else tuple(r)


@model('setdiff1d')
def np_setdiff1d(a, b, assume_unique=False):
    bs = list(obj(b).ravel())
    u = list(obj(a).ravel()) if assume_unique else list(obj(np_unique(a)))
    return to_sarr([x for x in u if not builtins.any(bool(x == y) for y in bs)])


@model('isin', 'in1d')
def np_isin(a, b, *r, **k):
    bs = list(obj(b).ravel())
    return emap1(lambda x: Or(*[x == y for y in bs]) if bs else False, to_sarr(a))


@model('searchsorted')
def np_searchsorted(a, v, side='left', sorter=None):
    els = list(obj(a).ravel())

    def f(x):
        n = 0
        for e in els:
            c = (e < x) if side == 'left' else (e <= x)
            if bool(c):
                n += 1
            else:
                break
        return n
    return emap1(f, v) if isinstance(v, ND) else (
        f(v) if is_sym(v) or is_pynum(v) else emap1(f, to_sarr(v)))


@model('interp')
def np_interp(x, xp, fp, left=None, right=None, period=None):
    xs, fs = list(obj(xp)), list(obj(fp))
    if period is not None:
        raise Unsupported('interp period')

    def f(v):
        if bool(v < xs[0]):
            return fs[0] if left is None else left
        if bool(v > xs[-1]):
            return fs[-1] if right is None else right
        for i in range(len(xs) - 1):
            if bool(v <= xs[i + 1]):
                return fs[i] + (fs[i + 1] - fs[i]) * (v - xs[i]) / (xs[i + 1] - xs[i])
        return fs[-1]
    return emap1(f, x) if isinstance(x, ND) else (
        f(x) if is_sym(x) or is_pynum(x) else emap1(f, to_sarr(x)))


@model('linspace')
def np_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
    num = operator.index(num)
    div = (num - 1) if endpoint else num
    st = (b - a) / div if div > 0 else float('nan')
    r = to_sarr([a + st * i if i else a + 0.0 for i in range(num)]) if num else to_sarr([])
    if endpoint and num > 1:
        r[num - 1] = b
    return (r, st) if retstep else r


@model('arange')
def np_arange(*a, **k):
    a = list(a)
    k.pop('dtype', None)
    if len(a) == 1:
        a = [0, a[0], 1]
    if len(a) == 2:
        a.append(1)
    start, stop, step = a
    n = sceil((stop - start) / step)
    n = int(n)
    return to_sarr([start + step * i for i in range(n)])


@model('logspace')
def np_logspace(a, b, num=50, endpoint=True, base=10.0, **k):
    return emap1(lambda e: spow(base, e), np_linspace(a, b, num, endpoint))


def mkalloc(fill):
    def f(shape, dtype=None, order='C', *r, **k):
        kd = dkind(dtype) if dtype is not None else 'f'
        if isinstance(shape, SymBase):
            shape = operator.index(shape)
        elif isinstance(shape, (list, tuple)):
            shape = tuple(operator.index(s) for s in shape)
        a = O['empty'](shape, dtype=object)
        if order in ('F',):
            a = O['asfortranarray'](a)
        if fill is None and kd != 'O':
            # uninitialised memory: any value
            for i in np.ndindex(*a.shape):
                a[i] = uninit(kd)
        else:
            fl = fill or 0
            v = {'f': float(fl), 'c': complex(fl), 'i': int(fl), 'b': bool(fl)}.get(kd, fill)
            a[...] = v
        r_ = a.view(SArr)
        r_.kind = kd if kd != 'O' else None
        r_.dt = np.dtype(dtype).str[1:] if dtype is not None and kd in ('f', 'i', 'c', 'b') else None
        return r_
    return f


def uninit(kd):
    from . import core
    cx = core.ctx()
    if kd == 'c':
        return SComplex(SNum(cx.fresh('uninit')), SNum(cx.fresh('uninit')))
    if kd == 'i':
        return SNum(cx.fresh('uninit', 'int'))
    if kd == 'b':
        return SNum(cx.fresh('uninit', 'int')) > 0
    return SNum(cx.fresh('uninit'))


ALLOC = {'zeros': mkalloc(0), 'ones': mkalloc(1), 'empty': mkalloc(None)}


def kind_of(a):
    if isinstance(a, SArr):
        if a.kind:
            return a.kind
        els = obj(a).ravel()
        if builtins.any(is_cplx(x) for x in els):
            return 'c'
        if len(els) and builtins.all(isinstance(x, (bool, SBool)) for x in els):
            return 'b'
        if len(els) and builtins.all(isinstance(x, (int, np.integer)) or
                                     (isinstance(x, SNum) and __import__('z3').is_int(x.e))
                                     for x in els):
            return 'i'
        return 'f'
    if isinstance(a, ND):
        return dkind(a.dtype)
    if isinstance(a, SymBase):
        return kind_of(to_sarr(a))
    return kind_of(np_asarray(a)) if contains_sym(a) else dkind(O['asarray'](a).dtype)


def alloc_like(fill):
    def f(a, dtype=None, order='K', subok=True, shape=None, **k):
        kd = dkind(dtype) if dtype is not None else kind_of(a)
        sh = O['shape'](strip(a)) if shape is None else shape
        dt = {'f': float, 'c': complex, 'i': int, 'b': bool}.get(kd, object)
        return mkalloc(fill)(sh, dtype=dt)
    return f


F['zeros_like'] = alloc_like(0)
F['ones_like'] = alloc_like(1)
F['empty_like'] = alloc_like(None)


@model('full')
def np_full(shape, v, dtype=None, *r, **k):
    a = O['empty'](shape, dtype=object)
    a[...] = unwrap0(v) if isinstance(v, ND) and v.ndim == 0 else (obj(v) if isinstance(v, ND) else v)
    r_ = a.view(SArr)
    r_.kind = dkind(dtype) if dtype is not None else None
    return r_


@model('full_like')
def np_full_like(a, v, dtype=None, **k):
    kd = dkind(dtype) if dtype is not None else kind_of(a)
    r = np_full(O['shape'](strip(a)), store_cast(kd, v))
    r.kind = kd
    return r


def np_eye(N, M=None, k=0, dtype=float, **kk):
    r = to_sarr(O['eye'](operator.index(N), None if M is None else operator.index(M), k))
    r.kind = dkind(dtype)
    return r


def np_identity(n, dtype=None, **k):
    return np_eye(n, dtype=dtype or float)


ALLOC['eye'] = np_eye
ALLOC['identity'] = np_identity


@model('nan_to_num')
def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = np.finfo(float).max

    def f(e):
        if isnan1(e):
            return nan
        if isinf1(e):
            return (big if posinf is None else posinf) if e > 0 else (-big if neginf is None else neginf)
        return e
    return emap1(f, x if isinstance(x, (ND, SymBase)) else to_sarr(x))


@model('vectorize_')
def _v(*a):
    raise Unsupported('vectorize')


@model('cross')
def np_cross(a, b, **k):
    raise Unsupported('cross')


@model('trapz', 'trapezoid')
def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = to_sarr(y)
    d = np_diff(x) if x is not None else dx
    return np_sum((y[1:] + y[:-1]) / 2.0 * d)


@model('may_share_memory', 'shares_memory')
def np_share(a, b, *r):
    return O['may_share_memory'](strip(a), strip(b))


@model('apply_along_axis')
def np_apply(f, axis, a, *args, **kw):
    b = O['moveaxis'](obj(a), axis, -1)
    outs = O['empty'](b.shape[:-1], dtype=object)
    res = None
    for i in np.ndindex(*b.shape[:-1]):
        v = f(b[i].view(SArr), *args, **kw)
        v = obj(v)
        if res is None:
            res = O['empty'](b.shape[:-1] + v.shape, dtype=object)
        res[i] = v if v.ndim else v[()]
    return wrap(O['moveaxis'](res, -1, axis) if res.ndim == b.ndim else res)


# ---------------------------------------------------------------- linalg
FL = {}


def lmodel(*names):
    def d(f):
        for n in names:
            FL[n] = f
        return f
    return d


def det_(A):
    n = A.shape[0]
    if n == 0:
        return 1.0
    if n == 1:
        return A[0, 0]
    acc = 0.0
    for j in range(n):
        if not is_sym(A[0, j]) and A[0, j] == 0:
            continue
        minor = O['delete'](A[1:], j, axis=1)
        t = A[0, j] * det_(minor)
        acc = acc + t if j % 2 == 0 else acc - t
    return acc


@lmodel('det')
def l_det(a):
    return det_(obj(a))


@lmodel('inv')
def l_inv(a, *r, **k):
    A = obj(a)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    n = A.shape[0]
    d = det_(A)
    if bool(d == 0):
        raise np.linalg.LinAlgError('Singular matrix')
    r_ = O['empty']((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = det_(O['delete'](O['delete'](A, j, axis=0), i, axis=1))
            r_[i, j] = (m if (i + j) % 2 == 0 else -m) / d
    return wrap(r_)


@lmodel('solve')
def l_solve(a, b, *r, **k):
    return np_dot(l_inv(a), b)


@lmodel('matrix_power')
def l_matrix_power(a, n):
    A = to_sarr(a)
    if n < 0:
        return l_matrix_power(l_inv(A), -n)
    r = to_sarr(O['eye'](A.shape[0]))
    for _ in range(n):
        r = np_dot(r, A)
    return r


@lmodel('norm')
def l_norm(x, ord=None, axis=None, keepdims=False):
    X = to_sarr(x)
    if ord is None and axis is None and X.ndim not in (1, 2):
        X = to_sarr(obj(X).ravel())
    if ord in (None, 2, 'fro') and (X.ndim == 1 or (X.ndim == 2 and ord != 2)):
        sq = [imag_of(e) * imag_of(e) + e.real * e.real if is_cplx(e) else e * e
              for e in obj(X).ravel()]
        if axis is not None:
            return emap1(lambda v: ssqrt(v, nonneg=True), np_sum(emap1(lambda e: sabs(e) * sabs(e) if is_cplx(e) else e * e, X), axis))
        acc = 0.0
        for s in sq:
            acc = acc + s
        return ssqrt(acc, nonneg=True)
    if X.ndim == 1 and ord == 1:
        return np_sum(emap1(sabs, X))
    if X.ndim == 1 and ord in (np.inf,):
        return np_max(emap1(sabs, X))
    raise Unsupported('norm ord=%r ndim=%d' % (ord, X.ndim))


@lmodel('multi_dot')
def l_multi_dot(arrays, **k):
    r = arrays[0]
    for a in arrays[1:]:
        r = np_dot(r, a)
    return r
