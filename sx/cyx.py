# -*- coding: utf-8 -*-
"""Translate the repository's current Cython sources, through Cython's own
parser, to Python that runs on symbolic values with an explicit model of
C pointers and of the BLAS routines used."""
import os
import re
import types
import numpy as np
from . import arr, shim
from .arr import SArr, ND, to_sarr, obj, ite
from .core import SNum, SBool, SComplex, Unsupported, is_sym, sfloor, sceil, sabs, strunc, ssqrt


class MemoryViolation(Exception):
    """Access outside the memory of an array (or through a wrong type)."""


# ---------------------------------------------------------------- memory
class Buf(object):
    """Flat storage."""

    def __init__(self, flat, ctype, name=''):
        self.flat = flat
        self.ctype = ctype
        self.name = name

    def __len__(self):
        return len(self.flat)


class ListBuf(Buf):
    def __init__(self, n, ctype):
        from .core import ctx
        Buf.__init__(self, [SNum(ctx().fresh('uninit')) for _ in range(n)], ctype)


class RootBuf(Buf):
    """Storage of the array that owns the memory of `a`."""

    def __init__(self, root, ctype):
        self.root = root
        self.ctype = ctype
        self.f = root.flags.f_contiguous and not root.flags.c_contiguous
        if not (root.flags.c_contiguous or root.flags.f_contiguous):
            raise Unsupported('non contiguous owner')
        v = ND.view(root, ND)
        self.v = (v.T if self.f else v).reshape(-1) if root.size else v.reshape(-1)
        if root.size and not np.shares_memory(self.v, v):
            raise Unsupported('cannot view the memory of an array')
        self.kind = getattr(root, 'kind', None)

    def __len__(self):
        return len(self.v)

    def get(self, i):
        x = self.v[i]
        return x.item() if isinstance(x, np.generic) else x

    def set(self, i, x):
        if self.v.dtype != object and is_sym(x):
            raise Unsupported('symbolic store in a concrete array')
        self.v[i] = x


CT = {'double': 'f8', 'float': 'f4', 'int': 'i4', 'long': 'i8', 'void': None, 'char': None}


def dtype_of(a):
    """What the real array would hold."""
    if isinstance(a, SArr):
        d = getattr(a, 'dt', None)
        if d is not None:
            return d
        k = arr.kind_of(a)
        return {'f': 'f8', 'i': 'i8', 'c': 'c16', 'b': 'b1'}.get(k)
    return np.dtype(a.dtype).str[1:]


def root_of(a):
    r = a
    while isinstance(r.base, ND):
        r = r.base
    return r


def data_ptr(a):
    if not isinstance(a, ND):
        raise TypeError('Expected numpy.ndarray')
    r = root_of(a)
    off = (ND.view(a, ND).__array_interface__['data'][0] -
           ND.view(r, ND).__array_interface__['data'][0]) // 8 if a.size and r.size else 0
    if ND.view(r, ND).dtype.itemsize != 8 and a.size:
        off = (ND.view(a, ND).__array_interface__['data'][0] -
               ND.view(r, ND).__array_interface__['data'][0]) // r.dtype.itemsize
    return Ptr(RootBuf(r, dtype_of(a)), off)


class Ptr(object):
    _sx_defer = True

    def __init__(self, buf, off=0):
        self.buf, self.off = buf, off

    def __add__(self, i):
        return Ptr(self.buf, self.off + int(i))
    __radd__ = __add__

    def __sub__(self, i):
        if isinstance(i, Ptr):
            return self.off - i.off
        return Ptr(self.buf, self.off - int(i))

    def _ix(self, i):
        k = self.off + int(i)
        if not 0 <= k < len(self.buf):
            raise MemoryViolation('access to element %d of a block of %d' % (k, len(self.buf)))
        return k

    def __getitem__(self, i):
        k = self._ix(i)
        if isinstance(self.buf, RootBuf):
            return self.buf.get(k)
        return self.buf.flat[k]

    def __setitem__(self, i, v):
        k = self._ix(i)
        if isinstance(self.buf, RootBuf):
            self.buf.set(k, v)
        else:
            self.buf.flat[k] = v

    def __bool__(self):
        return True


class Ref(object):
    """&variable: read-only view of a local scalar."""

    def __init__(self, v):
        self.v = v

    def __getitem__(self, i):
        if i != 0:
            raise MemoryViolation('access beyond a scalar')
        return self.v


def cast_ptr(ctype, x):
    if isinstance(x, ND):
        x = data_ptr(x)
    if isinstance(x, Ptr):
        want = CT.get(ctype)
        have = x.buf.ctype
        if want is not None and have is not None and want != have and len(x.buf):
            raise MemoryViolation('%s data read as %s' % (have, ctype))
        return x
    return x


def deref(x):
    return x[0] if isinstance(x, (Ref, Ptr)) else x


def cint(x):
    if isinstance(x, ND) and x.size == 1:
        x = x.item()
    if isinstance(x, SNum):
        return x if x.const() is None else int(x.const())
    if isinstance(x, SBool):
        return ite(x, 1, 0)
    if isinstance(x, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return int(x)


def c_to_int(x):
    """(int) cast of a double."""
    return strunc(x) if is_sym(x) else int(x)


def cdbl(x):
    if isinstance(x, ND) and x.size == 1:
        x = x.item()
    if isinstance(x, SNum):
        return x.asreal()
    if isinstance(x, SBool):
        return ite(x, 1.0, 0.0)
    return float(x)


def cnd(x):
    if x is not None and not isinstance(x, ND):
        raise TypeError('Cannot convert %s to numpy.ndarray' % type(x).__name__)
    return x


def mulz(a, b):
    if (not is_sym(a) and a == 0) or (not is_sym(b) and b == 0):
        return 0.0
    return a * b


# ---------------------------------------------------------------- BLAS
def b_dgemv(trans, m, n, alpha, a, lda, x, incx, beta, y, incy):
    """Reference semantics, column-major."""
    t = trans.decode() if isinstance(trans, bytes) else (
        trans if isinstance(trans, str) else chr(trans))
    m, n, lda, incx, incy = [int(deref(v)) for v in (m, n, lda, incx, incy)]
    alpha, beta = deref(alpha), deref(beta)
    if t.upper() not in 'NTC' or m < 0 or n < 0 or lda < max(1, m) or incx == 0 or incy == 0:
        raise MemoryViolation('illegal argument to dgemv')
    if m == 0 or n == 0:
        return
    tr = t.upper() != 'N'
    lx, ly = (m, n) if tr else (n, m)
    ox = 0 if incx > 0 else -(lx - 1) * incx
    oy = 0 if incy > 0 else -(ly - 1) * incy
    for i in range(ly):
        acc = 0.0
        for j in range(lx):
            acc = acc + mulz(a[i * lda + j] if tr else a[j * lda + i], x[ox + j * incx])
        old = 0.0 if not is_sym(beta) and beta == 0 else mulz(beta, y[oy + i * incy])
        y[oy + i * incy] = mulz(alpha, acc) + old


def b_dcopy(n, x, incx, y, incy):
    n, incx, incy = [int(deref(v)) for v in (n, incx, incy)]
    vals = [x[(i if incx >= 0 else i - n + 1) * incx] for i in range(max(n, 0))]
    for i, v in enumerate(vals):
        y[(i if incy >= 0 else i - n + 1) * incy] = v


def b_daxpy(n, alpha, x, incx, y, incy):
    n, incx, incy = [int(deref(v)) for v in (n, incx, incy)]
    alpha = deref(alpha)
    for i in range(max(n, 0)):
        k = (i if incy >= 0 else i - n + 1) * incy
        y[k] = y[k] + mulz(alpha, x[(i if incx >= 0 else i - n + 1) * incx])


def b_dscal(n, alpha, x, incx):
    n, incx, alpha = int(deref(n)), int(deref(incx)), deref(alpha)
    for i in range(max(n, 0)):
        x[i * incx] = mulz(alpha, x[i * incx])


def b_ddot(n, x, incx, y, incy):
    n, incx, incy = [int(deref(v)) for v in (n, incx, incy)]
    acc = 0.0
    for i in range(max(n, 0)):
        acc = acc + mulz(x[(i if incx >= 0 else i - n + 1) * incx],
                         y[(i if incy >= 0 else i - n + 1) * incy])
    return acc


BLAS = {'dgemv': b_dgemv, 'dcopy': b_dcopy, 'daxpy': b_daxpy, 'dscal': b_dscal, 'ddot': b_ddot}


def cblas_dgemv(order, trans, m, n, alpha, a, lda, x, incx, beta, y, incy):
    tr = trans != 111
    if order == 101:    # row major
        return b_dgemv('N' if tr else 'T', n, m, alpha, a, lda, x, incx, beta, y, incy)
    return b_dgemv('T' if tr else 'N', m, n, alpha, a, lda, x, incx, beta, y, incy)


CBLAS = {'cblas_dgemv': cblas_dgemv, 'cblas_dcopy': b_dcopy, 'cblas_daxpy': b_daxpy,
         'cblas_dscal': b_dscal, 'cblas_ddot': b_ddot,
         'CblasRowMajor': 101, 'CblasColMajor': 102, 'CblasNoTrans': 111,
         'CblasTrans': 112, 'CblasConjTrans': 113}


def capsule(x):
    import scipy.linalg.blas as B
    for n, f in BLAS.items():
        if x is getattr(B, n)._cpointer:
            return f
    raise Unsupported('unknown BLAS capsule')


def ternary(c, a, b):
    """C conditional expression; the operands are plain scalars."""
    c = c()
    if isinstance(c, SBool):
        from .core import ctx
        # both branches are side-effect free expressions
        try:
            return ite(c, a(), b())
        except Unsupported:
            pass
    return a() if c else b()


# ---------------------------------------------------------------- translator
def c_kind(base, decl):
    """'int' | 'double' | 'ptr' | 'nd' | 'arr:<n>' | 'obj' of a declaration."""
    from Cython.Compiler import Nodes
    if isinstance(decl, Nodes.CPtrDeclaratorNode):
        return 'ptr'
    if isinstance(decl, Nodes.CArrayDeclaratorNode):
        return 'carr'
    if isinstance(decl, Nodes.CFuncDeclaratorNode):
        return 'func'
    if isinstance(base, Nodes.MemoryViewSliceTypeNode):
        return 'mv'
    n = getattr(base, 'name', None)
    if n in ('int', 'long', 'short', 'Py_ssize_t', 'size_t', 'bint', 'npy_intp', 'intp_t',
             'int32_t', 'int64_t', 'unsigned'):
        return 'int'
    if n in ('double', 'float', 'float64_t', 'double_t'):
        return 'double'
    if n == 'ndarray':
        return 'nd'
    return 'obj'


class Tr(object):
    def __init__(self):
        self.out = []
        self.ind = 0
        self.types = [{}]
        self.tmp = 0
        self.incfunc = False

    def w(self, s):
        self.out.append('    ' * self.ind + s)

    # --- declarations
    def decl_name(self, d):
        while getattr(d, 'base', None) is not None:
            d = d.base
        return d.name

    def decl_default(self, d):
        v = None
        while d is not None:
            if getattr(d, 'default', None) is not None:
                v = d.default
            d = getattr(d, 'base', None)
        return v

    def conv(self, kind, s):
        return {'int': '_cint(%s)', 'double': '_cdbl(%s)', 'nd': '_cnd(%s)'}.get(kind, '%s') % s

    # --- statements
    def stat(self, n):
        f = getattr(self, 's_' + type(n).__name__, None)
        if f is None:
            raise Unsupported('Cython statement ' + type(n).__name__)
        f(n)

    def body(self, n):
        self.ind += 1
        k = len(self.out)
        if n is not None:
            self.stat(n)
        if len(self.out) == k:
            self.w('pass')
        self.ind -= 1

    def s_ModuleNode(self, n):
        self.stat(n.body)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stat(s)

    def s_CImportStatNode(self, n):
        pass

    s_FromCImportStatNode = s_CDefExternNode = s_CTypeDefNode = s_PassStatNode_ = s_CImportStatNode
    s_CEnumDefNode = s_CStructOrUnionDefNode = s_CImportStatNode

    def s_PassStatNode(self, n):
        self.w('pass')

    def s_ExprStatNode(self, n):
        e = n.expr
        t = type(e).__name__
        if t == 'SimpleCallNode' and getattr(e.function, 'attribute', '') == 'import_array':
            return
        self.w(self.e(e))

    def s_CVarDefNode(self, n):
        for d in n.declarators:
            k = c_kind(n.base_type, d)
            if k == 'func':
                continue
            nm = self.decl_name(d)
            self.types[-1][nm] = k
            df = self.decl_default(d)
            if k == 'carr':
                self.w('%s = _Ptr(_ListBuf(%s, %r))' % (
                    nm, self.e(d.dimension), CT.get(getattr(n.base_type, 'name', ''), None)))
            elif df is not None:
                self.w('%s = %s' % (nm, self.conv(k, self.e(df))))

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        self.incfunc = True
        self.func(self.decl_name(d), d.args, n.body)
        self.incfunc = False

    def s_DefNode(self, n):
        self.func(n.name, n.args, n.body)

    def func(self, name, args, body):
        self.types.append({})
        sig, pre = [], []
        for a in args:
            nm = self.decl_name(a.declarator)
            k = c_kind(a.base_type, a.declarator)
            if not nm:      # untyped argument: the base type carries the name
                nm = a.base_type.name
                k = 'obj'
            self.types[-1][nm] = k
            df = a.default
            sig.append(nm if df is None else '%s=%s' % (nm, self.e(df)))
            if k in ('int', 'double', 'nd'):
                pre.append('%s = %s' % (nm, self.conv(k, nm)))
        self.w('def %s(%s):' % (name, ', '.join(sig)))
        self.ind += 1
        for p in pre:
            self.w(p)
        self.ind -= 1
        self.body(body)
        self.types.pop()

    def kind(self, nm):
        for t in (self.types[-1], self.types[0]):
            if nm in t:
                return t[nm]
        return 'obj'

    def target(self, l, rhs):
        t = type(l).__name__
        if t == 'NameNode':
            self.w('%s = %s' % (l.name, self.conv(self.kind(l.name), rhs)))
        elif t in ('TupleNode', 'ListNode'):
            self.tmp += 1
            tn = '_t%d' % self.tmp
            self.w('%s = list(%s)' % (tn, rhs))
            for i, x in enumerate(l.args):
                self.target(x, '%s[%d]' % (tn, i))
        else:
            self.w('%s = %s' % (self.e(l), rhs))

    def s_SingleAssignmentNode(self, n):
        self.target(n.lhs, self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        self.tmp += 1
        tn = '_t%d' % self.tmp
        self.w('%s = %s' % (tn, self.e(n.rhs)))
        for l in n.lhs_list:
            self.target(l, tn)

    def s_InPlaceAssignmentNode(self, n):
        self.target(n.lhs, '%s %s (%s)' % (self.e(n.lhs), n.operator, self.e(n.rhs)))

    def s_ParallelAssignmentNode(self, n):
        names = []
        for s in n.stats:
            self.tmp += 1
            tn = '_t%d' % self.tmp
            names.append((s.lhs, tn))
            self.w('%s = %s' % (tn, self.e(s.rhs)))
        for l, tn in names:
            self.target(l, tn)

    def simple_assigns(self, body):
        """[(lhs, rhs)] when a C block only stores plain values."""
        t = type(body).__name__
        if t == 'StatListNode':
            out = []
            for s in body.stats:
                r = self.simple_assigns(s)
                if r is None:
                    return None
                out += r
            return out
        if t == 'SingleAssignmentNode' and type(body.lhs).__name__ in ('NameNode', 'IndexNode') \
                and type(body.rhs).__name__ not in ('SimpleCallNode', 'GeneralCallNode'):
            return [(body.lhs, body.rhs)]
        if t == 'PassStatNode':
            return []
        return None

    def s_IfStatNode(self, n):
        # if-conversion of a guarded store: a symbolic condition becomes an
        # if-then-else value instead of two paths
        if len(n.if_clauses) == 1 and n.else_clause is None:
            a = self.simple_assigns(n.if_clauses[0].body)
            if a and len(a) == 1 and (self.incfunc or type(a[0][0]).__name__ == 'IndexNode'):
                self.tmp += 1
                tn = '_c%d' % self.tmp
                lhs, rhs = a[0]
                self.w('%s = %s' % (tn, self.e(n.if_clauses[0].condition)))
                self.w('if _is_symbool(%s):' % tn)
                self.ind += 1
                self.target(lhs, '_ternary(lambda: %s, lambda: %s, lambda: %s)' % (
                    tn, self.e(rhs), self.e(lhs)))
                self.ind -= 1
                self.w('elif %s:' % tn)
                self.body(n.if_clauses[0].body)
                return
        for i, c in enumerate(n.if_clauses):
            self.w('%s %s:' % ('if' if i == 0 else 'elif', self.e(c.condition)))
            self.body(c.body)
        if n.else_clause is not None:
            self.w('else:')
            self.body(n.else_clause)

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence
        self.tmp += 1
        tn = '_i%d' % self.tmp
        self.w('for %s in %s:' % (tn, self.e(it)))
        self.ind += 1
        self.target(n.target, tn)
        self.ind -= 1
        self.body(n.body)
        if n.else_clause is not None:
            self.w('else:')
            self.body(n.else_clause)

    def s_ForFromStatNode(self, n):
        r1, r2 = n.relation1, n.relation2
        st = self.e(n.step) if n.step is not None else '1'
        lo = self.e(n.bound1) + ('' if r1 == '<=' or r1 == '>=' else '+1')
        hi = self.e(n.bound2) + ('' if r2 == '<' else '+1')
        self.w('for %s in range(%s, %s, %s):' % (self.e(n.target), lo, hi, st))
        self.body(n.body)

    def s_WhileStatNode(self, n):
        self.w('while %s:' % self.e(n.condition))
        self.body(n.body)

    def s_BreakStatNode(self, n):
        self.w('break')

    def s_ContinueStatNode(self, n):
        self.w('continue')

    def s_ReturnStatNode(self, n):
        self.w('return %s' % (self.e(n.value) if n.value is not None else ''))

    def s_RaiseStatNode(self, n):
        if n.exc_type is None:
            self.w('raise')
        else:
            self.w('raise %s%s' % (self.e(n.exc_type),
                                   '(%s)' % self.e(n.exc_value) if n.exc_value is not None else ''))

    def s_TryExceptStatNode(self, n):
        self.w('try:')
        self.body(n.body)
        for c in n.except_clauses:
            pat = c.pattern
            if not pat:
                self.w('except Exception:')
            else:
                p = ', '.join(self.e(x) for x in (pat if isinstance(pat, list) else [pat]))
                self.w('except (%s)%s:' % (p + ',', ' as ' + c.target.name if c.target is not None else ''))
            self.body(c.body)
        if n.else_clause is not None:
            self.w('else:')
            self.body(n.else_clause)

    def s_TryFinallyStatNode(self, n):
        self.w('try:')
        self.body(n.body)
        self.w('finally:')
        self.body(n.finally_clause)

    def s_GILStatNode(self, n):
        self.stat(n.body)

    def s_DelStatNode(self, n):
        self.w('del ' + ', '.join(self.e(a) for a in n.args))

    def s_AssertStatNode(self, n):
        self.w('assert %s' % self.e(n.condition if hasattr(n, 'condition') else n.cond))

    def s_CommonOp(self, n):
        raise Unsupported('stat')

    def s_CompilerDirectivesNode(self, n):
        self.stat(n.body)

    # --- expressions
    def e(self, n):
        f = getattr(self, 'e_' + type(n).__name__, None)
        if f is None:
            raise Unsupported('Cython expression ' + type(n).__name__)
        return f(n)

    def e_NameNode(self, n):
        return n.name

    def e_AttributeNode(self, n):
        return '%s.%s' % (self.e(n.obj), n.attribute)

    def e_IntNode(self, n):
        return n.value

    def e_FloatNode(self, n):
        return n.value

    def e_BoolNode(self, n):
        return 'True' if n.value else 'False'

    def e_NoneNode(self, n):
        return 'None'

    def e_NullNode(self, n):
        return 'None'

    def e_UnicodeNode(self, n):
        return repr(str(n.value))

    e_StringNode = e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return repr(bytes(n.value))

    def e_CharNode(self, n):
        return repr(n.value)

    def e_ImportNode(self, n):
        return '__import__(%r)' % str(n.module_name.value)

    def e_SimpleCallNode(self, n):
        f = self.e(n.function)
        return '%s(%s)' % (f, ', '.join(self.e(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        pos = n.positional_args
        parts = []
        if type(pos).__name__ == 'TupleNode':
            parts += [self.e(a) for a in pos.args]
        elif pos is not None:
            parts.append('*' + self.e(pos))
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ == 'DictNode':
                for it in kw.key_value_pairs:
                    parts.append('%s=%s' % (it.key.value, self.e(it.value)))
            else:
                parts.append('**' + self.e(kw))
        return '%s(%s)' % (self.e(n.function), ', '.join(parts))

    def e_TupleNode(self, n):
        return '(%s)' % ''.join(self.e(a) + ', ' for a in n.args)

    def e_ListNode(self, n):
        return '[%s]' % ', '.join(self.e(a) for a in n.args)

    def e_DictNode(self, n):
        return '{%s}' % ', '.join('%s: %s' % (self.e(i.key), self.e(i.value))
                                  for i in n.key_value_pairs)

    def binop(self, n):
        return '(%s %s %s)' % (self.e(n.operand1), n.operator, self.e(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_ModNode = e_DivNode = e_PowNode = binop
    e_IntBinopNode = e_MatMultNode = e_BitwiseOrNode = binop

    def e_BoolBinopNode(self, n):
        return '(%s %s %s)' % (self.e(n.operand1), n.operator, self.e(n.operand2))

    def e_NotNode(self, n):
        return '(not %s)' % self.e(n.operand)

    def e_UnaryMinusNode(self, n):
        return '(-%s)' % self.e(n.operand)

    def e_UnaryPlusNode(self, n):
        return '(+%s)' % self.e(n.operand)

    def e_TildeNode(self, n):
        return '(~%s)' % self.e(n.operand)

    def cmp_tail(self, n):
        s = ' %s %s' % (n.operator.replace('_', ' '), self.e(n.operand2))
        if getattr(n, 'cascade', None) is not None:
            s += self.cmp_tail(n.cascade)
        return s

    def e_PrimaryCmpNode(self, n):
        return '(%s%s)' % (self.e(n.operand1), self.cmp_tail(n))

    def e_CondExprNode(self, n):
        return '_ternary(lambda: %s, lambda: %s, lambda: %s)' % (
            self.e(n.test if hasattr(n, 'test') else n.condition), self.e(n.true_val), self.e(n.false_val))

    def e_IndexNode(self, n):
        return '%s[%s]' % (self.e(n.base), self.ix(n.index))

    def ix(self, n):
        t = type(n).__name__
        if t == 'SliceNode':
            f = lambda x: '' if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
            return 'slice(%s, %s, %s)' % tuple(f(x) or 'None' for x in (n.start, n.stop, n.step))
        if t == 'TupleNode':
            return '(%s)' % ''.join(self.ix(a) + ', ' for a in n.args)
        return self.e(n)

    def e_SliceIndexNode(self, n):
        f = lambda x: '' if x is None else self.e(x)
        return '%s[%s:%s]' % (self.e(n.base), f(n.start), f(n.stop))

    def e_SliceNode(self, n):
        return self.ix(n)

    def e_EllipsisNode(self, n):
        return 'Ellipsis'

    def e_AmpersandNode(self, n):
        o = n.operand
        if type(o).__name__ == 'IndexNode':
            return '_addr(%s, %s)' % (self.e(o.base), self.ix(o.index))
        return '_Ref(%s)' % self.e(o)

    def e_TypecastNode(self, n):
        k = c_kind(n.base_type, n.declarator)
        x = n.operand
        if k == 'ptr':
            if type(x).__name__ == 'AttributeNode' and x.attribute == 'data':
                return '_cast(%r, %s)' % (getattr(n.base_type, 'name', 'void'), self.e(x.obj))
            return '_cast(%r, %s)' % (getattr(n.base_type, 'name', 'void'), self.e(x))
        if k == 'int':
            return '_toint(%s)' % self.e(x)
        if k == 'double':
            return '_cdbl(%s)' % self.e(x)
        return self.e(x)

    def e_SizeofVarNode(self, n):
        return '8'

    e_SizeofTypeNode = e_SizeofVarNode


def addr(base, ix):
    if isinstance(base, Ptr):
        return base + ix
    if isinstance(base, ND):
        v = ND.view(base, ND)
        ii = tuple(int(i) for i in (ix if isinstance(ix, tuple) else (ix,)))
        v[ii]   # bounds
        off = sum((i % s if i < 0 else i) * st for i, s, st in zip(ii, v.shape, v.strides)) // v.itemsize
        return data_ptr(base) + off
    raise Unsupported('address of')


def source(path):
    d = os.path.dirname(path)
    with open(path) as f:
        s = f.read()
    for _ in range(4):
        s = re.sub(r"^[ \t]*include\s+['\"](.*?)['\"].*$",
                   lambda m: open(os.path.join(d, m.group(1))).read(), s, flags=re.M)
    return s


def translate(path):
    from Cython.Compiler.TreeFragment import parse_from_strings
    tree = parse_from_strings('m', source(path))
    t = Tr()
    try:
        t.stat(tree)
    except AttributeError as e:
        raise Unsupported('Cython AST: %s' % e)
    return '\n'.join(t.out) + '\n'


def load(path, modname):
    """Module object executing the translated source on symbolic values."""
    import sys
    src = translate(path)
    m = types.ModuleType(modname)
    m.__file__ = path
    pkg = modname.rpartition('.')[0]
    m.__package__ = pkg
    d = m.__dict__
    import scipy
    import scipy.linalg
    import scipy.signal

    class NPP(object):
        """np as seen by Cython: numpy plus the C API names used."""
        PyArray_DATA = staticmethod(data_ptr)

        def __getattr__(self, k):
            return getattr(shim.PNP, k)
    d.update(_cint=cint, _cdbl=cdbl, _cnd=cnd, _Ptr=Ptr, _ListBuf=ListBuf, _Ref=Ref,
             _cast=cast_ptr, _is_symbool=lambda c: isinstance(c, SBool), _toint=c_to_int, _ternary=ternary, _addr=addr,
             Capsule_AsVoidPtr=capsule, floor=sfloor, ceil=sceil, fabs=sabs, sqrt=ssqrt,
             xrange=range, float=shim.FloatShim, int=shim.IntShim, complex=shim.ComplexShim)
    for k in ('fmax', 'fmin'):
        d[k] = {'fmax': arr.smax, 'fmin': arr.smin}[k]
    d.update(CBLAS)
    code = compile(src, path, 'exec')
    real_import = __import__

    def imp(name, *a, **k):
        r = real_import(name, *a, **k)
        if r is np:
            return NPP()
        x = shim.shim_for(name, r)
        return r if x is None else x
    b = dict(__builtins__ if isinstance(__builtins__, dict) else vars(__builtins__))
    b['__import__'] = imp
    d['__builtins__'] = b
    exec(code, d)
    return m
