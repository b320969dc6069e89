"""A stand-in for the numpy/math modules that computes on symbolic numbers.

Calls without a symbolic value go to numpy untouched, except that freshly
allocated real/complex arrays hold Python objects (so that symbolic values can
be stored in them).  Installed into the modules under test only while a harness
runs symbolically; replays use the real numpy.
"""
import builtins
import cmath
import math
import sys
from fractions import Fraction

import numpy
import sympy

from . import num
from .num import SymBool, SymNum, Unsupported, ctx, lift


def is_sym(x):
    return type(x) is SymNum or type(x) is SymBool


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, numpy.ndarray):
        return x.dtype == object and any(has_sym(v, depth + 1) for v in x.flat)
    if isinstance(x, (list, tuple)) and depth < 5:
        return any(has_sym(v, depth + 1) for v in x)
    return False


class SArr(numpy.ndarray):
    """Object array whose elements may be symbolic."""

    @property
    def real(self):
        return _map(lambda v: v.real, self)

    @property
    def imag(self):
        return _map(lambda v: v.imag, self)

    def conj(self):
        return _map(_conj, self)

    conjugate = conj

    def astype(self, dtype, *a, **k):
        if has_sym(self):
            if dtype in (int, numpy.int64, "int"):
                return _map(_to_int, self)
            return self.copy()
        return numpy.ndarray.astype(self.view(numpy.ndarray), dtype, *a, **k)

    def round(self, decimals=0, out=None):
        if decimals:
            raise Unsupported("round to digits")
        return _map(lambda v: v.rint() if is_sym(v) else round(v), self)

    @property
    def H(self):
        return self.conj().T

    def sum(self, *a, **k):
        return _npfloat(numpy.ndarray.sum(self, *a, **k))

    def dot(self, o, *a):
        return _npfloat(numpy.ndarray.dot(self, o, *a))

    # scipy-like helpers for the sparse stand-in
    def __repr__(self):
        return "SArr%s" % (self.shape,)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")


def _npfloat(v):
    if isinstance(v, numpy.ndarray) and v.shape == ():
        v = v[()]
    if type(v) is float:
        return numpy.float64(v)
    if type(v) is complex:
        return numpy.complex128(v)
    if type(v) is int and abs(v) < 2 ** 62:
        return numpy.int64(v)
    return v


def _to_int(v):
    return INT(v) if is_sym(v) else int(v)


def _conj(v):
    if isinstance(v, sympy.Basic):
        return sympy.conjugate(v)
    return v.conjugate()


def sarr(x):
    if isinstance(x, numpy.ndarray):
        if x.dtype == object:
            return x.view(SArr)
        return x.astype(object).view(SArr)
    a = _obj_array(x)
    return a.view(SArr)


def _shape(x):
    if isinstance(x, numpy.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)) or (hasattr(x, "__len__") and not is_sym(x) and hasattr(x, "__getitem__") and not isinstance(x, (str, dict))):
        n = len(x)
        if n == 0:
            return (0,)
        return (n,) + _shape(x[0])
    return ()


def _obj_array(x):
    if not isinstance(x, (list, tuple, numpy.ndarray)) and not is_sym(x) and hasattr(x, "__iter__"):
        if isinstance(x, (sympy.MatrixBase,)):
            return numpy.array(x, dtype=object)
        if not isinstance(x, (str, dict, bytes)):
            x = list(x)
    sh = _shape(x)
    a = numpy.empty(sh, dtype=object)
    if sh == ():
        a[()] = x
        return a

    def fill(prefix, v):
        if len(prefix) == len(sh):
            if isinstance(v, numpy.generic):
                v = v.item()
            a[prefix] = v
            return
        for i, w in enumerate(v):
            fill(prefix + (i,), w)

    fill((), x)
    return a


def _map(f, a):
    if isinstance(a, numpy.ndarray):
        out = numpy.empty(a.shape, dtype=object)
        if a.shape == ():
            out[()] = f(a[()])
        else:
            flat = out.reshape(-1) if out.size else out
            for i, v in enumerate(a.flat):
                flat[i] = f(v)
        return out.view(SArr)
    if isinstance(a, (list, tuple)):
        return _map(f, sarr(a))
    return f(a)


def _elem(name):
    np_f = getattr(numpy, name)

    def one(v):
        if is_sym(v):
            if type(v) is SymBool:
                v = lift(v)
            return getattr(v, name)()
        if isinstance(v, sympy.Basic):
            return getattr(sympy, name)(v)
        r = np_f(v)
        return r.item() if isinstance(r, numpy.generic) else r

    def g(x, *a, **k):
        if is_sym(x) or (isinstance(x, numpy.ndarray) and x.dtype == object) or has_sym(x):
            return _map(one, x if isinstance(x, numpy.ndarray) else (sarr(x) if isinstance(x, (list, tuple)) else x))
        return np_f(x, *a, **k)

    g.__name__ = name
    return g


def _absv(v):
    return abs(v)


def _close(a, b, rtol, atol):
    """|a-b| <= atol + rtol*|b| as a truth value (symbolic when needed)."""
    d = a - b
    d = lift(d)
    if d.is_const and lift(b).is_const:
        return bool(abs(complex(num.to_python(d))) <= atol + rtol * abs(complex(num.to_python(lift(b)))))
    if not d.re and not d.im:
        return True
    # for |b| <= 1 side: the tolerance is abstracted to the region it certainly
    # covers and certainly excludes, by asking exactly
    bb = lift(b)
    if not d.im and not bb.im:
        ab = abs(SymNum(bb.re, num.ZERO, "float"))
        tol = ab * Fraction(rtol) + Fraction(atol)
        dd = SymNum(d.re, num.ZERO, "float")
        return (dd <= tol) & (-dd <= tol)
    ab = abs(bb)
    tol = ab * Fraction(rtol) + Fraction(atol)
    m2 = SymNum(num.padd(num.pmul(d.re, d.re), num.pmul(d.im, d.im)), num.ZERO, "float")
    return m2 <= tol * tol


def _as_frac(x):
    return Fraction(x).limit_denominator(10 ** 15)


def _number(v):
    """complex(v) of a sympy entry, as numpy's conversion of one does."""
    if isinstance(v, sympy.Basic):
        from .bridge import internal

        if not v.free_symbols:
            return lift(v)
        if all(internal(s) for s in v.free_symbols):
            return lift(v)
        raise TypeError("can't convert expression to float")
    return v


def _has_sympy(x, depth=0):
    if isinstance(x, sympy.Basic):
        return True
    if isinstance(x, numpy.ndarray):
        return x.dtype == object and any(isinstance(v, sympy.Basic) for v in x.flat)
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(_has_sympy(v, depth + 1) for v in x)
    return False


class _Random:
    def __getattr__(self, name):
        def f(*a, **k):
            raise Unsupported("numpy.random.%s without a stand-in" % name)

        return f


class _Linalg:
    def __getattr__(self, name):
        real = getattr(numpy.linalg, name)
        if isinstance(real, type):
            return real

        def f(x, *a, **k):
            if isinstance(x, numpy.ndarray) and x.dtype == object or has_sym(x):
                if name == "norm":
                    s = 0
                    for v in sarr(x).flat:
                        s = s + (v.real * v.real + v.imag * v.imag)
                    return lift(s).sqrt()
                if not has_sym(x):
                    return real(numpy.array(x, dtype=complex), *a, **k)
                raise Unsupported("numpy.linalg.%s" % name)
            return real(x, *a, **k)

        return f


_NUMERIC = (float, complex, numpy.float64, numpy.complex128, numpy.complex64, "complex", "float", None,
            numpy.float32)


def _dt(dtype):
    """True when an allocation with this dtype must hold objects."""
    if dtype is None:
        return True
    if getattr(dtype, "_symx_type", None) is not None:
        dtype = dtype._symx_type
    try:
        return numpy.dtype(dtype).kind in "fc"
    except TypeError:
        return False


def _real_dtype(dtype):
    return getattr(dtype, "_symx_type", dtype)


def _is_complex(dtype):
    if dtype is None:
        return False
    try:
        return numpy.dtype(_real_dtype(dtype)).kind == "c"
    except TypeError:
        return False


def _complex_entries(a):
    if isinstance(a, numpy.ndarray) and a.dtype == object and any(type(v) is SymNum and v.kind != "complex" for v in a.flat):
        return _map(lambda v: SymNum(v.re, v.im, "complex") if type(v) is SymNum else v, a)
    return a


class NumpyShim:
    def __init__(self):
        self.random = _Random()
        self.linalg = _Linalg()
        self.overrides = {}
        for n in ("sqrt", "exp", "cos", "sin", "log", "floor", "ceil", "rint"):
            setattr(self, n, _elem(n))

    def __getattr__(self, name):
        return getattr(numpy, name)

    # ---- construction
    def array(self, x, dtype=None, **k):
        r = self._array(x, dtype, **k)
        return _complex_entries(r) if _is_complex(dtype) else r

    def _array(self, x, dtype=None, **k):
        if isinstance(x, SArr):
            if has_sym(x) and not (dtype is not None and _dt(dtype) and _has_sympy(x)):
                return x.copy()
        if isinstance(x, sympy.MatrixBase):
            y = numpy.array(x, dtype=object)
            if dtype is None or not _dt(dtype):
                return y.view(SArr)
            return _map(_number, y)
        if not isinstance(x, (list, tuple, numpy.ndarray)) and hasattr(x, "__array__") and not is_sym(x):
            y = x.__array__()
            return y.view(SArr) if isinstance(y, numpy.ndarray) and y.dtype == object else y
        if dtype is not None and _dt(dtype) and _has_sympy(x):
            return _map(_number, sarr(x))
        if has_sym(x):
            if _real_dtype(dtype) is int:
                return _map(_to_int, sarr(x))
            a = sarr(x)
            return a.copy()
        return numpy.array(x, dtype=_real_dtype(dtype), **k)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SArr) and not (dtype is not None and _dt(dtype) and _has_sympy(x)):
            return _complex_entries(x) if _is_complex(dtype) else x
        return self.array(x, dtype=dtype)

    asanyarray = asarray

    def fromiter(self, it, dtype=None, **k):
        return self.array(list(it), dtype=dtype)

    def _alloc(self, shape, v, dtype):
        if isinstance(shape, (list, tuple)):
            shape = tuple(int(s) for s in shape)
        else:
            shape = int(shape)
        if not _dt(dtype):
            a = numpy.empty(shape, dtype=_real_dtype(dtype))
            a.fill(v)
            return a
        a = numpy.empty(shape, dtype=object)
        a.fill(v)
        return a.view(SArr)

    def zeros(self, shape, dtype=None, **k):
        return self._alloc(shape, 0.0 if _real_dtype(dtype) in (None, float) else 0, dtype)

    def ones(self, shape, dtype=None, **k):
        return self._alloc(shape, 1.0 if _real_dtype(dtype) in (None, float) else 1, dtype)

    def empty(self, shape, dtype=None, **k):
        return self.zeros(shape, dtype)

    def full(self, shape, v, dtype=None, **k):
        return self._alloc(shape, v, dtype)

    def zeros_like(self, a, dtype=None, **k):
        a = numpy.asarray(a)
        return self.zeros(a.shape, dtype if dtype is not None else (None if a.dtype == object else a.dtype))

    def ones_like(self, a, dtype=None, **k):
        a = numpy.asarray(a)
        return self.ones(a.shape, dtype if dtype is not None else (None if a.dtype == object else a.dtype))

    empty_like = zeros_like

    def identity(self, n, dtype=None, **k):
        return self.eye(n, dtype=dtype)

    def eye(self, n, M=None, k=0, dtype=None, **kw):
        if not _dt(dtype):
            return numpy.eye(int(n), M, k, dtype=_real_dtype(dtype))
        e = numpy.eye(int(n), M, k)
        return _map(lambda v: 1 if v else 0, e)

    def kron(self, a, b):
        a, b = (x if isinstance(x, numpy.ndarray) else self.array(x) for x in (a, b))
        if a.dtype == object or b.dtype == object:
            a, b = sarr(a), sarr(b)
            out = numpy.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object)
            r, c = b.shape
            for i in range(a.shape[0]):
                for j in range(a.shape[1]):
                    for p in range(r):
                        for q in range(c):
                            out[i * r + p, j * c + q] = a[i, j] * b[p, q]
            return out.view(SArr)
        return numpy.kron(a, b)

    def einsum(self, sub, *ops, **k):
        k.pop("optimize", None)
        k.pop("dtype", None)
        if any(isinstance(o, numpy.ndarray) and o.dtype == object for o in ops):
            return _einsum(sub, [sarr(o) for o in ops])
        return numpy.einsum(sub, *ops, **k)

    # ---- parts
    def real(self, x):
        if is_sym(x):
            return x.real
        if isinstance(x, numpy.ndarray) and x.dtype == object or has_sym(x):
            return _map(lambda v: v.real, sarr(x))
        return numpy.real(x)

    def imag(self, x):
        if is_sym(x):
            return x.imag
        if isinstance(x, numpy.ndarray) and x.dtype == object or has_sym(x):
            return _map(lambda v: v.imag, sarr(x))
        return numpy.imag(x)

    def conj(self, x):
        if is_sym(x):
            return x.conjugate()
        if isinstance(x, numpy.ndarray) and x.dtype == object or has_sym(x):
            return _map(_conj, sarr(x))
        return numpy.conj(x)

    conjugate = conj

    def abs(self, x):
        if is_sym(x):
            return abs(x)
        if isinstance(x, numpy.ndarray) and x.dtype == object or has_sym(x):
            return _map(abs, sarr(x))
        return numpy.abs(x)

    absolute = abs

    def sign(self, x):
        def one(v):
            return 1 if v > 0 else (-1 if v < 0 else 0)

        if is_sym(x):
            return one(x)
        if has_sym(x):
            return _map(one, sarr(x))
        return numpy.sign(x)

    def round(self, x, decimals=0, **k):
        if has_sym(x):
            if decimals:
                raise Unsupported("round to digits")
            return _map(lambda v: v.rint() if is_sym(v) else float(numpy.round(v)), x)
        return numpy.round(x, decimals, **k)

    around = round_ = round

    # ---- comparisons
    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if has_sym(a) or has_sym(b) or getattr(a, "dtype", None) == object or getattr(b, "dtype", None) == object:
            if isinstance(a, (numpy.ndarray, list, tuple)) or isinstance(b, (numpy.ndarray, list, tuple)):
                A, B = numpy.broadcast_arrays(sarr(a), sarr(b))
                out = numpy.empty(A.shape, dtype=object)
                fl = out.reshape(-1)
                for i, (x, y) in enumerate(zip(A.flat, B.flat)):
                    fl[i] = _close(x, y, rtol, atol)
                return out.view(SArr)
            return _close(a, b, rtol, atol)
        return numpy.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        r = self.isclose(a, b, rtol, atol)
        return self.all(r)

    def array_equal(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            A, B = sarr(a), sarr(b)
            if A.shape != B.shape:
                return False
            return self.all(_map(lambda v: v == 0, A - B))
        return numpy.array_equal(a, b)

    def all(self, x, *a, **k):
        if is_sym(x):
            return x
        if isinstance(x, numpy.ndarray) and x.dtype == object:
            r = True
            for v in x.flat:
                if type(v) is SymBool:
                    r = v & r if r is not True else v
                elif not v:
                    return False
            return r
        return numpy.all(x, *a, **k)

    def any(self, x, *a, **k):
        if is_sym(x):
            return x
        if isinstance(x, numpy.ndarray) and x.dtype == object:
            r = False
            for v in x.flat:
                if type(v) is SymBool:
                    r = v | r if r is not False else v
                elif v:
                    return True
            return r
        return numpy.any(x, *a, **k)

    def isnan(self, x):
        if has_sym(x):
            return _map(lambda v: False, x) if not is_sym(x) else False
        return numpy.isnan(x)

    def isreal(self, x):
        def one(v):
            v = lift(v)
            return num.compare(SymNum(v.im), lift(0), "==")

        if is_sym(x):
            return one(x)
        if has_sym(x):
            return _map(one, sarr(x))
        return numpy.isreal(x)

    def iscomplexobj(self, x):
        if is_sym(x):
            return x.kind == "complex"
        if has_sym(x):
            return builtins.any(isinstance(v, complex) for v in sarr(x).flat)
        return numpy.iscomplexobj(x)

    def iscomplex(self, x):
        r = self.isreal(x)
        if type(r) is SymBool:
            return ~r
        if isinstance(r, numpy.ndarray) and r.dtype == object:
            return _map(lambda v: ~v if type(v) is SymBool else not v, r)
        return ~r

    def isscalar(self, x):
        return True if is_sym(x) else numpy.isscalar(x)

    def maximum(self, a, b):
        if has_sym(a) or has_sym(b):
            A, B = numpy.broadcast_arrays(sarr(a), sarr(b))
            out = sarr([x if x >= y else y for x, y in zip(A.flat, B.flat)]).reshape(A.shape)
            return out if out.shape else out[()]
        return numpy.maximum(a, b)

    def minimum(self, a, b):
        if has_sym(a) or has_sym(b):
            A, B = numpy.broadcast_arrays(sarr(a), sarr(b))
            out = sarr([x if x <= y else y for x, y in zip(A.flat, B.flat)]).reshape(A.shape)
            return out if out.shape else out[()]
        return numpy.minimum(a, b)

    def sum(self, x, *a, **k):
        if not isinstance(x, numpy.ndarray) and has_sym(x):
            x = sarr(x)
        return numpy.sum(x, *a, **k)

    def where(self, cond, *args):
        if has_sym(cond):
            cond = numpy.array([bool(v) for v in sarr(cond).flat]).reshape(numpy.shape(cond))
        if args:
            if has_sym(args[0]) or has_sym(args[1]):
                c = numpy.asarray(cond)
                A, B, C = numpy.broadcast_arrays(sarr(args[0]), sarr(args[1]), c)
                out = numpy.empty(C.shape, dtype=object)
                for i in numpy.ndindex(C.shape):
                    out[i] = A[i] if C[i] else B[i]
                return out.view(SArr)
        return numpy.where(cond, *args)

    def argsort(self, x, axis=-1, kind=None, **k):
        if not has_sym(x):
            return numpy.argsort(x, axis=axis, kind=kind)
        vals = list(sarr(x))
        idx = list(range(len(vals)))
        for i in range(1, len(idx)):  # insertion sort, as numpy for short arrays
            j = i
            while j > 0 and bool(vals[idx[j]] < vals[idx[j - 1]]):
                idx[j], idx[j - 1] = idx[j - 1], idx[j]
                j -= 1
        return numpy.array(idx, dtype=int)

    def sort(self, x, *a, **k):
        if not has_sym(x):
            return numpy.sort(x, *a, **k)
        return sarr(x)[self.argsort(x)]

    def vdot(self, a, b):
        A, B = sarr(a).reshape(-1), sarr(b).reshape(-1)
        s = 0
        for x, y in zip(A, B):
            s = s + _conj(x) * y
        return s

    def nonzero(self, x):
        if has_sym(x):
            m = numpy.array([bool(v) for v in sarr(x).flat]).reshape(numpy.shape(x))
            return numpy.nonzero(m)
        return numpy.nonzero(x)

    def count_nonzero(self, x, **k):
        if has_sym(x):
            return builtins.sum(1 for v in sarr(x).flat if bool(v))
        return numpy.count_nonzero(x, **k)


def _einsum(sub, ops):
    ins, out = sub.replace(" ", "").split("->") if "->" in sub else (sub.replace(" ", ""), None)
    ins = ins.split(",")
    if out is None:
        alls = "".join(ins)
        out = "".join(sorted(c for c in set(alls) if alls.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, o.shape):
            dims[ch] = n
    # contract pairwise, left to right
    cur, cs = ops[0], ins[0]
    rest = list(zip(ins[1:], ops[1:]))
    while rest:
        s2, o2 = rest.pop(0)
        keep = "".join(
            ch for ch in dict.fromkeys(cs + s2) if ch in out or any(ch in s for s, _ in rest)
        )
        cur = _contract2(cs, cur, s2, o2, keep, dims)
        cs = keep
    if cs != out:
        one = numpy.empty((), dtype=object)
        one[()] = 1
        cur = _contract2(cs, cur, "", one, out, dims)
    return cur.view(SArr) if cur.shape else cur[()]


def _contract2(sa, a, sb, b, keep, dims):
    red = [ch for ch in dict.fromkeys(sa + sb) if ch not in keep]
    out = numpy.empty([dims[c] for c in keep], dtype=object)
    import itertools

    for idx in itertools.product(*[range(dims[c]) for c in keep]):
        env = dict(zip(keep, idx))
        s = 0
        for rid in itertools.product(*[range(dims[c]) for c in red]):
            env.update(zip(red, rid))
            x = a[tuple(env[c] for c in sa)]
            if not is_sym(x) and x == 0:
                continue
            y = b[tuple(env[c] for c in sb)]
            if not is_sym(y) and y == 0:
                continue
            s = s + x * y
        out[idx] = s
    return out


class MathShim:
    def __init__(self, base):
        self._base = base

    def __getattr__(self, name):
        real = getattr(self._base, name)
        if not callable(real):
            return real

        def f(*a, **k):
            if any(is_sym(x) for x in a):
                if name in ("sqrt", "cos", "sin", "exp", "log") and len(a) == 1:
                    return getattr(a[0], name)()
                if name == "floor":
                    return a[0].__floor__()
                if name == "ceil":
                    return a[0].__ceil__()
                if name == "trunc":
                    return a[0].__trunc__()
                if name == "fabs":
                    return abs(a[0])
                if name in ("isnan", "isinf"):
                    return False
                if name == "isfinite":
                    return True
                if name == "pow":
                    return a[0] ** a[1]
                if name == "isclose":
                    rel = k.get("rel_tol", 1e-9)
                    ab = k.get("abs_tol", 0.0)
                    x, y = lift(a[0]), lift(a[1])
                    ax, ay = abs(x), abs(y)
                    m = ax if ax >= ay else ay
                    tol = m * Fraction(rel)
                    if tol < Fraction(ab):
                        tol = lift(Fraction(ab))
                    return abs(x - y) <= tol
                raise Unsupported("math.%s of a symbolic value" % name)
            return real(*a, **k)

        return f


def _typeshim(base, kind):
    class M(type):
        def __call__(cls, *a, **k):
            if a and isinstance(a[0], sympy.Basic) and kind != "int" and a[0].free_symbols:
                a = (_number(a[0]),) + a[1:]
            if a and isinstance(a[0], str) and num.PYTEXT[0]:
                x = num.from_python_text(a[0], kind)
                if x is not None:
                    return x
            if a and num.SYMFLOAT[0] is not None and isinstance(a[0], num.SYMFLOAT[0]):
                a = (a[0]._sym,) + a[1:]
            if a and isinstance(a[0], numpy.ndarray) and a[0].dtype == object and a[0].size == 1:
                a = (a[0].item(),) + a[1:]
            if a and is_sym(a[0]):
                x = lift(a[0])
                if kind == "int":
                    if x.kind == "complex":
                        raise TypeError("can't convert complex to int")
                    if x.kind == "int":
                        return x
                    return ctx().trunc(x)
                if kind == "float":
                    if x.kind == "complex":
                        raise TypeError("can't convert complex to float")
                    return SymNum(x.re, num.ZERO, "float")
                if len(a) == 2:
                    return x + lift(a[1]) * 1j
                return SymNum(x.re, x.im, "complex")
            if kind == "complex" and len(a) == 2 and is_sym(a[1]):
                return lift(a[0]) + lift(a[1]) * 1j
            return base(*a, **k)

        def __instancecheck__(cls, o):
            if kind == "float" and num.SYMFLOAT[0] is not None and isinstance(o, num.SYMFLOAT[0]):
                return True
            return isinstance(o, base)

        def __subclasscheck__(cls, o):
            return issubclass(o, base)

        def __eq__(cls, o):
            return o is base or o is cls

        def __hash__(cls):
            return hash(base)

    d = {"_symx_type": base}
    if kind == "int":
        d["dtype"] = numpy.dtype(int)  # numpy takes it for int
    return M(base.__name__, (), d)


FLOAT = _typeshim(float, "float")
INT = _typeshim(int, "int")
COMPLEX = _typeshim(complex, "complex")

NP = NumpyShim()
MATH = MathShim(math)
CMATH = MathShim(cmath)


class Patches:
    """Reversible replacement of module attributes."""

    def __init__(self):
        self.saved = []

    def set(self, mod, name, value):
        d = mod.__dict__ if hasattr(mod, "__dict__") else None
        missing = d is not None and name not in d
        self.saved.append((mod, name, getattr(mod, name, None), missing))
        setattr(mod, name, value)

    def undo(self):
        for mod, name, old, missing in reversed(self.saved):
            if missing:
                delattr(mod, name)
            else:
                setattr(mod, name, old)
        self.saved = []


_TARGETS = {}


def _targets(prefixes):
    names = [n for n in sys.modules if n.startswith(prefixes)]
    key = (prefixes, len(names))
    if key in _TARGETS:
        return _TARGETS[key]
    out, mods = [], []
    for name in sorted(names):
        mod = sys.modules[name]
        if mod is None:
            continue
        mods.append(mod)
        for k, v in list(vars(mod).items()):
            if v is numpy:
                out.append((mod, k, NP))
            elif v is math:
                out.append((mod, k, MATH))
            elif v is cmath:
                out.append((mod, k, CMATH))
            elif v is numpy.linalg:
                out.append((mod, k, NP.linalg))
            elif callable(v) and getattr(v, "__module__", None) == "math" and k != "gcd":
                if hasattr(math, getattr(v, "__name__", "")):
                    out.append((mod, k, getattr(MATH, v.__name__)))
            elif isinstance(v, numpy.ufunc) and hasattr(NP, v.__name__):
                out.append((mod, k, getattr(NP, v.__name__)))
    _TARGETS[key] = (out, mods)
    return _TARGETS[key]


def install(prefixes=("zquantum.",), types=False):
    p = Patches()
    out, mods = _targets(prefixes)
    for mod, k, v in out:
        p.set(mod, k, v)
    if types:
        for mod in mods:
            p.set(mod, "float", FLOAT)
            p.set(mod, "int", INT)
            p.set(mod, "complex", COMPLEX)
    return p
