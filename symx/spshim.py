"""A stand-in for the parts of scipy.sparse the code under test uses.

Matrices are kept as coordinate lists in the order scipy would keep them
(csc: column-major, duplicates summed; coo: insertion order), with entries that
may be symbolic.
"""
import numpy

from . import num
from .npshim import SArr, _conj, is_sym, sarr
from .num import Unsupported


def _plain(v):
    return v.item() if isinstance(v, numpy.generic) else v


def _surely_zero(v):
    if is_sym(v):
        return not v.re and not v.im
    return v == 0


def _nonzero(v):
    return bool(v != 0)


class Sparse:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, fmt, shape, entries):
        self.format = fmt
        self.shape = tuple(int(s) for s in shape)
        if fmt != "coo":
            acc = {}
            for r, c, v in entries:
                k = (c, r) if fmt == "csc" else (r, c)
                acc[k] = acc[k] + v if k in acc else v
            entries = [((k[1], k[0]) if fmt == "csc" else k) + (acc[k],) for k in sorted(acc)]
        self.e = list(entries)
        self.ndim = 2

    @property
    def dtype(self):
        return numpy.dtype(object)

    @property
    def nnz(self):
        return len(self.e)

    def getnnz(self):
        return len(self.e)

    @property
    def data(self):
        a = numpy.empty(len(self.e), dtype=object)
        for i, x in enumerate(self.e):
            a[i] = x[2]
        return a.view(SArr)

    @property
    def row(self):
        return numpy.array([x[0] for x in self.e], dtype=int)

    @property
    def col(self):
        return numpy.array([x[1] for x in self.e], dtype=int)

    def asformat(self, fmt):
        return self if fmt in (None, self.format) else Sparse(fmt, self.shape, self.e)

    def tocsc(self, copy=False):
        return Sparse("csc", self.shape, self.e)

    def tocsr(self, copy=False):
        return Sparse("csr", self.shape, self.e)

    def tocoo(self, copy=True):
        return Sparse("coo", self.shape, self.e)

    def copy(self):
        return Sparse(self.format, self.shape, self.e)

    def nonzero(self):
        keep = [(r, c) for r, c, v in self.e if _nonzero(v)]
        if self.format == "csc":
            keep.sort()
        return numpy.array([k[0] for k in keep], dtype=int), numpy.array([k[1] for k in keep], dtype=int)

    def eliminate_zeros(self):
        self.e = [x for x in self.e if not _surely_zero(x[2])]

    def sum_duplicates(self):
        pass

    def toarray(self, *a, **k):
        out = numpy.empty(self.shape, dtype=object)
        out.fill(0)
        for r, c, v in self.e:
            out[r, c] = out[r, c] + v
        return out.view(SArr)

    def todense(self):
        return self.toarray()

    A = property(toarray)

    def diagonal(self):
        n = min(self.shape)
        out = [0] * n
        for r, c, v in self.e:
            if r == c:
                out[r] = out[r] + v
        return sarr(out)

    def transpose(self, *a, **k):
        fmt = {"csc": "csr", "csr": "csc", "coo": "coo"}[self.format]
        return Sparse(fmt, self.shape[::-1], [(c, r, v) for r, c, v in self.e])

    T = property(transpose)

    def conj(self, copy=True):
        return Sparse(self.format, self.shape, [(r, c, _conj(v)) for r, c, v in self.e])

    conjugate = conj

    def getH(self):
        return self.transpose().conj()

    @property
    def H(self):
        return self.getH()

    def _scale(self, s):
        return Sparse(self.format, self.shape, [(r, c, v * s) for r, c, v in self.e])

    def __mul__(self, o):
        o = _wrap(o)
        if isinstance(o, Sparse):
            if self.shape[1] != o.shape[0]:
                raise ValueError("dimension mismatch")
            rows = {}
            for r, c, v in o.e:
                rows.setdefault(r, []).append((c, v))
            out = {}
            for r, k, v in self.e:
                for c, w in rows.get(k, ()):
                    p = v * w
                    out[r, c] = out[r, c] + p if (r, c) in out else p
            return Sparse("csc" if self.format == "coo" else self.format, (self.shape[0], o.shape[1]),
                          [(r, c, v) for (r, c), v in out.items() if not _surely_zero(v)])
        if isinstance(o, numpy.ndarray) and o.shape:
            if o.shape[0] != self.shape[1]:
                raise ValueError("dimension mismatch")
            out = numpy.empty((self.shape[0],) + o.shape[1:], dtype=object)
            out.fill(0)
            for r, c, v in self.e:
                out[r] = out[r] + v * o[c]
            return out.view(SArr)
        if isinstance(o, (list, tuple)):
            return self * sarr(o)
        return self._scale(_plain(o))

    dot = __matmul__ = __mul__

    def __rmul__(self, o):
        if isinstance(o, numpy.ndarray) and o.shape:
            return (self.transpose() * o.T).T
        return self._scale(_plain(o))

    def multiply(self, o):
        raise Unsupported("sparse elementwise product")

    def __truediv__(self, o):
        return Sparse(self.format, self.shape, [(r, c, v / o) for r, c, v in self.e])

    def __add__(self, o):
        o = _wrap(o)
        if not isinstance(o, Sparse):
            if isinstance(o, numpy.ndarray):
                return self.toarray() + o
            if o == 0:
                return self
            raise NotImplementedError("adding a nonzero scalar to a sparse matrix is not supported")
        if o.shape != self.shape:
            raise ValueError("inconsistent shapes")
        return Sparse("csc" if self.format == "coo" else self.format, self.shape, self.e + o.e)

    __radd__ = __add__

    def __neg__(self):
        return self._scale(-1)

    def __sub__(self, o):
        return self + (-_wrap(o))

    def __rsub__(self, o):
        return (-self) + o

    def __abs__(self):
        return Sparse(self.format, self.shape, [(r, c, abs(v)) for r, c, v in self.e])

    def __pow__(self, n):
        r = identity(self.shape[0])
        for _ in range(n):
            r = r * self
        return r

    def __getitem__(self, k):
        if isinstance(k, tuple) and all(isinstance(i, (int, numpy.integer)) for i in k):
            return self.toarray()[k]
        d = self.toarray()[k]
        if isinstance(d, numpy.ndarray):
            if d.ndim == 1:
                d = d.reshape(1, -1) if isinstance(k, (int, numpy.integer)) or not isinstance(k, tuple) or isinstance(k[0], (int, numpy.integer)) else d.reshape(-1, 1)
            return _from_dense(d, self.format)
        return d


def _from_dense(d, fmt):
    d = numpy.asarray(d)
    if d.ndim == 0:
        d = d.reshape(1, 1)
    if d.ndim == 1:
        d = d.reshape(1, -1)
    return Sparse(fmt, d.shape, [(i, j, _plain(d[i, j])) for i in range(d.shape[0]) for j in range(d.shape[1]) if _nonzero(_plain(d[i, j]))])


def _wrap(x):
    import scipy.sparse

    if isinstance(x, scipy.sparse.spmatrix):
        fmt = x.format if x.format in ("csc", "csr", "coo") else "csr"
        y = x.asformat(fmt).tocoo()
        return Sparse(fmt, x.shape, [(int(r), int(c), _plain(v)) for r, c, v in zip(y.row, y.col, y.data)])
    return x


def identity(n, dtype=None, format=None):
    n = int(n)
    return Sparse(format if format in ("csc", "csr", "coo") else "csr", (n, n), [(i, i, 1) for i in range(n)])


def eye(m, n=None, k=0, dtype=None, format=None):
    if k or n not in (None, m):
        raise Unsupported("sparse.eye")
    return identity(m, dtype, format)


def _matrix(fmt):
    def make(x, shape=None, dtype=None, copy=False):
        x = _wrap(x)
        if isinstance(x, Sparse):
            return x.asformat(fmt)
        if isinstance(x, tuple) and len(x) == 2 and not isinstance(x[1], (tuple, list)) and not hasattr(x[1], "shape"):
            return Sparse(fmt, x, [])
        if isinstance(x, tuple) and len(x) == 2:
            v, (r, c) = x
            v, r, c = list(numpy.asarray(v, dtype=object)) if not isinstance(v, numpy.ndarray) else list(v), list(r), list(c)
            if not (len(v) == len(r) == len(c)):
                raise ValueError("row, column, and data array must all be the same length")
            if shape is None:
                shape = (int(max(r)) + 1, int(max(c)) + 1)
            for i, j in zip(r, c):
                if not (0 <= i < shape[0] and 0 <= j < shape[1]):
                    raise ValueError("index exceeds matrix dimension")
            return Sparse(fmt, shape, [(int(i), int(j), _plain(w)) for w, i, j in zip(v, r, c)])
        if is_sym(x) or not hasattr(x, "shape"):
            x = sarr(x)
        return _from_dense(x, fmt)

    return make


def kron(a, b, format=None):
    a, b = _wrap(a), _wrap(b)
    if not isinstance(a, Sparse):
        a = coo_matrix(a)
    if not isinstance(b, Sparse):
        b = coo_matrix(b)
    r, c = b.shape
    return Sparse("coo", (a.shape[0] * r, a.shape[1] * c),
                  [(i * r + k, j * c + l, v * w) for i, j, v in a.e for k, l, w in b.e]).asformat(format or "coo")


csc_matrix, csr_matrix, coo_matrix = _matrix("csc"), _matrix("csr"), _matrix("coo")


class _Meta(type):
    def __instancecheck__(cls, o):
        import scipy.sparse

        return type(o) is Sparse or isinstance(o, scipy.sparse.spmatrix)


class spmatrix(metaclass=_Meta):
    pass


def issparse(x):
    return isinstance(x, spmatrix)


isspmatrix = issparse


class _SparseModule:
    def __init__(self):
        import scipy.sparse
        import scipy.sparse.linalg

        self.linalg = scipy.sparse.linalg
        for n in ("identity", "eye", "csc_matrix", "csr_matrix", "coo_matrix", "kron", "spmatrix", "issparse", "isspmatrix"):
            setattr(self, n, globals()[n])

    def __getattr__(self, name):
        raise Unsupported("scipy.sparse.%s without a stand-in" % name)


class _Scipy:
    def __init__(self):
        self.sparse = _SparseModule()

    def __getattr__(self, name):
        import scipy

        return getattr(scipy, name)


def patch(p, u=None):
    """Use the stand-in in the modules of the code under test."""
    import scipy
    import scipy.sparse
    import sys

    sc = _Scipy()
    for name, mod in list(sys.modules.items()):
        if not name.startswith("zquantum.") or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if v is scipy:
                p.set(mod, k, sc)
            elif v is scipy.sparse:
                p.set(mod, k, sc.sparse)
            elif v is scipy.sparse.spmatrix:
                p.set(mod, k, spmatrix)
            elif getattr(v, "__module__", "").startswith("scipy.sparse") and callable(v) and getattr(v, "__name__", "") in ("identity", "csc_matrix", "coo_matrix", "csr_matrix", "kron", "eye", "issparse", "isspmatrix"):
                p.set(mod, k, getattr(sc.sparse, v.__name__))
