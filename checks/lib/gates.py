"""Independent reference algebra for circuits."""
import itertools

import numpy
import sympy

from symx.num import SymNum, lift
from zquantum.core.circuits import _builtin_gates as bg

# name -> number of parameters
BUILTIN = dict(
    X=0, Y=0, Z=0, H=0, I=0, S=0, T=0, CNOT=0, CZ=0, SWAP=0, ISWAP=0,
    RX=1, RY=1, RZ=1, RH=1, PHASE=1, CPHASE=1, XX=1, YY=1, ZZ=1, XY=1, U3=3,
)
WRAPS = ["plain", "dagger", "c1", "c2", "c1dagger", "daggerc1"]


def builtin(h, name, prefix="p", sym=True):
    k = BUILTIN[name]
    g = getattr(bg, name)
    if k == 0:
        return g
    ps = [h.symbol("%s%d" % (prefix, i), 4 if name in ("U3",) else 2) for i in range(k)]
    return g(*ps)


def wrap(g, w):
    if w == "plain":
        return g
    if w == "dagger":
        return g.dagger
    if w == "c1":
        return g.controlled(1)
    if w == "c2":
        return g.controlled(2)
    if w == "c1dagger":
        return g.controlled(1).dagger
    if w == "daggerc1":
        return g.dagger.controlled(1)
    raise ValueError(w)


def values(h, m):
    """Matrix (sympy or array) as an object array of harness values."""
    if isinstance(m, sympy.MatrixBase):
        rows, cols = m.shape
        out = numpy.empty((rows, cols), dtype=object)
        for i in range(rows):
            for j in range(cols):
                out[i, j] = h.value(m[i, j])
        return out
    if hasattr(m, "toarray"):
        m = m.toarray()
    out = numpy.empty(numpy.shape(m), dtype=object)
    flat = out.reshape(-1)
    for i, v in enumerate(numpy.asarray(m, dtype=object).flat):
        flat[i] = h.value(v)
    return out


def _zero(x):
    if type(x) is SymNum:
        return not x.re and not x.im
    return x == 0


def matmul(a, b):
    n, k = a.shape
    k2, m = b.shape if b.ndim == 2 else (b.shape[0], None)
    if m is None:
        b = b.reshape(k2, 1)
    out = numpy.empty((n, 1 if m is None else m), dtype=object)
    for i in range(n):
        for j in range(out.shape[1]):
            s = 0
            for t in range(k):
                x, y = a[i, t], b[t, j]
                if _zero(x) or _zero(y):
                    continue
                s = s + x * y
            out[i, j] = s
    return out if m is not None else out.reshape(-1)


def adjoint(a):
    out = numpy.empty((a.shape[1], a.shape[0]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            out[j, i] = a[i, j].conjugate()
    return out


def eye(n):
    out = numpy.zeros((n, n), dtype=object)
    for i in range(n):
        out[i, i] = 1
    return out


def kron(a, b):
    r, c = b.shape
    out = numpy.zeros((a.shape[0] * r, a.shape[1] * c), dtype=object)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if _zero(a[i, j]):
                continue
            for p in range(r):
                for q in range(c):
                    out[i * r + p, j * c + q] = a[i, j] * b[p, q]
    return out


def bits(k, n):
    """Most significant first: qubit 0 is the first factor."""
    return [(k >> (n - 1 - i)) & 1 for i in range(n)]


def unbits(b):
    r = 0
    for x in b:
        r = 2 * r + x
    return r


def embed(m, qubits, n):
    """The matrix acting as m on the listed qubits (first listed = first factor)."""
    out = numpy.zeros((2 ** n, 2 ** n), dtype=object)
    k = len(qubits)
    for col in range(2 ** n):
        b = bits(col, n)
        sub = unbits([b[q] for q in qubits])
        for r in range(2 ** k):
            v = m[r, sub]
            if _zero(v):
                continue
            b2 = list(b)
            for q, x in zip(qubits, bits(r, k)):
                b2[q] = x
            out[unbits(b2), col] = v
    return out
