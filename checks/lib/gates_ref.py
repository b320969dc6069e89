"""Reference gate matrices, written from the gates' documented meaning."""
import math

import numpy

from symx.num import SymNum


def cos(x):
    return x.cos() if type(x) is SymNum else math.cos(x)


def sin(x):
    return x.sin() if type(x) is SymNum else math.sin(x)


def expi(x):
    return cos(x) + sin(x) * 1j


def mat(rows):
    n = len(rows)
    a = numpy.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            a[i, j] = rows[i][j]
    return a


R2 = 1 / math.sqrt(2)
PX = [[0, 1], [1, 0]]
PY = [[0, -1j], [1j, 0]]
PZ = [[1, 0], [0, -1]]
HH = [[R2, R2], [R2, -R2]]
PI = [[1, 0], [0, 1]]


def kron(a, b):
    return [[a[i // 2][j // 2] * b[i % 2][j % 2] for j in range(4)] for i in range(4)]


def rot(p, t):
    """exp(-i t/2 P) for an involution P."""
    c, s = cos(t / 2), sin(t / 2)
    n = len(p)
    return mat([[(c if i == j else 0) - 1j * s * p[i][j] for j in range(n)] for i in range(n)])


def scale(m, k):
    return m * k


def u3(t, p, l):
    return mat([[cos(t / 2), -expi(l) * sin(t / 2)], [expi(p) * sin(t / 2), expi(p) * expi(l) * cos(t / 2)]])


def xy(t):
    m = rot(PI, 0 * t)
    c, s = cos(t / 2), sin(t / 2)
    return mat([[1, 0, 0, 0], [0, c, 1j * s, 0], [0, 1j * s, c, 0], [0, 0, 0, 1]])


def diag(*v):
    return mat([[v[i] if i == j else 0 for j in range(len(v))] for i in range(len(v))])


REF = dict(
    X=lambda: mat(PX), Y=lambda: mat(PY), Z=lambda: mat(PZ), H=lambda: mat(HH), I=lambda: mat(PI),
    S=lambda: diag(1, 1j), T=lambda: diag(1, complex(R2, R2)),
    RX=lambda t: rot(PX, t), RY=lambda t: rot(PY, t), RZ=lambda t: rot(PZ, t),
    RH=lambda t: rot(HH, t) * expi(t / 2),
    PHASE=lambda t: diag(1, expi(t)), U3=u3,
    CNOT=lambda: mat([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]),
    CZ=lambda: diag(1, 1, 1, -1),
    SWAP=lambda: mat([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]),
    ISWAP=lambda: mat([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]]),
    CPHASE=lambda t: diag(1, 1, 1, expi(t)),
    XX=lambda t: rot(kron(PX, PX), t), YY=lambda t: rot(kron(PY, PY), t), ZZ=lambda t: rot(kron(PZ, PZ), t),
    XY=xy,
)
