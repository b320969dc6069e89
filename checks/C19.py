"""Pauli operator algebra is matrix algebra."""
import numpy
from zquantum.core.openfermion import IsingOperator, QubitOperator

from checks.C07 import PAULI, pauli
from checks.lib import gates as G

LEVEL = "model_checking"


def strings(n, acts="XYZ"):
    out = [()]
    for q in range(n):
        out = [t + x for t in out for x in [()] + [((q, a),) for a in acts]]
    return out


def mat(h, op, n):
    m = numpy.zeros((2 ** n, 2 ** n), dtype=object)
    for t, c in op.terms.items():
        h.check(all(a[0] < b[0] for a, b in zip(t, t[1:])), "terms are in canonical order, one factor per qubit")
        m = m + pauli(t, n) * h.value(c)
    return m


def coef(h, name, kind):
    if kind == "complex":
        return h.complex(name)
    return h.real(name, 0.1, 9)


def raw(h, n, k, acts):
    """A product of any factors in any order."""
    cls = IsingOperator if acts == "Z" else QubitOperator
    fs = [(h.fixed_int("q%d" % i, 0, n - 1), h.choice("p%d" % i, acts)) for i in range(k)]
    c = coef(h, "c", "complex")
    how = h.choice("how", ["tuple", "list", "string", "long", "mul"])
    if how == "tuple":
        op = cls(tuple(fs), c)
    elif how == "list":
        op = cls(list(fs), c)
    elif how == "string":
        op = cls(" ".join("%s%d" % (p, q) for q, p in fs), c)
    elif how == "long":
        op = cls("[" + " ".join("%s%d" % (p, q) for q, p in fs) + "]", c)
    else:
        op = cls((), c)
        for f in fs:
            op = op * cls((f,))
    m = G.eye(2 ** n) * h.num(c)
    for q, p in fs:
        m = G.matmul(m, G.embed(PAULI[p], (q,), n))
    h.same(len(op.terms), 1, "one term")
    h.eq(mat(h, op, n), m, "the product of the factors")


def combine(h, n, ka, kb, cls, pool=None):
    """Products, sums, differences and powers of sums of terms."""
    pool = pool or strings(n, "Z" if cls is IsingOperator else "XYZ")
    f = h.choice("f", ["*", "*=", "+", "-"])
    kind = "complex" if f[0] == "*" and ka * kb == 1 else "real"

    def make(tag, k):
        op = cls()
        for i in range(k):
            op.terms[h.choice("%s%d" % (tag, i), [t for t in pool if t not in op.terms])] = coef(h, "%sc%d" % (tag, i), kind)
        return op

    a, b = make("a", ka), make("b", kb)
    A, B = mat(h, a, n), mat(h, b, n)
    if f == "*":
        r, want = a * b, G.matmul(A, B)
    elif f == "*=":
        r = a
        a *= b
        h.check(a is r, "in place")
        want = G.matmul(A, B)
    elif f == "+":
        r, want = a + b, A + B
    else:
        r, want = a - b, A - B
    h.close(mat(h, r, n), want, "the matrix of a %s b" % f, 1e-6)
    h.eq(mat(h, b, n), B, "b is left alone")
    if f != "*=":
        h.eq(mat(h, a, n), A, "a is left alone")


def power(h, n, k, cls, pool=None):
    pool = pool or strings(n, "Z" if cls is IsingOperator else "XYZ")
    op = cls()
    for i in range(k):
        op.terms[h.choice("t%d" % i, [t for t in pool if t not in op.terms])] = coef(h, "c%d" % i, "real")
    M = mat(h, op, n)
    e = h.fixed_int("e", 0, 3)
    want = G.eye(2 ** n)
    for _ in range(e):
        want = G.matmul(want, M)
    h.close(mat(h, op ** e, n), want, "the matrix power", 1e-6)
    h.eq(mat(h, op, n), M, "the operator is left alone")


UNITS = []
for n, k, acts, th in ((1, 2, "XYZ", 0), (1, 3, "XYZ", 0), (2, 2, "XYZ", 0), (2, 3, "XYZ", 0), (3, 3, "Z", 0), (2, 4, "Z", 0), (3, 3, "XYZ", 1), (2, 4, "XYZ", 1)):
    UNITS.append(dict(name="raw/%d/%d/%s" % (n, k, acts), fn=raw, args=dict(n=n, k=k, acts=acts), thorough=bool(th), types=True, bounds="all products of %d factors on %d qubits, all complex coefficients" % (k, n)))
S = [(), ((0, "X"),), ((1, "Y"),), ((0, "Z"), (1, "Z")), ((0, "Y"), (1, "X"))]
S3 = [((0, "X"), (2, "Y")), ((1, "Y"),), ((0, "Z"), (1, "Z"), (2, "Z")), ((1, "X"), (2, "Z"))]
for n, a, b, pool, th in ((1, 1, 1, None, 0), (2, 1, 1, None, 0), (1, 2, 2, None, 0), (2, 2, 1, S, 0), (2, 2, 2, S, 1), (3, 2, 1, S3, 0), (3, 1, 1, None, 1)):
    UNITS.append(dict(name="combine/%d/%d/%d/%s" % (n, a, b, "some" if pool else "all"), fn=combine, args=dict(n=n, ka=a, kb=b, cls=QubitOperator, pool=pool), thorough=bool(th), types=True, bounds="sums of %d and %d of %s terms on %d qubits, any coefficients" % (a, b, "some" if pool else "all", n)))
for n, a, b in ((2, 2, 1), (3, 1, 1)):
    UNITS.append(dict(name="ising/%d/%d/%d" % (n, a, b), fn=combine, args=dict(n=n, ka=a, kb=b, cls=IsingOperator), types=True, bounds="sums of %d and %d Ising terms on %d qubits, any coefficients" % (a, b, n)))
UNITS.append(dict(name="power/1/2", fn=power, args=dict(n=1, k=2, cls=QubitOperator), types=True, bounds="any two terms, powers up to 3"))
UNITS.append(dict(name="power/2/2", fn=power, args=dict(n=2, k=2, cls=QubitOperator, pool=S), types=True, bounds="two of some terms, powers up to 3"))
UNITS.append(dict(name="power/ising", fn=power, args=dict(n=2, k=2, cls=IsingOperator), types=True, bounds="any two Ising terms, powers up to 3"))
