"""Trotter time evolution: circuits implement the product of exponentials, derivatives are exact."""
import itertools

import numpy
import sympy
from zquantum.core.circuits import Circuit
from zquantum.core.evolution import time_evolution, time_evolution_derivatives, time_evolution_for_term
from zquantum.core.openfermion import QubitOperator

from checks.lib import gates as G
from checks.lib.gates_ref import PX, PY, PZ, cos, sin, mat

LEVEL = "model_checking"
ASSUMPTIONS = ["Times and coefficients are real."]
PAULI = {"X": mat(PX), "Y": mat(PY), "Z": mat(PZ)}


def pauli(term, n):
    m = G.eye(2 ** n)
    for q, p in term:
        m = G.matmul(G.embed(PAULI[p], (q,), n), m)
    return m


def expo(term, angle, n):
    """exp(-i angle P)"""
    if not term:
        return G.eye(2 ** n)
    return G.eye(2 ** n) * cos(angle) + pauli(term, n) * (sin(angle) * -1j)


def unitary(h, c, n):
    u = G.eye(2 ** n)
    for o in c.operations:
        u = G.matmul(G.embed(G.values(h, o.gate.matrix), tuple(o.qubit_indices), n), u)
    return u


def term_of(h, n, name="p"):
    return tuple((q, p) for q in range(n) for p in [h.choice("%s%d" % (name, q), ["I", "X", "Y", "Z"])] if p != "I")


def time_of(h, kind, unit=4):
    if kind == "number":
        t = h.angle("t", unit)
        return t, t
    s = h.symbol("t", unit)
    if kind == "expr":
        return 2 * s, h.value(2 * s)
    return s, h.value(s)


def term(h, n, kind):
    """One Pauli term, arbitrary real coefficient and time."""
    t, tv = time_of(h, kind)
    p = term_of(h, n)
    c = h.angle("c", 4)
    op = QubitOperator(p, c)
    circ = time_evolution_for_term(op, t)
    h.check(circ.n_qubits <= n and circ.n_qubits == max([0] + [q + 1 for q, _ in p]), "register covers the term's qubits")
    h.eq(unitary(h, circ, n), expo(p, tv * c, n), "exp(-i t c P)")
    h.check(list(op.terms.items())[0][0] == p, "the operator is not modified")


def sum_(h, k, order, n, kind):
    """Sums of terms: the documented first-order product, repeated."""
    t, tv = time_of(h, kind, 4 * order)
    terms = []
    for i in range(k):
        if n == 2 and k == 2 and i == 0:
            p = h.choice("p0", [((0, "X"),), ((0, "Y"), (1, "Z")), ((1, "Y"),)])
        else:
            p = term_of(h, n, "p%d_" % i)
        h.assume(p not in [x[0] for x in terms])
        terms.append((p, h.choice("c%d" % i, [-0.5, 3] if i else [1.0, -0.5])))
    op = QubitOperator()
    for p, c in terms:
        op += QubitOperator(p, c)
    circ = time_evolution(op, t, trotter_order=order)
    want = G.eye(2 ** n)
    for _ in range(order):
        for p, c in terms:
            want = G.matmul(expo(p, tv * c / order, n), want)
    h.eq(unitary(h, circ, n), want, "product of the terms' exponentials, repeated")


def derivative(h, k, order, n):
    """Weighted derivative circuits give d/dt of any expectation value."""
    t = h.angle("t", 4 * order)
    terms = []
    for i in range(k):
        p = h.choice("term%d" % i, [((0, "X"),), ((0, "Z"), (n - 1, "Z")) if n > 1 else ((0, "Z"),), ((n - 1, "Y"),), ()] if i else
                     [((0, "Y"),), ((0, "X"), (n - 1, "Y")) if n > 1 else ((0, "Z"),)])
        h.assume(p not in [x[0] for x in terms])
        terms.append((p, h.choice("c%d" % i, [1.0, -0.5])))
    op = QubitOperator()
    for p, c in terms:
        op += QubitOperator(p, c)
    circs, factors = time_evolution_derivatives(op, t, trotter_order=order)
    h.same(len(circs), len(factors), "one factor per circuit")
    steps = [x for _ in range(order) for x in terms]
    u = G.eye(2 ** n)
    for p, c in steps:
        u = G.matmul(expo(p, t * c / order, n), u)
    du = numpy.zeros((2 ** n, 2 ** n), dtype=object)
    for j in range(len(steps)):
        v = G.eye(2 ** n)
        for i, (p, c) in enumerate(steps):
            v = G.matmul(expo(p, t * c / order, n), v)
            if i == j:
                v = G.matmul(pauli(p, n) * (-1j * (c / order)), v)
        du = du + v
    o = numpy.empty((2 ** n, 2 ** n), dtype=object)
    for i in range(2 ** n):
        for j in range(i, 2 ** n):
            if i == j:
                o[i, i] = h.real("o%d" % i)
            else:
                z = h.complex("o%d%d" % (i, j))
                o[i, j], o[j, i] = z, z.conjugate()
    want = G.matmul(G.adjoint(du), G.matmul(o, u)) + G.matmul(G.adjoint(u), G.matmul(o, du))
    got = numpy.zeros((2 ** n, 2 ** n), dtype=object)
    for c, f in zip(circs, factors):
        w = unitary(h, c, n)
        got = got + G.matmul(G.adjoint(w), G.matmul(o, w)) * f
    h.eq(got, want, "weighted sum over the derivative circuits is the time derivative")


def refused(h):
    h.raises(ValueError, lambda: time_evolution(QubitOperator("X0"), 0.3, method="magic"), "unknown method refused")
    h.raises(ValueError, lambda: time_evolution_derivatives(QubitOperator("X0"), 0.3, method="magic"), "unknown method refused (derivatives)")
    h.raises(ValueError, lambda: time_evolution_for_term(QubitOperator("X0") + QubitOperator("Z1"), 0.3), "a sum is not a term")


UNITS = [
    dict(name="term/%s" % k, fn=term, args=dict(n=3 if k != "expr" else 2, kind=k), types=True, cost=5, bounds="all Pauli words on 2-3 qubits, all real coefficients and times")
    for k in ("number", "symbol", "expr")
]
UNITS += [
    dict(name="sum/1/o2", fn=sum_, args=dict(k=1, order=2, n=2, kind="number"), types=True, cost=4, bounds="1 term, order 2"),
    dict(name="sum/2/o1", fn=sum_, args=dict(k=2, order=1, n=2, kind="symbol"), types=True, cost=20, bounds="2 terms on 2 qubits, order 1"),
    dict(name="sum/2/o3", fn=sum_, args=dict(k=2, order=3, n=1, kind="number"), types=True, cost=4, bounds="2 terms on 1 qubit, order 3"),
    dict(name="sum/2/o2", fn=sum_, args=dict(k=2, order=2, n=2, kind="number"), types=True, cost=20, bounds="2 terms on 2 qubits, order 2"),
    dict(name="sum/3/o2", fn=sum_, args=dict(k=3, order=2, n=1, kind="symbol"), types=True, cost=6, bounds="3 terms on 1 qubit, order 2"),
    dict(name="refused", fn=refused, bounds="-"),
]
for k, order, n in ((1, 1, 1), (2, 1, 1), (3, 1, 1), (1, 2, 1), (2, 2, 1), (2, 3, 1), (2, 1, 2), (1, 2, 2)):
    UNITS.append(dict(name="derivative/%d/o%d/n%d" % (k, order, n), fn=derivative, args=dict(k=k, order=order, n=n), types=True, cost=10 * k * order * n,
                      bounds="%d terms on %d qubits, order %d, every Hermitian observable" % (k, n, order)))
