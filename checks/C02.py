"""Operations act on exactly the listed qubits; circuits compose in order."""
import itertools

import numpy
import sympy
from zquantum.core import circuits
from zquantum.core.circuits import Circuit, CustomGateDefinition

from checks.lib import gates as G

LEVEL = "model_checking"
ASSUMPTIONS = [
    "Gate matrices are arbitrary (not assumed unitary); qubit indices of one operation are distinct.",
]


def arbitrary_gate(h, name, k, mode):
    """A custom k-qubit gate with an arbitrary real matrix and its values.

    mode 'number': parameters are numbers (the numeric lifting path);
    mode 'symbol': parameters are free symbols (the symbolic lifting path).
    """
    n = 2 ** k
    formal = [sympy.Symbol("%s_e%d" % (name, i)) for i in range(n * n)]
    d = CustomGateDefinition("gate_" + name, sympy.Matrix(n, n, formal), tuple(formal))
    if mode == "number":
        ps = [h.real("%s_v%d" % (name, i)) for i in range(n * n)]
        vs = ps
    else:
        ps = [h.symbol("%s_s%d" % (name, i)) for i in range(n * n)]
        vs = [h.value(p) for p in ps]
    ref = numpy.empty((n, n), dtype=object)
    for i in range(n * n):
        ref[i // n, i % n] = vs[i]
    return d(*ps), ref


def state(h, n):
    v = numpy.empty(2 ** n, dtype=object)
    for i in range(2 ** n):
        v[i] = h.complex("amp%d" % i)
    return v if h.symbolic else numpy.array(list(v), dtype=complex)


def as_sarr(h, v):
    if h.symbolic:
        from symx.npshim import sarr

        return sarr(v)
    return v


def lift(h, k, n, mode):
    g, ref = arbitrary_gate(h, "g", k, mode)
    qs = h.choice("qubits", list(itertools.permutations(range(n), k)))
    op = g(*qs)
    h.same(tuple(op.qubit_indices), tuple(qs), "operation remembers its qubits")
    want = G.embed(ref, qs, n)
    h.eq(G.values(h, op.lifted_matrix(n)), want, "lifted matrix acts on the listed qubits only")


def apply(h, k, n, mode):
    g, ref = arbitrary_gate(h, "g", k, mode)
    qs = h.choice("qubits", list(itertools.permutations(range(n), k)))
    v = state(h, n)
    got = g(*qs).apply(as_sarr(h, v))
    want = G.matmul(G.embed(ref, qs, n), v.reshape(-1, 1)).reshape(-1)
    h.eq([h.value(x) for x in numpy.array(got, dtype=object).reshape(-1)], list(want), "apply = lifted matrix times state")


def circuit(h, arities, n, modes):
    ops, want = [], G.eye(2 ** n)
    for i, (k, m) in enumerate(zip(arities, modes)):
        g, ref = arbitrary_gate(h, "g%d" % i, k, m)
        qs = h.choice("qubits%d" % i, list(itertools.permutations(range(n), k)))
        ops.append(g(*qs))
        want = G.matmul(G.embed(ref, qs, n), want)
    c = Circuit(ops, n_qubits=n)
    h.same(c.n_qubits, n, "explicit number of qubits kept")
    h.eq(G.values(h, c.to_unitary()), want, "circuit unitary is the ordered product")


def controlled_ops(h, n):
    """control/target roles on arbitrary qubits"""
    g, ref = arbitrary_gate(h, "g", 1, "number")
    k = h.choice("controls", [1, 2] if n > 2 else [1])
    qs = h.choice("qubits", list(itertools.permutations(range(n), k + 1)))
    op = g.controlled(k)(*qs)
    want = G.eye(2 ** n)
    for col in range(2 ** n):
        b = G.bits(col, n)
        if all(b[q] for q in qs[:k]):
            t = qs[k]
            for r in (0, 1):
                b2 = list(b)
                b2[t] = r
                want[G.unbits(b2), col] = ref[r, b[t]]
    h.eq(G.values(h, op.lifted_matrix(n)), want, "controlled gate acts on the target when all controls are 1")


UNITS = []
for n in (1, 2, 3, 4):
    for k in (1, 2, 3):
        if k > n:
            continue
        for mode in ("number", "symbol"):
            UNITS.append(dict(name="lift/%d-of-%d/%s" % (k, n, mode), fn=lift, cost=n * k, args=dict(k=k, n=n, mode=mode),
                              thorough=(n == 4 and k == 3) or (n == 4 and mode == "symbol") or (k == 3 and mode == "symbol"),
                              bounds="all matrices, all ordered %d-tuples of %d qubits" % (k, n)))
for n, k in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (4, 2)):
    for mode in ("number", "symbol"):
        UNITS.append(dict(name="apply/%d-of-%d/%s" % (k, n, mode), fn=apply, args=dict(k=k, n=n, mode=mode), cost=n * k,
                          thorough=n > 3 or (n == 3 and mode == "symbol"),
                          bounds="all matrices and states, all ordered %d-tuples of %d qubits" % (k, n)))
for ar, n in (((1, 1), 2), ((1, 2), 2), ((2, 1), 3), ((1, 1, 1), 2), ((2, 2), 3), ((1, 2, 1), 3)):
    for modes in (("number",) * len(ar), ("symbol",) * len(ar), ("symbol", "number", "symbol")[: len(ar)]):
        UNITS.append(dict(name="circuit/%s-on-%d/%s" % ("".join(map(str, ar)), n, "".join(m[0] for m in modes)),
                          fn=circuit, args=dict(arities=ar, n=n, modes=modes), cost=6,
                          thorough=n == 3 and (len(ar) > 2 or modes[0] == "symbol" or ar == (2, 2)), bounds="all matrices, all qubit tuples"))
for n in (2, 3, 4):
    UNITS.append(dict(name="controlled/%d" % n, fn=controlled_ops, args=dict(n=n), cost=5, bounds="all matrices, all qubit tuples"))
