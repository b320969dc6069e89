"""Concatenation, size inference, splitting and equality of circuits; gate layers."""
import itertools

import numpy
import sympy
from zquantum.core import circuits
from zquantum.core.circuits import Circuit, split_circuit, create_layer_of_gates, apply_gate_to_qubits, add_ancilla_register

from checks.lib import gates as G
from checks.lib.gates_ref import REF

LEVEL = "model_checking"
ASSUMPTIONS = ["Operations are drawn from a palette of one- and two-qubit gates with arbitrary real angles, on arbitrary qubits."]

N = 3


def op(h, i, n=N, palette=("RX", "CPHASE", "H", "RYdag")):
    kind = h.choice("kind%d" % i, palette)
    if kind == "CPHASE":
        q = h.choice("qs%d" % i, list(itertools.permutations(range(n), 2)))
        t = h.angle("t%d" % i)
        return circuits.CPHASE(t)(*q), REF["CPHASE"](t), q
    q = (h.choice("q%d" % i, range(n)),)
    t = h.angle("t%d" % i)
    if kind == "H":
        return circuits.H(*q), REF["H"](), q
    if kind == "RX":
        return circuits.RX(t)(*q), REF["RX"](t), q
    return circuits.RY(t).dagger(*q), G.adjoint(REF["RY"](t)), q


def product(items, n):
    w = G.eye(2 ** n)
    for _, ref, q in items:
        w = G.matmul(G.embed(ref, q, n), w)
    return w


def size(h):
    k = h.choice("k", [0, 1, 2])
    items = [op(h, i, 4, ("H", "CPHASE")) for i in range(k)]
    n = max([0] + [max(q) + 1 for _, _, q in items])
    extra = h.choice("declared", [None, 4, 5])
    c = Circuit([o for o, _, _ in items], n_qubits=extra)
    h.same(c.n_qubits, n if extra is None else extra, "number of qubits")
    h.check(list(c.operations) == [o for o, _, _ in items], "operations kept in order")


def concat(h, k1, k2):
    a = [op(h, i) for i in range(k1)]
    b = [op(h, 10 + i) for i in range(k2)]
    n1 = h.choice("n1", [None, 3])
    n2 = h.choice("n2", [None, 3])
    c1, c2 = Circuit([x[0] for x in a], n_qubits=n1), Circuit([x[0] for x in b], n_qubits=n2)
    m1, m2 = c1.n_qubits, c2.n_qubits
    s = c1 + c2
    h.same(s.n_qubits, max(m1, m2), "size of a sum is the larger size")
    h.check(list(s.operations) == [x[0] for x in a + b], "sum keeps all operations in order")
    h.check(c1.n_qubits == m1 and len(c1.operations) == k1 and len(c2.operations) == k2, "operands unchanged")
    if s.n_qubits and k1 + k2:
        h.eq(G.values(h, s.to_unitary()), product(a + b, s.n_qubits), "unitary of a sum is the product")
    if k2:
        t = c1
        for x in b:
            t = t + x[0]
        h.same(t.n_qubits, max([m1] + [max(x[2]) + 1 for x in b]), "appending operations grows the circuit as needed")
        h.check(list(t.operations) == list(s.operations), "appending one by one gives the same operations")


def split(h, k):
    items = [((circuits.RX(h.angle("t%d" % i)), circuits.H, circuits.RY(h.angle("t%d" % i)).dagger)[i % 3](i % 2),) for i in range(k)]
    n = h.choice("n", [None, 3])
    c = Circuit([x[0] for x in items], n_qubits=n)
    flags = [h.flag("f%d" % i) for i in range(k)]
    table = {id(o): f for o, f in zip(c.operations, flags)}
    parts = []
    for f, sub in split_circuit(c, lambda o: table[id(o)]):
        parts.append((f, list(sub.operations), sub.n_qubits))
    got = [o for _, ops, _ in parts for o in ops]
    h.check(len(got) == k and all(x is y for x, y in zip(got, c.operations)), "chunks concatenate to the circuit")
    h.check(all(nq == c.n_qubits for _, _, nq in parts), "every chunk keeps the number of qubits")
    h.check(all(ops and all(table[id(o)] == f for o in ops) for f, ops, _ in parts), "the predicate is constant on each chunk")
    h.check(all(parts[i][0] != parts[i + 1][0] for i in range(len(parts) - 1)), "neighbouring chunks differ")


def equality(h, name, wrap):
    k = G.BUILTIN[name]
    a = [h.real("a%d" % i, -10, 10) for i in range(k)]
    b = [h.real("b%d" % i, -10, 10) for i in range(k)]
    g1 = G.wrap(getattr(circuits, name)(*a), wrap)
    g2 = G.wrap(getattr(circuits, name)(*b), wrap)
    eq = bool(g1 == g2)
    # equal exactly when the parameters agree (up to rounding)
    near = h.both(*[h.both(x - y <= 1e-6, y - x <= 1e-6) for x, y in zip(a, b)])
    same = h.both(*[x == y for x, y in zip(a, b)])
    if eq:
        h.check(near, "equal gates have equal parameters")
    else:
        h.check(h.either(*[x != y for x, y in zip(a, b)]), "gates with equal parameters are equal")
    h.check(bool(g1 == G.wrap(getattr(circuits, name)(*a), wrap)), "a gate equals its copy")
    h.check(not (g1(*range(g1.num_qubits)) == g1(*reversed(range(g1.num_qubits)))) or g1.num_qubits == 1, "operations on other qubits differ")


def inequality(h, n1):
    """Different gates / qubits / sizes never compare equal."""
    names = list(G.BUILTIN)
    n2 = h.choice("g2", names)
    t = h.angle("t")
    w1 = h.choice("w1", ["plain", "dagger", "c1"])
    w2 = h.choice("w2", ["plain", "dagger", "c1"])

    def mk(n, w):
        g = getattr(circuits, n)
        return G.wrap(g(*[t] * G.BUILTIN[n]) if G.BUILTIN[n] else g, w)

    g1, g2 = mk(n1, w1), mk(n2, w2)
    herm = {"X", "Y", "Z", "H", "I", "CNOT", "CZ", "SWAP"}
    canon = lambda n, w: (n, "plain" if w == "dagger" and n in herm else w)
    same = canon(n1, w1) == canon(n2, w2)
    h.check(bool(g1 == g2) == same, "gates are equal exactly when they are the same gate")
    if g1.num_qubits == g2.num_qubits:
        qs = tuple(range(g1.num_qubits))
        c1, c2 = Circuit([g1(*qs)]), Circuit([g2(*qs)])
        h.check(bool(c1 == c2) == same, "circuits are equal exactly when their operations are")
    h.check(not (Circuit([g1(*range(g1.num_qubits))], n_qubits=6) == Circuit([g1(*range(g1.num_qubits))], n_qubits=5)), "sizes matter")


def layer(h, kind):
    if kind == "parametric":
        n = h.choice("n", [1, 2, 3, 5])
        ps = [[h.angle("p%d" % i)] for i in range(n)]
        c = create_layer_of_gates(n, circuits.RY, ps)
        h.same(c.n_qubits, n, "layer covers all qubits")
        by = {o.qubit_indices[0]: o for o in c.operations}
        h.same(sorted(by), list(range(n)), "one gate per qubit")
        h.same(len(c.operations), n, "exactly one gate per qubit")
        for i in range(n):
            h.eq(h.value(by[i].params[0]), ps[i][0], "each qubit gets its parameter")
    elif kind == "plain":
        n = h.choice("n", [1, 2, 3, 5])
        c = create_layer_of_gates(n, circuits.H)
        h.same(sorted(o.qubit_indices for o in c.operations), [(i,) for i in range(n)], "one gate per qubit")
        h.check(all(o.gate == circuits.H for o in c.operations), "the requested gate")
    elif kind == "u3":
        n = h.choice("n", [1, 2, 3])
        ps = [[h.angle("p%d_%d" % (i, j)) for j in range(3)] for i in range(n)]
        c = create_layer_of_gates(n, circuits.U3, ps)
        by = {o.qubit_indices[0]: o for o in c.operations}
        for i in range(n):
            h.eq([h.value(x) for x in by[i].params], ps[i], "each qubit gets its parameters")


def on_qubits(h, k, ordered):
    qs = h.choice("qubits", list(itertools.combinations((0, 1, 2, 5, 8, 11), k)) if ordered else list(itertools.permutations([0, 1, 3, 9], k)))
    ps = [[h.angle("p%d" % i)] for i in range(k)]
    start = Circuit([circuits.X(1)], n_qubits=h.choice("n", [2, 4]))
    c = apply_gate_to_qubits(start, list(qs), circuits.RX, ps)
    h.check(list(c.operations[:1]) == list(start.operations), "existing operations kept")
    by = {o.qubit_indices[0]: o for o in c.operations[1:]}
    h.same(sorted(by), sorted(qs), "gates on the requested qubits")
    h.same(len(c.operations), 1 + k, "one gate per qubit")
    h.same(c.n_qubits, max([start.n_qubits] + [q + 1 for q in qs]), "size")
    for q, p in zip(qs, ps):
        h.eq(h.value(by[q].params[0]), p[0], "the i-th parameter goes to the i-th listed qubit")


def ancilla(h):
    items = [op(h, i, 3, ("RX", "CPHASE")) for i in range(2)]
    n = h.choice("n", [None, 3, 4])
    c = Circuit([x[0] for x in items], n_qubits=n)
    k = h.choice("ancillas", [0, 1, 2])
    e = add_ancilla_register(c, k)
    h.same(e.n_qubits, c.n_qubits + k, "ancillas are added after the circuit's qubits")
    h.check(list(e.operations[:2]) == list(c.operations), "existing operations kept")
    if c.n_qubits + k <= 4:
        h.eq(G.values(h, e.to_unitary()), product(items, c.n_qubits + k), "ancillas are acted on trivially")


UNITS = [dict(name="size", fn=size, types=True, bounds="up to 3 operations on 4 qubits")]
for a, b in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1)):
    UNITS.append(dict(name="concat/%d+%d" % (a, b), fn=concat, args=dict(k1=a, k2=b), types=True, cost=a + b, thorough=(a, b) == (2, 1),
                      bounds="all palettes, qubits and angles on 3 qubits"))
for k in (0, 1, 3, 5, 8):
    UNITS.append(dict(name="split/%d" % k, fn=split, args=dict(k=k), types=True, bounds="all predicates on %d operations" % k, cost=1))
for name, k in G.BUILTIN.items():
    if k:
        for w in ("plain", "dagger", "c1"):
            UNITS.append(dict(name="equality/%s/%s" % (name, w), fn=equality, args=dict(name=name, wrap=w), types=True, bounds="all parameters in [-10,10]"))
for name in G.BUILTIN:
    UNITS.append(dict(name="inequality/%s" % name, fn=inequality, args=dict(n1=name), types=True, cost=2, bounds="against every built-in gate, plain/dagger/controlled, all parameters"))
for k in ("parametric", "plain", "u3"):
    UNITS.append(dict(name="layer/%s" % k, fn=layer, args=dict(kind=k), types=True, bounds="1-5 qubits, all parameters"))
for k in (1, 2, 3):
    for o in (True, False):
        UNITS.append(dict(name="on_qubits/%d/%s" % (k, "ascending" if o else "any order"), fn=on_qubits, args=dict(k=k, ordered=o), types=True, cost=2,
                          bounds="qubit lists of length %d" % k))
UNITS.append(dict(name="ancilla", fn=ancilla, types=True, bounds="2 operations on 3 qubits, 0-2 ancillas"))
