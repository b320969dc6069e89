"""Decomposing circuits preserves what they do."""
import itertools

from zquantum.core import circuits
from zquantum.core.circuits import Circuit
from zquantum.core.decompositions import U3GateToRotation, decompose_operations, decompose_zquantum_circuit

from checks.lib import gates as G
from checks.lib.gates_ref import REF

LEVEL = "model_checking"
ASSUMPTIONS = ["Gate parameters are real."]


def same_up_to_phase(h, a, b, label):
    """a = e^{i phi} b, for matrices: all products a_i conj(a_j) agree."""
    fa, fb = list(a.reshape(-1)), list(b.reshape(-1))
    h.check(len(fa) == len(fb), label)
    nz = [i for i in range(len(fa)) if not (G._zero(fa[i]) and G._zero(fb[i]))]
    h.eq([fa[i] * fa[j].conjugate() for i in nz for j in nz if i <= j],
         [fb[i] * fb[j].conjugate() for i in nz for j in nz if i <= j], label)


def angles(h, kind):
    if kind == "numbers":
        vs = [h.angle("v%d" % i, 4) for i in range(3)]
        return vs, vs
    ss = [h.symbol("s%d" % i, 4) for i in range(3)]
    ps = [ss[0], ss[1] - 2 * ss[2], ss[2]] if kind == "expr" else ss
    return ps, [h.value(p) for p in ps]


def single(h, kind):
    ps, vs = angles(h, kind)
    q = h.choice("qubit", [0, 2])
    n = h.choice("n", [None, 4])
    c = Circuit([circuits.U3(*ps)(q)], n_qubits=n)
    d = decompose_zquantum_circuit(c, [U3GateToRotation()])
    h.same(d.n_qubits, c.n_qubits, "number of qubits kept")
    h.check(all(o.gate.name in ("RY", "RZ") and tuple(o.qubit_indices) == (q,) for o in d.operations), "only rotations of that qubit")
    u = G.eye(2)
    for o in d.operations:
        u = G.matmul(G.values(h, o.gate.matrix), u)
    same_up_to_phase(h, u, REF["U3"](*vs), "U3 and its decomposition agree up to a global phase")
    h.check(c.operations == [circuits.U3(*ps)(q)], "input circuit unchanged")


def product(h, d, n):
    u = G.eye(2 ** n)
    for o in d.operations:
        u = G.matmul(G.embed(G.values(h, o.gate.matrix), tuple(o.qubit_indices), n), u)
    return u


def block(ref, k):
    n = ref.shape[0]
    m = G.eye(n * 2 ** k)
    o = n * 2 ** k - n
    m[o:, o:] = ref
    return m


def controlled_blocks(h, k):
    """Control-off part untouched, control-on part right up to a phase."""
    ps, vs = angles(h, h.choice("kind", ["numbers", "symbols"]))
    qs = h.choice("qs", list(itertools.permutations(range(k + 1))))
    d = decompose_zquantum_circuit(Circuit([circuits.U3(*ps).controlled(k)(*qs)]), [U3GateToRotation()])
    h.check(all(tuple(o.qubit_indices) == tuple(qs) for o in d.operations), "same control and target qubits")
    u = G.eye(2 ** (k + 1))
    for o in d.operations:
        u = G.matmul(G.values(h, o.gate.matrix), u)
    m = 2 ** (k + 1) - 2
    h.eq(u[:m, :m], G.eye(m), "nothing happens while a control is off")
    h.eq([u[:m, m:], u[m:, :m]], [0 * u[:m, m:], 0 * u[m:, :m]], "controls are not changed")
    same_up_to_phase(h, u[m:, m:], REF["U3"](*vs), "controlled block agrees up to a phase")


def controlled(h):
    """The whole operator agrees up to a global phase."""
    ps, vs = angles(h, "numbers")
    d = decompose_zquantum_circuit(Circuit([circuits.U3(*ps).controlled(1)(0, 1)]), [U3GateToRotation()])
    u = product(h, d, 2)
    ref = block(REF["U3"](*vs), 1)
    h.eq([u[0, 0] * u[i, j].conjugate() for i in (2, 3) for j in (2, 3)], [ref[0, 0] * ref[i, j].conjugate() for i in (2, 3) for j in (2, 3)],
         "controlled U3 agrees up to a global phase")


def mixed(h, k):
    """Circuits mixing U3 with gates the rule must leave alone."""
    items, exact = [], True
    u3s = 0
    for i in range(k):
        kind = h.choice("kind%d" % i, ["U3", "U3dag", "CNOT", "RX", "H", "custom"])
        q = h.choice("q%d" % i, [(0, 1), (1, 0)])
        if kind == "U3":
            vs = [h.angle("t%d%d" % (i, j), 4) for j in range(3)]
            items.append((circuits.U3(*vs)(q[0]), REF["U3"](*vs), q[:1]))
            u3s += 1
        elif kind == "U3dag":
            vs = [h.angle("t%d%d" % (i, j), 4) for j in range(3)]
            items.append((circuits.U3(*vs).dagger(q[0]), G.adjoint(REF["U3"](*vs)), q[:1]))
        elif kind == "RX":
            v = h.angle("t%d0" % i, 4)
            items.append((circuits.RX(v)(q[0]), REF["RX"](v), q[:1]))
        elif kind == "H":
            items.append((circuits.H(q[0]), REF["H"](), q[:1]))
        elif kind == "CNOT":
            items.append((circuits.CNOT(*q), REF["CNOT"](), q))
        else:
            v = h.angle("t%d0" % i, 4)
            items.append((circuits.RZ(v).controlled(1)(*q), block(REF["RZ"](v), 1), q))
    c = Circuit([x[0] for x in items], n_qubits=2)
    d = decompose_zquantum_circuit(c, [U3GateToRotation()])
    h.check(not any(o.gate.name == "U3" for o in d.operations), "no U3 left")
    # every other operation is still there, in order, and each U3 became something equivalent
    pos = 0
    ops = list(d.operations)
    for op, ref, q in items:
        if op.gate.name == "U3":
            nxt = pos
            u = G.eye(2)
            for _ in range(3):
                if nxt >= len(ops):
                    break
                u = G.matmul(G.values(h, ops[nxt].gate.matrix), u)
                h.check(tuple(ops[nxt].qubit_indices) == tuple(q), "replacement acts on the same qubit")
                nxt += 1
            same_up_to_phase(h, u, ref, "replacement agrees up to a global phase")
            pos = nxt
        else:
            h.check(pos < len(ops) and bool(ops[pos] == op), "other operations are untouched and in order")
            pos += 1
    h.same(pos, len(ops), "nothing added")


class Rule:
    def __init__(self, table):
        self.table = table
        self.seen = []

    def predicate(self, op):
        self.seen.append(op)
        return op in self.table

    def production(self, op):
        return iter(self.table[op])


def rules(h, k):
    """The generic driver: rules apply left to right, each to everything the earlier ones produced."""
    alpha = ["a", "b", "c"]
    words = [[], ["a"], ["b"], ["c", "a"], ["b", "b"], ["a", "b", "c"]]
    rs, tables = [], []
    for i in range(k):
        s = h.choice("from%d" % i, alpha)
        t = {s: h.choice("to%d" % i, words)}
        tables.append(t)
        rs.append(Rule(t))
    word = [h.choice("w%d" % i, alpha) for i in range(h.choice("len", [0, 1, 2]))]
    want = list(word)
    for t in tables:
        want = [y for x in want for y in t.get(x, [x])]
    got = decompose_operations(iter(word), rs)
    h.check(list(got) == want, "rules are applied in order, each once, to everything", "%s -> %s" % (want, got))


def order_of_unitaries(h):
    """Chained rules on real circuits keep the unitary exactly."""
    class SwapRule:
        def predicate(self, op):
            return op.gate.name == "SWAP"

        def production(self, op):
            a, b = op.qubit_indices
            return [circuits.CNOT(a, b), circuits.CNOT(b, a), circuits.CNOT(a, b)]

    class CnotRule:
        def predicate(self, op):
            return op.gate.name == "CNOT"

        def production(self, op):
            a, b = op.qubit_indices
            return [circuits.H(b), circuits.CZ(a, b), circuits.H(b)]

    q = [h.choice("q%d" % i, list(itertools.permutations(range(3), 2))) for i in range(2)]
    t = [h.angle("t%d" % i) for i in range(2)]
    kinds = [h.choice("kind%d" % i, ["SWAP", "CNOT", "XX"]) for i in range(2)]
    ops, refs = [], []
    for i in range(2):
        ops.append(circuits.XX(t[i])(*q[i]) if kinds[i] == "XX" else getattr(circuits, kinds[i])(*q[i]))
        refs.append(REF["XX"](t[i]) if kinds[i] == "XX" else REF[kinds[i]]())
    c = Circuit(ops, n_qubits=3)
    d = decompose_zquantum_circuit(c, [SwapRule(), CnotRule()])
    h.same(d.n_qubits, 3, "number of qubits kept")
    h.check(all(o.gate.name in ("H", "CZ", "XX") for o in d.operations), "all rules were applied")
    want = G.eye(8)
    for ref, qq in zip(refs, q):
        want = G.matmul(G.embed(ref, qq, 3), want)
    h.eq(product(h, d, 3), want, "unitary preserved")


UNITS = [dict(name="single/%s" % k, fn=single, args=dict(kind=k), types=True, bounds="all angles") for k in ("numbers", "symbols", "expr")]
UNITS += [
    dict(name="blocks/1", fn=controlled_blocks, args=dict(k=1), types=True, bounds="one control, all angles, both qubit orders"),
    dict(name="blocks/2", fn=controlled_blocks, args=dict(k=2), types=True, bounds="two controls, all angles, all qubit orders"),
    dict(name="controlled", fn=controlled, types=True, bounds="one control, all angles"),
    dict(name="mixed/1", fn=mixed, args=dict(k=1), types=True, bounds="1 operation"),
    dict(name="mixed/2", fn=mixed, args=dict(k=2), types=True, bounds="2 operations", cost=5),
    dict(name="rules/1", fn=rules, args=dict(k=1), bounds="one rule over 3 letters"),
    dict(name="rules/2", fn=rules, args=dict(k=2), bounds="two rules over 3 letters", cost=5),
    dict(name="rules/0", fn=rules, args=dict(k=0), bounds="no rules"),
    dict(name="chained", fn=order_of_unitaries, types=True, bounds="2 operations on 3 qubits", cost=6),
]
