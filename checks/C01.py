"""Built-in gates: unitary, equal to their documented matrix; dagger inverts; control is block-diagonal."""
import numpy
import sympy
from zquantum.core import circuits
from zquantum.core.circuits import _builtin_gates as bg

from checks.lib import gates as G
from checks.lib.gates_ref import REF

LEVEL = "model_checking"
ASSUMPTIONS = ["Gate parameters are real."]


def params(h, name, numeric):
    u = 4 if name in ("U3",) else 2
    if numeric:
        vs = [h.angle("p%d" % i, u) for i in range(G.BUILTIN[name])]
        return vs, vs
    ss = [h.symbol("p%d" % i, u) for i in range(G.BUILTIN[name])]
    return ss, [h.value(s) for s in ss]


def make(name, ps):
    g = getattr(bg, name)
    return g(*ps) if G.BUILTIN[name] else g


def block(ref, k):
    n = ref.shape[0]
    m = G.eye(n * 2 ** k)
    o = n * 2 ** k - n
    m[o:, o:] = ref
    return m


def gate(h, name, numeric):
    ps, vs = params(h, name, numeric)
    g = make(name, ps)
    ref = REF[name](*vs)
    n = ref.shape[0]
    k = {2: 1, 4: 2}[n]
    h.check(g.num_qubits == k, "number of qubits")
    h.check(tuple(g.matrix.shape) == (n, n), "matrix dimension is 2^qubits")
    h.check(tuple(g.params) == tuple(ps), "parameters are reported as given")
    a = G.values(h, g.matrix)
    h.eq(a, ref, "gate matrix is the documented one")
    h.eq(G.matmul(a, G.adjoint(a)), G.eye(n), "U U^dagger = I")
    adj = G.adjoint(ref)
    variants = [
        ("dagger", lambda: g.dagger, adj),
        ("dagger dagger", lambda: g.dagger.dagger, ref),
        ("controlled(1)", lambda: g.controlled(1), block(ref, 1)),
        ("controlled(2)", lambda: g.controlled(2), block(ref, 2)),
        ("controlled(1).controlled(1)", lambda: g.controlled(1).controlled(1), block(ref, 2)),
        ("controlled(1).dagger", lambda: g.controlled(1).dagger, block(adj, 1)),
        ("dagger.controlled(1)", lambda: g.dagger.controlled(1), block(adj, 1)),
        ("controlled(1).dagger.dagger", lambda: g.controlled(1).dagger.dagger, block(ref, 1)),
        ("dagger.controlled(1).dagger", lambda: g.dagger.controlled(1).dagger, block(ref, 1)),
        ("dagger.controlled(1).controlled(1)", lambda: g.dagger.controlled(1).controlled(1), block(adj, 2)),
        ("controlled(2).dagger.controlled(1)", lambda: g.controlled(2).dagger.controlled(1), block(adj, 3)),
        ("Dagger(ControlledGate)", lambda: circuits.Dagger(circuits.ControlledGate(g, 1)), block(adj, 1)),
        ("Dagger(ControlledGate).controlled", lambda: circuits.Dagger(circuits.ControlledGate(g, 1)).controlled(1), block(adj, 2)),
        ("ControlledGate(ControlledGate)", lambda: circuits.ControlledGate(circuits.ControlledGate(g, 1), 1), block(ref, 2)),
        ("ControlledGate(Dagger)", lambda: circuits.ControlledGate(circuits.Dagger(g), 1), block(adj, 1)),
        ("Dagger(Dagger)", lambda: circuits.Dagger(circuits.Dagger(g)), ref),
        ("Dagger(Dagger).dagger", lambda: circuits.Dagger(circuits.Dagger(g)).dagger, adj),
    ]
    for label, mk, want in variants:
        w = mk()
        h.check(2 ** w.num_qubits == want.shape[0], label + ": number of qubits")
        h.eq(G.values(h, w.matrix), want, label + ": matrix")
        h.check(list(w.params) == list(ps), label + ": parameters")


def custom(h, k, numeric):
    """A user-defined gate with an arbitrary complex matrix."""
    n = 2 ** k
    names, vals, entries = [], [], []
    for i in range(n * n):
        a, b = sympy.Symbol("a%d" % i), sympy.Symbol("b%d" % i)
        names += [a, b]
        entries.append(a + sympy.I * b)
    d = circuits.CustomGateDefinition("mygate", sympy.Matrix(n, n, entries), tuple(names))
    if numeric:
        vs = [h.real("v%d" % i) for i in range(2 * n * n)]
        ps = vs
    else:
        ps = [h.symbol("w%d" % i) for i in range(2 * n * n)]
        vs = [h.value(p) for p in ps]
    g = d(*ps)
    ref = numpy.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            t = i * n + j
            ref[i, j] = vs[2 * t] + vs[2 * t + 1] * 1j
    h.check(g.num_qubits == k, "number of qubits")
    h.eq(G.values(h, g.matrix), ref, "custom gate matrix")
    adj = G.adjoint(ref)
    h.eq(G.values(h, g.dagger.matrix), adj, "custom gate dagger")
    h.eq(G.values(h, g.dagger.dagger.matrix), ref, "custom gate double dagger")
    h.eq(G.values(h, g.controlled(1).matrix), block(ref, 1), "custom gate controlled")
    h.eq(G.values(h, g.controlled(1).dagger.matrix), block(adj, 1), "custom gate controlled dagger")
    h.eq(G.values(h, g.dagger.controlled(2).matrix), block(adj, 2), "custom gate dagger controlled")


UNITS = []
for name in G.BUILTIN:
    for numeric in (False, True):
        if numeric and not G.BUILTIN[name]:
            continue
        UNITS.append(dict(name="gate/%s/%s" % (name, "number" if numeric else "symbol"), fn=gate,
                          args=dict(name=name, numeric=numeric), bounds="all real parameters; up to 3 controls"))
for k in (1, 2):
    for numeric in (False, True):
        UNITS.append(dict(name="custom/%d/%s" % (k, "number" if numeric else "symbol"), fn=custom, cost=3,
                          args=dict(k=k, numeric=numeric), bounds="arbitrary %dx%d complex matrix" % (2 ** k, 2 ** k)))
