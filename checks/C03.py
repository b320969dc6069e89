"""Binding parameters means the same as substituting the values in the semantics."""
import itertools
import math

import sympy
from zquantum.core import circuits
from zquantum.core.circuits import Circuit, CustomGateDefinition, MultiPhaseOperation

from checks.lib import gates as G
from checks.lib.gates_ref import REF

LEVEL = "model_checking"
ASSUMPTIONS = ["Parameters and bound values are real; expressions are drawn from a fixed set of shapes in two symbols."]

A, B, C, D = sympy.symbols("alpha beta gamma delta")

EXPRS = [
    ("a", lambda: A), ("b", lambda: B), ("a+b", lambda: A + B), ("a-b", lambda: A - B), ("2a", lambda: 2 * A),
    ("-a/2+b", lambda: -A / 2 + B), ("a+pi/2", lambda: A + sympy.pi / 2), ("number", lambda: sympy.pi / 3),
    ("python number", lambda: math.pi / 3), ("a*b", lambda: A * B),
]

BINDINGS = ["numbers", "a only", "b only", "a:=b", "swap", "a:=b,b:=number", "a:=a+b", "none", "extra", "a:=c+d"]


def binding(h, which):
    x, y = h.angle("x", 4), h.angle("y", 4)
    return {
        "numbers": {A: x, B: y}, "a only": {A: x}, "b only": {B: y}, "a:=b": {A: B}, "swap": {A: B, B: A},
        "a:=b,b:=number": {A: B, B: y}, "a:=a+b": {A: A + B}, "none": {}, "extra": {A: x, D: y}, "a:=c+d": {A: C + D},
    }[which]


def setup(h):
    for s in (A, B, C, D):
        h.symbol(s.name, 4)


def env_of(h, m):
    """The values the symbols take after binding."""
    return {k: h.value(v) for k, v in m.items()}


def free_after(symbols, m):
    out = set()
    for s in symbols:
        v = m.get(s, s)
        out |= v.free_symbols if isinstance(v, sympy.Basic) else set()
    return out


def frees(e):
    return e.free_symbols if isinstance(e, sympy.Basic) else set()


def gate_bind(h, name, wrap):
    setup(h)
    k = G.BUILTIN[name]
    es = []
    if k == 1:
        es.append(h.choice("expr0", EXPRS)[1]())
    else:
        es = h.choice("exprs", [(A, B, A + B), (A - B, A, math.pi / 3), (B, B, -A / 2 + B), (A, 2 * A, -B), (sympy.pi / 3, A, B)])
    which = h.choice("binding", BINDINGS)
    m = binding(h, which)
    g = G.wrap(getattr(circuits, name)(*es), wrap)
    before = tuple(g.params)
    bound = g.bind(m)
    h.check(tuple(g.params) == before, "binding leaves the original gate unchanged")
    env = env_of(h, m)
    vs = [h.value(e, env) for e in es]
    ref = REF[name](*vs)
    if "dagger" in wrap:
        ref = G.adjoint(ref)
    if "c1" in wrap:
        n = ref.shape[0]
        z = G.eye(2 * n)
        z[n:, n:] = ref
        ref = z
    h.eq(G.values(h, bound.matrix), ref, "matrix after bind = gate at the bound values")
    h.eq([h.value(p) for p in bound.params], vs, "parameters after bind")
    want = set()
    for e in es:
        want |= free_after(frees(e), m)
    have = set(bound.free_symbols)
    h.check({s for s in have if not _internal(s)} <= want, "no unbound symbol is invented or kept")
    if which in ("numbers",):
        h.check(not {s for s in have if not _internal(s)}, "binding all symbols leaves none free")


def _internal(s):
    return s.name.endswith("__")


def custom_bind(h, order):
    """User-defined gates: formal parameters and arguments may share symbols."""
    setup(h)
    formal = (A, B) if order == 0 else (B, A)
    mat = sympy.Matrix([[sympy.cos(A), A + 2 * B], [B - A, sympy.exp(sympy.I * B)]])
    d = CustomGateDefinition("twosym", mat, formal)
    e0 = h.choice("arg0", EXPRS)[1]()
    e1 = h.choice("arg1", EXPRS)[1]()
    which = h.choice("binding", BINDINGS)
    m = binding(h, which)
    g = d(e0, e1)
    env0 = {formal[0]: h.value(e0), formal[1]: h.value(e1)}

    def meaning(env):
        a, b = h.value(env[A]), h.value(env[B])
        from checks.lib.gates_ref import cos, expi

        return [cos(a), a + 2 * b, b - a, expi(b)]

    h.eq([h.value(v) for v in g.matrix], meaning(env0), "arguments replace the formal parameters simultaneously")
    env = env_of(h, m)
    env1 = {formal[0]: h.value(e0, env), formal[1]: h.value(e1, env)}
    h.eq([h.value(v) for v in g.bind(m).matrix], meaning(env1), "bind then evaluate = evaluate at the bound values")


def circuit_bind(h, shape):
    setup(h)
    x, y = h.angle("x", 4), h.angle("y", 4)
    ops = {
        "rot": lambda: [circuits.RX(A)(0), circuits.RY(B)(1), circuits.CPHASE(A - B)(1, 0), circuits.H(2)],
        "wrapped": lambda: [circuits.RZ(A + B).controlled(1)(1, 0), circuits.RX(B).dagger(1), circuits.PHASE(A).dagger.controlled(1)(0, 1)],
        "xx": lambda: [circuits.XX(A)(0, 1), circuits.U3(A, B, A)(0)],
        "numeric": lambda: [circuits.RX(math.pi / 3)(0), circuits.T(1), circuits.RY(2 * B)(0)],
    }[shape]()
    n = h.choice("n_qubits", [None, 3])
    c = Circuit(ops, n_qubits=n)
    which = h.choice("binding", ["numbers", "a only", "swap", "a:=b,b:=number", "in two steps"])
    env = env_of(h, binding(h, which if which != "in two steps" else "numbers"))
    if which == "in two steps":
        bound = c.bind({A: x}).bind({B: y})
    else:
        bound = c.bind(binding(h, which))
    h.same(bound.n_qubits, c.n_qubits, "bind keeps the number of qubits")
    h.same(len(bound.operations), len(ops), "bind keeps the number of operations")
    h.same([tuple(o.qubit_indices) for o in bound.operations], [tuple(o.qubit_indices) for o in ops], "bind keeps the qubits")
    want = G.eye(2 ** c.n_qubits)
    for o in ops:
        vs = G.values(h, o.gate.matrix) if not env else _vals(h, o.gate.matrix, env)
        want = G.matmul(G.embed(vs, o.qubit_indices, c.n_qubits), want)
    h.eq(G.values(h, bound.to_unitary()), want, "unitary of the bound circuit = unitary at the bound values")
    syms = list(Circuit(ops).free_symbols)
    seen = []
    for o in ops:
        for s in o.free_symbols:
            if s not in seen:
                seen.append(s)
    h.same(syms, seen, "free symbols in order of appearance")


def _vals(h, m, env):
    import numpy

    out = numpy.empty(m.shape, dtype=object)
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            out[i, j] = h.value(m[i, j], env)
    return out


def replace(h, name, wrap):
    setup(h)
    k = G.BUILTIN[name]
    g = G.wrap(getattr(circuits, name)(*([A, B, A + B][:k])), wrap)
    vs = [h.angle("n%d" % i, 4) for i in range(k)]
    op = g(*range(g.num_qubits))
    new = op.replace_params(tuple(vs))
    ref = REF[name](*vs)
    if "dagger" in wrap:
        ref = G.adjoint(ref)
    if "c1" in wrap:
        n = ref.shape[0]
        z = G.eye(2 * n)
        z[n:, n:] = ref
        ref = z
    h.eq(G.values(h, new.gate.matrix), ref, "replaced parameters replace all parameters")
    h.same(tuple(new.qubit_indices), tuple(op.qubit_indices), "qubits unchanged")
    h.check(list(op.params) == list(g.params), "original unchanged")


def multiphase(h):
    setup(h)
    which = h.choice("binding", BINDINGS[:7])
    m = binding(h, which)
    es = [A, B, A + B, A - B]
    op = MultiPhaseOperation(tuple(es))
    env = env_of(h, m)
    h.eq([h.value(p) for p in op.bind(m).params], [h.value(e, env) for e in es], "phase parameters after bind")
    h.same(tuple(op.params), tuple(es), "original unchanged")


UNITS = []
for name, k in G.BUILTIN.items():
    if not k:
        continue
    for w in ("plain", "dagger", "c1", "c1dagger"):
        UNITS.append(dict(name="gate/%s/%s" % (name, w), fn=gate_bind, args=dict(name=name, wrap=w), cost=5 if k == 3 else 1,
                          thorough=k == 3 and w in ("c1", "c1dagger"),
                          bounds="10 parameter expression shapes x 10 bindings, all real values"))
        UNITS.append(dict(name="replace/%s/%s" % (name, w), fn=replace, args=dict(name=name, wrap=w), bounds="all real values"))
for o in (0, 1):
    UNITS.append(dict(name="custom/%d" % o, fn=custom_bind, args=dict(order=o), cost=9, bounds="10x10 argument shapes x 10 bindings"))
for s in ("rot", "wrapped", "xx", "numeric"):
    UNITS.append(dict(name="circuit/%s" % s, fn=circuit_bind, args=dict(shape=s), cost=3, bounds="all real values"))
UNITS.append(dict(name="multiphase", fn=multiphase, bounds="all real values"))
