"""Saving and loading circuits preserves them."""
import io
import json
import os
import shutil
import tempfile

import sympy
from zquantum.core import circuits
from zquantum.core.circuits import (
    Circuit,
    CustomGateDefinition,
    circuit_from_dict,
    circuitset_from_dict,
    load_circuit,
    load_circuitset,
    save_circuit,
    save_circuitset,
    to_dict,
)

from checks.lib import gates as G

LEVEL = "model_checking"
ASSUMPTIONS = [
    "A number printed with str and parsed back is the same number.",
    "JSON text and files are handled concretely by the standard library.",
]

NAMES = ["theta", "theta_1", "beta", "gamma", "zeta", "S", "E", "I", "N", "Q", "C", "O", "x[0]", "x[12]", "lambda_", "Alpha"]


def through(h, c, way):
    if way == "dict":
        return circuit_from_dict(to_dict(c))
    if way == "json":
        return circuit_from_dict(json.loads(json.dumps(to_dict(c))))
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "c.json")
        if way == "file":
            save_circuit(c, p)
            return load_circuit(p)
        save_circuitset([Circuit([circuits.X(0)]), c], p)
        two = load_circuitset(p)
        h.same(len(two), 2, "set keeps its circuits")
        h.check(two[0] == Circuit([circuits.X(0)]), "set keeps the other circuit")
        return two[1]
    finally:
        shutil.rmtree(d)


def same_circuit(h, a, b):
    h.same(b.n_qubits, a.n_qubits, "number of qubits")
    h.same(len(b.operations), len(a.operations), "number of operations")
    for x, y in zip(a.operations, b.operations):
        h.same(tuple(y.qubit_indices), tuple(x.qubit_indices), "qubits")
        h.same(y.gate.name, x.gate.name, "gate name")
        h.same(len(y.params), len(x.params), "number of parameters")
        for p, q in zip(x.params, y.params):
            if isinstance(p, sympy.Basic):
                h.check((isinstance(q, sympy.Basic) and syms(q) or set()) == syms(p), "symbols of the parameters", "%s -> %s" % (p, q))
            h.eq(h.value(q), h.value(p), "parameter values")
        h.same(y.gate.num_qubits, x.gate.num_qubits, "gate size")
        h.eq(G.values(h, y.gate.matrix), G.values(h, x.gate.matrix), "gate matrices")
        h.check(bool(x == y), "loaded operation equals the saved one")
    h.check(named(a) == named(b), "free symbols")


def syms(e):
    return {s for s in e.free_symbols if not str(s).endswith("__")}


def named(c):
    """User-visible symbols (the engine's own stand-ins for numbers end in __)."""
    return {s for s in c.free_symbols if not str(s).endswith("__")}


EXPR = [
    lambda a, b: a,
    lambda a, b: a + b,
    lambda a, b: a - 2 * b,
    lambda a, b: -a / 2 + sympy.pi / 4,
    lambda a, b: b * sympy.Rational(3, 2) - a,
    lambda a, b: sympy.pi,
]


def builtin(h, name, wrap=None):
    k = G.BUILTIN[name]
    n1 = h.choice("symbol", ["theta", "x[12]"]) if k else "theta"
    a, b = h.symbol(n1, 4), h.symbol("phi", 4)
    e = h.choice("expr", range(len(EXPR) + 1)) if k else 0
    if e == len(EXPR):
        ps = [h.angle("v%d" % i, 4) for i in range(k)]
    else:
        ps = [EXPR[(e + i) % len(EXPR)](a, b) for i in range(k)]
    g = getattr(circuits, name)
    g = g(*ps) if k else g
    w = wrap or h.choice("wrap", ["plain", "dagger", "c1", "c1dagger", "daggerc1", "c2"] if n1 == "theta" and k < 3 else ["plain", "daggerc1"])
    g = G.wrap(g, w)
    rev = k < 3 and h.flag("reversed")
    qs = tuple(range(g.num_qubits)) if not rev else tuple(reversed(range(1, g.num_qubits + 1)))
    c = Circuit([g(*qs)], n_qubits=None if rev else 7)
    same_circuit(h, c, through(h, c, h.choice("way", ["json", "file"]) if n1 == "theta" and k < 3 else "json"))


def builtin_names(h, name):
    """Awkward symbol names, plain gates."""
    k = G.BUILTIN[name]
    a, b = h.symbol(h.choice("symbol", NAMES), 4), h.symbol(h.choice("symbol2", ["phi", "y[1]", "beta"]), 4)
    e = h.choice("expr", range(len(EXPR)))
    ps = [EXPR[(e + i) % len(EXPR)](a, b) for i in range(k)]
    c = Circuit([getattr(circuits, name)(*ps)(*range(1 if name in ("RX", "U3") else 2))])
    same_circuit(h, c, through(h, c, "json"))


def custom(h, wrap):
    """User-defined gates, plain and wrapped."""
    f1, f2 = [sympy.Symbol(s) for s in h.choice("formal", [("p", "q"), ("beta", "gamma"), ("S", "E"), ("t[0]", "t[1]")])]
    mat = sympy.Matrix([[sympy.cos(f1), -sympy.exp(sympy.I * f2) * sympy.sin(f1)], [sympy.sin(f1), sympy.cos(f1) + f2]])
    d = CustomGateDefinition("mine", mat, (f1, f2))
    names = h.choice("args", [("theta", "phi"), ("beta", "gamma"), ("gamma", "beta"), ("S", "N"), ("x[1]", "x[2]"), ("p", "q"), ("q", "p")])
    a, b = h.symbol(names[0], 4), h.symbol(names[1], 4)
    kind = h.choice("kind", ["symbols", "expr", "numbers", "mixed"])
    args = {
        "symbols": (a, b), "expr": (a + b, a - 2 * b), "numbers": (h.angle("v0", 4), h.angle("v1", 4)), "mixed": (b, sympy.pi / 2),
    }[kind]
    g = G.wrap(d(*args), wrap)
    c = Circuit([circuits.H(0), g(*range(g.num_qubits)), g(*reversed(range(g.num_qubits)))])
    back = through(h, c, "json")
    same_circuit(h, c, back)
    h.check(list(back.collect_custom_gate_definitions()) == list(c.collect_custom_gate_definitions()), "gate definitions survive")


def several_custom(h):
    x = sympy.Symbol("x")
    v = h.real("v")
    d1 = CustomGateDefinition("zz_gate", sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * x)]]), (x,))
    d2 = CustomGateDefinition("aa_gate", sympy.Matrix([[0, 1], [1, 0]]), ())
    d3 = CustomGateDefinition("noparam2", sympy.Matrix(4, 4, lambda i, j: i + 2 * j + sympy.I * (i - j)), ())
    t = h.symbol("theta", 4)
    pool = [d1(t)(0), d2()(1), d3()(1, 0), d1(-t)(2), circuits.RX(t)(0)]
    order = h.choice("order", [(0, 1, 2), (2, 1, 0), (3, 1, 0), (4, 0, 3, 2), (1, 1, 4)])
    c = Circuit([pool[i] for i in order])
    same_circuit(h, c, through(h, c, h.choice("way", ["json", "file", "set"])))


def conflicting(h):
    """Two different definitions under one name cannot be saved together."""
    d1 = CustomGateDefinition("g", sympy.Matrix([[0, 1], [1, 0]]), ())
    d2 = CustomGateDefinition("g", sympy.Matrix([[0, 1], [-1, 0]]), ())
    c = Circuit([d1()(0), d2()(1)])
    h.raises(ValueError, lambda: to_dict(c), "conflicting definitions are refused")
    ok = Circuit([d1()(0), CustomGateDefinition("g", sympy.Matrix([[0, 1], [1, 0]]), ())()(1)])
    same_circuit(h, ok, through(h, ok, "json"))


def sizes(h):
    k = h.choice("k", [0, 1, 2])
    n = h.choice("n", [None, 3, 6])
    ops = [circuits.CNOT(h.choice("a", [0, 1, 2]), 3), circuits.H(h.choice("b", [0, 4]))][:k]
    c = Circuit(ops, n_qubits=n)
    same_circuit(h, c, through(h, c, h.choice("way", ["dict", "json", "file", "set"])))
    h.raises(ValueError, lambda: circuit_from_dict({**to_dict(c), "schema": "zapata-v1-circuitset-v2"}), "a wrong schema is refused")


def circuitset(h):
    """Every circuit of a set is preserved, in order, custom definitions included."""
    t = h.symbol("theta", 4)
    x = sympy.Symbol("x")
    d1 = CustomGateDefinition("g", sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * x)]]), (x,))
    d2 = CustomGateDefinition("g", sympy.Matrix([[0, 1], [sympy.exp(sympy.I * x), 0]]), (x,))
    pool = [Circuit([d1(t)(0)]), Circuit([d2(2 * t)(0), circuits.RX(t)(1)]), Circuit(n_qubits=3), Circuit([circuits.XX(t)(2, 0)])]
    order = [h.choice("c%d" % i, range(4)) for i in range(3)]
    cs = [pool[i] for i in order]
    back = circuitset_from_dict(json.loads(json.dumps(to_dict(cs))))
    h.same(len(back), 3, "set size")
    for a, b in zip(cs, back):
        same_circuit(h, a, b)


UNITS = []
for name, wrap in [(n, w) for n in G.BUILTIN for w in (("plain", "daggerc1") if G.BUILTIN[n] == 3 else (None,))]:
    UNITS.append(dict(name="builtin/%s%s" % (name, "/" + wrap if wrap else ""), fn=builtin, args=dict(name=name, wrap=wrap), types=True, cost=G.BUILTIN[name] * 4,
                      bounds="16 symbol names, 7 parameter forms, wrappers, all real values"))
for name in ("RX", "CPHASE"):
    UNITS.append(dict(name="names/%s" % name, fn=builtin_names, args=dict(name=name), types=True, cost=4, bounds="16x3 symbol names x 6 expressions"))
for w in ("plain", "dagger", "c1", "c1dagger", "daggerc1", "c2"):
    UNITS.append(dict(name="custom/%s" % w, fn=custom, args=dict(wrap=w), types=True, cost=6, bounds="4x7 symbol namings x 4 argument forms"))
UNITS.append(dict(name="several_custom", fn=several_custom, types=True, bounds="3 definitions in 5 orders"))
UNITS.append(dict(name="conflicting", fn=conflicting, types=True, bounds="two definitions under one name"))
UNITS.append(dict(name="sizes", fn=sizes, types=True, bounds="0-2 operations"))
UNITS.append(dict(name="circuitset", fn=circuitset, types=True, bounds="all sequences of 3 out of 4 circuits"))
