"""Ansatz circuits follow the ansatz's attributes, parameters bind in order."""
import sympy
from overrides import overrides
from zquantum.core import circuits
from zquantum.core import gradients as GR
from zquantum.core import utils as U
from zquantum.core.circuits import Circuit
from zquantum.core.circuits import symbolic as SY
from zquantum.core.interfaces import ansatz_utils as AU
from zquantum.core.interfaces.ansatz import Ansatz

LEVEL = "model_checking"


class Layers(Ansatz):
    """RX layers with symbols name_layer; two attributes and two methods that
    the circuit depends on."""

    supports_parametrized_circuits = True
    names = AU.ansatz_property("names", ("theta",))
    width = AU.ansatz_property("width")

    def __init__(self, layers, width):
        super().__init__(layers)
        self.width = width
        self._shift = 0
        self.generated = 0

    @property
    def number_of_qubits(self):
        return self.width

    @AU.invalidates_parametrized_circuit
    def rename(self, *names, back=False):
        self.names = tuple(reversed(names)) if back else names
        return ("renamed", names)

    def symbols(self):
        return ["%s_%d" % (n, l + self._shift) for l in range(self.number_of_layers) for n in self.names]

    @overrides
    def _generate_circuit(self, params=None):
        self.generated += 1
        s = self.symbols()
        ps = [sympy.Symbol(x) for x in s] if params is None else list(params)
        return Circuit([circuits.RX(p)(i % self.width) for i, p in enumerate(ps)], n_qubits=self.width)


Layers.shift = AU.invalidates_parametrized_circuit(property(lambda self: self._shift, lambda self, v: setattr(self, "_shift", v)))


def want(a, names, layers, width, shift):
    s = ["%s_%d" % (n, l + shift) for l in range(layers) for n in names]
    return Circuit([circuits.RX(sympy.Symbol(x))(i % width) for i, x in enumerate(s)], n_qubits=width)


def follows(h, steps):
    """After any changes the circuit is that of the current attributes; it is
    only generated again after a change."""
    st = dict(names=("theta",), layers=h.fixed_int("layers", 0, 2), width=2, shift=0)
    a, other = Layers(st["layers"], 2), Layers(1, 1)
    h.check(a.names == ("theta",), "default value of a property")
    current = None
    for i in range(steps):
        what = h.choice("step%d" % i, ["layers", "names", "width", "shift", "rename", "look", "same", "other"])
        if what == "layers":
            st["layers"] = a.number_of_layers = h.fixed_int("l%d" % i, 0, 3)
        elif what == "names":
            st["names"] = a.names = ("beta", "alpha")
        elif what == "width":
            st["width"] = a.width = h.fixed_int("w%d" % i, 1, 3)
        elif what == "shift":
            st["shift"] = a.shift = 9
        elif what == "rename":
            back = h.flag("back%d" % i)
            h.same(a.rename("u", "v", back=back), ("renamed", ("u", "v")), "methods return their value")
            st["names"] = ("v", "u") if back else ("u", "v")
        elif what == "same":
            a.number_of_layers = st["layers"]
        elif what == "other":
            other.number_of_layers = 3
            other.parametrized_circuit
        if h.flag("get%d" % i):
            n = a.generated
            c = a.parametrized_circuit
            if current is not None and what in ("look", "other"):
                h.check(c is current and a.generated == n, "the circuit is kept while nothing changes")
            h.check(c == want(a, **st), "the circuit of the current attributes")
            h.check(a.parametrized_circuit is c, "asked twice")
            current = c
        elif what not in ("look", "other"):
            current = None
        h.same((a.number_of_layers, a.names, a.width, a.shift, a.number_of_qubits), (st["layers"], st["names"], st["width"], st["shift"], st["width"]), "attributes have their values")
    h.check(a.parametrized_circuit == want(a, **st), "the circuit of the current attributes")
    h.same(a.number_of_params, st["layers"] * len(st["names"]), "number of parameters")
    h.check(other.parametrized_circuit == want(other, ("theta",), other.number_of_layers, 1, 0), "other ansatzes are not affected")


def revlex(name):
    a = name.rsplit("_", 1)
    return int(a[1]), a[0]


def executable(h, layers, names):
    """Parameter i goes to the i-th symbol in natural order (number first)."""
    a = Layers(layers, 2)
    a.names = names
    a.shift = h.choice("shift", [0, 8])
    s = a.symbols()
    p = GR.np.zeros(len(s))
    for i in range(len(s)):
        p[i] = h.angle("p%d" % i)
    vals = dict(zip(sorted(s, key=revlex), [h.value(x) for x in p]))
    before = a.parametrized_circuit if h.flag("first") else None
    c = a.get_executable_circuit(p)
    h.same(c.n_qubits, 2, "qubits")
    h.same(len(c.operations), len(s), "operations")
    for i, (op, x) in enumerate(zip(c.operations, s)):
        h.same((op.gate.name, tuple(op.qubit_indices)), ("RX", (i % 2,)), "operation")
        h.close(h.value(op.params[0]), vals[x], "parameter of its symbol", 1e-9)
    h.check(a.parametrized_circuit == want(a, names, layers, 2, a.shift), "the parametrized circuit stays symbolic")
    if before is not None:
        h.check(a.parametrized_circuit is before, "and is kept")
    for n in (len(s) - 1, len(s) + 1):
        if n >= 0:
            h.raises(ValueError, lambda: a.get_executable_circuit(GR.np.zeros(n)), "wrong number of parameters")
    h.raises(Exception, lambda: a.get_executable_circuit(None), "no parameters")


class Unparametrized(Ansatz):
    supports_parametrized_circuits = False

    @property
    def number_of_qubits(self):
        return 1

    @overrides
    def _generate_circuit(self, params=None):
        return Circuit([circuits.RX(p)(i) for i, p in enumerate(params)])


def unparametrized(h, n):
    a = Unparametrized(1)
    h.raises(NotImplementedError, lambda: a.parametrized_circuit, "no parametrized circuit")
    h.raises(NotImplementedError, lambda: a.number_of_params, "no number of parameters")
    p = GR.np.zeros(n)
    for i in range(n):
        p[i] = h.real("p%d" % i, -9, 9)
    c = a.get_executable_circuit(p)
    h.close([h.value(o.params[0]) for o in c.operations], [h.value(x) for x in p], "generated from the parameters", 0)
    for bad in (-1, -5):
        h.raises(ValueError, lambda: Unparametrized(bad), "negative number of layers")
    h.check(Unparametrized(0).number_of_layers == 0, "no layers")


def mapping(h, n):
    """create_symbols_map pairs symbols and values in order."""
    s = [sympy.Symbol(x) for x in h.choice("names", [["b", "a", "c", "d"], ["t_10", "t_9", "x", "alpha"]])[:n]]
    p = GR.np.zeros(n)
    for i in range(n):
        p[i] = h.real("p%d" % i, -9, 9)
    m = U.create_symbols_map(s, p)
    h.same(list(m), s, "symbols")
    h.close([m[x] for x in s], [h.value(x) for x in p], "values", 0)
    k = h.choice("k", [k for k in range(n + 2) if k != n])
    h.raises(ValueError, lambda: U.create_symbols_map(s, GR.np.zeros(k)), "different lengths")


def joined(h, k, m):
    x, y = GR.np.zeros(k), GR.np.zeros(m)
    for i in range(k):
        x[i] = h.real("x%d" % i, -9, 9)
    for i in range(m):
        y[i] = h.real("y%d" % i, -9, 9)
    r = AU.combine_ansatz_params(x, y)
    h.close([h.value(v) for v in r], [h.value(v) for v in x] + [h.value(v) for v in y], "first, then second", 0)


def order(h, key):
    """Numbers in names compare as numbers."""
    pool = ["beta", "theta"] if key != "fixed" else ["gamma", "beta", "zeta"]
    (a, i), (b, j) = [(h.choice("n%d" % k, pool), h.choice("i%d" % k, [0, 1, 2, 9, 10, 11, 20, 100])) for k in range(2)]
    x, y = sympy.Symbol("%s_%d" % (a, i)), sympy.Symbol("%s_%d" % (b, j))
    if key == "natural":
        f, want = SY.natural_key, ((a, i) < (b, j))
    elif key == "revlex":
        f, want = SY.natural_key_revlex, ((i, a) < (j, b))
    else:
        f, want = SY.natural_key_fixed_names_order(pool), ((i, pool.index(a)) < (j, pool.index(b)))
    h.check((f(x) < f(y)) == want, "order of two symbols")
    h.check((f(x) == f(y)) == ((a, i) == (b, j)), "equal keys only for equal symbols")


def deeper(h):
    """Several groups of digits, and leading zeros."""
    mk = lambda k: "%s%d%s%d" % (h.choice("a%d" % k, ["", "x"]), h.choice("b%d" % k, [2, 10]), h.choice("c%d" % k, ["_", "_y"]), h.choice("d%d" % k, [3, 20]))
    x, y = mk(0), mk(1)
    import re

    split = lambda s: [int(g) if i % 2 else g for i, g in enumerate(re.split("([0-9]+)", s))]
    h.check((SY.natural_key(sympy.Symbol(x)) < SY.natural_key(sympy.Symbol(y))) == (split(x) < split(y)), "groups compare in turn")
    h.check((SY.natural_key_revlex(sympy.Symbol(x)) < SY.natural_key_revlex(sympy.Symbol(y))) == (split(x)[::-1] < split(y)[::-1]), "from the last group")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


for k in (1, 2, 3):
    add("follows/%d" % k, follows, "all sequences of %d changes and looks" % k, k > 2, steps=k)
for l in (1, 2):
    for names in (("theta",), ("theta", "beta"), ("gamma", "beta", "alpha")):
        add("executable/%d/%d" % (l, len(names)), executable, "all angles, %d layers of %d symbols" % (l, len(names)), l * len(names) > 4, layers=l, names=names)
add("executable/3/2", executable, "all angles, 3 layers of 2 symbols", layers=3, names=("theta", "beta"))
add("unparametrized/2", unparametrized, "all parameters", n=2)
for n in (0, 1, 3):
    add("mapping/%d" % n, mapping, "all values", n=n)
for a, b in ((0, 2), (1, 2), (2, 0)):
    add("joined/%d/%d" % (a, b), joined, "all values", k=a, m=b)
for key in ("natural", "revlex", "fixed"):
    add("order/%s" % key, order, "pairs of names with numbers up to 100", key=key)
add("deeper", deeper, "names with two numbers")
