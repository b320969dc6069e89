"""Simulators: state evolution, counters, exact expectation values and distributions."""
import itertools

import numpy
import sympy
from symx import rng, spshim
from zquantum.core.circuits import (CNOT, RX, RY, RZ, SWAP, XX, Circuit, H, MultiPhaseOperation, T, X)
from zquantum.core.interfaces.backend import QuantumSimulator
from zquantum.core.openfermion import IsingOperator, QubitOperator, get_expectation_value
from zquantum.core.symbolic_simulator import SymbolicSimulator
from zquantum.core.wavefunction import Wavefunction

from .lib import gates as G

LEVEL = "model_checking"
PATCH = spshim.patch
ASSUMPTIONS = ["Random draws are modelled as arbitrary outcomes of nonzero probability."]


class Sim(QuantumSimulator):
    """A simulator that supports natively what its flags say."""

    def __init__(self, flags):
        super().__init__()
        self.flags = flags
        self.native = []

    def is_natively_supported(self, operation):
        return self.flags[operation]

    def run_circuit_and_measure(self, circuit, n_samples):
        raise NotImplementedError

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        self.native.append(tuple(circuit.operations))
        assert all(self.flags[o] for o in circuit.operations)
        state = initial_state
        for o in circuit.operations:
            state = o.apply(state)
        return state


def ops_for(h, n, count):
    """A palette of operations on n qubits (arbitrary angles), all distinct."""
    t = [h.angle("t%d" % i) for i in range(3)]
    if n == 1:
        pal = [RX(t[0])(0), MultiPhaseOperation((t[1], t[2])), H(0)]
    else:
        pal = [RX(t[0])(0), CNOT(1, 0), MultiPhaseOperation((t[1], 0, t[2], 0)), XX(t[1])(0, n - 1), SWAP(0, 1) if n == 2 else RY(t[2])(2)]
        if n == 3:
            pal[2] = MultiPhaseOperation((t[1],) + (0,) * 6 + (t[2],))
    return pal


def unitary(h, o, n):
    if isinstance(o, MultiPhaseOperation):
        m = G.eye(2 ** n)
        for i, p in enumerate(o.params):
            m[i, i] = h.value(sympy.exp(sympy.I * sympy.sympify(p)))
        return m
    return G.embed(G.values(h, o.gate.matrix), o.qubit_indices, n)


def state(h, n):
    """An arbitrary normalized state (complex on one qubit, real above)."""
    return h.unit_vector("s", 2 ** n, n == 1)


def evolve(h, n, length, init):
    pal = ops_for(h, n, length)
    ops = []
    idx = []
    for i in range(length):
        j = h.choice("op%d" % i, range(len(pal)))
        idx.append(j)
        ops.append(pal[j])
    flags = {o: h.flag("native%d" % k) if k in idx else True for k, o in enumerate(pal)}
    sim = Sim(flags)
    c = Circuit(ops, n_qubits=n)
    if init:
        v = state(h, n)
        given = numpy.array(v, dtype=object) if h.symbolic else numpy.array(v)
        keep = list(v)
        w = sim.get_wavefunction(c, given)
        h.eq(list(given), keep, "the initial state is not changed")
    else:
        v = [1] + [0] * (2 ** n - 1)
        w = sim.get_wavefunction(c)
    want = numpy.array(v, dtype=object).reshape(-1, 1)
    for o in ops:
        want = G.matmul(unitary(h, o, n), want)
    h.eq(w.amplitudes, want, "operations applied in order to the initial state")
    runs = [(k, tuple(g)) for k, g in itertools.groupby(ops, key=lambda o: flags[o])]
    h.same(sim.native, [g for k, g in runs if k], "native runs of operations go to the simulator together")
    h.same(sim.number_of_circuits_run, len(sim.native), "circuits counted")
    h.same(sim.number_of_jobs_run, len(sim.native), "jobs counted")


def multiphase(h, n):
    k = 2 ** n
    syms = [h.symbol("p%d" % i) for i in range(min(k, 4))]
    params = tuple(syms[i] if i < len(syms) else 0 for i in range(k))
    op = MultiPhaseOperation(params)
    h.same(tuple(op.qubit_indices), tuple(range(n)), "qubits")
    h.check(set(op.free_symbols) == set(syms), "free symbols")
    v = [h.complex("v%d" % i) for i in range(k)]
    arr = numpy.array(v, dtype=object) if h.symbolic else numpy.array(v)
    h.raises(RuntimeError, lambda: op.apply(arr), "unbound parameters are refused")
    vals = [h.angle("q%d" % i) for i in range(len(syms))]
    part = op.bind({syms[0]: vals[0]})
    h.check(set(part.free_symbols) == set(syms[1:]), "partial binding")
    b = part.bind({s: x for s, x in zip(syms, vals)})
    out = b.apply(arr)
    want = [v[i] * (h.value(sympy.cos(sympy.sympify(vals[i]))) + 1j * h.value(sympy.sin(sympy.sympify(vals[i])))) if i < len(syms) else v[i] for i in range(k)]
    h.eq(out, want, "each amplitude gets its own phase")
    h.eq(list(arr), v, "the input is not changed")
    h.raises(ValueError, lambda: b.apply(arr[:-1]), "vectors of another size are refused")
    r = op.replace_params(tuple(range(k)))
    h.same(r.params, tuple(range(k)), "replaced parameters")
    h.raises(ValueError, lambda: MultiPhaseOperation((1j,) + (0,) * (k - 1)), "complex parameters are refused")


PAULI = {"I": [[1, 0], [0, 1]], "X": [[0, 1], [1, 0]], "Y": [[0, -1j], [1j, 0]], "Z": [[1, 0], [0, -1]]}


def pauli_matrix(term, n):
    d = dict(term)
    m = numpy.array([[1]], dtype=object)
    for q in range(n):
        m = G.kron(m, numpy.array(PAULI[d.get(q, "I")], dtype=object))
    return m


def expect(h, vec, m):
    """<v|m|v>"""
    v = numpy.array([h.value(x) for x in numpy.asarray(vec, dtype=object).reshape(-1)], dtype=object).reshape(-1, 1)
    return G.matmul(G.adjoint(v), G.matmul(m, v))[0, 0]


def expectation(h, n, term, rev):
    """Any state, any coefficient: the expectation of a Pauli term."""
    v = state(h, n)
    w = Wavefunction(v)
    k = h.complex("k")
    op = QubitOperator(term, k)
    got = get_expectation_value(op, w, reverse_operator=rev)
    t = list(op.terms)[0]
    if rev:
        t = tuple((n - 1 - q, p) for q, p in t)
    h.close(got, k * expect(h, v, pauli_matrix(t, n)), "expectation value of %s" % (term or "identity"))


def sums(h, n, rev):
    """Sums of terms, including repeated supports."""
    v = state(h, n)
    w = Wavefunction(v)
    terms = ["", "Z0", "X%d" % (n - 1)] + (["Y0 Y1", "Z0 X1"] if n > 1 else ["Y0"])
    ks = [h.real("k%d" % i, 0.1, 9) for i in range(len(terms))]
    op = QubitOperator()
    for t, k in zip(terms, ks):
        op += QubitOperator(t, k)
    got = get_expectation_value(op, w, reverse_operator=rev)
    want = 0
    for t, k in zip(terms, ks):
        key = list(QubitOperator(t).terms)[0]
        if rev:
            key = tuple((n - 1 - q, p) for q, p in key)
        want = want + k * expect(h, v, pauli_matrix(key, n))
    h.eq(got, want, "expectation of a sum")


def exact(h, kind):
    """get_exact_expectation_values: one real value per term, in order, coefficient included."""
    a, b = h.angle("a"), h.angle("b")
    c = Circuit([RY(a)(0), RX(b)(1), CNOT(0, 1)])
    k = [h.real("k%d" % i, 0.1, 9) for i in range(3)]
    if kind == "ising":
        terms = ["Z0", "Z0 Z1", "Z1"]
        op = IsingOperator()
        for t, x in zip(terms, k):
            op += IsingOperator(t, x)
    else:
        terms = ["X0 Y1", "Z1", ""]
        op = QubitOperator()
        for t, x in zip(terms, k):
            op += QubitOperator(t, x)
    keys = [list(QubitOperator(t).terms)[0] for t in terms]
    sim = SymbolicSimulator()
    ev = sim.get_exact_expectation_values(c, op)
    u = numpy.array([1, 0, 0, 0], dtype=object).reshape(-1, 1)
    for o in c.operations:
        u = G.matmul(unitary(h, o, 2), u)
    got = list(ev.values)
    h.same(len(got), 3, "one value per term")
    order = [keys.index(t) for t in op.terms]
    h.eq(got, [k[i] * expect(h, u, pauli_matrix(keys[i], 2)) for i in order], "exact expectation of each term")
    h.check(all(not isinstance(x, complex) for x in got), "values are real")


def distribution(h, n):
    """Exact distribution: probabilities by bitstring, qubit 0 first."""
    a, b = h.angle("a"), h.angle("b")
    ops = [RY(a)(0)] + ([RX(b)(1), CNOT(1, 0)] if n > 1 else [RX(b)(0)]) + ([X(2)] if n > 2 else [])
    c = Circuit(ops)
    d = SymbolicSimulator().get_measurement_outcome_distribution(c).distribution_dict
    u = numpy.array([1] + [0] * (2 ** n - 1), dtype=object).reshape(-1, 1)
    for o in ops:
        u = G.matmul(unitary(h, o, n), u)
    h.same(sorted(d), sorted(itertools.product((0, 1), repeat=n)), "all outcomes listed")
    got = [d[tuple(G.bits(i, n))] for i in range(2 ** n)]
    want = [h.value(u[i, 0]).real ** 2 + h.value(u[i, 0]).imag ** 2 for i in range(2 ** n)]
    h.close(got, want, "probability of every outcome", 1e-6)


def sample(h, n, ns):
    """Sampling draws outcomes of nonzero probability, qubit 0 first."""
    ops = [X(h.choice("x", range(n)))]
    a = h.angle("a")
    ops.append(RY(a)(h.choice("r", range(n))))
    c = Circuit(ops, n_qubits=n)
    sim = SymbolicSimulator(seed=7)
    with rng.scripted(h) as log:
        m = sim.run_circuit_and_measure(c, ns)
    h.same(len(m.bitstrings), ns, "as many samples as asked for")
    h.same([e for e in log if e[0] == "default_rng"], [("default_rng", 7)], "the seed is used")
    u = numpy.array([1] + [0] * (2 ** n - 1), dtype=object).reshape(-1, 1)
    for o in ops:
        u = G.matmul(unitary(h, o, n), u)
    for b in m.bitstrings:
        h.check(type(b) is tuple and len(b) == n and set(b) <= {0, 1}, "samples are bit tuples")
        x = h.value(u[G.unbits(b), 0])
        h.check(x.real * x.real + x.imag * x.imag > 1e-10, "sampled outcomes are possible")
    for e in log:
        if e[0] == "choice":
            got = dict(zip(e[1], e[3]))
            for i in range(2 ** n):
                x = h.value(u[i, 0])
                key = "".join(map(str, G.bits(i, n)))[::-1]
                h.eq(got[key] if key in got else 0, x.real * x.real + x.imag * x.imag, "outcomes are drawn with their probability")
    h.raises(ValueError, lambda: sim.run_circuit_and_measure(c, 0), "zero samples are refused")


def bound(h):
    """Symbolic circuits: sampling needs a map; wavefunctions keep symbols."""
    s = sympy.Symbol("theta")
    c = Circuit([RX(s)(0)])
    sim = SymbolicSimulator()
    w = sim.get_wavefunction(c)
    h.check(set(w.free_symbols) == {s}, "symbols stay free")
    h.raises(ValueError, lambda: sim.run_circuit_and_measure(c, 1), "free symbols cannot be sampled")
    x = h.angle("x")
    ev = sim.get_wavefunction(c.bind({s: x}))
    h.eq(ev.amplitudes, [h.value(sympy.cos(sympy.sympify(x) / 2)), -1j * h.value(sympy.sin(sympy.sympify(x) / 2))], "bound circuit")
    with rng.scripted(h) as log:
        m = sim.run_circuit_and_measure(c, 2, {s: x})
    h.same(len(m.bitstrings), 2, "sampled with a symbol map")
    p = [e for e in log if e[0] == "choice"][0]
    q = dict(zip(p[1], p[3]))
    h.eq(q["1"], h.value(sympy.sin(sympy.sympify(x) / 2)) ** 2, "probability after binding")


UNITS = [dict(name="bound", fn=bound, types=True, bounds="any angle")]
for n in (1, 2):
    for L in (0, 1, 2, 3):
        if L < 3 or n == 1:
            UNITS.append(dict(name="evolve/%d/%d" % (n, L), fn=evolve, args=dict(n=n, length=L, init=False), types=True, cost=3, bounds="all sequences of %d operations on %d qubits, all native subsets, all angles" % (L, n)))
    for L in (1, 2):
        UNITS.append(dict(name="evolve_from/%d/%d" % (n, L), fn=evolve, args=dict(n=n, length=L, init=True), types=True, cost=3, bounds="any normalized initial state"))
UNITS.append(dict(name="evolve/2/3", fn=evolve, args=dict(n=2, length=3, init=False), types=True, thorough=True, bounds="all sequences of 3 operations on 2 qubits"))
UNITS.append(dict(name="evolve/3/2", fn=evolve, args=dict(n=3, length=2, init=False), types=True, thorough=True, bounds="all sequences of 2 operations on 3 qubits"))
for n in (1, 2, 3):
    UNITS.append(dict(name="multiphase/%d" % n, fn=multiphase, args=dict(n=n), types=True, bounds="any state, any phases, %d qubits" % n))
    UNITS.append(dict(name="distribution/%d" % n, fn=distribution, args=dict(n=n), types=True, bounds="any angles, %d qubits" % n))
    UNITS.append(dict(name="sample/%d" % n, fn=sample, args=dict(n=n, ns=1 if n > 1 else 2), types=True, bounds="any angle, all placements, any outcome"))
for n, terms in ((1, ["", "X0", "Y0", "Z0"]), (2, ["", "X0", "Y1", "Z0 Z1", "X0 Y1", "Y0 Z1", "Z1"])):
    for t in terms:
        for rev in (False, True):
            UNITS.append(dict(name="expectation/%d/%s/%s" % (n, t.replace(" ", ""), rev), fn=expectation, args=dict(n=n, term=t, rev=rev), types=True, bounds="any state of %d qubits (complex for 1, real for 2), any complex coefficient" % n))
    for rev in (False, True):
        UNITS.append(dict(name="sums/%d/%s" % (n, rev), fn=sums, args=dict(n=n, rev=rev), types=True, bounds="any state, any real coefficients"))
for t in ("X0 Y2", "Z1", "Y0 Z1 X2"):
    UNITS.append(dict(name="expectation/3/%s" % t.replace(" ", ""), fn=expectation, args=dict(n=3, term=t, rev=True), types=True, cost=4, thorough=True, bounds="any real state of 3 qubits"))
for kind in ("ising", "qubit"):
    UNITS.append(dict(name="exact/%s" % kind, fn=exact, args=dict(kind=kind), types=True, bounds="any angles and coefficients"))
