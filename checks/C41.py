"""Workflow steps write what the library computes from the files and specs they are given."""
import importlib.util
import itertools
import json
import os
import shutil
import sys
import tempfile
import types

import symx.run
from zquantum.core import circuits, graph, measurement, serialization, utils
from zquantum.core import openfermion as OF
from zquantum.core.circuits import Circuit, layouts
from zquantum.core.distribution import MeasurementOutcomeDistribution, load_measurement_outcome_distribution
from zquantum.core.interfaces import mock_objects
from zquantum.core.interfaces.backend import QuantumBackend
from zquantum.core.interfaces.optimizer import Optimizer, construct_history_info, optimization_result
from zquantum.core.measurement import ExpectationValues, Measurements
from zquantum.core.openfermion import FermionOperator, InteractionOperator, InteractionRDM, IsingOperator, QubitOperator
from zquantum.core.openfermion.zapata_utils import _utils as ZU
from zquantum.core.testing import _initialize

from checks import C38
from checks.C05 import same_circuit
from checks.lib import fermi as F
from symx import jsonshim, num, rng, spshim, veshim

LEVEL = "model_checking"
ASSUMPTIONS = ["JSON writes and reads back finite numbers exactly; files return what was written."]


def step(name):
    full = "zquantum.steps." + name
    if full not in sys.modules:
        spec = importlib.util.spec_from_file_location(full, os.path.join(symx.run.REPO, "steps", name + ".py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules[full] = m
        spec.loader.exec_module(m)
    return sys.modules[full]


SO, SC, SE, SM, SP, SG, SU, ST = (step(n) for n in ("operators", "circuit", "evaluation", "measure", "optimize", "graph", "utils", "transforms"))


def PATCH(p, u=None):
    import checks.C36
    spshim.patch(p, u)
    checks.C36.PATCH(p, u)
    if u is None or u.get("text", True):
        p.set(num, "PYTEXT", [True])


def here(fn):
    """Runs with a scratch directory as working directory."""

    def f(h, **k):
        old, d = os.getcwd(), tempfile.mkdtemp()
        os.chdir(d)
        try:
            return fn(h, **k)
        finally:
            os.chdir(old)
            shutil.rmtree(d)

    f.__name__, f.__doc__ = fn.__name__, fn.__doc__
    return f


def terms(h, op, want, label):
    h.same(sorted(op.terms), sorted(want), label + ": terms")
    for t in want:
        h.close(h.value(op.terms[t]), want[t], label + ": coefficients")


def written(expected):
    """Steps write their results and nothing else."""
    return sorted(os.listdir(".")) == sorted(expected)


def operator(h, name, k=2, n=0):
    pool = [(), ((0, "X"),), ((1, "Y"), (2, "Z")), ((0, "Z"), (1, "Z")), ((2, "X"), (10, "Y"))]
    r = h.fixed_int(name + "rot", 0, len(pool) - 1) if n == 0 else n - 1
    op = QubitOperator()
    for i in range(k):
        op.terms[pool[(i + r) % len(pool)]] = h.real("%s%d" % (name, i), 0.1 * 10 ** i, 0.9 * 10 ** i)
    return op


def given(h, name, x, save, file):
    """The object itself or a file that contains it."""
    if h.choice(name + "_as", ["file", "object"]) == "object":
        return x
    save(x, file)
    return file


def interaction(h, name, n, sparse=True):
    a, b = ZU.np.zeros((n,) * 2, dtype=complex), ZU.np.zeros((n,) * 4, dtype=complex)
    places = list(itertools.product(range(n), repeat=4))
    if sparse:
        places = [places[h.choice(name + "_at", range(len(places)))]]
    for i in itertools.product(range(n), repeat=2):
        a[i] = h.real("%sa%d%d" % ((name,) + i), 1, 9)
    for i in places:
        b[i] = h.real("%sb%d%d%d%d" % ((name,) + i), 10, 90)
    return InteractionOperator(h.real(name + "c", 1, 9), a, b)


def same_interaction(h, got, want, label):
    n = want.one_body_tensor.shape[0]
    h.same(got.one_body_tensor.shape, (n, n), label + ": shape")
    h.close(h.value(got.constant), h.value(want.constant), label + ": constant")
    for i in itertools.product(range(n), repeat=2):
        h.close(got.one_body_tensor[i], want.one_body_tensor[i], label + ": one-body tensor")
    for i in itertools.product(range(n), repeat=4):
        h.close(got.two_body_tensor[i], want.two_body_tensor[i], label + ": two-body tensor")


# operators


@here
def zero_state(h):
    n = h.fixed_int("n", 1, 6)
    SO.get_local_zero_state_operator(n)
    got = OF.load_qubit_operator("qubit-operator.json")
    terms(h, got, dict([((), 1.0)] + [(((q, "Z"),), -1.0 / n) for q in range(n)]), "one minus the mean of Z")


@here
def number(h):
    n = h.fixed_int("n", 1, 3)
    k = h.choice("k", [None, 0, 1, 2])
    SO.get_fermion_number_operator(n, *([] if k is None else [k]))
    got = OF.load_interaction_operator("number-operator.json")
    C38.equal(h, C38.tensor_matrix(h, got, n), {(i, i): bin(i).count("1") - (k or 0) for i in range(2 ** n)}, "particle number")


@here
def diagonal(h, n):
    op = interaction(h, "h", n, n > 1)
    SO.get_diagonal_component(given(h, "op", op, OF.save_interaction_operator, "in.json"))
    d, r = OF.load_interaction_operator("diagonal-operator.json"), OF.load_interaction_operator("remainder-operator.json")
    wd, wr = OF.get_diagonal_component(op)
    same_interaction(h, d, wd, "diagonal part")
    same_interaction(h, r, wr, "remainder")


@here
def interpolate(h, shift):
    a, b = operator(h, "a"), operator(h, "b", 2, shift)
    e = h.choice("default", [True, False]) and None or h.real("e", 0.01, 0.99)
    A, B = dict(a.terms), dict(b.terms)
    x = given(h, "x", a, OF.save_qubit_operator, "a.json")
    y = given(h, "y", b, OF.save_qubit_operator, "b.json")
    SO.interpolate_qubit_operators(x, y, **({} if e is None else dict(epsilon=e)))
    e = 0.5 if e is None else e
    want = {t: (e * B[t] if t in B else 0) + ((1 - e) * A[t] if t in A else 0) for t in set(A) | set(B)}
    terms(h, OF.load_qubit_operator("qubit-operator.json"), want, "mixture")


@here
def interpolate_ends(h):
    a, b = operator(h, "a"), operator(h, "b")
    e = h.choice("e", [0, 1, 0.0, 1.0])
    OF.save_qubit_operator(a, "a.json")
    OF.save_qubit_operator(b, "b.json")
    SO.interpolate_qubit_operators("a.json", "b.json", e)
    got = OF.load_qubit_operator("qubit-operator.json")
    want = b.terms if e else a.terms
    for t in set(got.terms) | set(want):
        h.close(h.value(got.terms.get(t, 0)), want.get(t, 0), "the operator at this end")


@here
def interpolate_bad(h):
    a, b = operator(h, "a", 1), operator(h, "b", 1)
    OF.save_qubit_operator(a, "a.json")
    OF.save_qubit_operator(b, "b.json")
    e = h.real("e", -9, 9)
    h.assume(h.either(e < 0, e > 1))
    h.raises(ValueError, lambda: SO.interpolate_qubit_operators("a.json", "b.json", e), "outside of the range")


@here
def reorder(h, n):
    op = interaction(h, "h", n)
    order = list(h.choice("order", list(itertools.permutations(range(n)))))
    OF.save_interaction_operator(op, "in.json")
    SO.reorder_fermionic_modes("in.json", order)
    got = OF.load_interaction_operator("reordered-operator.json")
    a, b = ZU.np.zeros((n,) * 2, dtype=complex), ZU.np.zeros((n,) * 4, dtype=complex)
    for i in itertools.product(range(n), repeat=2):
        a[i] = op.one_body_tensor[tuple(order[x] for x in i)]
    for i in itertools.product(range(n), repeat=4):
        b[i] = op.two_body_tensor[tuple(order[x] for x in i)]
    same_interaction(h, got, InteractionOperator(op.constant, a, b), "mode k is mode ordering[k]")


@here
def hydrogen(h, every):
    """Matrix elements between the determinants of modes 0 1 and 2 3."""
    n = 4
    a, b = ZU.np.zeros((n,) * 2), ZU.np.zeros((n,) * 4)
    for p in (range(n) if every else (0, 3)):
        a[p, p] = h.real("a%d" % p, 1, 2)
    pair = [(0, 1, 1, 0), (0, 1, 3, 2), (3, 2, 0, 1), (2, 3, 3, 2), (0, 2, 2, 0), (1, 0, 2, 3)]
    places = list(itertools.product(range(n), repeat=4)) if every else pair
    i = places[h.choice("at", range(len(places)))]
    b[i] = h.real("b", 10, 90)
    c = h.real("c", 100, 900)
    SO.get_one_qubit_hydrogen_hamiltonian(given(h, "op", InteractionOperator(c, a, b), OF.save_interaction_operator, "in.json"))
    got = OF.load_qubit_operator("qubit-operator.json")
    m = {}
    for idx, key, x in [((p, p), (1, 0), a[p, p]) for p in range(n)] + [(i, (1, 1, 0, 0), b[i])]:
        for col, (row, s) in F.ladder_term(tuple(zip(idx, key)), n).items():
            m[row, col] = m.get((row, col), 0) + s * x
    # a1^ a0^ |0> and a3^ a2^ |0>
    one = {}
    for k, t in ((0, ((1, 1), (0, 1))), (1, ((3, 1), (2, 1)))):
        one[k] = F.ladder_term(t, n)[0]
    want = {}
    for r, (rk, rs) in one.items():
        for k, (ck, cs) in one.items():
            if r <= k and r != k:
                continue
            want[r, k] = rs * cs * (m.get((rk, ck), 0) + (c if r == k else 0))
    want[0, 1] = want[1, 0]
    C38.equal(h, F.qubit(h, got, 1), want, "two level matrix")


@here
def inactive(h, n_core, n_active):
    if n_core is None and n_active is None:
        a, b = ZU.np.zeros((4,) * 2, dtype=complex), ZU.np.zeros((4,) * 4, dtype=complex)
        a[1, 1], b[0, 3, 3, 0] = h.real("a", 1, 9), h.real("b", 1, 9)
        op = InteractionOperator(h.real("c", 1, 9), a, b)
    else:
        op = interaction(h, "h", 4)
    OF.save_interaction_operator(op, "in.json")
    kw = {}
    if n_core is not None:
        kw["n_core"] = n_core
    if n_active is not None:
        kw["n_active"] = n_active
    SO.remove_inactive_orbitals("in.json", **kw)
    got = OF.load_interaction_operator("frozen-operator.json")
    same_interaction(h, got, OF.remove_inactive_orbitals(op, n_active=n_active, n_core=n_core or 0), "active space")


@here
def one_qubit(h):
    ks = [h.real("k%d" % i, -9, -0.1) for i in range(4)]
    SO.create_one_qubit_operator(*ks) if h.choice("how", [True, False]) else SO.create_one_qubit_operator(z_coeff=ks[2], constant=ks[3], x_coeff=ks[0], y_coeff=ks[1])
    terms(h, OF.load_qubit_operator("qubit_operator.json"), {((0, "X"),): ks[0], ((0, "Y"),): ks[1], ((0, "Z"),): ks[2], (): ks[3]}, "coefficients")


@here
def group(h):
    op = operator(h, "k", 3)
    keep = dict(op.terms)
    sort = h.choice("sort", [None, False, True])
    SO.group_comeasureable_terms_greedy(given(h, "op", op, OF.save_qubit_operator, "in.json"), **({} if sort is None else dict(sort_terms=sort)))
    groups = OF.load_qubit_operator_set("grouped-operator.json")
    from zquantum.core.hamiltonian import group_comeasureable_terms_greedy
    want = group_comeasureable_terms_greedy(op, **({} if sort is None else dict(sort_terms=sort)))
    h.same(len(groups), len(want), "number of groups")
    for g, w in zip(groups, want):
        terms(h, g, w.terms, "group")
    h.same(sorted(t for g in groups for t in g.terms), sorted(keep), "all terms")


@here
def concatenate_lists(h):
    a = [operator(h, "a%d" % i, 1, i + 1) for i in range(h.fixed_int("na", 0, 2))]
    b = [operator(h, "b%d" % i, 2, i + 2) for i in range(h.fixed_int("nb", 0, 2))]
    x = given(h, "x", list(a), OF.save_qubit_operator_set, "a.json")
    y = given(h, "y", list(b), OF.save_qubit_operator_set, "b.json")
    SO.concatenate_qubit_operator_lists(x, y)
    got = OF.load_qubit_operator_set("concatenated-qubit-operators.json")
    h.same(len(got), len(a + b), "all operators")
    for g, w in zip(got, a + b):
        terms(h, g, w.terms, "operators in order")
    if not isinstance(x, str):
        h.check(len(x) == len(a), "the lists are not modified")


class Limited(C38.Draws):
    def _name(self):
        if self.n >= 8:
            self.h.assume(False)
        return super()._name()


@here
def random_op(h, n, k):
    d, old = Limited(h), _initialize.random
    _initialize.random = d
    try:
        SO.create_random_qubitop(n, k)
    finally:
        _initialize.random = old
    got = OF.load_qubit_operator("qubit-operator.json")
    total = 0
    for t, c in got.terms.items():
        h.check(all(0 <= q < n and p in "XYZ" for q, p in t) and len({q for q, _ in t}) == len(t), "strings on the qubits")
        h.check(c in (1, 2, 3, 4), "terms have weight one each")
        total += c
    h.same(total, k, "number of terms")


@here
def transform(h, kind):
    n = 2
    a, b = ZU.np.zeros((n,) * 2, dtype=complex), ZU.np.zeros((n,) * 4, dtype=complex)
    i = h.choice("at", [(0, 0), (0, 1), (1, 1)])
    a[i] = a[i[::-1]] = h.real("a", 1, 9)
    i = h.choice("pair", [(0, 1, 1, 0), (0, 1, 0, 1), (1, 0, 0, 1)])
    b[i] = b[i[::-1]] = h.real("b", 10, 90)
    op = InteractionOperator(h.real("c", 1, 9), a, b)
    if kind == "other":
        h.raises(RuntimeError, lambda: ST.transform_interaction_operator(h.choice("k", ["jordan-wigner", "JW", ""]), op), "other transforms")
        return
    ST.transform_interaction_operator(kind, given(h, "op", op, OF.save_interaction_operator, "in.json"))
    got = OF.load_qubit_operator("transformed-operator.json")
    m = C38.tensor_matrix(h, op, n)
    if kind == "Bravyi-Kitaev":
        m = F.relabel(m, lambda k: F.bk_encode(k, n))
    C38.equal(h, F.qubit(h, got, n), m, "the operator")
    h.check(os.path.exists("timing.json"), "timing")


# circuits


def circuit(h, name, symbolic=False):
    k = h.choice(name, range(3))
    a = h.symbol(name + "_s", 4) if symbolic else h.angle(name + "_a", 4)
    if k == 0:
        return Circuit([circuits.RX(a)(1), circuits.CNOT(0, 1)])
    if k == 1:
        return Circuit([circuits.X(0), circuits.CPHASE(a)(2, 0)], n_qubits=4)
    return Circuit([circuits.RZ(a)(0)])


@here
def ancilla(h):
    c, k = circuit(h, "c"), h.fixed_int("k", 0, 3)
    n = c.n_qubits
    SC.add_ancilla_register_to_circuit(k, given(h, "x", c, circuits.save_circuit, "c.json"))
    got = circuits.load_circuit("extended-circuit.json")
    h.same(got.n_qubits, n + k, "size of the circuit")
    h.same(len([o for o in got.operations if o.gate.name != "I"]), 2 if len(c.operations) == 2 else 1, "operations of the circuit")
    same_circuit(h, circuits.add_ancilla_register(c, k), got)


@here
def concatenate(h, k):
    cs = [circuit(h, "c%d" % i) for i in range(k)]
    SC.concatenate_circuits(given(h, "x", list(cs), circuits.save_circuitset, "c.json"))
    got = circuits.load_circuit("result-circuit.json")
    want = Circuit([o for c in cs for o in c.operations], n_qubits=max([c.n_qubits for c in cs] or [0]) or None)
    same_circuit(h, want, got)


@here
def batch(h, k, m):
    cs = [circuit(h, "c%d" % i) for i in range(k)]
    more = [circuit(h, "d%d" % i) for i in range(m)]
    xs = []
    for i, c in enumerate(cs):
        xs.append(given(h, "x%d" % i, c, circuits.save_circuit, "c%d.json" % i))
    mine = list(more)
    how = h.choice("set", ["file", "object"] + ([] if m else ["none"]))
    if how == "file":
        circuits.save_circuitset(more, "set.json")
        SC.batch_circuits(xs, "set.json")
    elif how == "none":
        SC.batch_circuits(xs)
    else:
        SC.batch_circuits(xs, mine)
    got = circuits.load_circuitset("circuit-set.json")
    h.same(len(got), k + m, "all circuits")
    for g, w in zip(got, more + cs):
        same_circuit(h, w, g)
    h.check(len(mine) == m, "the set given is not modified")


@here
def evaluate_circuit(h):
    a, b = h.symbol("theta_2", 4), h.symbol("theta_10", 4)
    c = Circuit([circuits.RX(b)(0), circuits.RZ(a)(1), circuits.RY(a)(0)])
    ps = SC.np.array([h.angle("p%d" % i, 4) for i in range(2)])
    SC.evaluate_parametrized_circuit(given(h, "c", c, circuits.save_circuit, "c.json"), given(h, "p", ps, serialization.save_array, "p.json"))
    got = circuits.load_circuit("evaluated-circuit.json")
    want = Circuit([circuits.RX(ps[0])(0), circuits.RZ(ps[1])(1), circuits.RY(ps[1])(0)])
    same_circuit(h, want, got)


@here
def ansatz(h, layers):
    spec = dict(module_name="zquantum.core.interfaces.mock_objects", function_name="MockAnsatz", number_of_layers=layers, problem_size=2)
    how = h.choice("params", ["none", "list", "file"])
    ps = [h.angle("p%d" % i, 4) for i in range(layers)]
    if how == "none":
        SC.build_ansatz_circuit(spec)
    elif how == "list":
        SC.build_ansatz_circuit(spec, ps)
    else:
        serialization.save_array(SC.np.array(ps), "p.json")
        SC.build_ansatz_circuit(spec, "p.json")
    got = circuits.load_circuit("circuit.json")
    h.same([(o.gate.name, o.qubit_indices) for o in got.operations], [("RX", (q,)) for _ in range(layers) for q in range(2)], "operations of the ansatz")
    if how == "none":
        h.same([str(o.params[0]) for o in got.operations], ["theta_%d" % l for l in range(layers) for _ in range(2)], "symbols")
    else:
        h.eq([h.value(o.params[0]) for o in got.operations], [ps[l] for l in range(layers) for _ in range(2)], "parameters in order")


@here
def random_params(h, how):
    n = h.fixed_int("n", 0, 3)
    kw = {}
    if how == "specs":
        kw["ansatz_specs"] = dict(module_name="zquantum.core.interfaces.mock_objects", function_name="MockAnsatz", number_of_layers=n, problem_size=2)
    else:
        kw["number_of_parameters"] = n
    lo, hi = -SC.np.pi * 0.5, SC.np.pi * 0.5
    if how == "range":
        lo = h.real("lo", -9, 9)
        hi = lo + h.real("width", 0, 9)
        kw.update(min_value=lo, max_value=hi)
    seed = h.choice("seed", [None, 0, 5])
    if seed is not None:
        kw["seed"] = seed
    with rng.scripted(h, "draw") as log:
        SC.generate_random_ansatz_params(**kw)
    got = serialization.load_array("params.json")
    h.same(len(got), n, "number of parameters")
    for x in got:
        h.check(h.both(x >= lo - 1e-9, x <= hi + 1e-9), "range")
    if seed is not None and n:
        h.check(any(l[0] in ("seed", "default_rng") and seed in l[1:] for l in log[:1]), "the seed is used")
    if seed is None:
        h.check(not [l for l in log if l[0] == "seed"], "no seed is set")


@here
def random_params_bad(h):
    spec = dict(module_name="zquantum.core.interfaces.mock_objects", function_name="MockAnsatz", number_of_layers=1, problem_size=2)
    kw = h.choice("kw", [dict(), dict(ansatz_specs=spec, number_of_parameters=1)])
    h.raises(AssertionError, lambda: SC.generate_random_ansatz_params(**kw), "neither or both")


@here
def combine(h):
    a = SC.np.array([h.real("a%d" % i, -9, 9) for i in range(h.fixed_int("na", 1, 2))])
    b = SC.np.array([h.real("b%d" % i, -9, 9) for i in range(h.fixed_int("nb", 1, 2))])
    serialization.save_array(a, "a.json")
    serialization.save_array(b, "b.json")
    SC.combine_ansatz_params("a.json", "b.json")
    h.eq(list(serialization.load_array("combined-params.json")), list(a) + list(b), "parameters in order")


@here
def layers(h):
    kind = h.choice("kind", [None, "nearest-neighbor", "sycamore"])
    args = (h.fixed_int("x", 1, 3),) + ((h.fixed_int("y", 1, 3), kind) if kind == "sycamore" else () if kind is None else (None, kind))
    SC.build_circuit_layers_and_connectivity(*args)
    c, l = layouts.build_circuit_layers_and_connectivity(*args)
    h.check(layouts.load_circuit_layers("circuit-layers.json").layers == l.layers, "layers")
    h.check(layouts.load_circuit_connectivity("circuit-connectivity.json").connectivity == c.connectivity, "connectivity")


# measuring and optimizing


class Backend(QuantumBackend):
    """Answers with prescribed outcomes and keeps what it was asked."""

    def __init__(self, n_samples=None, answers=None, log=None, **extra):
        super().__init__()
        self.n_samples = n_samples
        self.answers, self.log, self.extra = answers, log, extra
        if log is not None:
            log.append(("made", extra))

    def run_circuit_and_measure(self, circuit, n_samples):
        if n_samples is None:
            self.number_of_circuits_run += 1
        else:
            super().run_circuit_and_measure(circuit, n_samples)
        if self.log is not None:
            self.log.append(("run", circuit, n_samples))
        return Measurements(list(self.answers[self.number_of_circuits_run - 1]))

    def get_bitstring_distribution(self, circuit, n_samples=None):
        if self.log is not None:
            self.log.append(("distribution", circuit, n_samples))
        return self.answers


def noise(data):
    return ("noise", data)


me = types.ModuleType("checks_c41_objects")
sys.modules["checks_c41_objects"] = me


def backend_specs(h, log, **k):
    k.setdefault("n_samples", None)
    return dict(module_name="checks_c41_objects", function_name="Backend", log=log, **k)


def outcomes(h, name, n, shots):
    return [tuple(h.choice("%s%d_%d" % (name, i, q), [0, 1]) for q in range(n)) for i in range(shots)]


def surroundings(h):
    """Noise models and connectivities given as files."""
    kw, want = {}, {}
    if h.choice("noise", [False, True]):
        v = h.real("rate", 0, 1)
        utils.save_noise_model(dict(rate=v), "checks_c41_objects", "noise", "noise.json")
        kw["noise_model"] = "noise.json"
        want["rate"] = v
    if h.choice("connectivity", [False, True]):
        layouts.save_circuit_connectivity(layouts.CircuitConnectivity([(0, 1), (1, 2)]), "conn.json")
        kw["device_connectivity"] = "conn.json"
        want["connectivity"] = [(0, 1), (1, 2)]
    return kw, want


def surrounded(h, log, want):
    extra = log[0][1]
    if "rate" in want:
        h.check(extra["noise_model"][0] == "noise", "noise model given to the backend")
        h.eq(extra["noise_model"][1]["rate"], want["rate"], "noise model given to the backend")
    else:
        h.check(extra.get("noise_model") is None, "no noise model")
    if "connectivity" in want:
        h.check([tuple(x) for x in extra["device_connectivity"].connectivity] == want["connectivity"], "connectivity given to the backend")
    else:
        h.check(extra.get("device_connectivity") is None, "no connectivity")


@here
def run_one(h):
    me.Backend, me.noise = Backend, noise
    c, log = circuit(h, "c"), []
    kw, want = surroundings(h)
    n = h.choice("n", [None, 2])
    bits = outcomes(h, "o", 2, 1) + [(1, 0)]
    how = h.choice("as", ["file", "dict"])
    x = circuits.to_dict(c)
    if how == "file":
        circuits.save_circuit(c, "c.json")
        x = "c.json"
    SM.run_circuit_and_measure(backend_specs(h, log, n_samples=2, answers=[bits]), x, **dict(kw, **({} if n is None else dict(n_samples=n))))
    runs = [l for l in log if l[0] == "run"]
    h.same(len(runs), 1, "the circuit runs once")
    same_circuit(h, c, runs[0][1])
    h.same(runs[0][2], n, "number of samples")
    surrounded(h, log, want)
    h.check([tuple(b) for b in Measurements.load_from_file("measurements.json").bitstrings] == bits, "outcomes in order")


@here
def run_set(h):
    me.Backend, me.noise = Backend, noise
    cs, log = [circuit(h, "c%d" % i) for i in range(h.fixed_int("k", 1, 2))], []
    kw, want = surroundings(h) if len(cs) == 1 else ({}, {})
    n = h.choice("n", [None, 3])
    bits = [outcomes(h, "o%d" % i, 1 + i, 1) + [(1, 0)[: 1 + i]] for i in range(len(cs))]
    circuits.save_circuitset(cs, "c.json")
    SM.run_circuitset_and_measure(backend_specs(h, log, n_samples=2, answers=bits), "c.json", **dict(kw, **({} if n is None else dict(n_samples=n))))
    runs = [l for l in log if l[0] == "run"]
    h.same(len(runs), len(cs), "every circuit runs once")
    for r, c in zip(runs, cs):
        same_circuit(h, c, r[1])
        h.same(r[2], n, "number of samples")
    surrounded(h, log, want)
    got = utils.load_list("measurements-set.json")
    h.check([[tuple(b) for b in l] for l in got] == bits, "outcomes of every circuit in order")


@here
def distribution(h):
    me.Backend, me.noise = Backend, noise
    c, log = circuit(h, "c"), []
    kw, want = surroundings(h)
    p = h.real("p", 0.01, 0.99)
    circuits.save_circuit(c, "c.json")
    d = MeasurementOutcomeDistribution({(0, 1): p, (1, 1): 1 - p})
    SM.get_bitstring_distribution(backend_specs(h, log, answers=d), "c.json", **kw)
    same_circuit(h, c, [l for l in log if l[0] == "distribution"][0][1])
    surrounded(h, log, want)
    got = load_measurement_outcome_distribution("bitstring-distribution.json").distribution_dict
    h.same(sorted(got), [(0, 1), (1, 1)], "outcomes")
    h.close([got[0, 1], got[1, 1]], [p, 1 - p], "probabilities")


@here
def summed(h):
    bits = outcomes(h, "o", 2, 2) + [(1, 0)]
    m = Measurements(bits)
    op = QubitOperator()
    ts = [((0, "Z"),), ((0, "Z"), (1, "Z")), ()]
    for i, t in enumerate(ts):
        op.terms[t] = h.real("k%d" % i, 0.1, 9)
    if h.choice("measured", ["file", "object"]) == "file":
        m.save("m.json")
        m = "m.json"
    OF.save_qubit_operator(op, "op.json")
    bessel = h.choice("bessel", [None, True, False])
    SM.get_summed_expectation_values("op.json", m, **({} if bessel is None else dict(use_bessel_correction=bessel)))
    got = utils.load_value_estimate("value-estimate.json")
    want = op.terms[()]
    want = want + op.terms[ts[0]] * sum(1 - 2 * b[0] for b in bits) / 3 + op.terms[ts[1]] * sum((1 - 2 * b[0]) * (1 - 2 * b[1]) for b in bits) / 3
    h.close(h.value(got), want, "sum of the sample means")


@here
def frames(h, with_values):
    groups = [operator(h, "a", 2, 2), operator(h, "b", 1, 4)]
    OF.save_qubit_operator_set(groups, "g.json")
    kw = {}
    vs = [h.real("v%d" % i, -0.9, 0.9) for i in range(3)]
    if with_values:
        measurement.save_expectation_values(ExpectationValues(ZU.np.array(vs)), "e.json")
        kw["expectation_values"] = "e.json"
    SM.grouped_hamiltonian_analysis("g.json", **kw)
    k, n, f = utils.load_nmeas_estimate("hamiltonian_analysis.json")
    h.same(h.value(n), 3, "number of terms")
    h.same(len(f), 2, "number of groups")
    coefs = [list(g.terms.values()) for g in groups]
    var = [sum(c * c * ((1 - v * v) if with_values else 1) for c, v in zip(cs, v2)) for cs, v2 in zip(coefs, (vs[:2], vs[2:]))]
    # f_i = sqrt(var_i) * (sum of sqrt(var))
    h.close(h.value(k), f[0] + f[1], "total number of measurements", 1e-6)
    h.close(f[0] * f[0] * var[1], f[1] * f[1] * var[0], "allocation in proportion to the deviations", 1e-3)
    h.check(h.both(f[0] > 0, f[1] > 0), "positive numbers")
    h.close((f[0] - var[0]) * (f[0] - var[0]), var[0] * var[1], "variance plus the mixed term", 1e-3)


@here
def rdm_values(h, as_list):
    import checks.C37 as C37
    v = C37.state(h, 2, 1)
    one, two = C37.tensors(h, v, 2)
    rdm = InteractionRDM(one, two)
    OF.save_interaction_rdm(rdm, "r.json")
    ts = C37.strings(2)
    r = h.choice("t", [1, 6, 11])
    mine = [ts[r], ts[(r + 5) % len(ts)]]
    ops = []
    for i, t in enumerate(mine):
        op = QubitOperator()
        op.terms[t] = h.real("k%d" % i, 0.1 + 3 * i, 2 + 3 * i)
        ops.append(op)
    if not as_list:
        ops = [ops[0] + ops[1]]
    sort = h.choice("sort", [None, False, True])
    kw = {} if sort is None else dict(sort_terms=sort)
    if as_list:
        OF.save_qubit_operator_set(ops, "o.json")
        SM.expectation_values_from_rdms_for_qubitoperator_list("r.json", "o.json", **kw)
    else:
        OF.save_qubit_operator(ops[0], "o.json")
        SM.expectation_values_from_rdms("r.json", "o.json", **kw)
    got = measurement.load_expectation_values("expectation_values.json").values
    want = [h.num(C37.ev(h, v, t, F.pauli_term, 2)).real for t in mine]
    if sort and not as_list:
        want.reverse()
    h.same(len(got), 2, "one value per term")
    for g, w in zip(got, want):
        h.close(g, w, "expectation values of the state in order")


@here
def values_of(h):
    """Estimating an operator on a backend by averaging."""
    me.Backend = Backend
    log = []
    bits = outcomes(h, "o", 2, 1) + [(1, 0)]
    op = QubitOperator()
    op.terms[((0, "Z"),)] = h.real("k0", 0.1, 9)
    op.terms[((1, "Z"),)] = h.real("k1", 0.1, 9)
    c = circuit(h, "c", symbolic=True)
    how = h.choice("circuit_as", ["file", "object", "dict"])
    x = c
    if how == "file":
        circuits.save_circuit(c, "c.json")
        x = "c.json"
    elif how == "dict":
        x = circuits.to_dict(c)
    how = h.choice("operator_as", ["file", "object", "dict"])
    y = op
    if how == "file":
        OF.save_qubit_operator(op, "o.json")
        y = "o.json"
    elif how == "dict":
        y = OF.convert_qubitop_to_dict(op)
    SE.get_expectation_values_for_qubit_operator(backend_specs(h, log, n_samples=2, answers=[bits]), x, y)
    runs = [l for l in log if l[0] == "run"]
    h.same(len(runs), 1, "the circuit runs once")
    same_circuit(h, c, runs[0][1])
    h.same(runs[0][2], 2, "samples of the backend")
    got = measurement.load_expectation_values("expectation-values.json")
    h.close(list(got.values), [op.terms[((q, "Z"),)] * (sum(1 - 2 * b[q] for b in bits) / 2) for q in range(2)], "sample means")


@here
def evaluate_list(h):
    ops = [operator(h, "a", 2, 1), operator(h, "b", 1, 2)]
    vs = ExpectationValues(ZU.np.array([h.real("v%d" % i, -1, 1) for i in range(3)]))
    x = given(h, "x", ops, OF.save_qubit_operator_set, "o.json")
    y = given(h, "y", vs, measurement.save_expectation_values, "v.json")
    SE.evaluate_qubit_operator_list(x, y)
    want = 0
    for c, v in zip([c for o in ops for c in o.terms.values()], vs.values):
        want = want + c * v
    h.close(h.value(utils.load_value_estimate("value-estimate.json")), want, "sum of the contributions")


class Minimizer(Optimizer):
    """Evaluates the cost function at prescribed points and returns the last."""

    def __init__(self, points=None, log=None):
        super().__init__()
        self.points, self.log = points, log

    def _minimize(self, cost_function, initial_params, keep_history=False):
        self.log.append(("minimize", initial_params, keep_history))
        for p in self.points:
            v = cost_function(p)
            self.log.append(("value", p, v))
        return optimization_result(opt_value=v, opt_params=p, nit=1, nfev=len(self.points), **construct_history_info(cost_function, keep_history))


class Exact:
    """An estimation method: the values are functions of what is estimated."""

    def __init__(self, log=None):
        self.log = log

    def __call__(self, backend, tasks):
        out = []
        for t in tasks:
            self.log.append(("task", backend, t))
            angles = [o.params[0] for o in t.circuit.operations if o.params]
            out.append(ExpectationValues(ZU.np.array([c * angles[0] for c in t.operator.terms.values()])))
        return out


class Doubled:
    """A preprocessor."""

    def __init__(self, log=None, factor=2):
        self.log, self.factor = log, factor

    def __call__(self, tasks):
        from zquantum.core.interfaces.estimation import EstimationTask
        return [EstimationTask(self.factor * t.operator, t.circuit, t.number_of_shots) for t in tasks]


@here
def optimize(h, kind):
    me.Backend, me.Minimizer, me.Exact, me.Doubled = Backend, Minimizer, Exact, Doubled
    log = []
    op = operator(h, "k", 2, 2)
    coefs = sum(op.terms.values())
    k = 2
    points = [SP.np.array([h.angle("p%d_%d" % (i, j), 4) for j in range(k)]) for i in range(2)]
    init = SP.np.array([h.real("i%d" % i, -1, 1) for i in range(k)])
    spec = lambda f, **kw: dict(module_name="checks_c41_objects", function_name=f, log=log, **kw)
    factor = 1
    kw = dict(estimation_method_specs=spec("Exact"))
    pre = h.choice("preprocessors", [0, 1, 2])
    if pre:
        kw["estimation_preprocessors_specs"] = [spec("Doubled"), spec("Doubled", factor=3)][:pre]
        factor = [2, 6][pre - 1]
    keep = h.choice("keep", [None, True, False])
    if keep is not None:
        kw["keep_history"] = keep
    kw["initial_parameters"] = given(h, "init", init, serialization.save_array, "init.json")
    target = given(h, "op", op, OF.save_qubit_operator, "op.json")
    if kind == "circuit":
        a, b = h.symbol("theta_0", 4), h.symbol("theta_1", 4)
        c = Circuit([circuits.RX(b)(0), circuits.RX(a)(1)])
        which = 1
        SP.optimize_parametrized_circuit_for_ground_state_of_operator(spec("Minimizer", points=points), target, given(h, "c", c, circuits.save_circuit, "c.json"), spec("Backend", n_samples=3), **kw)
    else:
        which = 0
        an = dict(module_name="zquantum.core.interfaces.mock_objects", function_name="MockAnsatz", number_of_layers=k, problem_size=1)
        SP.optimize_ansatz_based_cost_function(spec("Minimizer", points=points), target, an, spec("Backend", n_samples=3), **kw)
    first = [l for l in log if l[0] == "minimize"]
    h.same(len(first), 1, "minimized once")
    h.eq(list(first[0][1]), list(init), "initial parameters")
    keeping = keep if keep is not None else kind == "circuit"
    h.same(bool(first[0][2]), keeping, "keeping the history")
    vals = [l for l in log if l[0] == "value"]
    want = [coefs * p[which] * factor for p in points]
    for v, w in zip(vals, want):
        h.close(h.value(v[2]), w, "cost of the bound circuit")
    h.check(all(type(l[1]).__name__ == "Backend" for l in log if l[0] == "task"), "estimated on the backend")
    res = serialization.load_optimization_results("optimization-results.json")
    h.close(h.value(res.opt_value), want[-1], "optimal value")
    h.close(list(res.opt_params), list(points[-1]), "optimal parameters")
    h.close(list(serialization.load_array("optimized-parameters.json")), list(points[-1]), "optimal parameters saved")
    h.same(len(res.history), 2 if keeping else 0, "history")
    if keeping:
        for e, p, w in zip(res.history, points, want):
            h.close(list(e.params), list(p), "history: parameters")
            h.close(h.value(e.value), w, "history: values")


class ShotsOf:
    """A preprocessor that allocates shots."""

    def __init__(self, log=None, shots=2):
        self.shots = shots

    def __call__(self, tasks):
        from zquantum.core.interfaces.estimation import EstimationTask
        return [EstimationTask(t.operator, t.circuit, self.shots) for t in tasks]


class PlainAnsatz(mock_objects.MockAnsatz):
    """An ansatz that keeps what it was made with."""

    def __init__(self, log=None, cost_hamiltonian=None, thetas=None):
        super().__init__(2, 2)
        me.LOG.append(("ansatz", type(self).__name__, cost_hamiltonian, thetas))


class PlainQAOA(PlainAnsatz):
    pass


class MyWarmStartQAOAAnsatz(PlainAnsatz):
    pass


@here
def optimize_options(h, kind, vary):
    """Fixed parameters, noise, tracked backends, specs as text, the default
    estimation method, and QAOA ansatze."""
    me.LOG = log = []
    me.Backend, me.Minimizer, me.Exact, me.Doubled, me.ShotsOf = Backend, Minimizer, Exact, Doubled, ShotsOf
    me.PlainAnsatz, me.PlainQAOA, me.MyWarmStartQAOAAnsatz = PlainAnsatz, PlainQAOA, MyWarmStartQAOAAnsatz
    op = QubitOperator("Z0", h.real("k0", 0.5, 2)) + QubitOperator("Z1", h.real("k1", 3, 4))
    fixed = h.choice("fixed", [0, 1, 2]) if vary == "fixed" else 1 if vary == "noise" else 0
    points = [SP.np.array([h.angle("p%d_%d" % (i, j), 4) for j in range(2 - fixed)]) for i in range(2)]

    def having(cls, **fixed):
        """The class, made with these arguments as well."""
        return type(cls.__name__, (cls,), dict(__init__=lambda self, **k: cls.__init__(self, **{**fixed, **k})))

    me.Minimizer = having(Minimizer, points=points, log=log)
    text = vary == "ansatz" and h.flag("text")
    turn = (lambda d: json.dumps(d)) if text else (lambda d: d)
    spec = lambda f, **kw: turn(dict(module_name="checks_c41_objects", function_name=f, **kw))
    kw = {}
    fixes = SP.np.array([h.angle("f%d" % j, 4) for j in range(fixed)])
    if fixed:
        kw["fixed_parameters"] = given(h, "fix", fixes, serialization.save_array, "fix.json") if vary == "fixed" else fixes
    noisy = vary == "noise"
    if noisy:
        kw["parameter_precision"] = h.real("sd", 0.1, 1)
        kw["parameter_precision_seed"] = 5
    track = h.choice("track", [None, "plain", "bitstrings"]) if vary == "backend" else None
    more = {} if track is None else dict(track_measurements=True, raw_data_file_name="raw.json")
    if track == "bitstrings":
        more["record_bitstrings"] = True
    default = vary == "backend" and h.flag("default")
    bits = [((0, 1), (0, 0)), ((1, 1), (0, 1))]
    me.Backend = having(Backend, answers=bits, log=log)
    me.Exact = having(Exact, log=log)
    if default:
        kw["estimation_preprocessors_specs"] = [spec("ShotsOf", shots=2)]
    else:
        kw["estimation_method_specs"] = spec("Exact")
        if vary == "ansatz" and h.flag("pre"):
            kw["estimation_preprocessors_specs"] = [spec("ShotsOf", shots=7)]
    kw["initial_parameters"] = SP.np.array([0.0] * (2 - fixed))
    target = op
    with rng.scripted(h) as draws:
        if kind == "circuit":
            a, b = h.symbol("theta_0", 4), h.symbol("theta_1", 4)
            c = Circuit([circuits.RX(a)(0), circuits.RX(b)(1)])
            SP.optimize_parametrized_circuit_for_ground_state_of_operator(spec("Minimizer"), target, c, spec("Backend", **more), **kw)
        else:
            which = h.choice("ansatz", ["PlainAnsatz", "PlainQAOA", "MyWarmStartQAOAAnsatz"]) if vary == "ansatz" else "PlainAnsatz"
            thetas = [h.real("t%d" % i, -9, 9) for i in range(2)]
            if "Warm" in which:
                utils.save_list(thetas, "thetas.json")
                kw["thetas"] = "thetas.json"
            SP.optimize_ansatz_based_cost_function(spec("Minimizer"), target, spec(which), spec("Backend", **more), **kw)
    if kind == "ansatz":
        made = [l for l in log if l[0] == "ansatz"]
        h.same(len(made), 1, "one ansatz")
        h.same(made[0][1], which, "as specified")
        h.check((made[0][2] is not None) is ("QAOA" in which), "QAOA ansatze get the operator")
        if "QAOA" in which:
            h.eq([made[0][2].terms[k] for k in op.terms], list(op.terms.values()), "QAOA ansatze get the operator")
        if "Warm" in which:
            h.eq(list(made[0][3]), thetas, "and the angles saved")
    if noisy:
        h.check(len(draws) > 0 and all(d[1] == 5 for d in draws if d[0] == "default_rng"), "noise with its seed")
    vals = [l for l in log if l[0] == "value"]
    h.same(len(vals), 2, "two evaluations")
    if default:
        runs = [l for l in log if l[0] == "run"]
        h.check([r[2] for r in runs] == [2, 2], "shots allocated by the preprocessor")
        seen = [[o.params[0] for o in r[1].operations if o.params] for r in runs]
        for v, b in zip(vals, bits):
            h.close(h.value(v[2]), sum(h.real("k%d" % q) * sum(1 - 2 * m[q] for m in b) / 2 for q in range(2)), "means over the samples")
    else:
        tasks = [l for l in log if l[0] == "task"]
        seen = [[o.params[0] for o in t[2].circuit.operations if o.params] for t in tasks]
        for t in tasks:
            inner = t[1].inner_backend if track else t[1]
            h.check((type(t[1]).__name__ == "MeasurementTrackingBackend") is bool(track) and type(inner) is me.Backend, "tracked if asked for")
            if track:
                h.check(t[1].raw_data_file_name == "raw.json" and bool(t[1].record_bitstrings) is (track == "bitstrings"), "tracking as asked for")
        for v, s in zip(vals, seen):
            h.close(h.value(v[2]), (h.real("k0") + h.real("k1")) * s[0], "value estimated")
    h.same(len(seen), 2, "one circuit each")
    drawn = [d[2] for d in draws if d[0] == "normal"] if noisy else []
    n = 0
    for s, p in zip(seen, points):
        want = list(fixes) + list(p)
        if kind == "ansatz":  # two qubits per layer
            s = s[::2]
        if noisy:
            want = [w + h.real("rng%d" % (n + i + 1)) for i, w in enumerate(want)]
            n += 2
        h.close(s, want, "fixed parameters come first, noise is added")
    if track and default:
        h.check(os.path.exists("raw.json"), "records are kept")


@here
def cost(h):
    """Evaluating an ansatz based cost function at saved parameters."""
    me.Backend, me.Exact, me.Doubled = Backend, Exact, Doubled
    log = []
    op = operator(h, "k", 2, 2)
    spec = lambda f, **kw: dict(module_name="checks_c41_objects", function_name=f, log=log, **kw)
    p = SP.np.array([h.angle("p%d" % j, 4) for j in range(2)])
    serialization.save_array(p, "p.json")
    an = dict(module_name="zquantum.core.interfaces.mock_objects", function_name="MockAnsatz", number_of_layers=2, problem_size=1)
    cf = dict(module_name="zquantum.core.cost_function", function_name="AnsatzBasedCostFunction")
    pre = h.choice("pre", [0, 1, 2])
    kw = dict(estimation_preprocessors_specs=[spec("Doubled"), spec("Doubled", factor=3)][:pre]) if pre else {}
    SM.evaluate_ansatz_based_cost_function(an, spec("Backend", n_samples=3), cf, "p.json", given(h, "op", op, OF.save_qubit_operator, "op.json"), spec("Exact"), **kw)
    h.close(h.value(utils.load_value_estimate("value_estimate.json")), sum(op.terms.values()) * p[0] * [1, 2, 6][pre], "cost at the parameters")


# graphs and numbers


@here
def graphs(h, kind):
    import checks.C40 as C40
    seed = h.choice("seed", [None, 0, 3])
    how = h.choice("sampler", ["none", "dict"])
    values = []

    def sampler():
        while True:
            values.append(h.real("w%d" % len(values), -9, 9))
            yield values[-1]

    me.sampler = lambda: sampler()
    kw = {}
    if how == "dict":
        kw["sampler_specs"] = dict(module_name="checks_c41_objects", function_name="sampler")
    if seed is not None:
        kw["seed"] = seed
    args, _, n, edges, make = C40.kinds(h, kind)
    f = dict(caveman=SG.generate_caveman_graph, ladder=SG.generate_ladder_graph, barbell=SG.generate_barbell_graph, complete=SG.generate_complete_graph)[kind]
    f(*(args[:1] if kind == "complete" else args), **kw)
    g = graph.load_graph("graph.json")
    C40.structure(h, g, n, edges)
    ws = [g.edges[e]["weight"] for e in g.edges]
    if how == "none":
        h.eq(ws, [1] * len(ws), "weights")
    else:
        h.same(len(values), len(ws), "one value per edge")
        h.eq(ws, values, "weights from the sampler")


@here
def integers(h):
    n = h.fixed_int("n", 0, 3)
    lo, hi = h.fixed_int("lo", 0, 1), h.fixed_int("hi", 2, 3)
    with rng.scripted(h, "draw") as log:
        SU.generate_random_list_of_integers(seed=h.choice("seed", [None, 0, 4]), low=lo, high=hi, size=n)
    got = utils.load_list("integers.json")
    h.same(len(got), n, "number of integers")
    h.check(all(lo <= x < hi for x in got), "range")


UNITS = []


def add(name, fn, b, th=False, text=True, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b, text=text))


add("zero_state", zero_state, "up to 6 qubits")
add("number", number, "up to 3 modes")
add("diagonal/1", diagonal, "all operators on 1 mode", n=1)
add("diagonal/2", diagonal, "any one-body and one two-body coefficient on 2 modes", n=2)
for s in (1, 2, 3):
    add("interpolate/%d" % s, interpolate, "any mixture and coefficients, overlapping terms", shift=s)
add("interpolate_ends", interpolate_ends, "both ends")
add("interpolate_bad", interpolate_bad, "any value outside of the range")
add("reorder/2", reorder, "all orders of 2 modes", n=2)
add("reorder/3", reorder, "all orders of 3 modes", True, n=3)
add("hydrogen", hydrogen, "any diagonal, any pair coefficient", every=False)
add("hydrogen/all", hydrogen, "any diagonal, any two-body coefficient", True, every=True)
for c, a in ((None, None), (1, None), (None, 1), (1, 1)):
    add("inactive/%s/%s" % (c, a), inactive, "any one-body and one two-body coefficient on 4 modes", c is not None or a is not None, n_core=c, n_active=a)
add("one_qubit", one_qubit, "all coefficients")
add("group", group, "3 terms, all coefficients of distinct magnitude")
add("concatenate_lists", concatenate_lists, "up to 2 + 2 operators")
add("random_op/1", random_op, "any draws (up to 8)", n=1, k=2)
add("random_op/2", random_op, "any draws (up to 8)", n=2, k=1)
for k in ("Jordan-Wigner", "Bravyi-Kitaev", "other"):
    add("transform/" + k, transform, "any one-body and one two-body coefficient on 2 modes", kind=k)
CIRCUITS = (ancilla, evaluate_circuit, run_one, run_set, distribution)
for f in (ancilla, evaluate_circuit, random_params_bad, combine, layers, run_one, run_set, distribution, summed, values_of, evaluate_list, cost, integers):
    add(f.__name__, f, "all numbers, files and objects", text=f not in CIRCUITS)
for k in (0, 1, 2):
    add("concatenate/%d" % k, concatenate, "%d circuits" % k, k == 2, text=False, k=k)
for k, m in ((0, 0), (1, 0), (1, 1), (2, 0), (0, 1)):
    add("batch/%d/%d" % (k, m), batch, "%d circuits and a set of %d" % (k, m), k == 2, text=False, k=k, m=m)
for l in (1, 2):
    add("ansatz/%d" % l, ansatz, "%d layers, all parameters" % l, text=False, layers=l)
for w in ("specs", "number", "range"):
    add("random_params/" + w, random_params, "up to 3 parameters, any draws", how=w)
for w in (False, True):
    add("frames/%s" % w, frames, "3 terms in 2 groups", with_values=w)
for w in (False, True):
    add("rdm_values/%s" % w, rdm_values, "all states of one particle in 2 modes", as_list=w)
for k in ("circuit", "ansatz"):
    add("optimize/" + k, optimize, "2 parameters, 2 evaluations, all options", kind=k)
for k in ("circuit", "ansatz"):
    for v in ("fixed", "noise", "backend", "ansatz"):
        add("optimize_options/%s/%s" % (k, v), optimize_options, "2 parameters, 2 evaluations, all of these options", kind=k, vary=v)
for k in ("caveman", "ladder", "barbell", "complete"):
    add("graphs/" + k, graphs, "graphs of up to 12 nodes", kind=k)
