"""Random instances for tests, and the contracts estimators are held to."""
import itertools
import random

import numpy
from zquantum.core.circuits import _testing as CT
from zquantum.core.circuits import Circuit
from zquantum.core.interfaces import estimator_contract as EC
from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import InteractionOperator, IsingOperator, QubitOperator
from zquantum.core.openfermion.testing import testing_utils as OT
from zquantum.core.openfermion.testing import random as OR
from zquantum.core.testing import _initialize as TI
from zquantum.core.wavefunction import Wavefunction

from symx import npshim

LEVEL = "model_checking"
ASSUMPTIONS = ["Random generators give any value of the type and range asked for, and the same values in the same order after the same seed."]


class Draws:
    """Any outcome of random draws; those after a seed are named by it, those before are always new."""

    def __init__(self, h, repeats=0):
        self.h, self.key, self.n, self.runs, self.repeats, self.last = h, "free", 0, 0, repeats, {}

    def seed(self, s=None):
        self.key, self.n, self.last = "s%s_" % s, 0, {}

    def fresh(self):
        """Another state of the generator, as after any time."""
        self.runs += 1
        self.key, self.n, self.last = "free%d_" % self.runs, 0, {}

    def name(self):
        self.n += 1
        return "%s%d" % (self.key, self.n)

    def real(self, lo=-9, hi=9):
        return self.h.real(self.name(), lo, hi)

    def array(self, shape, **k):
        r = numpy.empty(shape, dtype=object)
        for i in numpy.ndindex(*shape):
            r[i] = self.real(**k)
        return r.view(npshim.SArr) if self.h.symbolic else r.astype(float)

    def randn(self, *shape):
        return self.array(shape) if shape else self.real()

    def rand(self, *shape):  # not zero: that has probability zero
        return self.array(shape, lo=1e-6, hi=1) if shape else self.real(1e-6, 1)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            return loc + scale * self.real()
        return loc + scale * self.array((size,) if isinstance(size, int) else tuple(size))

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            return self.real(low, high)
        return self.array((size,) if isinstance(size, int) else tuple(size), lo=low, hi=high)

    def randint(self, low, high=None):
        low, high = (0, low) if high is None else (low, high)
        return self.h.fixed_int(self.name(), low, high - 1)

    def choice(self, a, size=None, replace=True):
        a = list(a)
        if size is None:
            return a[self.h.choice(self.name(), range(len(a)))]
        out = [self.h.choice(self.name(), range(len(a))) for _ in range(size)]
        if not replace:
            if size > len(a):
                raise ValueError("Cannot take a larger sample than population when replace is False")
            self.h.assume(len(set(out)) == size)
        return numpy.array([a[i] for i in out])


class stub:
    """numpy.random and random, where the generators look for them."""

    def __init__(self, h):
        self.h, self.d = h, Draws(h)

    def __enter__(self):
        d = self.d
        names = dict(seed=d.seed, randn=d.randn, rand=d.rand, random=d.rand, uniform=d.uniform, normal=d.normal, standard_normal=d.normal, RandomState=self.state)
        self.target = npshim.NP.random if self.h.symbolic else numpy.random
        self.saved = {n: self.target.__dict__.get(n) for n in names}
        for n, f in names.items():
            setattr(self.target, n, f)
        self.random, TI.random = TI.random, d
        return d

    def state(self, seed=None):
        s = Draws(self.h)
        s.seed("R%s" % seed)
        return s

    def __exit__(self, *a):
        TI.random = self.random
        for n, f in self.saved.items():
            if f is None:
                delattr(self.target, n)
            else:
                setattr(self.target, n, f)


def twice(h, f, seeds=(None, 0, 1, 7), draws=True):
    """The outcome of f(seed) and of a second call from another state of the generator."""
    seed = h.choice("seed", list(seeds))
    with stub(h) as d:
        a = f(seed)
        h.check(not draws or (d.key == "free" if seed is None else d.key == "s%s_" % seed), "the seed, and only a seed given, is used")
        if seed is None:
            return a, None
        d.fresh()
        return a, f(seed)


def wavefunction(h, n):
    a, b = twice(h, lambda s: TI.create_random_wavefunction(n, **({} if s is None else dict(seed=s))), seeds=(None, 1, 7))
    h.check(type(a) is Wavefunction and len(a) == 2 ** n, "a state of that many qubits")
    if b is not None:
        h.eq(list(a.amplitudes), list(b.amplitudes), "the same for the same seed")


def wavefunction_zero(h, n):
    """A seed of zero is a seed."""
    with stub(h) as d:
        TI.create_random_wavefunction(n, seed=0)
        h.check(d.key == "s0_", "a seed of zero is used")


def paulis(h, n, terms, ising, again):
    """Terms of distinct qubits with coefficient one, as drawn."""
    f, cls = (TI.create_random_isingop, IsingOperator) if ising else (TI.create_random_qubitop, QubitOperator)
    class Log(Draws):
        def choice(self, a):
            r = Draws.choice(self, a)
            if isinstance(r, int) and len(a) == n + 1:
                self.qubits = set()
            elif isinstance(r, int):
                h.assume(r not in self.qubits or self.repeats < 1)  # draws of a qubit again: once
                self.repeats += r in self.qubits
                self.qubits.add(r)
            return r

    seed = h.choice("seed", [None, 0, 5]) if again else None
    d = Log(h)
    old, TI.random = TI.random, d
    try:
        op = f(n, terms, **({} if seed is None else dict(seed=seed)))
        h.check(d.key == "free" if seed is None else d.key == "s%s_" % seed, "the seed, and only a seed given, is used")
        two = None
        if seed is not None:
            d.fresh()
            d.repeats = 0
            two = f(n, terms, seed=seed)
    finally:
        TI.random = old
    h.check(type(op) is cls, "the kind of operator")
    for t in op.terms:
        qs = [q for q, _ in t]
        h.check(len(set(qs)) == len(qs) and all(0 <= q < n for q in qs), "qubits in range, each once")
        h.check(all(p in ("Z" if ising else "XYZ") for _, p in t), "Pauli letters")
    h.eq(sum(op.terms.values()), terms, "as many terms as asked for, equal ones added up")
    h.check(all(c == round(c) and c >= 1 for c in op.terms.values()), "coefficients one")
    if two is not None:
        h.check(op == two, "the same for the same seed")


ONE = {"X", "Y", "Z", "H", "I", "S", "T"}
TWO = {"CNOT", "CZ", "SWAP"}


def circuit(h, n, gates, part):
    """Circuits of that many gates on that many qubits."""
    lists = iter(part)

    class Rng(Draws):
        def choice(self, a, size=None, replace=True):
            if isinstance(a[0], (list, tuple, numpy.ndarray)):
                return a[next(lists)]
            return Draws.choice(self, a, size, replace)

    c = CT.create_random_circuit(n, gates, Rng(h))
    h.check(type(c) is Circuit and len(c.operations) == gates, "as many gates as asked for")
    for op in c.operations:
        q = op.qubit_indices
        h.check(len(q) == op.gate.num_qubits and len(set(q)) == len(q) and all(type(i) is int and 0 <= i < n for i in q), "different qubits in range")
        ps = op.params
        h.check(len(ps) <= 1, "at most one parameter")
        for p in ps:
            h.check(h.both(p >= -3.1415927, p <= 3.1415927), "angles in one turn")
    h.check(c.n_qubits <= n, "no more qubits than asked for")


def matrix(h, kind, n, real):
    f = {"antisymmetric": OT.random_antisymmetric_matrix, "hermitian": OT.random_hermitian_matrix}[kind]
    a, b = twice(h, lambda s: f(n, real, s) if s is not None else f(n, real=real))
    h.same(tuple(a.shape), (n, n), "shape")
    sign = -1 if kind == "antisymmetric" else 1
    conj = (lambda x: x) if kind == "antisymmetric" else (lambda x: x.conjugate())
    for i, j in itertools.product(range(n), repeat=2):
        h.eq(a[i, j], sign * conj(a[j, i]), "symmetry")
        if real:
            h.eq(a[i, j], a[i, j].conjugate(), "real entries")
    if b is not None:
        h.eq([x for x in a.flat], [x for x in b.flat], "the same for the same seed")


def tensors(h, op, n, real):
    h.check(type(op) is InteractionOperator and op.n_qubits == n, "an operator on that many modes")
    one, two = op.one_body_tensor, op.two_body_tensor
    h.eq(op.constant, h.value(op.constant).conjugate(), "real constant")
    for i, j in itertools.product(range(n), repeat=2):
        h.eq(one[i, j], one[j, i].conjugate(), "Hermitian one-body terms")
        if real:
            h.eq(one[i, j], one[i, j].conjugate(), "real entries")
    for p, q, r, s in itertools.product(range(n), repeat=4):
        v = two[p, q, r, s]
        h.eq(v, two[q, p, s, r], "exchanging the particles")
        h.eq(v, two[s, r, q, p].conjugate(), "Hermitian two-body terms")
        if real:
            h.eq(v, v.conjugate(), "real entries")


def operator(h, n, real, spin):
    a, b = twice(h, lambda s: OT.random_interaction_operator(n, spin, real, s), seeds=(None, 0, 3))
    m = 2 * n if spin else n
    tensors(h, a, m, real)
    if b is not None:
        h.eq([a.constant] + [x for x in a.one_body_tensor.flat] + [x for x in a.two_body_tensor.flat],
             [b.constant] + [x for x in b.one_body_tensor.flat] + [x for x in b.two_body_tensor.flat], "the same for the same seed")
    if real and not spin:
        two = a.two_body_tensor
        for p, q, r, s in itertools.product(range(n), repeat=4):
            h.eq(two[p, q, r, s], two[r, q, p, s], "real orbitals' symmetry")
    if spin:
        one, two = a.one_body_tensor, a.two_body_tensor
        for p, q in itertools.product(range(m), repeat=2):
            h.eq(one[p, q], one[p // 2 * 2, q // 2 * 2] if p % 2 == q % 2 else 0, "spins are kept and treated alike")
        for p, q, r, s in itertools.product(range(m), repeat=4):
            want = two[p // 2 * 2, q // 2 * 2, r // 2 * 2, s // 2 * 2] if p % 2 == s % 2 and q % 2 == r % 2 else 0
            h.eq(two[p, q, r, s], want, "each particle keeps its spin")


def term(h, order, real):
    a, b = twice(h, lambda s: OR.random_interaction_operator_term(order, real, s), seeds=(None, 0, 3), draws=order < 5)
    tensors(h, a, order, real)
    h.eq(a.constant, 0, "no constant")
    for k, t in ((2, a.one_body_tensor), (4, a.two_body_tensor)):
        for i in itertools.product(range(order), repeat=k):
            if len(set(i)) != order:
                h.eq(t[i], 0, "only terms of exactly that many orbitals")
    if b is not None:
        h.eq([x for x in a.two_body_tensor.flat], [x for x in b.two_body_tensor.flat], "the same for the same seed")


def qubit(h, n, terms, order):
    seed = h.choice("seed", [None, 0])
    with stub(h) as d:
        a = OT.random_qubit_operator(n, terms, order, **({} if seed is None else dict(seed=seed)))
        h.check(d.n == 0 and d.key == "free", "the global generator is left alone")
    h.check(type(a) is QubitOperator and len(a.terms) <= terms, "no more terms than asked for")
    for t in a.terms:
        h.check(len(t) <= order and all(0 <= q < n for q, _ in t), "no larger terms than asked for")


# --- contracts


class Estimator:
    """Any estimator: what it says of each operator and circuit is arbitrary,
    and may also depend on the place of the task in the list."""

    def __init__(self, h, wrong):
        self.h, self.wrong, self.seen = h, wrong, {}

    def value(self, k, i):
        if (k, i) not in self.seen:
            self.seen[k, i] = self.h.real("v%d" % len(self.seen), -9, 9)
        return self.seen[k, i]

    def __call__(self, backend=None, estimation_tasks=()):
        out = []
        for i, t in enumerate(estimation_tasks):
            key = (str(t.operator), str(t.circuit), t.number_of_shots)
            place = i if self.wrong == "place" else 0
            out.append(ExpectationValues(numpy.array([self.value(key + (j,), place) for j in range(len(t.operator.terms))] if self.wrong != "short"
                                                     else [self.value(key, place)], dtype=object if self.h.symbolic else float)))
        if self.wrong == "reversed":
            out = out[::-1]
        return out


def contract_number(h):
    """Exactly one result per task."""
    k = h.fixed_int("results", 0, 5)

    def est(backend, estimation_tasks):
        return [ExpectationValues(numpy.array([h.real("v%d" % i)])) for i in range(k)]

    h.check(bool(EC._validate_each_task_returns_one_expecation_value(est)) is (k == len(EC._estimation_tasks)), "one result per task")


def contract_order(h, how):
    e = Estimator(h, {"right": None, "place": "place", "reversed": "reversed"}[how])
    got = bool(EC._validate_order_of_outputs_matches_order_of_inputs(e))
    if how == "right":
        h.check(got, "estimators without memory are right")
        return
    tasks = EC._estimation_tasks
    h2 = e(None, tasks)
    same = True
    for i, t in enumerate(tasks):
        one = e(None, [t])[0].values
        if len(one) != len(h2[i].values):
            same = False
        else:
            for x, y in zip(one, h2[i].values):
                if same is True:
                    same = x == y
                elif same is not False:
                    same = h.both(same, x == y)
    h.check(h.both(got, same) if got else (h.negate(same) if same is not False else True), "accepted exactly if each task gets the values it gets alone")


def contract_differ(h, which):
    """Coefficients and constants have to change the result."""
    x, y = h.real("x", -9, 9), h.real("y", -9, 9)
    n = h.choice("two", [False, True])

    def est(backend, estimation_tasks):
        h.same(len(estimation_tasks), 2, "two tasks")
        out = [x, y]
        return [ExpectationValues(numpy.array([v] + ([0] if n and i else []))) for i, v in enumerate(out)]

    f = {"coefficient": EC._validate_expectation_value_includes_coefficients, "constant": EC._validate_constant_terms_are_included_in_output}[which]
    got = bool(f(est))
    if n:
        h.check(got, "more values differ")
    else:
        h.check(h.either(x < y, x > y) if got else h.both(x <= y, x >= y), "accepted exactly if the results differ")


def contract_tasks(h):
    """The tasks the contracts use tell wrong estimators from right ones."""
    seen = []

    def est(backend, estimation_tasks):
        seen.append(list(estimation_tasks))
        return [ExpectationValues(numpy.array([float(i)])) for i, _ in enumerate(estimation_tasks)]

    h.same(len(EC.ESTIMATOR_CONTRACTS), 4, "four contracts")
    for c in EC.ESTIMATOR_CONTRACTS:
        c(est)
    two = [s for s in seen if len(s) == 2]
    h.same(len(two), 2, "two pairs of tasks")
    for a, b in two:
        h.check(a.circuit == b.circuit and a.number_of_shots == b.number_of_shots, "only the operator differs")
        h.check(a.operator != b.operator, "the operators differ")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


for n in (1, 2, 3):
    add("wavefunction/%d" % n, wavefunction, "all draws, 3 seeds", n == 3, n=n)
add("wavefunction_zero", wavefunction_zero, "all draws, seed 0", n=2)
for n, t, th in ((1, 1, 0), (1, 2, 0), (2, 1, 0), (2, 2, 0), (3, 1, 0), (3, 2, 1)):
    for ising in (False, True):
        add("paulis/%s/%d/%d" % ("ising" if ising else "qubit", n, t), paulis, "all draws (a qubit drawn again at most once)", th or (n > 1 and t > 1 and not ising), n=n, terms=t, ising=ising, again=False)
        if t == 1 and n < 3 or (n, t, ising) == (1, 2, True):
            add("paulis_seed/%s/%d/%d" % ("ising" if ising else "qubit", n, t), paulis, "all draws, 3 seeds", False, n=n, terms=t, ising=ising, again=True)
for n in (2, 3):
    for g in (0, 1, 2):
        for part in itertools.product(range(4), repeat=g):
            add("circuit/%d/%s" % (n, "".join(map(str, part)) or "none"), circuit, "all draws for these kinds of gates", n == 3 and g == 2 or (g == 2 and part[0] != part[1]), n=n, gates=g, part=part)
for kind in ("antisymmetric", "hermitian"):
    for n in (1, 2, 3):
        for real in (True, False):
            add("matrix/%s/%d/%s" % (kind, n, "real" if real else "complex"), matrix, "all draws, 4 seeds", False, kind=kind, n=n, real=real)
for n, real, spin, th in ((1, 1, 0, 0), (1, 0, 0, 0), (2, 1, 0, 0), (2, 0, 0, 0), (3, 1, 0, 0), (3, 0, 0, 0), (1, 1, 1, 0), (1, 0, 1, 0), (2, 1, 1, 0), (2, 0, 1, 0), (4, 0, 0, 1), (4, 1, 0, 1)):
    add("operator/%d/%s%s" % (n, "real" if real else "complex", "/spin" if spin else ""), operator, "all draws, 3 seeds", th, n=n, real=bool(real), spin=bool(spin))
for order in (1, 2, 3, 5):
    for real in (True, False):
        add("term/%d/%s" % (order, "real" if real else "complex"), term, "all draws, 3 seeds", False, order=order, real=real)
for n, t, o, th in ((1, 1, 2, 0), (2, 2, 1, 0), (2, 1, 2, 0), (2, 2, 2, 1)):
    add("qubit/%d/%d/%d" % (n, t, o), qubit, "all draws", th, n=n, terms=t, order=o)
add("contract_number", contract_number, "0 to 5 results")
for how in ("right", "place", "reversed"):
    add("contract_order/" + how, contract_order, "all values", how=how)
for which in ("coefficient", "constant"):
    add("contract_differ/" + which, contract_differ, "all values", which=which)
add("contract_tasks", contract_tasks, "all contracts")
