"""Estimating a list of tasks gives each task its own answer, in order."""
import sympy
from zquantum.core import estimation as E
from zquantum.core.circuits import RX, Circuit, X
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.measurement import Measurements
from zquantum.core.openfermion import IsingOperator, QubitOperator

LEVEL = "model_checking"


def circuit(i):
    """A different circuit for every task."""
    return Circuit([X(q) for q in range(i + 1)], n_qubits=2 + i)


def task(h, i, kinds=("const", "z", "mixed", "two"), shots=(None, 0, 5)):
    """An arbitrary task with arbitrary coefficients; its terms."""
    cls = h.choice("cls%d" % i, [QubitOperator, IsingOperator])
    k = h.choice("kind%d" % i, kinds)
    a, b = h.real("a%d" % i, 0.1, 9), h.real("b%d" % i, -9, -0.1)
    terms = {"const": [((), a)], "z": [(((0, "Z"),), a)], "mixed": [((), b), (((0, "Z"),), a)], "two": [(((1, "Z"),), a), (((0, "Z"), (1, "Z")), b)]}[k]
    op = cls()
    for t, c in terms:
        op += cls(t, c)
    return EstimationTask(op, circuit(i), h.choice("shots%d" % i, list(shots))), terms


class Backend:
    """Answers each circuit with its own measurements."""

    def __init__(self, h, n):
        self.h = h
        self.calls = []
        self.answers = {}
        for i in range(n):
            self.answers[i] = [tuple(h.fixed_int("m%d_%d" % (i, q), 0, 1) for q in range(2)) + (0,) * i, (0, 1) + (0,) * i]

    def run_circuitset_and_measure(self, circuits, n_samples):
        circuits, n_samples = list(circuits), list(n_samples)
        self.calls.append((circuits, n_samples))
        return [Measurements(list(self.answers[c.n_qubits - 2])) for c in circuits]

    def get_exact_expectation_values(self, circuit, operator):
        self.calls.append((circuit, operator))
        return ("exact", circuit, operator)


def averaging(h, n, kinds):
    made = [task(h, i, kinds) for i in range(n)]
    tasks = [t for t, _ in made]
    given = list(tasks)
    b = Backend(h, n)
    r = E.estimate_expectation_values_by_averaging(b, tasks)
    h.same(len(r), n, "one answer per task")
    h.check(all(x is y for x, y in zip(tasks, given)) and len(tasks) == n, "tasks are left alone")
    run = []
    for i, (t, terms) in enumerate(made):
        const = len(terms) == 1 and terms[0][0] == ()
        if const or t.number_of_shots == 0:
            h.eq(list(r[i].values), [terms[0][1] if const else 0], "constants are known, tasks without shots give zero")
            h.eq(list(r[i].estimator_covariances[0][0]), [0], "exactly")
            continue
        run.append((t.circuit, t.number_of_shots))
        ms = b.answers[i]
        want = [c * sum((-1) ** sum(m[q] for q, _ in s) for m in ms) / len(ms) for s, c in terms]
        h.close(list(r[i].values), want, "each task's values come from its own circuit's measurements", 1e-9)
    if run:
        h.same(len(b.calls), 1, "one submission")
        h.same(list(zip(*b.calls[0])), run, "each circuit submitted with its own number of shots, in order")
    else:
        h.same(b.calls, [], "nothing submitted when nothing is measured")


def split(h, n):
    made = [task(h, i) for i in range(n)]
    tasks = [t for t, _ in made]
    m, u, im, iu = E.split_estimation_tasks_to_measure(tasks)
    h.same(sorted(list(im) + list(iu)), list(range(n)), "every task is on one side")
    h.same((list(im), list(iu)), (sorted(im), sorted(iu)), "in order")
    h.check(len(m) == len(im) and all(x is tasks[i] for x, i in zip(m, im)), "indices of the measured tasks")
    h.check(len(u) == len(iu) and all(x is tasks[i] for x, i in zip(u, iu)), "indices of the other tasks")
    for i, (t, terms) in enumerate(made):
        known = (len(terms) == 1 and terms[0][0] == ()) or t.number_of_shots == 0
        h.same(i in iu, known, "constants and tasks without shots are not measured")
    vs = E.evaluate_non_measured_estimation_tasks(u)
    h.same(len(vs), len(u), "one answer per task not measured")
    for v, i in zip(vs, iu):
        t, terms = made[i]
        h.eq(list(v.values), [terms[0][1] if len(terms) == 1 and terms[0][0] == () else 0], "its constant")
    for i in im:
        if tasks[i].number_of_shots is not None:
            h.raises(RuntimeError, lambda: E.evaluate_non_measured_estimation_tasks([tasks[i]]), "a task that needs measuring is not made up")


def exact(h, n):
    tasks = [task(h, i, ("const", "mixed"))[0] for i in range(n)]
    b = Backend(h, 0)
    r = E.calculate_exact_expectation_values(b, tasks)
    h.same(len(r), n, "one answer per task")
    h.check(all(x[1] is t.circuit and x[2] is t.operator for x, t in zip(r, tasks)), "each computed for its own circuit and operator, in order")


def evaluate(h, n):
    """Circuits are bound with their own map, or all with the only one."""
    s = sympy.Symbol("s")
    ops = [task(h, i, ("z", "const"))[0] for i in range(n)]
    tasks = [EstimationTask(t.operator, Circuit([RX(s)(i)]), t.number_of_shots) for i, t in enumerate(ops)]
    how = h.choice("how", ["each", "one", "dict"] if n else ["each"])
    vs = [h.real("v%d" % i) for i in range(n if how == "each" else 1)]
    maps = [{s: v} for v in vs]
    r = E.evaluate_estimation_circuits(tasks, maps if how != "dict" else maps[0])
    h.same(len(r), n, "one task per task")
    for i, (t, o) in enumerate(zip(r, tasks)):
        h.check(t.operator is o.operator and t.number_of_shots == o.number_of_shots, "operator and shots kept")
        g = t.circuit.operations[0]
        h.same(g.qubit_indices, (i,), "its own circuit")
        h.eq(g.params[0], vs[i if how == "each" else 0], "bound with its own map")
        h.check(o.circuit.free_symbols == [s] or set(o.circuit.free_symbols) == {s}, "the given task is left alone")


def individually(h, n):
    made = [task(h, i) for i in range(n)]
    r = E.group_individually([t for t, _ in made])
    want = [(t, s, c) for t, terms in made for s, c in terms]
    h.same(len(r), len(want), "one task per term")
    for x, (t, s, c) in zip(r, want):
        h.check(list(x.operator.terms) == [s] and type(x.operator) is type(t.operator), "the terms in order")
        h.eq(x.operator.terms[s], c, "with their coefficients")
        h.check(x.circuit is t.circuit and x.number_of_shots == t.number_of_shots, "with their circuit and shots")


UNITS = [
    dict(name="averaging/1", fn=averaging, args=dict(n=1, kinds=("const", "z", "mixed", "two")), types=True, bounds="any task, any coefficients and outcomes"),
    dict(name="averaging/2", fn=averaging, args=dict(n=2, kinds=("const", "mixed")), types=True, cost=6, bounds="any two tasks of two kinds"),
    dict(name="averaging/2b", fn=averaging, args=dict(n=2, kinds=("z", "two")), types=True, thorough=True, bounds="any two tasks of two kinds"),
    dict(name="split/1", fn=split, args=dict(n=1), types=True, bounds="any task"),
    dict(name="split/2", fn=split, args=dict(n=2), types=True, bounds="any two tasks"),
    dict(name="split/3", fn=split, args=dict(n=3), types=True, thorough=True, bounds="any three tasks"),
]
for n in (0, 1, 2):
    UNITS.append(dict(name="exact/%d" % n, fn=exact, args=dict(n=n), types=True, bounds="any %d tasks" % n))
    UNITS.append(dict(name="evaluate/%d" % n, fn=evaluate, args=dict(n=n), types=True, bounds="any %d tasks, all values" % n))
    UNITS.append(dict(name="individually/%d" % n, fn=individually, args=dict(n=n), types=True, bounds="any %d tasks" % n))
