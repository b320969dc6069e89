"""Gradients and cost functions compute what they are composed of."""
import numpy as np
import sympy
from overrides import overrides
from zquantum.core import circuits
from zquantum.core import cost_function as CF
from zquantum.core import gradients as GR
from zquantum.core import measurement as ME
from zquantum.core import utils as U
from zquantum.core.circuits import Circuit
from zquantum.core.estimation import calculate_exact_expectation_values
from zquantum.core.interfaces.ansatz import Ansatz
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.openfermion import IsingOperator, QubitOperator
from zquantum.core.symbolic_simulator import SymbolicSimulator

from symx import rng, spshim, veshim

LEVEL = "model_checking"


def PATCH(p, u=None):
    spshim.patch(p, u)
    veshim.patch(p, u)


def vector(h, tag, n, angle=False):
    a = GR.np.zeros(n)
    for i in range(n):
        a[i] = h.angle("%s%d" % (tag, i)) if angle else h.real("%s%d" % (tag, i), -9, 9)
    return a


def values(h, a):
    return [h.value(x) for x in a]


def gradient(h, n, how):
    """Central differences of an arbitrary quadratic polynomial are its
    derivative; of any function, the quotient of its values at the two points."""
    x = vector(h, "x", n)
    before = values(h, x)
    step = 1e-5 if how == "default" else h.real("step", 0.01, 1)
    A = [[h.real("a%d%d" % (i, j), -3, 3) for j in range(i + 1)] for i in range(n)]
    b = [h.real("b%d" % i, -3, 3) for i in range(n)]
    seen = []

    def f(v):
        v = values(h, v)
        seen.append(v)
        return sum(A[i][j] * v[i] * v[j] for i in range(n) for j in range(i + 1)) + sum(b[i] * v[i] for i in range(n)) + 7

    g = CF.finite_differences_gradient(f) if how == "default" else CF.finite_differences_gradient(f, step)
    r = g(x)
    h.same(tuple(r.shape), (n,), "one entry per parameter")
    want = [b[k] + sum((A[max(i, k)][min(i, k)] * (2 if i == k else 1)) * before[i] for i in range(n)) for k in range(n)]
    h.close(values(h, r), want, "the derivative", 1e-3 if how == "default" else 1e-6)
    h.close(values(h, x), before, "the point is left alone", 0)
    h.same(len(seen), 2 * n, "two evaluations per parameter")
    for k in range(n):
        for v, s in ((seen[2 * k], 1), (seen[2 * k + 1], -1)):
            h.close(v, [before[i] + (s * step if i == k else 0) for i in range(n)], "evaluated a step to either side", 1e-9)


def opaque(h, n):
    """Values of the function are arbitrary; a value estimate will do."""
    x = vector(h, "x", n)
    vals = [h.real("f%d" % i, -9, 9) for i in range(2 * n)]
    est = h.flag("estimates")
    it = iter(vals)
    step = h.real("step", 0.01, 1)
    r = CF.finite_differences_gradient(lambda v: U.ValueEstimate(next(it)) if est else next(it), finite_diff_step_size=step)(x)
    h.close(values(h, r), [(vals[2 * k] - vals[2 * k + 1]) / (2 * step) for k in range(n)], "difference quotient", 1e-6)


def integers(h):
    x = np.array([3, -1, 2])
    r = CF.finite_differences_gradient(lambda v: v[0] * v[1] + v[2], 0.5)(x)
    h.close(values(h, r), [-1, 3, 1], "integer points are shifted like others")


NAMES = ["theta_0", "theta_10", "theta_2", "beta_1", "alpha"]


class Rotations(Ansatz):
    """RX of each symbol on its own qubit, in the order given."""

    supports_parametrized_circuits = True

    def __init__(self, names):
        super().__init__(1)
        self.names = list(names)
        self.asked = []

    @property
    def number_of_qubits(self):
        return len(self.names)

    @overrides
    def _generate_circuit(self, params=None):
        self.asked.append(params)
        ps = [sympy.Symbol(s) for s in self.names] if params is None else list(params)
        return rotations(ps)


def rotations(ps):
    return Circuit([circuits.RX(p)(q) for q, p in enumerate(ps)])


def revlex(name):
    """Number first, then name."""
    a = name.split("_")
    return (0, int(a[1]), a[0]) if len(a) == 2 else (1, 0, a[0])


class Asked:
    """An estimation method that returns given values and remembers the tasks."""

    def __init__(self, answer):
        self.answer = answer

    def __call__(self, backend, tasks):
        self.backend, self.tasks = backend, tasks
        return [ME.ExpectationValues(*a) if isinstance(a, tuple) else ME.ExpectationValues(a) for a in self.answer]


def array(xs):
    a = ME.np.zeros(len(xs), complex if any(isinstance(x, complex) for x in xs) else float)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def bound(h, task, want, names, shots=None):
    """The task's circuit has the wanted angle for each name."""
    ops = task.circuit.operations
    h.same(len(ops), len(names), "as many operations")
    for q, (op, s) in enumerate(zip(ops, names)):
        h.same((op.gate.name, tuple(op.qubit_indices)), ("RX", (q,)), "operations")
        h.close(h.value(op.params[0]), want[s], "parameter of a symbol", 1e-9)
    h.same(task.number_of_shots, shots, "shots")


def cost(h, k, which):
    """Parameters go to the symbols in their order, through the preprocessors
    left to right; the value is the sum of what the estimation method says."""
    perm = h.choice("order", [NAMES[:k], NAMES[:k][::-1], [NAMES[2], NAMES[0], NAMES[3]][:k]])
    op = QubitOperator("Z0", 2.5) + QubitOperator("X1", -1)
    backend = object()
    e = [h.real("e%d" % i, -9, 9) for i in range(3)]
    method = Asked([array(e[:1]), array(e[1:])])
    split = h.flag("preprocess")
    pre = [lambda ts: [EstimationTask(t.operator, t.circuit, 17) for t in ts], lambda ts: [EstimationTask(t.operator, t.circuit, t.number_of_shots + 1) for t in ts * 2]] if split else h.choice("nopre", [None, []])
    fixed = h.flag("fixed") and k > 1
    n = k - (1 if fixed else 0)
    x = vector(h, "x", n)
    full = vector(h, "y", 1) if fixed else None
    noisy = h.flag("noisy")
    ans = Rotations(perm)
    kw = dict(estimation_preprocessors=pre)
    old = which in ("ground_state", "ansatz_based")
    custom = h.flag("key") if which in ("expectation_value", "ground_state") else False
    key = (lambda s: s.name[::-1]) if custom else None
    if custom:
        kw["symbols_sort_key"] = key
        names = sorted(perm, key=lambda s: s[::-1])
    elif which in ("expectation_value", "ground_state"):
        names = sorted(perm)
    else:
        names = list(perm) if which == "dynamic" else sorted(perm, key=revlex)
    if old:
        if fixed:
            kw["fixed_parameters"] = full
        if noisy:
            kw.update(parameter_precision=0.25, parameter_precision_seed=3)
    with rng.scripted(h) as log:
        if which == "ground_state":
            f = CF.get_ground_state_cost_function(op, ans.parametrized_circuit, backend, method, **kw)
        elif which == "ansatz_based":
            f = CF.AnsatzBasedCostFunction(op, ans, backend, method, **kw)
        else:
            if which == "expectation_value":
                fac = CF.expectation_value_estimation_tasks_factory(op, ans.parametrized_circuit, **kw)
            elif which == "substitution":
                fac = CF.substitution_based_estimation_tasks_factory(op, ans, **kw)
            else:
                fac = CF.dynamic_circuit_estimation_tasks_factory(op, ans, **kw)
            ps = ([CF.fix_parameters(full)] if fixed else []) + ([CF.add_normal_noise(0.25, 3)] if noisy else [])
            if h.flag("scale"):
                ps = [lambda v: 2 * v] + ps
            f = CF.create_cost_function(backend, fac, method, ps if ps else h.choice("none", [None, []]))
            scaled = len(ps) and len(ps) > fixed + noisy
        calls = h.choice("calls", [1, 2])
        for _ in range(calls):
            draws = len([d for d in log if d[0] == "normal"])
            r = f(x)
            p = values(h, x)
            if not old and scaled:
                p = [2 * v for v in p]
            if fixed:
                p = values(h, full) + p
            if noisy:
                ds = [d for d in log if d[0] == "normal"]
                h.same(len(ds), draws + 1, "noise is drawn once per call")
                h.same([ds[-1][1], ds[-1][2], ds[-1][3]], [0.0, 0.25, k], "centred noise of the given precision, one draw per parameter")
            h.same(len(method.tasks), 2 if split else 1, "the preprocessed tasks")
            if not noisy:
                for t in method.tasks:
                    bound(h, t, dict(zip(names, p)), perm, 18 if split else None)
            h.check(method.backend is backend and all(t.operator == op for t in method.tasks), "estimated on the backend")
            h.close(r, sum(e), "the sum of the expectation values")
            h.check(isinstance(r, U.ValueEstimate) and r.precision is None, "a value estimate")
        h.close(values(h, x), values(h, vector(h, "x", n)), "the parameters are left alone", 0)
        if noisy:
            h.same([d[1] for d in log if d[0] == "default_rng"], [3] * (calls if old else 1), "seeded")


def noise(h, n):
    """The noise is added to the parameters, without changing them."""
    x = vector(h, "x", n)
    before = values(h, x)
    sd = h.real("sd", 0.1, 1)
    with rng.scripted(h) as log:
        f = CF.add_normal_noise(sd, 11)
        r = f(x)
    h.same([d[1] for d in log if d[0] == "default_rng"], [11], "one generator")
    d = [h.real("rng%d" % (i + 1)) for i in range(n)]
    h.close(values(h, r), [a + b for a, b in zip(before, d)], "parameters plus noise", 1e-9)
    h.close(values(h, x), before, "the parameters are left alone", 0)
    y = vector(h, "y", 2)
    c = CF.fix_parameters(y)(x)
    h.close(values(h, c), values(h, y) + before, "fixed parameters come first", 0)


def totals(h, sizes):
    """Sum and precision of expectation values."""
    e = [h.real("e%d" % i, -9, 9) for i in range(sum(sizes))]
    cov = []
    total = 0
    for s, k in enumerate(sizes):
        m = ME.np.zeros((k, k))
        for i in range(k):
            for j in range(i, k):
                v = h.real("v%d_%d%d" % (s, i, j), 0.5 if i == j else -0.2, 3 if i == j else 0.2)
                m[i, j] = m[j, i] = v
                total = total + (v if i == j else 2 * v)
        cov.append(m)
    with_cov = h.choice("cov", [None, "empty", "yes"])
    ev = ME.ExpectationValues(array(e), estimator_covariances=cov if with_cov == "yes" else [] if with_cov else None)
    r = CF.sum_expectation_values(ev)
    h.check(isinstance(r, U.ValueEstimate), "a value estimate")
    h.close(r, sum(e), "the sum")
    if with_cov == "yes":
        h.check(r.precision >= 0, "precision is not negative")
        h.close(r.precision * r.precision, total, "the square of the precision is the sum of all covariances", 1e-6)
    else:
        h.check(r.precision is None, "no covariances, no precision")


def simulated(h, k, which):
    """With exact simulation the value is the energy of the state, and the
    gradient its difference quotient."""
    names = ["theta_%d" % i for i in range(k)]
    ans = Rotations(names)
    a, b, c = h.real("a", 0.1, 9), h.real("b", -9, -0.1), h.real("c", 0.1, 9)
    op = QubitOperator("Z0", a) + QubitOperator(" ".join("Z%d" % i for i in range(k)) if k > 1 else "Y0", b)
    op += QubitOperator((), c)
    x = vector(h, "x", k, True)
    sim = SymbolicSimulator()
    fac = {"substitution": CF.substitution_based_estimation_tasks_factory, "dynamic": CF.dynamic_circuit_estimation_tasks_factory}
    f = CF.AnsatzBasedCostFunction(op, ans, sim, calculate_exact_expectation_values) if which == "ansatz_based" else CF.create_cost_function(sim, fac[which](op, ans), calculate_exact_expectation_values)
    v = f(x)
    cs = [_cos(t) for t in x]
    prod = 1
    for t in cs:
        prod = prod * t
    want = a * cs[0] + (b * prod if k > 1 else -b * _sin(x[0])) + c
    h.close(v, want, "the energy")


def _cos(t):
    return t.cos() if hasattr(t, "cos") else np.cos(float(t))


def _sin(t):
    return t.sin() if hasattr(t, "sin") else np.sin(float(t))


def attached(h):
    """The gradient of a cost function is that of its own values."""
    x = vector(h, "x", 2)
    calls = []

    def method(backend, tasks):
        v = [h.value(o.params[0]) for t in tasks for o in t.circuit.operations]
        calls.append(v)
        return [ME.ExpectationValues(array([v[0] * v[0] * 3, v[1] * v[0]]))]

    ans = Rotations(["theta_0", "theta_1"])
    which = h.choice("which", ["create", "ground_state", "own"])
    own = lambda f: lambda v: ("own", f(v))
    if which == "ground_state":
        f = CF.get_ground_state_cost_function(QubitOperator("Z0"), ans.parametrized_circuit, None, method)
    else:
        kw = dict(gradient_function=own) if which == "own" else {}
        f = CF.create_cost_function(None, CF.substitution_based_estimation_tasks_factory(QubitOperator("Z0"), ans), method, **kw)
    p = values(h, x)
    if which == "own":
        tag, v = f.gradient(x)
        h.check(tag == "own", "the given gradient")
        h.close(v, 3 * p[0] * p[0] + p[0] * p[1], "of this cost function")
        return
    g = f.gradient(x)
    h.close(values(h, g), [6 * p[0] + p[1], p[0]], "central differences of the cost function", 1e-3)
    h.same(len(calls), 4, "evaluated two times per parameter")


def refused(h):
    ans = Rotations(NAMES[:2])
    f = CF.create_cost_function(None, CF.substitution_based_estimation_tasks_factory(QubitOperator("Z0"), ans), Asked([array([1.0])]))
    for n in (0, 1, 3):
        h.raises(ValueError, lambda: f(vector(h, "x", n)), "wrong number of parameters")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


for n in (0, 1, 2, 3):
    add("gradient/%d/step" % n, gradient, "all quadratics in %d variables, all steps" % n, n > 2, n=n, how="step")
    add("opaque/%d" % n, opaque, "any function values", n=n)
add("gradient/2/default", gradient, "all quadratics in 2 variables", n=2, how="default")
add("integers", integers, "an integer point")
for w in ("ground_state", "ansatz_based", "expectation_value", "substitution", "dynamic"):
    for k in (1, 2, 3):
        add("cost/%s/%d" % (w, k), cost, "%d parameters, all options" % k, k == 1, k=k, which=w)
add("noise/2", noise, "all draws", n=2)
for s in ((1,), (2,), (1, 2), (2, 2), (3, 1)):
    add("totals/%s" % "".join(map(str, s)), totals, "frames of %s operators" % (s,), s == (3, 1), sizes=s)
for w in ("ansatz_based", "substitution", "dynamic"):
    for k in (1, 2, 3):
        add("simulated/%s/%d" % (w, k), simulated, "all angles and coefficients, %d qubits" % k, k > 2, k=k, which=w)
add("attached", attached, "all points")
add("refused", refused, "wrong sizes")
