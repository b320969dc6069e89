"""Shots are allocated as asked: everything is spent, in the documented proportions."""
from zquantum.core import estimation as E
from zquantum.core import hamiltonian as H
from zquantum.core.circuits import Circuit, X
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import QubitOperator

LEVEL = "model_checking"
TERMS = [((0, "Z"),), ((1, "X"),), ((0, "Z"), (1, "X")), ((2, "Y"),)]


def group(h, i, k, const=False, signs=True):
    op = QubitOperator()
    cs = []
    if const:
        op += QubitOperator((), h.real("z%d" % i, 0.1, 5))
    for j in range(k):
        c = h.real("c%d_%d" % (i, j), 0.1, 5)
        if signs and h.flag("neg%d_%d" % (i, j)):
            c = -c
        cs.append(c)
        op += QubitOperator(TERMS[j], c)
    return op, cs


def group345(h, i):
    """Two terms whose standard deviation is a rational multiple of one of them."""
    k = h.real("k%d" % i, 0.1, 2)
    return QubitOperator(TERMS[0], 3 * k) + QubitOperator(TERMS[1], -4 * k), [3 * k, -4 * k]


def sq(x):
    return H.np.sqrt(x)


def variances(h, sizes):
    """Variances without prior knowledge: sums of squared coefficients, constants aside."""
    const = [h.flag("const%d" % i) for i in range(len(sizes))]
    gs = [group(h, i, k, z) for i, (k, z) in enumerate(zip(sizes, const))]
    r = H.compute_group_variances([g for g, _ in gs])
    want = [sum([c * c for c in cs], 0) for _, cs in gs]
    h.eq(list(r), want, "sum of squared coefficients of each group")
    for (g, cs), z in zip(gs, const):
        h.same(len(g.terms), len(cs) + (1 if z else 0), "groups are left alone")
    K, nt, fm = H.estimate_nmeas_for_frames([g for g, _ in gs])
    tot = sum([sq(v) for v in want], 0)
    h.close(list(fm), [tot * sq(v) for v in want], "measurements per group", 1e-6)
    h.close(K, tot * tot, "total measurements", 1e-6)
    h.same(nt, sum(len(g.terms) for g, _ in gs), "number of terms")


def priors(h, sizes):
    gs = [group(h, i, k, signs=sum(sizes) < 4) for i, k in enumerate(sizes)]
    es = [h.real("e%d" % i, -1, 1) for i in range(sum(sizes))]
    r = H.compute_group_variances([g for g, _ in gs], ExpectationValues(H.np.array(es)))
    it = iter(es)
    want = []
    for _, cs in gs:
        v = 0
        for c in cs:
            e = next(it)
            v = v + c * c * (1 - e * e)
        want.append(v)
    h.eq(list(r), want, "each group uses its own terms' expectation values")


def bad_priors(h):
    gs = [group(h, i, k)[0] for i, k in enumerate((1, 2))]
    n = h.choice("n", [0, 2, 4])
    h.raises(ValueError, lambda: H.compute_group_variances(gs, ExpectationValues(H.np.array([0.5] * n))), "one value per term is required")
    e = h.real("e", 1.001, 9)
    if h.flag("minus"):
        e = -e
    vs = [0.1, 0.2, -0.3]
    vs[h.choice("at", [0, 1, 2])] = e
    h.raises(ValueError, lambda: H.compute_group_variances(gs, ExpectationValues(H.np.array(vs))), "expectation values are within -1 and 1")


def uniform(h, n):
    tasks = [EstimationTask(group(h, i, 1)[0], Circuit([X(i)]), h.choice("s%d" % i, [None, 0, 7])) for i in range(n)]
    k = h.int("k", -5, 100)
    if k <= 0:
        h.raises(ValueError, lambda: E.allocate_shots_uniformly(tasks, k), "no shots to allocate")
        h.raises(ValueError, lambda: E.allocate_shots_proportionally(tasks, k), "no shots to allocate")
        return
    r = E.allocate_shots_uniformly(tasks, k)
    h.same(len(r), n, "one task per task")
    for a, t in zip(r, tasks):
        h.check(a.operator is t.operator and a.circuit is t.circuit, "task kept")
        h.eq(a.number_of_shots, k, "the same number of shots each")


def proportional(h, sizes, hi, prior=False):
    gs = [group(h, i, k) if k == 1 else group345(h, i) for i, k in enumerate(sizes)]
    tasks = [EstimationTask(g, Circuit([X(i)]), None) for i, (g, _) in enumerate(gs)]
    total = h.fixed_int("total", 1, hi)
    if prior:
        es = [h.choice("e%d" % i, [0, -0.8]) for i in range(sum(sizes))]
        r = E.allocate_shots_proportionally(tasks, total, ExpectationValues(H.np.array(es)))
    else:
        es = [0] * sum(sizes)
        r = E.allocate_shots_proportionally(tasks, total)
    h.same(len(r), len(tasks), "one task per task")
    h.check(all(a.operator is t.operator and a.circuit is t.circuit for a, t in zip(r, tasks)), "tasks kept, in order")
    ss = [a.number_of_shots for a in r]
    h.same(sum(ss), total, "all shots are allocated")
    it = iter(es)
    w = []
    for _, cs in gs:
        v = 0
        for c in cs:
            e = next(it)
            v = v + c * c * (1 - e * e)
        w.append(sq(v))
    S = sum(w, 0)
    for s, x in zip(ss, w):
        h.check(s >= 0, "no negative number of shots")
        d = s * S - x * total
        h.check(h.both(d <= S * (1 + 1e-6), d >= -S * (1 + 1e-6)), "in proportion to the standard deviations")


UNITS = []
for sizes in ((1,), (2,), (1, 2), (2, 2), (1, 1, 1)):
    UNITS.append(dict(name="variances/%s" % "".join(map(str, sizes)), fn=variances, args=dict(sizes=sizes), types=True, bounds="groups of these sizes, any real coefficients"))
    UNITS.append(dict(name="priors/%s" % "".join(map(str, sizes)), fn=priors, args=dict(sizes=sizes), types=True, bounds="groups of these sizes, any coefficients and expectation values"))
for sizes in ((2, 1), (1, 2, 1), (2, 1, 2), (3, 1, 2)):
    UNITS.append(dict(name="priors/%s" % "".join(map(str, sizes)), fn=priors, args=dict(sizes=sizes), types=True, bounds="groups of these sizes, any coefficients and expectation values"))
UNITS.append(dict(name="bad_priors", fn=bad_priors, types=True, bounds="any coefficients"))
for n in (1, 2):
    UNITS.append(dict(name="uniform/%d" % n, fn=uniform, args=dict(n=n), types=True, bounds="any number of shots"))
for sizes, hi, p in (((1,), 4, 0), ((1, 1), 3, 0), ((1, 2), 2, 0), ((2, 1), 1, 0), ((1, 1), 2, 1)):
    UNITS.append(dict(name="proportional/%s/%d" % ("".join(map(str, sizes)), p), fn=proportional, args=dict(sizes=sizes, hi=hi, prior=bool(p)), types=True, bounds="groups of these sizes, any coefficients, up to %d shots" % hi))
