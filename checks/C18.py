"""Grouping terms and rotating to their measurement basis lose nothing."""
import numpy
from zquantum.core import estimation as E
from zquantum.core import hamiltonian as H
from zquantum.core.circuits import RX, Circuit, H as HAD
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.openfermion import IsingOperator, QubitOperator

from checks.C07 import pauli, unitary
from checks.lib import gates as G

LEVEL = "model_checking"


def paulis(n):
    out = [()]
    for q in range(n):
        out = [t + x for t in out for x in ((), ((q, "X"),), ((q, "Y"),), ((q, "Z"),))]
    return out


def clash(s, t):
    d = dict(s)
    return any(q in d and d[q] != p for q, p in t)


def operator(h, n, k, pool=None):
    op, terms = QubitOperator(), []
    pool = pool or paulis(n)
    for i in range(k):
        s = h.choice("t%d" % i, [x for x in pool if x not in [t for t, _ in terms]])
        c = h.real("c%d" % i, 0.1, 9)
        if i == 1 and h.flag("neg"):
            c = -c
        op += QubitOperator(s, c)
        terms.append((s, c))
    return op, terms


def comeasureable(h, n):
    s, t = h.choice("s", paulis(n)), h.choice("t", paulis(n))
    if h.flag("rev"):
        s = tuple(reversed(s))
    h.same(H.is_comeasureable(s, t), not clash(s, t), "no qubit is measured in two bases")


def check_groups(h, groups, terms, label=""):
    seen = []
    for g in groups:
        ts = list(g.terms)
        h.check(len(ts) > 0, "no empty group")
        h.check(not any(clash(a, b) for a in ts for b in ts), "terms of a group can be measured together")
        h.check(() not in ts or len(ts) == 1, "the constant is a group of its own")
        seen += ts
    h.same(sorted(seen), sorted(t for t, _ in terms), "every term is in exactly one group")
    for g in groups:
        for t, c in terms:
            if t in g.terms:
                h.eq(g.terms[t], c, "with its coefficient")


def greedy(h, n, k, pool=None):
    op, terms = operator(h, n, k, pool)
    sort = h.flag("sort")
    f = h.choice("f", [lambda: H.group_comeasureable_terms_greedy(op, sort), lambda: H.get_decomposition_function("greedy-sorted" if sort else "greedy")(op)])
    groups = f()
    check_groups(h, groups, terms)
    h.same(list(op.terms), [t for t, _ in terms], "the operator is left alone")
    h.eq([op.terms[t] for t, _ in terms], [c for _, c in terms], "with its coefficients")
    if sort:
        for g in groups:
            cs = [abs(c) for c in g.terms.values()]
            for a, b in zip(cs, cs[1:]):
                h.check(a >= b, "larger terms first when sorting")
    else:
        order = [t for t, _ in terms]
        for g in groups:
            h.same([order.index(t) for t in g.terms], sorted(order.index(t) for t in g.terms), "in the order of the operator")


def tasks(h, m):
    pool = [(), ((0, "Z"),), ((0, "X"),), ((0, "Z"), (1, "Y"))]
    made = []
    for i in range(m):
        op, terms = QubitOperator(), []
        for j in range(2):
            s = h.choice("t%d%d" % (i, j), [x for x in pool if x not in [t for t, _ in terms]])
            c = h.real("c%d%d" % (i, j), 0.1, 9)
            op += QubitOperator(s, c)
            terms.append((s, c))
        made.append((EstimationTask(op, Circuit([HAD(i)]), [None, 7][i]), terms))
    sort = h.flag("sort")
    r = E.group_greedily([t for t, _ in made], sort_terms=sort)
    k = 0
    for t, terms in made:
        mine = [x for x in r if x.circuit is t.circuit]
        check_groups(h, [x.operator for x in mine], terms)
        h.check(all(x.number_of_shots == t.number_of_shots for x in mine), "shots kept")
        h.check(all(x is y for x, y in zip(r[k:], mine)), "tasks in order")
        k += len(mine)
    h.same(k, len(r), "nothing else")


def context(h, n, k, pool=None):
    """U+ Z-terms U = the terms, for the circuit U that is added."""
    op, terms = operator(h, n, k, pool)
    ts = [t for t, _ in terms]
    if any(clash(a, b) for a in ts for b in ts):
        h.raises(ValueError, lambda: E.get_context_selection_circuit_for_group(op), "terms that cannot be measured together are refused")
        return
    circ, z = E.get_context_selection_circuit_for_group(op)
    h.check(isinstance(z, IsingOperator), "an Ising operator")
    h.same(list(z.terms), [tuple((q, "Z") for q, _ in t) for t in ts], "term by term, in order") if len({tuple(q for q, _ in t) for t in ts}) == len(ts) else None
    u = unitary(h, circ, n)
    ud = G.adjoint(u)
    left = numpy.zeros((2 ** n, 2 ** n), dtype=object)
    for t, c in z.terms.items():
        left = left + G.matmul(ud, G.matmul(pauli(t, n), u)) * h.num(c)
    right = numpy.zeros((2 ** n, 2 ** n), dtype=object)
    for t, c in terms:
        right = right + pauli(t, n) * h.num(c)
    h.close(left, right, "measuring after the circuit measures the operator", 1e-9)


def context_tasks(h):
    pool = [((0, "Z"),), ((0, "X"), (1, "Y")), ((2, "Y"),)]
    a = h.angle("a")
    made = [EstimationTask(QubitOperator(h.choice("t%d" % i, pool), h.real("c%d" % i, 0.1, 9)), Circuit([RX(a)(i)], n_qubits=3), h.choice("s%d" % i, [None, 0, 9])) for i in range(2)]
    r = E.perform_context_selection(made)
    h.same(len(r), 2, "one task per task")
    for x, t in zip(r, made):
        c, z = E.get_context_selection_circuit_for_group(t.operator)
        h.same(x.number_of_shots, t.number_of_shots, "shots kept")
        h.same(x.circuit, Circuit([*t.circuit.operations, *c.operations], n_qubits=3), "its own circuit, then its own rotations")
        h.same(list(x.operator.terms), list(z.terms), "its own operator")
        h.eq(list(x.operator.terms.values()), list(t.operator.terms.values()), "with its coefficient")
        h.same(len(t.circuit.operations), 1, "the given task is left alone")


def many(h, k):
    """Larger groups: each term has a qubit of its own, or one it shares in
    another basis with an earlier term."""
    op, terms = QubitOperator(), []
    bases = {}
    for i in range(k):
        j = h.choice("with%d" % i, [None] + [j for j in range(i) if j in (0, i - 1) and len(bases[j]) < 3]) if i else None
        q = i if j is None else j
        bases.setdefault(i, [])
        p = "XYZ"[len(bases[q])]
        bases[q] = bases[q] + [p]
        s = ((q, p),)
        c = h.real("c%d" % i, 0.1 + i, 1 + i)
        op += QubitOperator(s, c)
        terms.append((s, c))
    for sort in (False, True):
        check_groups(h, H.group_comeasureable_terms_greedy(op, sort), terms)


def names(h):
    h.raises(ValueError, lambda: H.get_decomposition_function(h.choice("n", ["", "Greedy", "other"])), "unknown methods are refused")


UNITS = []
for n in (1, 2):
    UNITS.append(dict(name="comeasureable/%d" % n, fn=comeasureable, args=dict(n=n), bounds="all pairs of Pauli terms on %d qubits" % n))
UNITS.append(dict(name="comeasureable/3", fn=comeasureable, args=dict(n=3), thorough=True, bounds="all pairs of Pauli terms on 3 qubits"))
P4 = [(), ((0, "X"),), ((1, "Z"),), ((0, "X"), (1, "Y")), ((0, "Z"), (1, "Z"))]
for n, k, pool, th in ((1, 2, None, 0), (1, 3, None, 0), (2, 2, None, 0), (2, 3, P4, 0), (2, 4, P4, 1), (2, 3, None, 1)):
    UNITS.append(dict(name="greedy/%d/%d/%s" % (n, k, "some" if pool else "all"), fn=greedy, args=dict(n=n, k=k, pool=pool), types=True, thorough=bool(th), bounds="all operators of %d of %s terms on %d qubits, any coefficients" % (k, len(pool) if pool else "all", n)))
for n, k, pool, th in ((1, 1, None, 0), (2, 1, None, 0), (2, 2, None, 0), (2, 3, P4, 0), (2, 3, None, 1), (3, 2, None, 1)):
    UNITS.append(dict(name="context/%d/%d/%s" % (n, k, "some" if pool else "all"), fn=context, args=dict(n=n, k=k, pool=pool), types=True, thorough=bool(th), bounds="all operators of %d of %s terms on %d qubits, any coefficients" % (k, len(pool) if pool else "all", n)))
for m in (1, 2):
    UNITS.append(dict(name="tasks/%d" % m, fn=tasks, args=dict(m=m), types=True, bounds="%d tasks" % m))
UNITS.append(dict(name="context_tasks", fn=context_tasks, types=True, bounds="any two tasks"))
for k in (5, 6):
    UNITS.append(dict(name="many/%d" % k, fn=many, args=dict(k=k), types=True, thorough=k > 5, bounds="%d one-qubit terms, any coefficients" % k))
UNITS.append(dict(name="names", fn=names, bounds="some names"))
