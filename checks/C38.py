"""Utilities that build, evaluate, reverse and split operators."""
import itertools

from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import FermionOperator, InteractionOperator, PolynomialTensor, QubitOperator
from zquantum.core.openfermion.zapata_utils import _utils as ZU
from zquantum.core.utils import ValueEstimate
from zquantum.core.wavefunction import Wavefunction

from checks.lib import fermi as F
from symx import spshim, veshim

LEVEL = "model_checking"


def PATCH(p, u=None):
    spshim.patch(p, u)
    veshim.patch(p, u)


def equal(h, got, want, label, tol=1e-6):
    for k in sorted(set(got) | set(want)):
        h.close(got.get(k, 0), want.get(k, 0), "%s at %s" % (label, k), tol)


def from_matrix(h, n, entries, kind, cplx):
    """Every matrix is the sum of its Pauli strings."""
    size = 2 ** n
    m = [[0] * size for _ in range(size)]
    where = list(itertools.product(range(size), repeat=2)) if entries is None else []
    if entries is not None:
        for i in range(entries):
            where.append((h.fixed_int("r%d" % i, 0, size - 1), h.fixed_int("c%d" % i, 0, size - 1)))
        h.assume(len(set(where)) == entries)
    want = {}
    for i, (r, c) in enumerate(where):
        x = h.real("m%d.r" % i, 10.0 ** i, 5 * 10.0 ** i) + 1j * h.real("m%d.i" % i, -9, 9) if cplx else h.real("m%d" % i, 10.0 ** i, 5 * 10.0 ** i)
        m[r][c] = want[r, c] = x
    if kind == "array":
        m = ZU.np.array(m)
    elif kind == "tuples":
        m = tuple(tuple(r) for r in m)
    op = ZU.get_qubitop_from_matrix(m)
    h.check(type(op) is QubitOperator, "a qubit operator")
    equal(h, F.qubit(h, op, n), want, "the matrix")


def bad_matrix(h):
    r, c = h.fixed_int("r", 1, 9), h.fixed_int("c", 1, 9)
    h.assume(r != c or r & (r - 1))
    h.raises(Exception, lambda: ZU.get_qubitop_from_matrix([[0] * c for _ in range(r)]), "matrices that are not 2^n by 2^n")


def from_labels(h, n, k):
    labels = [[h.fixed_int("l%d_%d" % (i, q), 0, 3) for q in range(n)] for i in range(k)]
    cs = [h.real("k%d" % i, 10.0 ** i, 5 * 10.0 ** i) for i in range(k)]
    op = ZU.get_qubitop_from_coeffs_and_labels(cs, labels)
    want = {}
    for l, c in zip(labels, cs):
        t = tuple((q, "IXYZ"[x]) for q, x in enumerate(l) if x)
        want[t] = want.get(t, 0) + c
    h.same(sorted(op.terms), sorted(want), "strings of the labels")
    for t in want:
        h.close(op.terms[t], want[t], "coefficients")


class Draws:
    """Stands for the module random: any outcome it could give."""

    def __init__(self, h):
        self.h, self.n = h, 0

    def _name(self):
        self.n += 1
        return "draw%d" % self.n

    def uniform(self, a, b):
        x = self.h.real(self._name(), -9, 9)
        self.h.assume(x >= a)
        self.h.assume(x <= b)
        self.h.assume(abs(x) > 0.01)
        return x

    def sample(self, pop, k):
        pop = list(pop)
        if k > len(pop):
            raise ValueError("Sample larger than population")
        return list(self.h.choice(self._name(), list(itertools.permutations(pop, k))))

    def randint(self, a, b):
        return self.h.fixed_int(self._name(), a, b)

    def choice(self, seq):
        return self.h.choice(self._name(), list(seq))

    def shuffle(self, x):
        x[:] = self.h.choice(self._name(), list(itertools.permutations(x)))

    def random(self):
        return self.h.real(self._name(), 0, 1)


class TooMany(Exception):
    pass


def random_op(h, n, terms, local, fixed):
    top = h.real("top", 0.1, 9)
    d, old = Draws(h), ZU.random
    limit = 10 * terms
    name = d._name

    def counted():
        if d.n > limit:
            h.assume(False)
        return name()

    d._name = counted
    ZU.random = d
    try:
        op = ZU.generate_random_qubitop(n, terms, local, top, **({} if fixed is None else dict(fixed_coeff=fixed)))
    finally:
        ZU.random = old
    h.same(len(op.terms), terms, "number of distinct terms")
    for t, c in op.terms.items():
        h.same(len(t), local, "locality of %s" % (t,))
        h.check(all(0 <= q < n and p in "XYZ" for q, p in t), "qubits of %s" % (t,))
        c = h.value(c)
        if fixed:
            h.close(c, top, "fixed coefficients")
        else:
            h.check(h.both(h.num(c).real <= top + 1e-9, h.num(c).real >= -top - 1e-9), "range of the coefficients")


def some_terms(h, n, k):
    every = [tuple((q, p) for q, p in enumerate(ps) if p != "I") for ps in itertools.product("IXYZ", repeat=n)]
    out = []
    for i in range(k):
        t = every[h.choice("t%d" % i, range(len(every)))]
        h.assume(t not in out)
        out.append(t)
    return out


def coefficient(h, name):
    return h.real(name + ".r", 0.1, 9) + 1j * h.real(name + ".i", -9, 9)


def evaluate(h, sizes, as_list):
    """The value is the sum of coefficients times expectation values."""
    ops, vals, want = [], [], 0
    k = 0
    for s in sizes:
        op = QubitOperator()
        for i in range(s):
            c = coefficient(h, "c%d" % k)
            v = h.real("v%d" % k, -1, 1)
            op.terms[((i, "XYZ"[i % 3]),) if i else ()] = c
            vals.append(v)
            want = want + h.num(c).real * v
            k += 1
        ops.append(op)
    e = ExpectationValues(ZU.np.array(vals))
    got = ZU.evaluate_qubit_operator_list(ops, e) if as_list else ZU.evaluate_qubit_operator(ops[0], e)
    h.check(type(got).__name__ == "ValueEstimate", "a value estimate")
    h.check(got.precision is None, "no precision")
    h.close(h.value(got), want, "sum of the contributions")


def reverse(h, n, k, extra):
    op = QubitOperator()
    ts = some_terms(h, n, k)
    cs = [coefficient(h, "c%d" % i) for i in range(k)]
    for t, c in zip(ts, cs):
        op.terms[t] = c
    used = max([q + 1 for t in ts for q, _ in t] or [0])
    size = None if extra is None else n + extra
    keep = dict(op.terms)
    if size is not None and size < used:
        h.raises(ValueError, lambda: ZU.reverse_qubit_order(op, size), "too few qubits")
        return
    m = used if size is None else size
    kw = {} if size is None else dict(n_qubits=size)
    got = ZU.reverse_qubit_order(op, **kw)
    h.check(type(got) is QubitOperator, "a qubit operator")
    h.check(all(op.terms[t] is keep[t] for t in keep) and len(keep) == len(op.terms), "the operator is not modified")
    want = {tuple(sorted((m - 1 - q, p) for q, p in t)): c for t, c in keep.items()}
    h.same(sorted(got.terms), sorted(want), "reversed strings")
    for t in want:
        h.close(got.terms[t], want[t], "coefficients")
    again = ZU.reverse_qubit_order(got, m)
    h.same(sorted(again.terms), sorted(keep), "reversing twice")


def expectation(h, n, k, rev):
    """Expectation values in states, in both orders of qubits."""
    w = h.unit_vector("w", 2 ** n, True)
    op = QubitOperator()
    ts = some_terms(h, n, k)
    for i, t in enumerate(ts):
        op.terms[t] = h.real("c%d" % i, 0.1, 9)
    state = Wavefunction.__new__(Wavefunction)
    state._amplitude_vector = ZU.np.array(list(w))
    kw = {} if rev is None else dict(reverse_operator=rev)
    got = ZU.get_expectation_value(op, state, **kw)
    m = {}
    for t in ts:
        u = tuple(sorted((n - 1 - q, p) for q, p in t)) if rev else t
        for key, x in F.matrix(h, {u: op.terms[t]}, n, F.pauli_term).items():
            m[key] = m.get(key, 0) + x
    want = 0
    for (r, c), x in m.items():
        want = want + h.num(w[r]).conjugate() * x * w[c]
    h.close(got, want, "<w|operator|w>")


def change(h, kind):
    from zquantum.core.openfermion.ops.operators import IsingOperator
    if kind == "qubit":
        a, b, terms = QubitOperator, IsingOperator, [(), ((0, "Z"),), ((1, "Z"),), ((0, "Z"), (2, "Z")), ((0, "Z"), (1, "Z"), (3, "Z"))]
    elif kind == "ising":
        a, b, terms = IsingOperator, QubitOperator, [(), ((0, "Z"),), ((1, "Z"),), ((0, "Z"), (2, "Z")), ((0, "Z"), (1, "Z"), (3, "Z"))]
    elif kind == "same":
        a = b = QubitOperator
        terms = [(), ((0, "X"),), ((0, "X"), (2, "Y")), ((1, "Z"),)]
    op = a()
    chosen = []
    for i in range(2):
        t = terms[h.choice("t%d" % i, range(len(terms)))]
        h.assume(t not in chosen)
        chosen.append(t)
        op.terms[t] = coefficient(h, "c%d" % i)
    keep = dict(op.terms)
    got = ZU.change_operator_type(op, b)
    h.check(type(got) is b, "type of the operator")
    h.same(sorted(got.terms), sorted(keep), "terms of the operator")
    for t in keep:
        h.close(got.terms[t], keep[t], "coefficients")
    h.check(all(op.terms[t] is keep[t] for t in keep) and len(op.terms) == len(keep), "the operator is not modified")


def unchangeable(h):
    p = h.choice("p", ["X", "Y"])
    q = h.fixed_int("q", 0, 3)
    from zquantum.core.openfermion.ops.operators import IsingOperator
    op = QubitOperator(((q, p),), h.real("c", 0.1, 9))
    h.raises(TypeError, lambda: change_or_type(op, IsingOperator), "operators that the type cannot represent")


def change_or_type(op, kind):
    try:
        return ZU.change_operator_type(op, kind)
    except (TypeError, ValueError) as e:
        raise TypeError(e)


def number(h, n, particles):
    """Eigenvalues are particle numbers."""
    if particles is None:
        got, k = ZU.get_fermion_number_operator(n), 0
    else:
        k = h.real("k", 0, 9) if particles == "real" else h.fixed_int("k", 0, n)
        got = ZU.get_fermion_number_operator(n, k)
    h.check(isinstance(got, InteractionOperator), "an interaction operator")
    h.same(got.n_qubits, n, "number of modes")
    m = tensor_matrix(h, got, n)
    equal(h, m, {(i, i): bin(i).count("1") - k for i in range(2 ** n)}, "particle number")


def tensor_matrix(h, op, n):
    """Matrix of a polynomial tensor or interaction operator from its tensors."""
    m = {}
    for key, t in op.n_body_tensors.items():
        if key == ():
            for i in range(2 ** n):
                m[i, i] = m.get((i, i), 0) + h.value(t)
            continue
        for idx in itertools.product(range(n), repeat=len(key)):
            x = h.value(t[idx])
            if type(x) in (int, float, complex) and x == 0:
                continue
            for col, (row, s) in F.ladder_term(tuple(zip(idx, key)), n).items():
                m[row, col] = m.get((row, col), 0) + s * x
    return m


def split(h, op, n, keys, kind):
    before = {k: (t if k == () else {i: t[i] for i in itertools.product(range(n), repeat=len(k))}) for k, t in op.n_body_tensors.items()}
    diag, rest = ZU.get_diagonal_component(op)
    h.check(isinstance(diag, kind) and isinstance(rest, kind), "types of the parts")
    md, mr = tensor_matrix(h, diag, n), tensor_matrix(h, rest, n)
    m = tensor_matrix(h, op, n)
    for i, j in itertools.product(range(2 ** n), repeat=2):
        a, b, c = md.get((i, j), 0), mr.get((i, j), 0), m.get((i, j), 0)
        if i != j:
            h.close(a, 0, "the diagonal part is diagonal")
            h.close(b, c, "the remainder has the other entries")
        else:
            h.close(b, 0, "the remainder has no diagonal")
            h.close(a, c, "the diagonal part has the diagonal")
    for k in keys:
        if k == ():
            h.close(op.n_body_tensors[k], before[k], "the operator is not modified")
        else:
            for i in itertools.product(range(n), repeat=len(k)):
                h.close(op.n_body_tensors[k][i], before[k][i], "the operator is not modified")


def tensor(h, name, n, rank, sparse):
    t = ZU.np.zeros((n,) * rank, dtype=complex)
    places = list(itertools.product(range(n), repeat=rank))
    if sparse:
        places = [places[h.choice(name, range(len(places)))] for _ in range(1)]
    for i in places:
        t[i] = h.real(name + "".join(map(str, i)), -9, 9)
    return t


def diagonal_interaction(h, n, sparse):
    op = InteractionOperator(h.real("c", -9, 9), tensor(h, "a", n, 2, False), tensor(h, "b", n, 4, sparse))
    split(h, op, n, [(), (1, 0), (1, 1, 0, 0)], InteractionOperator)


def diagonal_polynomial(h, n, keys, sparse):
    d = {k: (h.real("c", -9, 9) if k == () else tensor(h, "t%d" % i, n, len(k), sparse and len(k) > 2)) for i, k in enumerate(keys)}
    split(h, PolynomialTensor(d), n, keys, PolynomialTensor)


def diagonal_refused(h):
    x = h.choice("x", [FermionOperator("0^ 0"), QubitOperator("Z0"), 1.0, None])
    h.raises(TypeError, lambda: ZU.get_diagonal_component(x), "other operators")


def polynomial(h, n, k, extra):
    """Tensors of a fermion operator."""
    palette = [(), ((0, 1), (0, 0)), ((0, 1), (1, 0)), ((0, 0), (1, 1)), ((1, 1), (0, 1)), ((0, 1), (1, 1), (1, 0), (0, 0)), ((1, 0), (0, 1), (0, 0), (1, 1)), ((0, 1),), ((1, 0), (0, 1), (1, 1))]
    if n > 2:
        palette += [((2, 1), (0, 0)), ((2, 0), (1, 1), (0, 1), (0, 0))]
    op = FermionOperator()
    ts = []
    for i in range(k):
        t = palette[h.choice("t%d" % i, range(len(palette)))]
        h.assume(t not in ts)
        ts.append(t)
        op.terms[t] = h.real("c%d" % i, 10.0 ** i, 5 * 10.0 ** i)
    used = max([q + 1 for t in ts for q, _ in t] or [0])
    h.assume(used > 0)
    if extra is None:
        got, m = ZU.get_polynomial_tensor(op), used
    elif extra < 0:
        h.raises(ValueError, lambda: ZU.get_polynomial_tensor(op, used + extra), "too few qubits")
        return
    else:
        m = used + extra
        got = ZU.get_polynomial_tensor(op, m)
    h.check(type(got) is PolynomialTensor and got.n_qubits == m, "tensors of all modes")
    equal(h, tensor_matrix(h, got, m), F.fermion(h, op, m), "the operator")


def polynomial_refused(h):
    x = h.choice("x", [QubitOperator("Z0"), 1.0, None])
    h.raises(TypeError, lambda: ZU.get_polynomial_tensor(x), "other operators")


def circuits(h, n, k):
    """One circuit per Pauli string."""
    op = QubitOperator()
    ts = some_terms(h, n, k)
    for i, t in enumerate(ts):
        op.terms[t] = coefficient(h, "c%d" % i)
    got = ZU.create_circuits_from_qubit_operator(op)
    h.same(len(got), k, "one circuit per term")
    for t, c in zip(ts, got):
        h.same(sorted((q, g.gate.name) for g in c.operations for q in g.qubit_indices), sorted(t), "Pauli gates of the string")
        h.same(c.n_qubits, max([q + 1 for q, _ in t] or [0]), "size of the circuit")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


add("matrix/1/list", from_matrix, "all 2x2 matrices with entries of distinct magnitudes", n=1, entries=None, kind="list", cplx=False)
for kind, cplx in (("list", True), ("array", False), ("tuples", False), ("array", True)):
    add("matrix/1/%s/%s" % (kind, cplx), from_matrix, "all 2x2 matrices with two nonzero entries", n=1, entries=2, kind=kind, cplx=cplx)
add("matrix/2/1", from_matrix, "all 4x4 matrices with one nonzero entry", n=2, entries=1, kind="list", cplx=True)
add("matrix/2/2", from_matrix, "all 4x4 matrices with two nonzero entries", True, n=2, entries=2, kind="list", cplx=False)
add("matrix/3/1", from_matrix, "all 8x8 matrices with one nonzero entry", True, n=3, entries=1, kind="array", cplx=False)
add("bad_matrix", bad_matrix, "sizes up to 9")
for n, k, th in ((1, 1, 0), (2, 1, 0), (2, 2, 0), (3, 1, 0), (3, 2, 1), (1, 3, 0)):
    add("labels/%d/%d" % (n, k), from_labels, "all labels of %d qubits, %d terms" % (n, k), th, n=n, k=k)
for n, t, l, f, th in ((1, 1, 1, None, 0), (2, 1, 1, True, 0), (2, 2, 1, None, 0), (2, 1, 2, False, 0), (3, 1, 2, None, 0), (2, 2, 1, True, 1), (2, 2, 2, None, 1), (3, 2, 1, None, 1)):
    add("random/%d/%d/%d/%s" % (n, t, l, f), random_op, "all draws (up to %d)" % (10 * t), th, n=n, terms=t, local=l, fixed=f)
add("evaluate", evaluate, "3 terms, any coefficients and values", sizes=(3,), as_list=False)
for s in ((1,), (2, 1), (1, 0, 2), ()):
    add("evaluate_list/%s" % "-".join(map(str, s)), evaluate, "any coefficients and values", sizes=s, as_list=True)
for n, k, e, th in ((2, 1, None, 0), (2, 2, None, 0), (2, 2, 0, 1), (2, 2, 1, 1), (2, 1, 0, 0), (2, 1, 1, 0), (2, 1, -1, 0), (2, 1, -2, 0), (3, 1, 2, 0), (3, 2, None, 1), (3, 2, -1, 1)):
    add("reverse/%d/%d/%s" % (n, k, e), reverse, "all strings on %d qubits" % n, th, n=n, k=k, extra=e)
for n, k, r, th in ((1, 1, True, 0), (2, 1, None, 0), (2, 1, True, 0), (2, 1, False, 0), (2, 2, True, 1), (3, 1, True, 1)):
    add("expectation/%d/%d/%s" % (n, k, r), expectation, "all states of %d qubits, all strings" % n, th, n=n, k=k, rev=r)
for k in ("qubit", "ising", "same"):
    add("change/" + k, change, "pairs of terms of a palette", kind=k)
add("change_refused", unchangeable, "X and Y on 4 qubits")
for n in (1, 2, 3):
    add("number/%d" % n, number, "%d modes" % n, n=n, particles=None)
    add("number/%d/offset" % n, number, "%d modes, up to %d particles" % (n, n), n=n, particles="int")
add("number/2/real", number, "any offset", n=2, particles="real")
add("diagonal/interaction/1", diagonal_interaction, "all operators on 1 mode", n=1, sparse=False)
add("diagonal/interaction/2", diagonal_interaction, "all operators on 2 modes", n=2, sparse=False)
add("diagonal/interaction/3", diagonal_interaction, "all one-body and any single two-body coefficient on 3 modes", n=3, sparse=True)
add("diagonal/interaction/3/all", diagonal_interaction, "all operators on 3 modes", True, n=3, sparse=False)
add("diagonal/polynomial/1", diagonal_polynomial, "all tensors on 1 mode", n=1, keys=[(), (1, 0), (0,), (1, 1, 0, 0), (0, 1)], sparse=False)
add("diagonal/polynomial/2", diagonal_polynomial, "all tensors on 2 modes", n=2, keys=[(), (1, 0), (1, 1, 0, 0)], sparse=False)
add("diagonal/polynomial/2/other", diagonal_polynomial, "all tensors on 2 modes", n=2, keys=[(), (0, 1), (1, 1), (0, 0), (1,), (1, 0, 1, 0)], sparse=False)
add("diagonal/polynomial/3", diagonal_polynomial, "any single two-body coefficient on 3 modes", n=3, keys=[(), (1, 0), (1, 1, 0, 0)], sparse=True)
add("diagonal/polynomial/3/all", diagonal_polynomial, "all tensors on 3 modes", True, n=3, keys=[(), (1, 0), (1, 1, 0, 0), (1, 0, 1, 0)], sparse=False)
add("diagonal_refused", diagonal_refused, "other types")
for n, k, e, th in ((2, 1, None, 0), (2, 2, None, 0), (2, 1, 1, 0), (2, 1, -1, 0), (3, 2, 0, 1)):
    add("polynomial/%d/%d/%s" % (n, k, e), polynomial, "%d terms of a palette" % k, th, n=n, k=k, extra=e)
add("polynomial_refused", polynomial_refused, "other types")
for n, k in ((1, 1), (2, 1), (2, 2), (3, 1)):
    add("circuits/%d/%d" % (n, k), circuits, "all strings on %d qubits" % n, n=n, k=k)
