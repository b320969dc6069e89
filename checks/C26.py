"""Sparse matrices, states and expectation values of operators."""
from zquantum.core.openfermion import FermionOperator, InteractionOperator, IsingOperator, QubitOperator
from zquantum.core.openfermion.linalg import sparse_tools as S
from zquantum.core.openfermion.ops.representations import interaction_operator as IO
from zquantum.core.openfermion.ops.representations import polynomial_tensor as PT

from checks.lib import fermi as F
from symx import spshim

LEVEL = "model_checking"
PATCH = spshim.patch


def term(h, n, k, tag, cls):
    if cls == "fermion":
        return tuple((h.fixed_int("%sq%d" % (tag, i), 0, n - 1), h.fixed_int("%sa%d" % (tag, i), 0, 1)) for i in range(k))
    return tuple((q, p) for q in range(n) for p in [h.choice("%sp%d" % (tag, q), "IXYZ")] if p != "I")


def operator(h, n, sizes, cls, lo=None):
    op = FermionOperator() if cls == "fermion" else QubitOperator()
    for i, k in enumerate(sizes):
        t = term(h, n, k, "t%d" % i, cls)
        h.assume(t not in op.terms)
        op.terms[t] = h.complex("c%d" % i) if lo is None and len(sizes) == 1 else h.real("c%d" % i, lo if lo is not None else -9, 9)
    return op


def dense(h, s, N):
    """The entries of a sparse (or dense) matrix."""
    h.same(tuple(s.shape), (N, N), "one row per basis state")
    a = s.toarray() if hasattr(s, "toarray") else s
    return {(i, j): h.value(a[i, j]) for i in range(N) for j in range(N)}


def sparse(h, n, sizes, cls):
    op = operator(h, n, sizes, cls)
    A = dict(op.terms)
    used = max([q + 1 for t in op.terms for q, _ in t] or [0])
    given = h.choice("given", [None, n, n + 1] + ([used - 1] if used else []))
    how = h.choice("how", ["get", "direct"])
    f = S.get_sparse_operator if how == "get" else S.qubit_operator_sparse if cls == "qubit" else S.jordan_wigner_sparse
    if given is not None and given < used:
        h.raises((ValueError, IndexError), lambda: f(op, given), "too few qubits")
        return
    r = f(op) if given is None else f(op, given)
    N = used if given is None else given
    want = F.fermion(h, op, N) if cls == "fermion" else F.qubit(h, op, N)
    F.equal(h, dense(h, r, 2 ** N), want, "the matrix of the operator")
    h.check(op.terms.keys() == A.keys(), "the operator is left alone")


def tensor(h, n):
    """Interaction operators act on all their modes, used or not."""
    o, t = IO.numpy.zeros((n, n)), IO.numpy.zeros((n,) * 4)
    terms = {(): h.real("c", 0.1, 9)}
    p, q = h.fixed_int("p", 0, n - 1), h.fixed_int("q", 0, n - 1)
    o[p, q] = terms[(p, 1), (q, 0)] = h.real("o", 0.1, 9)
    i = tuple(h.fixed_int("i%d" % j, 0, n - 1) for j in range(4))
    t[i] = terms[(i[0], 1), (i[1], 1), (i[2], 0), (i[3], 0)] = h.real("t", 0.1, 9)
    iop = InteractionOperator(terms[()], o, t)
    extra = h.fixed_int("extra", 0, 1)
    r = S.get_sparse_operator(iop, n + 1) if extra else S.get_sparse_operator(iop)
    F.equal(h, dense(h, r, 2 ** (n + extra)), F.matrix(h, terms, n + extra, F.ladder_term), "the matrix of the operator")


def ladder(h, n):
    q, a = h.fixed_int("q", 0, n - 1), h.fixed_int("a", 0, 1)
    r = S.jordan_wigner_ladder_sparse(n, q, a)
    F.equal(h, dense(h, r, 2 ** n), F.matrix(h, {((q, a),): 1}, n, F.ladder_term), "a ladder operator")
    for g in (3, "X0", IsingOperator("Z0")):
        h.raises(TypeError, lambda: S.get_sparse_operator(g), "other things are refused")


def states(h, n):
    """Basis states and particle-number sectors."""
    occ = [q for q in range(n) if h.flag("o%d" % q)]
    if h.flag("reversed"):
        occ = occ[::-1]
    v = S.jw_configuration_state(occ, n)
    idx = sum(1 << (n - 1 - q) for q in occ)
    h.eq([v[i] for i in range(2 ** n)], [1 if i == idx else 0 for i in range(2 ** n)], "the occupied orbitals, mode 0 first")
    if occ == list(range(len(occ))):
        w = S.jw_hartree_fock_state(len(occ), n)
        h.eq([w[i] for i in range(2 ** n)], [v[i] for i in range(2 ** n)], "the first orbitals are occupied")
    k = len(occ)
    ind = list(S.jw_number_indices(k, n))
    h.same(sorted(ind), [i for i in range(2 ** n) if bin(i).count("1") == k], "the states with this number of particles, each once")


def as_sparse(m, N):
    """A sparse matrix with these entries, zero or not."""
    k = sorted(m, key=lambda x: x[::-1])
    return S.scipy.sparse.csc_matrix((S.numpy.array([m[x] for x in k]), ([x[0] for x in k], [x[1] for x in k])), shape=(N, N))


def matrix(h, N, tag="m", cplx=True, lo=None):
    a = S.numpy.zeros((N, N), complex)
    m = {}
    for i in range(N):
        for j in range(N):
            m[i, j] = a[i, j] = h.complex("%s%d%d" % (tag, i, j)) if cplx else h.real("%s%d%d" % (tag, i, j), lo, None if lo is None else 9)
    return a, m


def restrict(h, n):
    a, m = matrix(h, 2 ** n, cplx=False, lo=0.1)
    k = h.fixed_int("k", 0, n)
    op = as_sparse(m, 2 ** n) if h.flag("sparse") else a
    r = S.jw_number_restrict_operator(op, k, n) if h.flag("explicit") else S.jw_number_restrict_operator(op, k)
    ind = list(S.jw_number_indices(k, n))
    got = dense(h, r, len(ind))
    F.equal(h, got, {(i, j): m[x, y] for i, x in enumerate(ind) for j, y in enumerate(ind)}, "the block of this number of particles")


def vector(h, N, tag):
    a = S.numpy.zeros(N, complex)
    v = []
    for i in range(N):
        a[i] = h.complex("%s%d" % (tag, i))
        v.append(h.num(h.value(a[i])))
    return a, v


def expectation(h, n):
    N = 2 ** n
    a, m = matrix(h, N)
    v, w = vector(h, N, "v")
    op = as_sparse(m, N)
    form = h.choice("form", ["row", "column", "density", "refused"])
    if form == "refused":
        h.raises(ValueError, lambda: S.expectation(op, list(w)), "other states are refused")
        return
    want = 0
    for i in range(N):
        for j in range(N):
            want = want + w[i].conjugate() * m[i, j] * w[j]
    if form == "row":
        got = S.expectation(op, v)
    elif form == "column":
        got = S.expectation(op, v.reshape((N, 1)))
    else:
        d = {(i, j): w[i] * w[j].conjugate() for i in range(N) for j in range(N)}
        got = S.expectation(op, as_sparse(d, N))
    h.eq(h.value(got), want, "<v|M|v>")


def products(h, n, k):
    N = 2 ** n
    vs = [vector(h, N, "v%d" % i) for i in range(k)]
    x, y = vs[0], vs[-1]
    want = 0
    for i in range(N):
        want = want + x[1][i].conjugate() * y[1][i]
    h.eq(h.value(S.inner_product(x[0], y[0])), want, "inner product")
    ps = [h.real("p%d" % i, 0, 1) for i in range(k)]
    d = S.get_density_matrix([v for v, _ in vs], ps)
    want = {}
    for i in range(N):
        for j in range(N):
            want[i, j] = 0
            for (_, w), p in zip(vs, ps):
                want[i, j] = want[i, j] + p * w[i] * w[j].conjugate()
    F.equal(h, dense(h, d, N), want, "the mixture of the pure states")


def sector(h, n, sizes, spin, orders):
    """The matrix in a symmetry sector, in the order of states the function itself uses."""
    ref = [bool(h.flag("r%d" % q)) for q in range(n)] if h.flag("ref") else None
    k = sum(ref) if ref is not None else h.fixed_int("k", 0, n)
    lvl = h.choice("lvl", [None] + list(range(k + 1)))
    op = FermionOperator()
    for i, s in enumerate(sizes):
        o = h.choice("ord%d" % i, orders[s])
        t = tuple((h.fixed_int("q%d%d" % (i, j), 0, n - 1), a) for j, a in enumerate(o))
        h.assume(t not in op.terms)
        op.terms[t] = h.real("c%d" % i, 0.1, 9)
    base = ref if ref is not None else [q < k for q in range(n)]
    b = sum(1 << (n - 1 - q) for q in range(n) if base[q])

    def inside(x):
        if bin(x).count("1") != k:
            return False
        if spin and sum(F.bit(x, q, n) for q in range(0, n, 2)) != sum(base[0::2]):
            return False
        return lvl is None or bin(x & ~b).count("1") <= lvl

    def f(o):
        r = S.get_number_preserving_sparse_operator(o, n, k, spin, None if ref is None else S.numpy.array(ref), lvl)
        return r

    ids = FermionOperator()
    for q in range(n):
        ids += FermionOperator(((q, 1), (q, 0)), 2.0 ** (n - 1 - q))
    d = f(ids)
    N = d.shape[0]
    d = dense(h, d, N)
    order = [int(round(float(d[i, i]))) for i in range(N)]
    h.same(sorted(order), [x for x in range(2 ** n) if inside(x)], "the states of the sector, each once")
    h.same(order[0], b, "the reference state comes first")
    ranks = [bin(x & ~b).count("1") for x in order]
    h.same(ranks, sorted(ranks), "states are ordered by excitation rank")
    m = F.fermion(h, op, n)
    got = dense(h, f(op), N)
    F.equal(h, got, {(i, j): m.get((x, y), 0) for i, x in enumerate(order) for j, y in enumerate(order)}, "matrix elements in the sector")


def refused_sector(h):
    for t in ("0", "0^", "0^ 1^", "2 1", "0^ 1^ 2"):
        h.raises(ValueError, lambda: S.get_number_preserving_sparse_operator(FermionOperator(t, h.real("c", 0.1, 9)), 4, 2), "operators that do not conserve particles are refused")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


def s(x):
    return "+".join(map(str, x))


for n, sizes, cls, th in ((1, (1,), "qubit", 0), (2, (1,), "qubit", 0), (3, (1,), "qubit", 0), (2, (1, 1), "qubit", 1), (1, (1, 1), "qubit", 0), (2, (0,), "fermion", 0), (3, (1,), "fermion", 0), (2, (2,), "fermion", 0), (2, (3,), "fermion", 0), (3, (2,), "fermion", 1), (2, (1, 1), "fermion", 0), (2, (2, 1), "fermion", 1), (4, (1,), "qubit", 1)):
    add("sparse/%d/%s/%s" % (n, s(sizes), cls), sparse, "all sums of terms of these sizes on %d modes, any coefficients" % n, th, n=n, sizes=sizes, cls=cls)
add("tensor/2", tensor, "any one-body and two-body entry on 2 modes", n=2)
add("tensor/3", tensor, "any one-body and two-body entry on 3 modes", True, n=3)
add("ladder/5", ladder, "all ladder operators on 5 modes", n=5)
add("states/5", states, "all occupations of 5 modes", n=5)
add("restrict/2", restrict, "all matrices on 2 modes", n=2)
add("restrict/3", restrict, "all matrices on 3 modes", n=3)
add("expectation/1", expectation, "all complex matrices and vectors", n=1)
add("expectation/2", expectation, "all complex matrices and vectors", n=2)
add("products/1/2", products, "all complex vectors and probabilities", n=1, k=2)
add("products/2/2", products, "all complex vectors and probabilities", n=2, k=2)
add("products/1/1", products, "all complex vectors and probabilities", n=1, k=1)
ONE = {2: [(1, 0)], 4: [(1, 1, 0, 0)], 0: [()]}
ANY = {2: [(1, 0), (0, 1)], 4: [(1, 1, 0, 0), (1, 0, 1, 0), (0, 1, 0, 1)], 0: [()]}
for n, sizes, spin, orders, th in ((2, (2,), False, ANY, 0), (3, (2,), False, ONE, 0), (2, (0, 2), False, ONE, 0), (4, (2,), True, ONE, 0), (3, (4,), False, ONE, 1), (2, (4,), False, ONE, 0), (3, (2,), True, ANY, 1), (4, (4,), True, ONE, 1)):
    add("sector/%d/%s%s" % (n, s(sizes), "/spin" if spin else ""), sector, "all number-conserving terms of these sizes on %d modes, all references and excitation levels" % n, th, n=n, sizes=sizes, spin=spin, orders=orders)
add("refused", refused_sector, "listed operators")
