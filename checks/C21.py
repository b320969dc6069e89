"""Fermion-to-qubit transforms represent the same operator."""
from zquantum.core.openfermion import FermionOperator, InteractionOperator, IsingOperator, QubitOperator
from zquantum.core.openfermion import transforms as T
from zquantum.core.openfermion.ops.representations import interaction_operator as IO
from zquantum.core.openfermion.transforms.opconversions.jordan_wigner import jordan_wigner_one_body, jordan_wigner_two_body

from checks.lib import fermi as F

LEVEL = "model_checking"


def ladders(h, n, k, tag="l"):
    return tuple((h.fixed_int("%sq%d" % (tag, i), 0, n - 1), h.fixed_int("%sa%d" % (tag, i), 0, 1)) for i in range(k))


def fermions(h, n, sizes, cplx=True):
    op = FermionOperator()
    for i, k in enumerate(sizes):
        t = ladders(h, n, k, "t%d" % i)
        h.assume(t not in op.terms)
        op.terms[t] = h.complex("c%d" % i) if cplx else h.real("c%d" % i, 0.1, 9)
    return op


def jordan_wigner(h, n, sizes):
    op = fermions(h, n, sizes, len(sizes) == 1)
    A = dict(op.terms)
    want = F.fermion(h, op, n)
    r = T.jordan_wigner(op)
    h.check(type(r) is QubitOperator, "a qubit operator")
    F.equal(h, F.qubit(h, r, n), want, "the matrix on occupation states")
    h.check(op.terms.keys() == A.keys(), "the operator is left alone")
    h.eq([op.terms[t] for t in A], [A[t] for t in A], "the operator is left alone")


def bravyi_kitaev(h, n, sizes, extra):
    op = fermions(h, n, sizes, len(sizes) == 1)
    used = max([q + 1 for t in op.terms for q, _ in t] or [0])
    m = n + extra
    given = h.choice("given", [None] + list(range(max(used - 1, 0), m + 1)))
    if given is not None and given < used:
        h.raises(ValueError, lambda: T.bravyi_kitaev(op, given), "too few qubits")
        return
    r = T.bravyi_kitaev(op, given) if given is not None or h.flag("explicit") else T.bravyi_kitaev(op)
    N = used if given is None else given
    if N == 0:
        F.equal(h, F.qubit(h, r, 0), F.fermion(h, op, 0), "a constant")
        return
    h.check(all(q < N for t in r.terms for q, _ in t), "no more qubits than asked for")
    want = F.relabel(F.fermion(h, op, N), lambda k: F.bk_encode(k, N))
    F.equal(h, F.qubit(h, r, N), want, "the matrix on encoded occupation states")


def qubits(h, n, k, cls=QubitOperator):
    op = cls()
    for i in range(k):
        t = []
        for q in range(n):
            p = h.choice("p%d_%d" % (i, q), "IXYZ")
            if p != "I":
                t.append((q, p))
        h.assume(tuple(t) not in op.terms)
        op.terms[tuple(t)] = h.complex("c%d" % i) if k == 1 else h.real("c%d" % i, 0.1, 9)
    return op


def reverse(h, n, k):
    op = qubits(h, n, k)
    A = dict(op.terms)
    used = max([q + 1 for t in op.terms for q, _ in t] or [0])
    given = h.choice("given", [None] + list(range(max(used - 1, 0), n + 2)))
    if given is not None and given < used:
        h.raises(ValueError, lambda: T.reverse_jordan_wigner(op, given), "too few qubits")
        return
    r = T.reverse_jordan_wigner(op, given)
    h.check(type(r) is FermionOperator, "a fermion operator")
    F.equal(h, F.fermion(h, r, n), F.qubit(h, op, n), "the matrix on occupation states")
    h.eq([op.terms[t] for t in A], [A[t] for t in A], "the operator is left alone")
    back = T.jordan_wigner(r)
    F.equal(h, F.qubit(h, back, n), F.qubit(h, op, n), "there and back")


def monomial(h, n, kind, cplx):
    """One Hermitian monomial c*(a^ a^ a a) + h.c. as an interaction operator
    and as a fermion operator."""
    one, two = IO.numpy.zeros((n, n), complex if cplx else float), IO.numpy.zeros((n,) * 4, complex if cplx else float)
    # the maps are real-linear: c real (units interaction/) and this direction span all
    c = h.real("c", 0.1, 9)
    if cplx:
        c = c * (0.6 + 0.8j)
    k = h.choice("const", [0.0, 1.5])
    terms = {(): k}
    if kind == "one":
        p, q = h.fixed_int("p", 0, n - 1), h.fixed_int("q", 0, n - 1)
        if p == q:
            c = c.real
        one[p, q] = c
        terms[(p, 1), (q, 0)] = c
        if p != q:
            one[q, p] = c.conjugate()
            terms[(q, 1), (p, 0)] = c.conjugate()
    else:
        p, q, r, s = [h.fixed_int(x, 0, n - 1) for x in "pqrs"]
        if (p, q, r, s) == (s, r, q, p):
            c = c.real
        two[p, q, r, s] = c
        terms[(p, 1), (q, 1), (r, 0), (s, 0)] = c
        if (p, q, r, s) != (s, r, q, p):
            two[s, r, q, p] = c.conjugate()
            terms[(s, 1), (r, 1), (q, 0), (p, 0)] = c.conjugate()
    f = FermionOperator()
    f.terms.update(terms)
    return InteractionOperator(k, one, two), f


def interaction(h, n, kind, cplx=False):
    iop, f = monomial(h, n, kind, cplx)
    how = h.choice("how", ["jw", "bk", "bk+"])
    if how == "jw":
        F.equal(h, F.qubit(h, T.jordan_wigner(iop), n), F.fermion(h, f, n), "Jordan-Wigner of an interaction operator")
    else:
        N = n + (1 if how == "bk+" else 0)
        r = T.bravyi_kitaev(iop, N) if N > n else T.bravyi_kitaev(iop)
        want = F.relabel(F.fermion(h, f, N), lambda k: F.bk_encode(k, N))
        F.equal(h, F.qubit(h, r, N), want, "Bravyi-Kitaev of an interaction operator")


def hamiltonian(h, n, size):
    """Several interacting entries at once, with the symmetries of molecules."""
    one, two = IO.numpy.zeros((n, n), float), IO.numpy.zeros((n,) * 4, float)
    f = FermionOperator()
    k = h.real("k", 0.1, 9)
    for p in range(n):
        for q in range(p + 1):
            one[p, q] = one[q, p] = h.real("o%d%d" % (p, q), 0.1, 9)
    for i in range(size):
        p, q, r, s = [h.fixed_int("%s%d" % (x, i), 0, n - 1) for x in "pqrs"]
        v = h.real("t%d" % i, 0.1, 9)
        for idx in [(p, q, r, s), (q, p, s, r), (s, r, q, p), (r, s, p, q)]:
            two[idx] = v
    iop = InteractionOperator(k, one, two)
    f.terms[()] = k
    for p in range(n):
        for q in range(n):
            f.terms[(p, 1), (q, 0)] = one[p, q]
            for r in range(n):
                for s in range(n):
                    if not isinstance(two[p, q, r, s], float) or two[p, q, r, s] != 0:
                        f.terms[(p, 1), (q, 1), (r, 0), (s, 0)] = two[p, q, r, s]
    if h.flag("bk"):
        want = F.relabel(F.fermion(h, f, n), lambda x: F.bk_encode(x, n))
        F.equal(h, F.qubit(h, T.bravyi_kitaev(iop), n), want, "Bravyi-Kitaev")
    else:
        F.equal(h, F.qubit(h, T.jordan_wigner(iop), n), F.fermion(h, f, n), "Jordan-Wigner")


def pieces(h, n):
    """The published one- and two-body building blocks."""
    c = h.complex("c")
    p, q = h.fixed_int("p", 0, n - 1), h.fixed_int("q", 0, n - 1)
    if h.flag("one"):
        if p == q:
            c = c.real
        r = jordan_wigner_one_body(p, q, c)
        f = {((p, 1), (q, 0)): c}
        if p != q:
            f[(q, 1), (p, 0)] = c.conjugate()
    else:
        u, v = h.fixed_int("r", 0, n - 1), h.fixed_int("s", 0, n - 1)
        if {p, q} == {u, v}:
            c = c.real
        r = jordan_wigner_two_body(p, q, u, v, c)
        f = {((p, 1), (q, 1), (u, 0), (v, 0)): c}
        if {p, q} != {u, v}:
            t = ((v, 1), (u, 1), (q, 0), (p, 0))
            f[t] = f.get(t, 0) + c.conjugate()
    F.equal(h, F.qubit(h, r, n), F.matrix(h, f, n, F.ladder_term), "a^_p a^_q a_r a_s + h.c., diagonal terms once")


def wrong(h):
    q, f = QubitOperator("X0"), FermionOperator("0^ 1")
    for g, x in ((T.jordan_wigner, q), (T.bravyi_kitaev, q), (T.reverse_jordan_wigner, f), (T.jordan_wigner, 3), (T.bravyi_kitaev, "0^"), (T.reverse_jordan_wigner, IsingOperator("Z0"))):
        h.raises(TypeError, lambda: g(x), "operators of the wrong kind are refused")


def number(h, n):
    """Number operators count."""
    c = h.real("c", 0.1, 9)
    mode = h.choice("mode", [None] + list(range(n)))
    from zquantum.core.openfermion.hamiltonians import special_operators as S

    r = S.number_operator(n, mode, c)
    m = F.fermion(h, r, n)
    want = {}
    for k in range(2 ** n):
        want[k, k] = c * (sum(F.bit(k, q, n) for q in range(n)) if mode is None else F.bit(k, mode, n))
    F.equal(h, m, want, "counts occupied modes")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=th, types=True, bounds=b))


for n, sizes, th in ((3, (0,), 0), (4, (1,), 0), (3, (2,), 0), (4, (2,), 1), (2, (3,), 0), (2, (4,), 0), (3, (3,), 1), (2, (1, 1), 0), (2, (2, 1), 0), (2, (2, 2), 1), (3, (4,), 1)):
    s = "+".join(map(str, sizes))
    b = "all products of %s ladder operators on %d modes, any coefficients" % (s, n)
    add("jw/%d/%s" % (n, s), jordan_wigner, b, bool(th), n=n, sizes=sizes)
    add("bk/%d/%s" % (n, s), bravyi_kitaev, b + ", up to %d qubits" % (n + 1), bool(th), n=n, sizes=sizes, extra=1)
add("bk/5/1", bravyi_kitaev, "all ladder operators on 5 modes, up to 6 qubits", n=5, sizes=(1,), extra=1)
add("bk/8/1", bravyi_kitaev, "all ladder operators on 8 modes", True, n=8, sizes=(1,), extra=0)
add("jw/6/1", jordan_wigner, "all ladder operators on 6 modes", n=6, sizes=(1,))
for n, k, th in ((1, 1, 0), (2, 1, 0), (3, 1, 0), (1, 2, 0), (2, 2, 1), (4, 1, 1)):
    add("reverse/%d/%d" % (n, k), reverse, "all sums of %d Pauli terms on %d qubits, any coefficients" % (k, n), bool(th), n=n, k=k)
for n, kind, th in ((3, "one", 0), (4, "one", 0), (2, "two", 0), (3, "two", 0), (4, "two", 1), (5, "one", 1)):
    add("interaction/%d/%s" % (n, kind), interaction, "all Hermitian %s-body monomials on %d modes, any real coefficient" % (kind, n), bool(th), n=n, kind=kind)
for n, kind, th in ((3, "one", 0), (2, "two", 0), (3, "two", 0), (4, "two", 1)):
    add("complex/%d/%s" % (n, kind), interaction, "all Hermitian %s-body monomials on %d modes, any complex coefficient" % (kind, n), bool(th), n=n, kind=kind, cplx=True)
add("hamiltonian/2/1", hamiltonian, "constant, all one-body and any symmetric two-body entry on 2 modes", n=2, size=1)
add("hamiltonian/3/1", hamiltonian, "constant, all one-body and any symmetric two-body entry on 3 modes", True, n=3, size=1)
add("pieces/3", pieces, "all indices on 3 modes, any complex coefficient", n=3)
add("pieces/4", pieces, "all indices on 4 modes, any complex coefficient", True, n=4)
add("number/3", number, "all modes of 3, any coefficient", n=3)
add("wrong", wrong, "listed operators")
