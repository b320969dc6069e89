"""Freezing orbitals and active spaces keep the operator's matrix elements."""
from zquantum.core.openfermion import FermionOperator, InteractionOperator, QubitOperator
from zquantum.core.openfermion import transforms as T
from zquantum.core.openfermion.chem import molecular_data as MD
from zquantum.core.openfermion.chem import reduced_hamiltonian as RH
from zquantum.core.openfermion.ops.representations import interaction_operator as IO
from zquantum.core.openfermion.transforms.repconversions import operator_tapering as OT
from zquantum.core.openfermion.zapata_utils import _utils as ZU

from checks.lib import fermi as F

LEVEL = "model_checking"


def ladders(h, n, k, tag):
    return tuple((h.fixed_int("%sq%d" % (tag, i), 0, n - 1), h.fixed_int("%sa%d" % (tag, i), 0, 1)) for i in range(k))


def survives(t, frozen):
    """Whether the frozen orbitals' own factors keep their occupations; the other factors."""
    occ = dict(frozen)
    rest = []
    for q, a in reversed(t):
        if q in occ:
            if occ[q] == a:
                return None
            occ[q] = a
        else:
            rest.append(q)
    return rest if occ == frozen else None


def restrict(m, n, frozen, free):
    """Matrix elements between states with the frozen occupations; free modes become 0..k-1."""
    k = len(free)

    def small(x):
        for q, o in frozen.items():
            if F.bit(x, q, n) != o:
                return None
        for q in range(n):
            if q not in frozen and q not in free and F.bit(x, q, n):
                return None
        return sum(F.bit(x, q, n) << (k - 1 - i) for i, q in enumerate(free))

    out = {}
    for (r, c), v in m.items():
        r, c = small(r), small(c)
        if r is not None and c is not None:
            out[r, c] = out.get((r, c), 0) + v
    return out


def freeze(h, n, sizes):
    op = FermionOperator()
    for i, k in enumerate(sizes):
        t = ladders(h, n, k, "t%d" % i)
        h.assume(t not in op.terms)
        op.terms[t] = h.complex("c0") if len(sizes) == 1 else h.real("c%d" % i, 10.0 ** i, 5 * 10.0 ** i)
    A = dict(op.terms)
    state = [h.choice("s%d" % q, ["free", "occupied", "empty"]) for q in range(n)]
    occ, emp = [q for q in range(n) if state[q] == "occupied"], [q for q in range(n) if state[q] == "empty"]
    small = sum(sizes) + n < 4
    if (h.flag("numpy") if small else sum(state.count(x) for x in ("free", "empty")) % 2):
        occ, emp = list(IO.numpy.array(occ, dtype=int)), IO.numpy.array(emp, dtype=int)
    elif small and h.flag("reversed"):
        occ, emp = occ[::-1], emp[::-1]
    r = T.freeze_orbitals(op, occ, emp) if len(emp) or small and h.flag("explicit") else T.freeze_orbitals(op, occ)
    h.check(type(r) is FermionOperator, "a fermion operator")
    frozen = {q: int(s == "occupied") for q, s in enumerate(state) if s != "free"}
    alive = [survives(t, frozen) for t in A]
    free = sorted({q for x in alive if x is not None for q in x})
    h.check(all(q < len(free) for t in r.terms for q, _ in t), "unused indices are removed")
    want = restrict(F.matrix(h, A, n, F.ladder_term), n, frozen, free)
    F.equal(h, F.fermion(h, r, len(free)), want, "matrix elements at the frozen occupations")
    h.eq([op.terms.get(t) for t in A], [A[t] for t in A], "the operator is left alone")


def unpruned(h, n, k):
    """prune=False leaves the indices of the other orbitals as they are."""
    t = ladders(h, n, k, "t")
    op = FermionOperator(t, h.real("c", 0.1, 9))
    i, o = h.fixed_int("i", 0, n - 1), h.fixed_int("o", 0, 1)
    r = T.freeze_orbitals(op, [i] if o else [], [] if o else [i], False) if h.flag("positional") else T.freeze_orbitals(op, [i] if o else [], [] if o else [i], prune=False)
    free = [q for q in range(n) if q != i]
    got = restrict(F.fermion(h, r, n), n, {i: 0}, free)
    h.check(all(q != i for s in r.terms for q, _ in s), "the frozen orbital is gone")
    F.equal(h, got, restrict(F.fermion(h, op, n), n, {i: o}, free), "matrix elements at the frozen occupations")


def prune(h, n, sizes, cls):
    op = FermionOperator() if cls == "fermion" else QubitOperator()
    for i, k in enumerate(sizes):
        if cls == "fermion":
            t = ladders(h, n, k, "t%d" % i)
        else:
            t = tuple((q, p) for q in range(n) for p in [h.choice("p%d%d" % (i, q), "IXYZ"[:k + 1])] if p != "I")
        h.assume(t not in op.terms)
        op.terms[t] = h.real("c%d" % i, -9, 9)
    A = dict(op.terms)
    r = T.prune_unused_indices(op)
    h.check(type(r) is type(op) and r is not op, "a new operator of the same kind")
    used = sorted({q for t in A for q, _ in t})
    want = {tuple((used.index(q), a) for q, a in t): c for t, c in A.items()}
    h.same(set(r.terms), set(want), "indices are numbered without gaps, in order")
    h.eq([r.terms[t] for t in want], [want[t] for t in want], "with their coefficients")
    h.eq([op.terms.get(t) for t in A], [A[t] for t in A], "the operator is left alone")


def spin_tensor(h, n, m, k):
    """n spin orbitals; any one-body and any k two-body entries."""
    o, t = IO.numpy.zeros((n, n)), IO.numpy.zeros((n,) * 4)
    for p in range(n):
        for q in range(n):
            o[p, q] = h.real("o%d%d" % (p, q), 0.1, 9)
    for i in range(k):
        t[tuple(h.fixed_int("i%d%d" % (i, j), 0, n - 1) for j in range(4))] = h.real("t%d" % i, 10, 20)
    if h.flag("sparse"):
        q = h.fixed_int("gone", 0, n - 1)
        for p in range(n):
            o[p, q] = o[q, p] = 0.0
    return InteractionOperator(h.real("c", 0.1, 9), o, t)


def terms(h, iop, n):
    out = {(): h.value(iop.constant)}
    for p in range(n):
        for q in range(n):
            out[(p, 1), (q, 0)] = h.value(iop.one_body_tensor[p, q])
            for u in range(n):
                for v in range(n):
                    out[(p, 1), (q, 1), (u, 0), (v, 0)] = h.value(iop.two_body_tensor[p, q, u, v])
    return out


def inactive(h, n, k):
    """remove_inactive_orbitals on 2n spin orbitals."""
    iop = spin_tensor(h, 2 * n, 2, k)
    core = h.fixed_int("core", 0, n)
    act = h.choice("act", [None] + list(range(n - core + 1)))
    r = ZU.remove_inactive_orbitals(iop, act, core) if core or h.flag("explicit") else ZU.remove_inactive_orbitals(iop, act)
    m = n - core if act is None else act
    h.same(r.n_qubits, 2 * m, "two spin orbitals for each active orbital")
    frozen = {q: 1 for q in range(2 * core)}
    frozen.update({q: 0 for q in range(2 * (core + m), 2 * n)})
    want = restrict(F.matrix(h, terms(h, iop, 2 * n), 2 * n, F.ladder_term), 2 * n, frozen, list(range(2 * core, 2 * (core + m))))
    F.equal(h, F.matrix(h, terms(h, r, 2 * m), 2 * m, F.ladder_term), want, "matrix elements with the core filled and the virtuals empty")


def integrals(h, n, k=None):
    """Spatial integrals with the symmetry of exchanging the two particles."""
    o, t = IO.numpy.zeros((n, n)), IO.numpy.zeros((n,) * 4)
    for p in range(n):
        for q in range(n):
            o[p, q] = h.real("o%d%d" % (p, q), 0.1, 9)
            for u in range(n):
                for v in range(n):
                    t[p, q, u, v] = t[q, p, v, u] = h.real("t%s" % min((p, q, u, v), (q, p, v, u)).__repr__(), 0.1, 9)
    return o, t


def spin_terms(h, c, o, t, n):
    """The molecular Hamiltonian of spatial integrals, by definition."""
    out = {(): c}
    for p in range(n):
        for q in range(n):
            for s in (0, 1):
                out[(2 * p + s, 1), (2 * q + s, 0)] = h.value(o[p, q])
            for u in range(n):
                for v in range(n):
                    for s in (0, 1):
                        for w in (0, 1):
                            x = ((2 * p + s, 1), (2 * q + w, 1), (2 * u + w, 0), (2 * v + s, 0))
                            out[x] = h.value(t[p, q, u, v]) / 2
    return out


def molecule(h, o, t, c):
    m = MD.MolecularData(geometry=[("H", (0, 0, 0))], basis="none", multiplicity=2, description="x")
    m.one_body_integrals, m.two_body_integrals, m.nuclear_repulsion = o, t, c
    m.get_from_file = lambda name: None
    return m


def active(h, n):
    """Integrating out doubly occupied orbitals."""
    o, t = integrals(h, n)
    A = [h.value(o[p, q]) for p in range(n) for q in range(n)]
    c = h.real("c")
    kinds = [h.choice("k%d" % q, ["core", "active", "virtual"]) for q in range(n)]
    core, act = [q for q in range(n) if kinds[q] == "core"], [q for q in range(n) if kinds[q] == "active"]
    mol = molecule(h, o, t, c)
    if not act:
        h.raises(ValueError, lambda: IO.get_active_space_integrals(o, t, core, act), "some active orbitals are needed")
        h.raises(ValueError, lambda: mol.get_active_space_integrals(core, act), "some active orbitals are needed")
        return
    m = len(act)
    cc, o2, t2 = IO.get_active_space_integrals(o, t, core if core or h.flag("explicit") else None, act)
    h.check(o2.shape == (m, m) and t2.shape == (m,) * 4, "one entry per active orbital")
    frozen = {2 * q + s: int(kinds[q] == "core") for q in range(n) if kinds[q] != "active" for s in (0, 1)}
    free = [2 * q + s for q in act for s in (0, 1)]
    want = restrict(F.matrix(h, spin_terms(h, c, o, t, n), 2 * n, F.ladder_term), 2 * n, frozen, free)
    F.equal(h, F.matrix(h, spin_terms(h, c + cc, o2, t2, m), 2 * m, F.ladder_term), want, "matrix elements with the core filled")
    iop = mol.get_molecular_hamiltonian(core, act)
    F.equal(h, F.matrix(h, terms(h, iop, 2 * m), 2 * m, F.ladder_term), want, "matrix elements with the core filled")
    h.eq([h.value(o[p, q]) for p in range(n) for q in range(n)], A, "integrals are left alone")


def hamiltonian(h, n):
    """The molecular Hamiltonian of all orbitals; Coulomb, exchange and antisymmetric integrals."""
    o, t = integrals(h, n)
    c = h.real("c")
    mol = molecule(h, o, t, c)
    iop = mol.get_molecular_hamiltonian()
    h.same(iop.n_qubits, 2 * n, "two spin orbitals per orbital")
    got, want = terms(h, iop, 2 * n), spin_terms(h, c, o, t, n)
    h.eq([got[k] for k in got], [want.get(k, 0) for k in got], "the Hamiltonian, entry by entry")
    J, K, a = mol.get_j(), mol.get_k(), mol.get_antisym()
    for p in range(n):
        for q in range(n):
            h.eq([h.value(J[p, q]), h.value(K[p, q])], [h.value(t[p, q, q, p]), h.value(t[p, q, p, q])], "Coulomb and exchange")
    for x in F_indices(2 * n):
        p, q, u, v = x
        w = want.get(((p, 1), (q, 1), (v, 0), (u, 0)), 0) * 2 - want.get(((p, 1), (q, 1), (u, 0), (v, 0)), 0) * 2
        h.eq(h.value(a[x]), w, "antisymmetrized integrals")
    back = T.get_molecular_data(iop, [("H", (0, 0, 0))], "none", 2)
    b1, b2 = back.one_body_integrals, back.two_body_integrals
    h.same((back.n_orbitals, back.n_qubits), (n, 2 * n), "orbitals of the molecule")
    h.eq(h.value(back.nuclear_repulsion), c, "constant")
    h.eq([h.value(b1[x]) for x in F_indices(n, 2)], [h.value(o[x]) for x in F_indices(n, 2)], "spatial integrals back")
    h.eq([h.value(b2[x]) for x in F_indices(n)], [h.value(t[x]) / 2 for x in F_indices(n)], "spatial integrals back")


def missing(h):
    mol = molecule(h, None, None, 1.0)
    for g in (mol.get_integrals, mol.get_molecular_hamiltonian, mol.get_j, mol.get_k, mol.get_antisym, mol.get_molecular_rdm, lambda: mol.get_molecular_rdm(True)):
        h.raises(MD.MissingCalculationError, g, "missing integrals are reported")


def electrons(h):
    """Electrons of each spin: alpha - beta is the multiplicity minus one."""
    mol = MD.MolecularData(geometry=[("H", (0, 0, 0))], basis="none", multiplicity=2)
    a, b = h.int("a", 0, 40), h.int("b", 0, 40)
    h.assume(a >= b)
    mol.n_electrons, mol.multiplicity = a + b, a - b + 1
    h.eq([mol.get_n_alpha_electrons(), mol.get_n_beta_electrons()], [a, b], "electrons of each spin")


def F_indices(n, k=4):
    out = [()]
    for _ in range(k):
        out = [x + (i,) for x in out for i in range(n)]
    return out


def reduced(h, n):
    """The reduced Hamiltonian agrees on states of the given number of electrons."""
    o, t = IO.numpy.zeros((n, n)), IO.numpy.zeros((n,) * 4)
    for x in F_indices(n, 2):
        o[x] = h.real("o%d%d" % x, 0.1, 9)
    for x in F_indices(n):
        t[x] = h.real("t%d%d%d%d" % x, 0.1, 9)
    iop = InteractionOperator(h.real("c"), o, t)
    k = h.fixed_int("k", 2, n)
    r = RH.make_reduced_hamiltonian(iop, k)
    h.check(all(h.value(r.one_body_tensor[x]) == 0 for x in F_indices(n, 2)), "no one-body part")
    sector = [x for x in range(2 ** n) if sum(F.bit(x, q, n) for q in range(n)) == k]
    a, b = [F.matrix(h, terms(h, y, n), n, F.ladder_term) for y in (r, iop)]
    h.eq([a.get((x, y), 0) for x in sector for y in sector], [b.get((x, y), 0) for x in sector for y in sector], "the same matrix on states with this number of electrons")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


for n, sizes, th in ((2, (0,), 0), (2, (1,), 0), (2, (2,), 0), (2, (3,), 0), (3, (2,), 0), (2, (1, 1), 0), (2, (4,), 1), (3, (3,), 1), (2, (2, 1), 1)):
    add("freeze/%d/%s" % (n, "+".join(map(str, sizes))), freeze, "all products of %s ladder operators and all frozen occupations on %d modes, any coefficients" % (sizes, n), th, n=n, sizes=sizes)
add("unpruned/2/2", unpruned, "all products of 2 ladder operators on 2 modes", n=2, k=2)
add("unpruned/3/2", unpruned, "all products of 2 ladder operators on 3 modes", n=3, k=2)
for n, sizes, cls in ((5, (2,), "fermion"), (3, (1, 1), "fermion"), (4, (2,), "qubit"), (2, (0,), "fermion")):
    add("prune/%d/%s/%s" % (n, "+".join(map(str, sizes)), cls), prune, "all such terms on %d modes" % n, n=n, sizes=sizes, cls=cls)
add("inactive/1/0", inactive, "any one-body entries on 1 orbital", n=1, k=0)
add("inactive/2/0", inactive, "any one-body entries on 2 orbitals", n=2, k=0)
add("inactive/1/1", inactive, "any one-body and any one two-body entry on 1 orbital", n=1, k=1)
add("inactive/2/1", inactive, "any one-body and any one two-body entry on 2 orbitals", True, n=2, k=1)
add("active/2", active, "all integrals with particle-exchange symmetry, all active spaces of 2 orbitals", n=2)
add("active/3", active, "all integrals with particle-exchange symmetry, all active spaces of 3 orbitals", True, n=3)
add("hamiltonian/2", hamiltonian, "all integrals of 2 orbitals", n=2)
add("missing", missing, "all queries")
add("electrons", electrons, "up to 40 electrons of each spin")
add("reduced/2", reduced, "all tensors on 2 modes", n=2)
add("reduced/3", reduced, "all tensors on 3 modes", n=3)
add("reduced/4", reduced, "all tensors on 4 modes", True, n=4)
