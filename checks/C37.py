"""Reduced density matrices and coupled cluster generators."""
import itertools

from zquantum.core.openfermion import FermionOperator, InteractionOperator, InteractionRDM, QubitOperator
from zquantum.core.openfermion.circuits import unitary_cc as UC
from zquantum.core.openfermion.measurements import get_interaction_rdm
from zquantum.core.openfermion.ops.representations import interaction_rdm as RD
from zquantum.core.openfermion.zapata_utils import _utils as ZU

from checks.lib import fermi as F
from symx import spshim

LEVEL = "model_checking"


def PATCH(p, u=None):
    spshim.patch(p, u)


def state(h, n, particles):
    """An arbitrary normalised state of some particle number."""
    basis = [k for k in range(2 ** n) if bin(k).count("1") == particles]
    return dict(zip(basis, h.unit_vector("v", len(basis), True)))


def ev(h, v, ops, of=F.ladder_term, n=None):
    """<v|product|v>"""
    out = 0
    for col, (row, s) in of(ops, n).items():
        if col in v and row in v:
            out = out + h.num(v[row]).conjugate() * v[col] * s
    return out


def tensors(h, v, n):
    one, two = RD.numpy.zeros((n,) * 2, dtype=complex), RD.numpy.zeros((n,) * 4, dtype=complex)
    for p, q in itertools.product(range(n), repeat=2):
        one[p, q] = ev(h, v, ((p, 1), (q, 0)), n=n)
    for p, q, r, s in itertools.product(range(n), repeat=4):
        two[p, q, r, s] = ev(h, v, ((p, 1), (q, 1), (r, 0), (s, 0)), n=n)
    return one, two


def interaction(h, n, particles, sparse):
    """Energies of interaction operators."""
    v = state(h, n, particles)
    one, two = tensors(h, v, n)
    rdm = InteractionRDM(one, two)
    h.check(rdm.one_body_tensor is one and rdm.two_body_tensor is two and rdm.n_qubits == n, "the tensors given")
    a, b = RD.numpy.zeros((n,) * 2, dtype=complex), RD.numpy.zeros((n,) * 4, dtype=complex)
    c = h.real("c", -9, 9)
    want = c
    for i in itertools.product(range(n), repeat=2):
        a[i] = h.real("a%d%d" % i, -9, 9)
        want = want + a[i] * ev(h, v, ((i[0], 1), (i[1], 0)), n=n)
    places = list(itertools.product(range(n), repeat=4))
    if sparse:
        places = [places[h.choice("place", range(len(places)))]]
    for i in places:
        b[i] = h.real("b%d%d%d%d" % i, -9, 9)
        want = want + b[i] * ev(h, v, ((i[0], 1), (i[1], 1), (i[2], 0), (i[3], 0)), n=n)
    h.close(rdm.expectation(InteractionOperator(c, a, b)), want, "energy of the state")
    for bad in (FermionOperator("0^ 0"), 1.0, "Z0"):
        h.raises(RD.InteractionRDMError, lambda: rdm.expectation(bad), "other operators")


def paulis(h, n, particles, terms):
    """Expectation values of Pauli strings."""
    v = state(h, n, particles)
    one, two = tensors(h, v, n)
    rdm = InteractionRDM(one, two)
    op = QubitOperator()
    k = len(terms) // 4
    chosen = terms if k < 1 else terms[4 * h.choice("block", range(k)):][:4]
    for i, t in enumerate(chosen):
        op.terms[t] = h.real("k%d" % i, 0.1, 9)
    keep = dict(op.terms)
    got = rdm.get_qubit_expectations(op)
    h.check(type(got) is QubitOperator, "a qubit operator")
    h.same(sorted(got.terms), sorted(keep), "terms of the operator")
    h.check(all(op.terms[t] is keep[t] for t in keep) and len(op.terms) == len(keep), "the operator is not modified")
    want = {t: ev(h, v, t, F.pauli_term, n) for t in keep}
    for t in keep:
        h.close(got.terms[t], want[t], "expectation value of %s" % (t,))
    total = 0
    for t in keep:
        total = total + keep[t] * want[t]
    h.close(rdm.expectation(op), total, "expectation value of the operator")


def beyond(h):
    """Three particle observables are not in one and two particle matrices."""
    v = state(h, 3, 1)
    rdm = InteractionRDM(*tensors(h, v, 3))
    op = QubitOperator(((0, "Z"), (1, "Z"), (2, "Z")))
    h.raises(RD.InteractionRDMError, lambda: rdm.get_qubit_expectations(op), "observables of three particles")


def strings(n):
    out = []
    for ps in itertools.product("IXYZ", repeat=n):
        out.append(tuple((q, p) for q, p in enumerate(ps) if p != "I"))
    return out


def measured(h, n, particles, size):
    """Density matrices from expectation values of Pauli strings."""
    v = state(h, n, particles)
    op = QubitOperator()
    for t in strings(n):
        op.terms[t] = ev(h, v, t, F.pauli_term, n)
    got = get_interaction_rdm(op, **({} if size is None else dict(n_qubits=size)))
    h.check(type(got) is InteractionRDM and got.n_qubits == n, "density matrices of all modes")
    one, two = tensors(h, v, n)
    same_tensors(h, got, one, two, n)


def same_tensors(h, got, one, two, n):
    for i in itertools.product(range(n), repeat=2):
        h.close(got.one_body_tensor[i], one[i], "one particle density matrix")
    for i in itertools.product(range(n), repeat=4):
        h.close(got.two_body_tensor[i], two[i], "two particle density matrix")


def partial(h, n):
    """Expectation values that were not measured count as zero."""
    op = QubitOperator()
    chosen = [strings(2)[h.choice("t%d" % i, [1, 3, 5, 6, 10, 12, 15, 9])] for i in range(2)]
    for i, t in enumerate(chosen):
        op.terms[t] = h.real("k%d" % i, 0.1, 9)
    got = get_interaction_rdm(op, n)
    h.same(got.n_qubits, n, "number of modes")
    val = lambda ops: sum_of(h, op.terms, ops, n)
    for p, q in itertools.product(range(n), repeat=2):
        h.close(got.one_body_tensor[p, q], val(((p, 1), (q, 0))), "one particle density matrix")
    for p, q, r, s in itertools.product(range(n), repeat=4):
        h.close(got.two_body_tensor[p, q, r, s], val(((p, 1), (q, 1), (r, 0), (s, 0))), "two particle density matrix")


def sum_of(h, terms, ops, n):
    """Sum of Pauli components of a product times what was measured for them."""
    m = {}
    for col, (row, s) in F.ladder_term(ops, n).items():
        m[row, col] = s
    out = 0
    for t, c in terms.items():
        comp = 0
        for col, (row, s) in F.pauli_term(t, n).items():
            comp = comp + (m.get((row, col), 0) * complex(s).conjugate())
        out = out + c * (comp / 2 ** n)
    return out


def ground(h, n, particles):
    """Density matrices of a ground state (whichever state it is)."""
    v = state(h, n, particles)
    asked = []

    def solver(sparse, k):
        asked.append((sparse, k))
        w = ZU.np.zeros(2 ** n, dtype=complex)
        for i, x in v.items():
            w[i] = x
        return 0.5, w

    op = QubitOperator(((0, "Z"), (n - 1, "Z")), 1.5) + QubitOperator((), 2.0)
    old, ZU.jw_get_ground_state_at_particle_number = ZU.jw_get_ground_state_at_particle_number, solver
    try:
        got = ZU.get_ground_state_rdm_from_qubit_op(op, particles)
    finally:
        ZU.jw_get_ground_state_at_particle_number = old
    h.check(len(asked) == 1 and asked[0][1] == particles, "ground state of the particle number")
    m = asked[0][0].toarray()
    for i in range(2 ** n):
        for j in range(2 ** n):
            w = 0 if i != j else 2 + 1.5 * (1 - 2 * F.bit(i, 0, n)) * (1 - 2 * F.bit(i, n - 1, n))
            h.close(m[i, j], w, "the operator is diagonalised", 1e-9)
    one, two = tensors(h, v, n)
    same_tensors(h, got, one, two, n)


def hartree_fock(h, orbitals):
    """Energies of determinants."""
    n = 2 * orbitals
    a, b = h.fixed_int("alpha", 0, orbitals), h.fixed_int("beta", 0, orbitals)
    rdm = ZU.hf_rdm(a, b, orbitals)
    h.same(rdm.n_qubits, n, "number of spin orbitals")
    occ = [(p % 2 == 0 and p // 2 < a) or (p % 2 == 1 and p // 2 < b) for p in range(n)]
    o, t = RD.numpy.zeros((n,) * 2), RD.numpy.zeros((n,) * 4)
    want = c = h.real("c", -9, 9)
    for p in itertools.product(range(n), repeat=2):
        o[p] = h.real("o%d_%d" % p, -9, 9)
    for p in itertools.product(range(n), repeat=4):
        t[p] = h.real("t%d_%d_%d_%d" % p, -9, 9)
    for p in range(n):
        if occ[p]:
            want = want + o[p, p]
            for q in range(n):
                if occ[q] and p != q:
                    want = want + t[p, q, q, p] - t[p, q, p, q]
    h.close(rdm.expectation(InteractionOperator(c, o, t)), want, "energy of the determinant")


def setters(h):
    one, two = tensors(h, {0: 1}, 1)
    rdm = InteractionRDM(one, two)
    a, b = RD.numpy.zeros((1, 1)), RD.numpy.zeros((1,) * 4)
    a[0, 0], b[0, 0, 0, 0] = h.real("a", -9, 9), h.real("b", -9, 9)
    rdm.one_body_tensor = a
    rdm.two_body_tensor = b
    h.check(rdm.one_body_tensor is a and rdm.two_body_tensor is b, "tensors that were set")
    h.eq([rdm[(0, 1), (0, 0)], rdm[(0, 1), (0, 1), (0, 0), (0, 0)]], [a[0, 0], b[0, 0, 0, 0]], "entries")


# coupled cluster


def canonical(h, op):
    return {t: c for t, c in F.canonical(h, op.terms).items()}


def compare(h, got, want, label):
    keys = sorted(set(got) | set(want))
    h.close([got.get(k, 0) for k in keys], [want.get(k, 0) for k in keys], label, 1e-6)


def plus(out, t, c):
    for u, s in F.normal(tuple(t)).items():
        out[u] = out.get(u, 0) + s * c


def conj_term(t):
    return tuple((q, 1 - a) for q, a in reversed(t))


def excitation(out, t, c, anti):
    plus(out, t, c)
    if anti:
        plus(out, conj_term(t), -c)


def general(h, n, singles, doubles, dense):
    """Generators from lists of amplitudes, or from arrays."""
    anti = h.choice("anti", [True, None, False])
    kw = {} if anti is None else dict(anti_hermitian=anti)
    want = {}
    s, d = [], []
    for i in range(singles):
        ix = [h.fixed_int("s%d_%d" % (i, k), 0, n - 1) for k in range(2)]
        c = h.real("t%d" % i, 10.0 ** i, 5 * 10.0 ** i)
        h.assume(all(list(ix) != list(x) for x, _ in s))
        s.append([ix, c])
    for i in range(doubles):
        ix = [h.fixed_int("d%d_%d" % (i, k), 0, n - 1) for k in range(4)]
        c = h.real("u%d" % i, 10.0 ** (i + 3), 5 * 10.0 ** (i + 3))
        d.append([ix, c])
    for ix, c in s:
        excitation(want, ((ix[0], 1), (ix[1], 0)), c, anti is not False)
    for ix, c in d:
        excitation(want, ((ix[0], 1), (ix[1], 0), (ix[2], 1), (ix[3], 0)), c, anti is not False)
    if dense:
        a, b = UC.numpy.zeros((n,) * 2), UC.numpy.zeros((n,) * 4)
        for ix, c in s:
            a[tuple(ix)] = c
        for ix, c in d:
            b[tuple(ix)] = c
        s2, d2 = UC.uccsd_convert_amplitude_format(a, b)
        h.same(sorted([list(map(int, x)) for x, _ in s2]), sorted([list(x) for x, _ in s]), "single amplitudes listed")
        h.same(sorted([list(map(int, x)) for x, _ in d2]), sorted([list(x) for x, _ in d]), "double amplitudes listed")
        got = UC.uccsd_generator(a, b, **kw)
    else:
        got = UC.uccsd_generator(s, d, **kw)
    h.check(type(got) is FermionOperator, "a fermion operator")
    compare(h, canonical(h, got), want, "excitations minus their conjugates")


def pairs(n_qubits, n_electrons):
    occ = -(-n_electrons // 2)
    return [(v, o) for v in range(occ, n_qubits // 2) for o in range(occ)]


def packed(h, k):
    return [h.real("x%d" % i, 0.1 * 3.0 ** i, 0.2 * 3.0 ** i) for i in range(k)]


def singlet(h, n_qubits, n_electrons):
    """T - T^+ with T made of spin-summed excitations."""
    anti = h.choice("anti", [True, None, False])
    pr = pairs(n_qubits, n_electrons)
    both = list(itertools.combinations(range(len(pr)), 2))
    size = UC.uccsd_singlet_paramsize(n_qubits, n_electrons)
    h.same(size, 2 * len(pr) + len(both), "number of amplitudes")
    x = packed(h, size)
    got = UC.uccsd_singlet_generator(x, n_qubits, n_electrons, **({} if anti is None else dict(anti_hermitian=anti)))
    want = {}
    E = lambda p: [((2 * p[0] + s, 1), (2 * p[1] + s, 0)) for s in (0, 1)]
    for i, p in enumerate(pr):
        for e in E(p):
            excitation(want, e, x[i], anti is not False)
        for e, f in itertools.product(E(p), E(p)):
            excitation(want, e + f, x[len(pr) + i], anti is not False)
    for k, (i, j) in enumerate(both):
        for e, f in itertools.product(E(pr[i]), E(pr[j])):
            excitation(want, e + f, x[2 * len(pr) + k], anti is not False)
    compare(h, canonical(h, got), want, "spin-summed excitations minus their conjugates")
    if anti is not False:
        c = canonical(h, got)
        back = {}
        for t, v in c.items():
            plus(back, conj_term(t), -v)
        compare(h, c, back, "anti-Hermitian")


def packing(h, n_qubits, n_electrons):
    """Arrays of amplitudes to the list of amplitudes."""
    pr = pairs(n_qubits, n_electrons)
    a, b = UC.numpy.zeros((n_qubits,) * 2), UC.numpy.zeros((n_qubits,) * 4)
    for p in itertools.product(range(n_qubits), repeat=2):
        a[p] = h.real("a%d_%d" % p, -9, 9)
    for p in itertools.product(range(n_qubits), repeat=4):
        b[p] = h.real("b%d_%d_%d_%d" % p, -9, 9)
    got = UC.uccsd_singlet_get_packed_amplitudes(a, b, n_qubits, n_electrons)
    want = [a[2 * v, 2 * o] for v, o in pr] + [b[2 * v, 2 * o, 2 * v + 1, 2 * o + 1] for v, o in pr] + [b[2 * v, 2 * o, 2 * w, 2 * u] for (v, o), (w, u) in itertools.combinations(pr, 2)]
    h.same(len(got), len(want), "number of amplitudes")
    h.same(UC.uccsd_singlet_paramsize(n_qubits, n_electrons), len(want), "number of amplitudes")
    for x, y in zip(got, want):
        h.eq(x, y, "amplitudes in order")


def odd(h):
    n = 2 * h.int("n", 0, 9) + 1
    for f in (lambda: UC.uccsd_singlet_paramsize(n, 2), lambda: UC.uccsd_singlet_generator([], n, 2)):
        h.raises(ValueError, f, "odd numbers of spin orbitals")


def sizes(h):
    """Number of amplitudes, for all sizes."""
    m, e = h.int("m", 0, 30), h.int("e", 0, 60)
    h.assume(e <= 2 * m)
    occ = h.int("occ", 0, 30)
    h.assume(h.either(2 * occ == e, 2 * occ == e + 1))
    k = occ * (m - occ)
    d = h.int("d", 0, 10 ** 6)
    h.assume(2 * d == k * (k + 1))
    h.eq(UC.uccsd_singlet_paramsize(2 * m, e), k + d, "singles, and pairs of singles")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


for n, p in ((1, 1), (2, 0), (2, 1), (2, 2), (3, 2)):
    add("interaction/%d/%d" % (n, p), interaction, "all states of %d particles in %d modes, all operators" % (p, n), n > 2, n=n, particles=p, sparse=n > 2)
for n, p in ((1, 0), (1, 1), (2, 1), (2, 2), (2, 0)):
    add("paulis/%d/%d" % (n, p), paulis, "all states of %d particles in %d modes, all strings" % (p, n), n=n, particles=p, terms=strings(n))
T3 = [t for t in strings(3) if len([x for x in t if x[1] == "Z"]) <= 1 and len(t) <= 3 and t != ((0, "Z"), (1, "Z"), (2, "Z"))]
SMALL = [t for t in strings(3) if len([x for x in t if x[1] in "XY"]) in (0, 2) and not (len(t) == 3 and (all(x[1] == "Z" for x in t) or t[1][1] != "Z")) and len(t)]
for p in (1, 2):
    add("paulis/3/%d" % p, paulis, "all states of %d particles in 3 modes" % p, p > 1, n=3, particles=p, terms=SMALL)
add("beyond", beyond, "all states of one particle in 3 modes")
for n, p, s in ((1, 1, None), (2, 0, None), (2, 1, None), (2, 1, 2), (2, 2, None), (3, 1, None)):
    add("measured/%d/%d/%s" % (n, p, s), measured, "all states of %d particles in %d modes" % (p, n), n > 2, n=n, particles=p, size=s)
add("partial/2", partial, "any two values measured", n=2)
add("partial/3", partial, "any two values measured", True, n=3)
for n, p in ((2, 1), (2, 2), (3, 2)):
    add("ground/%d/%d" % (n, p), ground, "all states of %d particles in %d modes" % (p, n), n > 2, n=n, particles=p)
add("hartree_fock/1", hartree_fock, "all determinants and operators of 1 orbital", orbitals=1)
add("hartree_fock/2", hartree_fock, "all determinants and operators of 2 orbitals", orbitals=2)
add("hartree_fock/3", hartree_fock, "all determinants and operators of 3 orbitals", True, orbitals=3)
add("setters", setters, "all entries")
for s, d, dense, th in ((1, 0, False, False), (2, 0, True, False), (0, 1, False, False), (0, 1, True, False), (1, 1, False, True), (2, 1, True, True)):
    add("general/%d/%d/%s" % (s, d, "arrays" if dense else "lists"), general, "all indices of 3 modes, any amplitudes", th, n=2 if s and d else 3, singles=s, doubles=d, dense=dense)
for n, e, th in ((2, 1, False), (4, 1, False), (4, 2, False), (4, 3, False), (4, 4, False), (6, 2, False), (6, 3, False), (6, 4, False), (8, 4, True), (8, 2, True)):
    add("singlet/%d/%d" % (n, e), singlet, "all amplitudes", th, n_qubits=n, n_electrons=e)
    if n < 7:
        add("packing/%d/%d" % (n, e), packing, "all amplitudes", n > 4 and e != 3, n_qubits=n, n_electrons=e)
add("odd", odd, "odd sizes up to 19")
add("sizes", sizes, "up to 60 spin orbitals")
