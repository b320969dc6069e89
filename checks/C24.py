"""Conjugation, hermiticity, commutators and counting, by the matrices they stand for."""
from zquantum.core.openfermion import FermionOperator, InteractionOperator, IsingOperator, QubitOperator
from zquantum.core.openfermion.ops.representations import interaction_operator as IO
from zquantum.core.openfermion.ops.representations import polynomial_tensor as PT
from zquantum.core.openfermion.utils import commutators as C
from zquantum.core.openfermion.utils import operator_utils as OU

from checks.lib import fermi as F

LEVEL = "model_checking"
CLS = {"fermion": FermionOperator, "qubit": QubitOperator}


def term(h, n, k, tag, cls):
    if cls == "fermion":
        return tuple((h.fixed_int("%sq%d" % (tag, i), 0, n - 1), h.fixed_int("%sa%d" % (tag, i), 0, 1)) for i in range(k))
    letters = "IZ" if cls == "ising" else "IXYZ"
    return tuple((q, p) for q in range(n) for p in [h.choice("%sp%d" % (tag, q), letters)] if p != "I")


def operator(h, n, sizes, tag, cls, cplx=False):
    op = {"ising": IsingOperator}.get(cls) or CLS[cls]
    op = op()
    for i, k in enumerate(sizes):
        t = term(h, n, k, "%s%d" % (tag, i), cls)
        h.assume(t not in op.terms)
        op.terms[t] = h.complex("%sc%d" % (tag, i)) if cplx else h.real("%sc%d" % (tag, i), 0.1, 9)
    return op


def mat(h, op, n):
    return F.matrix(h, op.terms, n, F.ladder_term if isinstance(op, FermionOperator) else F.pauli_term)


def conjugate(h, n, sizes, cls):
    op = operator(h, n, sizes, "t", cls, True)
    A = dict(op.terms)
    r = OU.hermitian_conjugated(op)
    h.check(type(r) is CLS[cls], "the same kind of operator")
    F.equal(h, mat(h, r, n), F.dagger(h, mat(h, op, n)), "the adjoint matrix")
    rr = OU.hermitian_conjugated(r)
    h.same(set(rr.terms), set(A), "conjugating twice")
    h.eq([rr.terms[t] for t in A], [A[t] for t in A], "conjugating twice")
    h.eq([op.terms[t] for t in A], [A[t] for t in A], "the operator is left alone")


def tensor(h, n, cplx=True):
    o, t = IO.numpy.zeros((n, n), complex), IO.numpy.zeros((n,) * 4, complex)
    terms = {}
    for p in range(n):
        for q in range(n):
            o[p, q] = terms[(p, 1), (q, 0)] = h.complex("o%d%d" % (p, q))
            for u in range(n):
                for v in range(n):
                    t[p, q, u, v] = terms[(p, 1), (q, 1), (u, 0), (v, 0)] = h.complex("t%d%d%d%d" % (p, q, u, v))
    c = terms[()] = h.complex("c")
    return InteractionOperator(c, o, t), terms


def conjugate_tensor(h, n):
    op, terms = tensor(h, n)
    r = OU.hermitian_conjugated(op)
    h.check(type(r) is InteractionOperator, "an interaction operator")
    got = {(): r.constant}
    for t in terms:
        if len(t) == 2:
            got[t] = r.one_body_tensor[t[0][0], t[1][0]]
        if len(t) == 4:
            got[t] = r.two_body_tensor[tuple(q for q, _ in t)]
    F.equal(h, F.matrix(h, got, n, F.ladder_term), F.dagger(h, F.matrix(h, terms, n, F.ladder_term)), "the adjoint matrix")


def array(h, n, m):
    a = IO.numpy.zeros((n, m), complex)
    for i in range(n):
        for j in range(m):
            a[i, j] = h.complex("a%d%d" % (i, j))
    return a


def conjugate_array(h, n):
    a = array(h, n, n)
    r = OU.hermitian_conjugated(a)
    for i in range(n):
        for j in range(n):
            h.eq(h.value(r[i, j]), h.num(h.value(a[j, i])).conjugate(), "the adjoint matrix")


def hermitian_array(h, n):
    """Hermitian up to one arbitrary difference."""
    a = array(h, n, n)
    b = IO.numpy.zeros((n, n), complex)
    for i in range(n):
        b[i, i] = h.num(h.value(a[i, i])).real
        for j in range(i):
            b[i, j] = h.value(a[i, j])
            b[j, i] = h.num(h.value(a[i, j])).conjugate()
    i, j = h.fixed_int("i", 0, n - 1), h.fixed_int("j", 0, n - 1)
    d = h.real("d", -1, 1)
    im = h.flag("im")
    e = 1j * d if im else d
    b[i, j] = b[i, j] + e
    if i == j:
        d = 2 * d if im else 0 * d
    r = OU.is_hermitian(b)
    if r:
        h.check(h.both(d < 2e-8, d > -2e-8), "not Hermitian")
    else:
        h.check(h.either(d > 0.5e-8, d < -0.5e-8), "Hermitian")


def hermitian(h, n, sizes, cls):
    """An operator plus its adjoint (as any equal operator) plus a difference."""
    op = operator(h, n, sizes, "t", cls)
    d = h.real("d", -1, 1)
    kind = h.choice("kind", ["exact", "real", "imaginary"])
    if cls == "fermion":
        dag = FermionOperator()
        for t, c in op.terms.items():
            dag.terms[tuple((q, 1 - a) for q, a in reversed(t))] = c
        op = op + dag if kind != "real" else op + dag * (1 + d)
    if kind == "imaginary":
        op = op * (1 + 1j * d) if cls == "fermion" else op + sum((type(op)(t, 1j * d) for t in list(op.terms)), type(op)())
    r = OU.is_hermitian(op)
    m = mat(h, op, n)
    diff = F.add(m, F.dagger(h, m), -1)
    parts = []
    for v in diff.values():
        v = h.num(v)
        parts += [v.real, v.imag]
    # an entry sums at most a few of the differences, each below the tolerance
    tol = 1e-6
    if r:
        h.check(h.both(*[h.both(x < tol, x > -tol) for x in parts] or [True]), "operators that are not Hermitian")
    else:
        h.check(h.either(*[h.either(x > 1e-10, x < -1e-10) for x in parts] or [False]), "Hermitian operators")


def hermitian_tensor(h, n):
    c = h.real("c", 0.1, 9)
    o, t = IO.numpy.zeros((n, n)), IO.numpy.zeros((n,) * 4)
    p, q = h.fixed_int("p", 0, n - 1), h.fixed_int("q", 0, n - 1)
    o[p, q] = o[q, p] = 2.0
    o[p, q] = o[p, q] + h.real("d", -1, 1)
    i = [h.fixed_int("i%d" % j, 0, n - 1) for j in range(4)]
    t[tuple(i)] = 3.0
    j = h.choice("form", [(3, 2, 1, 0), (2, 3, 0, 1), (3, 2, 0, 1), (2, 3, 1, 0)])
    j = tuple(i[x] for x in j)
    t[j] = h.real("e", -4, 4)
    op = InteractionOperator(c, o, t)
    terms = {(): c}
    for a in range(n):
        for b in range(n):
            terms[(a, 1), (b, 0)] = h.value(o[a, b])
            for u in range(n):
                for v in range(n):
                    terms[(a, 1), (b, 1), (u, 0), (v, 0)] = h.value(t[a, b, u, v])
    r = bool(OU.is_hermitian(op))
    m = F.matrix(h, terms, n, F.ladder_term)
    parts = [h.num(v).real for v in F.add(m, F.dagger(h, m), -1).values()]
    if r:
        h.check(h.both(*[h.both(x < 1e-6, x > -1e-6) for x in parts] or [True]), "operators that are not Hermitian")
    else:
        h.check(h.either(*[h.either(x > 1e-10, x < -1e-10) for x in parts] or [False]), "Hermitian operators")


def commutators(h, n, sa, sb, cls):
    a, b = operator(h, n, sa, "a", cls), operator(h, n, sb, "b", cls)
    A, B = dict(a.terms), dict(b.terms)
    ma, mb = mat(h, a, n), mat(h, b, n)
    anti = h.flag("anti")
    r = (C.anticommutator if anti else C.commutator)(a, b)
    h.check(type(r) is CLS[cls], "the same kind of operator")
    F.equal(h, mat(h, r, n), F.add(F.mul(ma, mb), F.mul(mb, ma), 1 if anti else -1), "ab -+ ba")
    for o, O in ((a, A), (b, B)):
        h.same(set(o.terms), set(O), "operands are left alone")
        h.eq([o.terms[t] for t in O], [O[t] for t in O], "operands are left alone")


def commutator_arrays(h, n):
    a, b = IO.numpy.zeros((n, n)), IO.numpy.zeros((n, n))
    A, B = {}, {}
    for i in range(n):
        for j in range(n):
            a[i, j] = A[i, j] = h.real("a%d%d" % (i, j))
            b[i, j] = B[i, j] = h.real("b%d%d" % (i, j))
    anti = h.flag("anti")
    r = (C.anticommutator if anti else C.commutator)(a, b)
    want = F.add(F.mul(A, B), F.mul(B, A), 1 if anti else -1)
    for k in want:
        h.eq(h.value(r[k]), want[k], "ab -+ ba")
        h.eq([h.value(a[k]), h.value(b[k])], [A[k], B[k]], "operands are left alone")


def double(h, n, sizes, hopping):
    """[a, [b, c]], with the shortcut for hopping terms."""
    a = operator(h, n, sizes[:1], "a", "fermion")
    if hopping:
        ops, idx = [], []
        for tag in "bc":
            i, j = h.fixed_int(tag + "i", 0, n - 1), h.fixed_int(tag + "j", 0, n - 1)
            h.assume(i != j)
            c = h.real(tag, 0.1, 9)
            ops.append(FermionOperator(((i, 1), (j, 0)), c) + FermionOperator(((j, 1), (i, 0)), c))
            idx.append({i, j} if tag == "b" else [i, j])
        b, c = ops
        I = [set(x) for x in idx]
        r = C.double_commutator(a, b, c, idx[0], idx[1], True, True)
        h.check([set(x) for x in idx] == I, "the index sets are left alone")
    else:
        b, c = operator(h, n, sizes[1:2], "b", "fermion"), operator(h, n, sizes[2:], "c", "fermion")
        r = C.double_commutator(a, b, c, {0}, {1}, True, False) if h.flag("half") else C.double_commutator(a, b, c)
    ma, mb, mc = mat(h, a, n), mat(h, b, n), mat(h, c, n)
    mbc = F.add(F.mul(mb, mc), F.mul(mc, mb), -1)
    F.equal(h, mat(h, r, n), F.add(F.mul(ma, mbc), F.mul(mbc, ma), -1), "[a, [b, c]]", 1e-5)
    h.check(r.is_normal_ordered(), "in normal order")


def counting(h, n, sizes, cls):
    op = operator(h, n, sizes, "t", cls)
    h.same(OU.count_qubits(op), max([q + 1 for t in op.terms for q, _ in t] or [0]), "qubits up to the last one used")
    if cls != "ising":
        h.same(bool(OU.is_identity(op)), list(op.terms) == [()], "identity")


def counting_tensor(h):
    n = h.fixed_int("n", 1, 4)
    t = IO.numpy.zeros((n, n))
    h.same(OU.count_qubits(PT.PolynomialTensor({(1, 0): t})), n, "modes of a tensor")
    h.same(OU.count_qubits(InteractionOperator(h.real("c"), t, IO.numpy.zeros((n,) * 4))), n, "modes of a tensor")
    for cls in (FermionOperator, QubitOperator):
        h.check(not OU.is_identity(cls()), "zero is not the identity")
        h.check(OU.is_identity(cls.identity()), "the identity")
        h.same(OU.count_qubits(cls()), 0, "no qubits")


def wrong(h):
    f, q, i = FermionOperator("0^"), QubitOperator("X0"), IsingOperator("Z0")
    for g in (lambda: OU.hermitian_conjugated("x"), lambda: OU.hermitian_conjugated(3), lambda: OU.is_hermitian("x"), lambda: OU.is_hermitian(None),
              lambda: OU.count_qubits("x"), lambda: OU.count_qubits(4), lambda: OU.is_identity("x"), lambda: OU.is_identity(i), lambda: C.commutator(f, q), lambda: C.commutator(q, f),
              lambda: C.anticommutator(f, q), lambda: C.anticommutator(f, 3)):
        h.raises(TypeError, g, "other things are refused")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


def s(x):
    return "+".join(map(str, x))


for n, sizes, cls, th in ((2, (0,), "fermion", 0), (3, (2,), "fermion", 0), (2, (3,), "fermion", 0), (2, (4,), "fermion", 1), (2, (1, 2), "fermion", 0), (3, (1,), "qubit", 0), (2, (1, 1), "qubit", 0)):
    add("conjugate/%d/%s/%s" % (n, s(sizes), cls), conjugate, "all sums of terms of these sizes on %d modes, any complex coefficients" % n, th, n=n, sizes=sizes, cls=cls)
add("conjugate/tensor/2", conjugate_tensor, "all complex tensors on 2 modes", n=2)
add("conjugate/tensor/3", conjugate_tensor, "all complex tensors on 3 modes", True, n=3)
add("conjugate/array/3", conjugate_array, "all complex matrices", n=3)
add("hermitian/array/2", hermitian_array, "any single difference", n=2)
add("hermitian/array/3", hermitian_array, "any single difference", True, n=3)
for n, sizes, cls, th in ((2, (1,), "fermion", 0), (2, (2,), "fermion", 0), (3, (2,), "fermion", 1), (2, (3,), "fermion", 0), (2, (1,), "qubit", 0), (2, (1, 1), "qubit", 1), (1, (1, 1), "qubit", 0)):
    add("hermitian/%d/%s/%s" % (n, s(sizes), cls), hermitian, "all terms with adjoint, any difference", th, n=n, sizes=sizes, cls=cls)
add("hermitian/tensor/2", hermitian_tensor, "any pair of two-body entries and one-body difference on 2 modes", n=2)
for n, sa, sb, cls, th in ((2, (1,), (1,), "fermion", 0), (2, (2,), (2,), "fermion", 0), (3, (1,), (2,), "fermion", 0), (2, (1,), (1,), "qubit", 0), (1, (1, 1), (1,), "qubit", 0), (1, (1, 1), (1, 1), "qubit", 1), (2, (1, 0), (1,), "fermion", 0)):
    add("commutators/%d/%s/%s/%s" % (n, s(sa), s(sb), cls), commutators, "all sums of terms of these sizes, any coefficients", th, n=n, sa=sa, sb=sb, cls=cls)
add("commutators/arrays/2", commutator_arrays, "all real 2x2 matrices", n=2)
add("double/2", double, "all terms of 1, 1 and 2 ladder operators on 2 modes", n=2, sizes=(1, 1, 2), hopping=False)
add("double/2/2", double, "all terms of 2 ladder operators on 2 modes", True, n=2, sizes=(2, 2, 2), hopping=False)
add("double/hopping/3", double, "all ladder operators and hopping terms on 3 modes", n=3, sizes=(1,), hopping=True)
add("double/hopping/4", double, "all ladder operators and hopping terms on 4 modes", True, n=4, sizes=(1,), hopping=True)
add("double/hopping/3/2", double, "all products of two ladder operators and hopping terms on 3 modes", True, n=3, sizes=(2,), hopping=True)
for n, sizes, cls in ((4, (0,), "fermion"), (4, (1, 2), "fermion"), (3, (3,), "fermion"), (3, (1,), "qubit"), (2, (1, 1), "qubit"), (3, (1,), "ising")):
    add("counting/%d/%s/%s" % (n, s(sizes), cls), counting, "all terms on %d modes" % n, n=n, sizes=sizes, cls=cls)
add("counting/tensor", counting_tensor, "up to 4 modes")
add("wrong", wrong, "listed operands")
