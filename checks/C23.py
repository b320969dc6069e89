"""Normal, chemist and mode reordering keep the operator and give the promised form."""
from zquantum.core.openfermion import FermionOperator, InteractionOperator, QubitOperator
from zquantum.core.openfermion import transforms as T
from zquantum.core.openfermion import utils as U
from zquantum.core.openfermion.ops.representations import interaction_operator as IO
from zquantum.core.openfermion.transforms.opconversions import term_reordering as TR

from checks.lib import fermi as F

LEVEL = "model_checking"


def ladders(h, n, k, tag):
    return tuple((h.fixed_int("%sq%d" % (tag, i), 0, n - 1), h.fixed_int("%sa%d" % (tag, i), 0, 1)) for i in range(k))


def fermions(h, n, sizes, cplx=False):
    op = FermionOperator()
    for i, k in enumerate(sizes):
        t = ladders(h, n, k, "t%d" % i)
        h.assume(t not in op.terms)
        op.terms[t] = h.complex("c%d" % i) if cplx else h.real("c%d" % i, 0.1, 9)
    return op


def ordered(t):
    """Creation first, each kind from the highest mode to the lowest."""
    return all((a[1], a[0]) > (b[1], b[0]) for a, b in zip(t, t[1:]))


def normal(h, n, sizes):
    op = fermions(h, n, sizes, len(sizes) == 1)
    A = dict(op.terms)
    r = TR.normal_ordered(op)
    h.check(type(r) is FermionOperator and all(map(ordered, r.terms)), "the normal form")
    F.equal(h, F.fermion(h, r, n), F.fermion(h, op, n), "the same operator")
    h.check(op.terms.keys() == A.keys(), "the operator is left alone")
    h.eq([op.terms[t] for t in A], [A[t] for t in A], "the operator is left alone")
    r2 = TR.normal_ordered(r)
    h.check(r2.terms.keys() == r.terms.keys(), "normal order is final")


def predicates(h, n, sizes):
    """is_normal_ordered and is_two_body_number_conserving, by definition."""
    op = fermions(h, n, sizes)
    h.same(op.is_normal_ordered(), all(map(ordered, op.terms)), "is_normal_ordered")

    def conserving(t, spin):
        if len(t) not in (0, 2, 4):
            return False
        up = [sum(1 for q, a in t if a == x and q % 2 == 0) for x in (0, 1)]
        dn = [sum(1 for q, a in t if a == x and q % 2 == 1) for x in (0, 1)]
        return up[0] + dn[0] == up[1] + dn[1] and (not spin or up[0] == up[1])

    s = h.choice("spin", [None, False, True])
    got = op.is_two_body_number_conserving() if s is None else op.is_two_body_number_conserving(s)
    h.same(bool(got), all(conserving(t, s) for t in op.terms), "is_two_body_number_conserving")


ORDERS = {0: [()], 2: [(1, 0), (0, 1)], 4: [(1, 1, 0, 0), (1, 0, 1, 0), (0, 1, 1, 0), (0, 1, 0, 1), (1, 0, 0, 1), (0, 0, 1, 1)]}


def chemist(h, n, sizes):
    op = FermionOperator()
    for i, k in enumerate(sizes):
        o = h.choice("o%d" % i, ORDERS[k])
        t = tuple((h.fixed_int("q%d_%d" % (i, j), 0, n - 1), a) for j, a in enumerate(o))
        h.assume(t not in op.terms)
        op.terms[t] = h.complex("c%d" % i) if len(sizes) == 1 else h.real("c%d" % i, 0.1, 9)
    A = dict(op.terms)
    r = TR.chemist_ordered(op)
    for t in r.terms:
        h.check(tuple(a for _, a in t) in ((), (1, 0), (1, 0, 1, 0)), "creation and annihilation alternate")
    F.equal(h, F.fermion(h, r, n), F.fermion(h, op, n), "the same operator")
    h.eq([op.terms.get(t) for t in A], [A[t] for t in A], "the operator is left alone")


def refused(h):
    for bad in ("0^", "1 0", "0^ 1^ 2", "1^ 0^", "0^ 1 2^ 3 4^ 5"):
        h.raises(TypeError, lambda: TR.chemist_ordered(FermionOperator("0^ 1") + FermionOperator(bad)), "only two-body number-conserving operators")
    for g in (3, QubitOperator("X0"), "0^ 1"):
        h.raises(TypeError, lambda: TR.normal_ordered(g), "other operators are refused")


def tensors(h, n, places, one=True):
    """The normal-ordered interaction operator, for arbitrary two-body entries."""
    o, t = IO.numpy.zeros((n, n)), IO.numpy.zeros((n,) * 4)
    c = h.real("c", -9, 9)
    if one:
        for i in range(n):
            for j in range(n):
                o[i, j] = h.real("o%d%d" % (i, j))
    for k, p in enumerate(places(h, n)):
        t[p] = h.real("t%d" % k)
    iop = InteractionOperator(c, o, t)
    before = terms(h, iop, n)
    r = TR.normal_ordered(iop)
    h.check(type(r) is InteractionOperator and r.n_qubits == n, "an interaction operator")
    after = terms(h, r, n)
    F.equal(h, F.matrix(h, after, n, F.ladder_term), F.matrix(h, before, n, F.ladder_term), "the same operator")
    b = r.two_body_tensor
    for p in range(n):
        for q in range(n):
            for u in range(n):
                for v in range(n):
                    if not (p > q and u > v):
                        h.eq(h.value(b[p, q, u, v]), 0, "only normal-ordered terms are left")
    again = terms(h, iop, n)
    h.eq([again[k] for k in before], [before[k] for k in before], "the operator is left alone")


def terms(h, iop, n):
    out = {(): h.value(iop.constant)}
    for p in range(n):
        for q in range(n):
            out[(p, 1), (q, 0)] = h.value(iop.one_body_tensor[p, q])
            for u in range(n):
                for v in range(n):
                    out[(p, 1), (q, 1), (u, 0), (v, 0)] = h.value(iop.two_body_tensor[p, q, u, v])
    return out


def everywhere(h, n):
    return [(p, q, u, v) for p in range(n) for q in range(n) for u in range(n) for v in range(n)]


def reorder(h, n, sizes, cls):
    """Relabelling by a map of the modes, and back."""
    if cls == "fermion":
        op = fermions(h, n, sizes)
    else:
        op = QubitOperator()
        for i, k in enumerate(sizes):
            t = tuple((q, p) for q in range(n) for p in [h.choice("p%d%d" % (i, q), "IXYZ")] if p != "I")
            h.assume(t not in op.terms)
            op.terms[t] = h.real("c%d" % i, 0.1, 9)
    A = dict(op.terms)
    used = max([q + 1 for t in op.terms for q, _ in t] or [0])
    given = h.choice("given", [None, n, n + 1])
    N = used if given is None else given
    f = h.choice("f", ["up_then_down", "reverse", "shift", "id"])
    if f == "up_then_down":
        fun, want = U.up_then_down, lambda q: q // 2 + (0 if q % 2 == 0 else (N + 1) // 2)
    elif f == "reverse":
        fun = lambda q, m: m - 1 - q
        want = lambda q: N - 1 - q
    elif f == "shift":
        fun = lambda q, m: (q + 1) % m
        want = lambda q: (q + 1) % N
    else:
        fun = lambda q, m: q
        want = lambda q: q
    table = {q: want(q) for q in range(N)}
    rev = h.flag("rev")
    if rev:
        table = {v: k for k, v in table.items()}
    key = (lambda t: t) if cls == "fermion" else (lambda t: tuple(sorted(t)))
    r = TR.reorder(op, fun, given, rev) if rev or h.flag("explicit") else TR.reorder(op, fun) if given is None else TR.reorder(op, fun, given)
    h.check(type(r) is type(op), "the same kind of operator")
    exp = {key(tuple((table[q], a) for q, a in t)): c for t, c in A.items()}
    h.same(set(r.terms), set(exp), "relabelled terms")
    h.eq([r.terms[t] for t in exp], [exp[t] for t in exp], "with their coefficients")
    h.eq([op.terms.get(t) for t in A], [A[t] for t in A], "the operator is left alone")
    back = TR.reorder(r, fun, N, not rev)
    h.eq([back.terms.get(key(t), 0) for t in A], [A[t] for t in A], "and back")


def indices(h, n):
    i = h.fixed_int("i", 0, n - 1)
    h.same((U.up_index(i), U.down_index(i)), (2 * i, 2 * i + 1), "spin orbitals of an orbital")
    N = h.fixed_int("N", 1, n)
    new = [U.up_then_down(q, N) for q in range(N)]
    order = [q for q in range(N) if q % 2 == 0] + [q for q in range(N) if q % 2]
    h.same([order.index(q) for q in range(N)], new, "even modes first, then odd ones")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=th, types=True, bounds=b))


for n, sizes, th in ((1, (0,), 0), (1, (4,), 0), (1, (6,), 0), (2, (2,), 0), (3, (2,), 0), (2, (3,), 0), (2, (4,), 0), (2, (2, 2), 0), (3, (3,), 0), (2, (0, 1), 0), (2, (5,), 1), (3, (4,), 1), (2, (2, 3), 1)):
    add("normal/%d/%s" % (n, "+".join(map(str, sizes))), normal, "all products of %s ladder operators on %d modes, any coefficients" % (sizes, n), bool(th), n=n, sizes=sizes)
for n, sizes, th in ((2, (4,), 0), (3, (3,), 0), (4, (2,), 0), (2, (3,), 0), (1, (0,), 0), (2, (2, 1), 0), (3, (1, 1), 0), (2, (2, 2), 0), (4, (3,), 1), (3, (4,), 1)):
    add("predicates/%d/%s" % (n, "+".join(map(str, sizes))), predicates, "all products of %s ladder operators on %d modes" % (sizes, n), bool(th), n=n, sizes=sizes)
for n, sizes, th in ((2, (0,), 0), (3, (2,), 0), (2, (4,), 0), (2, (2, 2), 0), (3, (4,), 1), (2, (4, 2), 1)):
    add("chemist/%d/%s" % (n, "+".join(map(str, sizes))), chemist, "all orders of %s ladder operators on %d modes, any coefficients" % (sizes, n), bool(th), n=n, sizes=sizes)
add("refused", refused, "listed operators")
add("tensors/2", tensors, "all interaction operators on 2 modes", n=2, places=everywhere)
add("tensors/3", tensors, "all two-body tensors on 3 modes", n=3, places=everywhere, one=False)
add("tensors/4", tensors, "all two-body tensors on 4 modes", n=4, places=everywhere, one=False)
add("tensors/5", tensors, "all two-body tensors on 5 modes", True, n=5, places=everywhere, one=False)
for n, sizes, cls, th in ((3, (1,), "fermion", 0), (2, (2,), "fermion", 0), (3, (2,), "fermion", 1), (2, (1, 1), "fermion", 0), (5, (1,), "fermion", 0), (2, (1,), "qubit", 0), (3, (1,), "qubit", 1), (4, (2,), "fermion", 1), (2, (1, 1), "qubit", 1)):
    add("reorder/%d/%s/%s" % (n, "+".join(map(str, sizes)), cls), reorder, "all %s terms of the sizes on %d modes, 4 mode maps" % (cls, n), bool(th), n=n, sizes=sizes, cls=cls)
add("reorder/constant", reorder, "constant operators", n=1, sizes=(0,), cls="fermion")
add("indices/9", indices, "all indices below 9", n=9)
