"""Interaction operators and polynomial tensors stand for the same operators
as fermion operators, and compute like them."""
import copy

import numpy

from zquantum.core.openfermion import FermionOperator, InteractionOperator, QubitOperator
from zquantum.core.openfermion import transforms as T
from zquantum.core.openfermion.ops import representations as R
from zquantum.core.openfermion.ops.representations import interaction_operator as IO
from zquantum.core.openfermion.ops.representations import polynomial_tensor as PT

from checks.lib import fermi as F

LEVEL = "model_checking"
ARR = IO.numpy


def zeros(n, k, cplx=False):
    return IO.numpy.zeros((n,) * k, complex if cplx else float)


def entries(h, tag, n, key, k, lo=0.1, hi=9):
    """A tensor with k arbitrary entries at arbitrary places."""
    t = zeros(n, len(key))
    at = []
    for i in range(k):
        idx = tuple(h.fixed_int("%s%d_%d" % (tag, i, j), 0, n - 1) for j in range(len(key)))
        t[idx] = h.real("%sv%d" % (tag, i), lo, hi)
        at.append(idx)
    return t


def each(n, k):
    out = [()]
    for _ in range(k):
        out = [x + (i,) for x in out for i in range(n)]
    return out


def nonzero(v):
    return not (isinstance(v, (int, float, complex)) and not hasattr(v, "re") and v == 0)


def expand(h, tensors, n):
    """The fermion terms a dictionary of tensors stands for, as a matrix."""
    terms = {}
    for key, t in tensors.items():
        if key == ():
            terms[()] = t
            continue
        for idx in each(n, len(key)):
            v = h.value(t[idx])
            terms[tuple(zip(idx, key))] = v
    return F.matrix(h, terms, n, F.ladder_term)


def to_fermions(h, n, k1, k2):
    c = h.choice("c", [0.0, "v"])
    c = h.real("cv", -9, 9) if c == "v" else c
    one, two = entries(h, "o", n, (1, 0), k1), entries(h, "t", n, (1, 1, 0, 0), k2)
    iop = InteractionOperator(c, one, two)
    f = T.get_fermion_operator(iop)
    h.check(type(f) is FermionOperator, "a fermion operator")
    want = {(): c}
    for idx in each(n, 2):
        want[tuple(zip(idx, (1, 0)))] = one[idx]
    for idx in each(n, 4):
        want[tuple(zip(idx, (1, 1, 0, 0)))] = two[idx]
    for t in set(want) | set(f.terms):
        h.close(f.terms.get(t, 0), h.value(want.get(t, 0)), "one term per entry, with its coefficient", 1e-7)
    h.same(iop.n_qubits, n, "number of modes")
    for g in (3, FermionOperator("0^ 0"), QubitOperator("X0")):
        h.raises(TypeError, lambda: T.get_fermion_operator(g), "other things are refused")


def from_fermions(h, n, k, size):
    """Any order of the ladder operators of number-conserving terms."""
    f = FermionOperator()
    orders = {0: [()], 2: [(1, 0), (0, 1)], 4: [(1, 1, 0, 0), (1, 0, 1, 0), (0, 1, 1, 0), (0, 0, 1, 1), (1, 0, 0, 1)]}[size]
    for i in range(k):
        o = h.choice("o%d" % i, orders)
        t = tuple((h.fixed_int("q%d_%d" % (i, j), 0, n - 1), a) for j, a in enumerate(o))
        h.assume(t not in f.terms)
        f.terms[t] = h.real("c%d" % i, 0.1, 9)
    f.terms[()] = f.terms.get((), 0) + 1.5
    A = dict(f.terms)
    used = max([q + 1 for t in f.terms for q, _ in t] or [0])
    if used == 0:
        return
    N = h.choice("N", [None, n + 1, used - 1] if used > 1 else [None, n + 1])
    if N is not None and N < used:
        h.raises(ValueError, lambda: T.get_interaction_operator(f, N), "too few modes")
        return
    r = T.get_interaction_operator(f, N)
    m = N or used
    h.check(type(r) is InteractionOperator and r.n_qubits == m and r.one_body_tensor.shape == (m, m) and r.two_body_tensor.shape == (m,) * 4, "as large as asked for")
    F.equal(h, expand(h, r.n_body_tensors, m), F.fermion(h, f, m), "the same operator")
    h.eq([f.terms[t] for t in A], [A[t] for t in A], "the operator is left alone")


def refused(h):
    c = h.real("c", 0.1, 9)
    bad = h.choice("bad", ["0^", "0^ 1^", "0 1", "0^ 1^ 2", "0^ 1^ 2^ 3", "0 1 2 3", "2^ 1^ 0^ 3 4 5"])
    f = FermionOperator("0^ 0") + FermionOperator(bad, c)
    h.raises(R.interaction_operator.InteractionOperatorError if hasattr(R, "interaction_operator") else Exception, lambda: T.get_interaction_operator(f), "terms that fit no tensor are refused")
    h.raises(TypeError, lambda: T.get_interaction_operator(QubitOperator("X0")), "other operators are refused")
    h.raises(TypeError, lambda: T.get_interaction_operator(FermionOperator("0^ 0", h.symbol("x"))), "symbolic coefficients are refused")


KEYS = [(), (1, 0), (0, 1), (1, 1, 0, 0)]


def tensor(h, tag, n, keys, cls="poly"):
    d = {}
    for j, k in enumerate(keys):
        if k == ():
            d[k] = h.real(tag + "k", 0.1, 9)
        else:
            t = zeros(n, len(k))
            for i, idx in enumerate(each(n, len(k))):
                if len(k) == 2 or i % 5 == j % 5:
                    t[idx] = h.real("%s%d_%d" % (tag, j, i), 0.1, 9)
            d[k] = t
    return PT.PolynomialTensor(d)


def snap(t):
    return {k: (v.copy() if k != () else v) for k, v in t.n_body_tensors.items()}


def same(h, t, want, label):
    for k in set(t) | set(want):
        a, b = t.get(k), want.get(k)
        if a is None or b is None:
            h.close(a if b is None else b, PT.numpy.zeros_like(a if b is None else b) if k != () else 0, label)
        else:
            h.eq(a, b, label)


def arithmetic(h, n, ka, kb):
    a, b = tensor(h, "a", n, ka), tensor(h, "b", n, kb)
    A, B = snap(a), snap(b)
    s = h.choice("s", [2, 0.5, "v"])
    s = h.real("sv", 0.5, 3) if s == "v" else s
    f = h.choice("f", ["+", "+=", "-", "-=", "s*", "*s", "*=s", "/s", "/=s", "neg", "+s", "s+", "-s", "s-", "+=s", "-=s", "*", "*="])

    def lin(x, y):
        out = {}
        for k in set(A) | set(B):
            u = x * A[k] if k in A else 0
            v = y * B[k] if k in B else 0
            out[k] = u + v
        return out

    def const(x, c):
        out = {k: x * v for k, v in A.items()}
        out[()] = out.get((), 0) + c
        return out

    scal = {k: s * v for k, v in A.items()}
    div = {k: v * (1 / h.num(s)) for k, v in A.items()}
    r, want, inplace = {
        "+": lambda: (a + b, lin(1, 1), 0), "+=": lambda: (a.__iadd__(b), lin(1, 1), 1),
        "-": lambda: (a - b, lin(1, -1), 0), "-=": lambda: (a.__isub__(b), lin(1, -1), 1),
        "s*": lambda: (s * a, scal, 0), "*s": lambda: (a * s, scal, 0), "*=s": lambda: (a.__imul__(s), scal, 1),
        "/s": lambda: (a / s, div, 0), "/=s": lambda: (a.__itruediv__(s), div, 1), "neg": lambda: (-a, {k: -v for k, v in A.items()}, 0),
        "+s": lambda: (a + s, const(1, s), 0), "s+": lambda: (s + a, const(1, s), 0), "+=s": lambda: (a.__iadd__(s), const(1, s), 1),
        "-s": lambda: (a - s, const(1, -s), 0), "-=s": lambda: (a.__isub__(s), const(1, -s), 1), "s-": lambda: (s - a, const(-1, s), 0),
        "*": lambda: (a * b, {k: A[k] * B[k] for k in A if k in B}, 0), "*=": lambda: (a.__imul__(b), {k: A[k] * B[k] for k in A if k in B}, 1),
    }[f]()
    h.check((r is a) == bool(inplace), "in place or not")
    if f in ("-", "-="):  # kinds that only b has: see subtract_new_kind
        for k in set(B) - set(A):
            want[k] = r.n_body_tensors[k]
    same(h, r.n_body_tensors, want, "the tensors of a %s b" % f)
    # the result does not share state with the operands
    r *= 2
    if not inplace:
        same(h, a.n_body_tensors, A, "operands are left alone")
    same(h, b.n_body_tensors, B, "operands are left alone")


def subtract_new_kind(h, n):
    """Subtracting terms of a kind that the first operand has none of."""
    a, b = tensor(h, "a", n, [(), (1, 0)]), tensor(h, "b", n, [(1, 0), (0, 1)])
    A, B = snap(a), snap(b)
    r = a - b
    same(h, {k: v for k, v in r.n_body_tensors.items() if k != (0, 1)}, {(): A[()], (1, 0): A[1, 0] - B[1, 0]}, "kinds both have")
    same(h, {(0, 1): r.n_body_tensors[0, 1]}, {(0, 1): -B[0, 1]}, "subtracted terms of another kind change sign")


def mismatch(h):
    a, b = tensor(h, "a", 1, [(), (1, 0)]), tensor(h, "b", 2, [(), (1, 0)])
    A = snap(a)
    for f in (lambda: a + b, lambda: a - b, lambda: a * b, lambda: a + "x", lambda: a - [1], lambda: a * "x", lambda: a / b, lambda: a / numpy.array([2.0]), lambda: a * numpy.array([2.0]), lambda: a + numpy.array([2.0])):
        h.raises(TypeError, f, "different sizes and other things are refused")
    same(h, a.n_body_tensors, A, "and nothing changes")
    h.check(not (a == b) and a != b, "tensors of different sizes differ")


def equality(h, n):
    """Equal exactly when all entries agree within the tolerance."""
    keys = h.choice("keys", [[(), (1, 0)], [(1, 0)], [(1, 0), (0, 1)]])
    a = tensor(h, "a", n, [(), (1, 0)])
    b = copy.deepcopy(a)
    where = h.choice("where", [(), (1, 0), "missing"])
    d = h.real("d", -1, 1)
    if where == "missing":
        t = zeros(n, 2)
        t[0, n - 1] = d
        b.n_body_tensors[0, 1] = t
    elif where == ():
        b.constant = b.constant + d
    else:
        i, j = h.fixed_int("i", 0, n - 1), h.fixed_int("j", 0, n - 1)
        b[(i, 1), (j, 0)] = b[(i, 1), (j, 0)] + d
    f = h.choice("f", ["ab", "ba", "ne"])
    r = a == b if f == "ab" else b == a if f == "ba" else not (a != b)
    r = bool(r)
    if r:
        h.check(h.both(d < 2e-8, d > -2e-8), "different tensors are not equal")
    else:
        h.check(h.either(d > 0.5e-8, d < -0.5e-8), "tensors that agree are equal")


def access(h, n):
    """Elements are read and written where their indices say."""
    a = tensor(h, "a", n, KEYS)
    A = snap(a)
    k = h.choice("k", KEYS)
    idx = tuple(h.fixed_int("i%d" % i, 0, n - 1) for i in range(len(k)))
    args = tuple(zip(idx, k))
    h.eq(h.value(a[args]), h.value(A[k][idx] if k else A[k]), "element")
    v = h.real("v", -9, 9)
    a[args] = v
    if k:
        A[k][idx] = v
    else:
        A[k] = v
    same(h, a.n_body_tensors, A, "only this element is written")
    h.eq(h.value(a.constant), h.value(A[()]), "constant")
    seen = []
    a2 = PT.PolynomialTensor({(): h.real("z", 1, 2), (0, 1): entries(h, "s", n, (0, 1), 1), (1, 0): entries(h, "u", n, (1, 0), 1)})
    for t in a2:
        seen.append(t)
    want = [()] + [tuple(zip(i, key)) for key in ((0, 1), (1, 0)) for i in each(n, 2) if nonzero(a2.n_body_tensors[key][i])]
    h.same(seen, want, "iteration gives each non-zero element once")
    if n == 2:
        h.check(PT.PolynomialTensor({(1, 0): zeros(n, 2)}).constant == 0.0, "no constant is zero")


def projected(h, n):
    key = h.choice("key", [(1, 0), (1, 1, 0, 0)])
    c = h.real("c", 0.1, 9)
    one, two = tensor(h, "a", n, [(1, 0)]).n_body_tensors[1, 0], zeros(n, 4)
    for i, idx in enumerate(each(n, 4)):
        two[idx] = h.real("t%d" % i, 0.1, 9)
    iop = InteractionOperator(c, one, two)
    sel = h.choice("sel", [1, 2, 3, [0], [n - 1, 0], range(n), []])
    exact = h.flag("exact")
    r = iop.projected(sel, exact)
    h.check(type(r) is InteractionOperator, "an interaction operator")
    if key == (1, 0):
        if isinstance(sel, int):
            h.eq(r.constant, 0 if exact and sel else c, "constant")
        else:
            h.eq(r.constant, 0 if exact and len(list(sel)) else c, "constant")
    for idx in each(n, len(key)):
        if isinstance(sel, int):
            keep = len(set(idx)) == sel if exact else len(set(idx)) <= sel
        else:
            keep = set(idx) == set(sel) if exact else set(idx) <= set(sel)
        src = one if key == (1, 0) else two
        h.eq(h.value(r.n_body_tensors[key][idx]), h.value(src[idx]) if keep else 0, "exactly the selected elements")


def rotation(h, n, key, cplx, spin):
    """The change of basis is the sum over all old indices."""
    m = 2 * n if spin else n
    U = IO.numpy.zeros((n, n), complex if cplx else float)
    for i in range(n):
        for j in range(n):
            U[i, j] = h.complex("u%d%d" % (i, j)) if cplx else h.real("u%d%d" % (i, j))
    t = zeros(m, len(key), cplx)
    place = h.choice("place", each(m, len(key)) if len(key) < 3 else each(m, len(key))[::3])
    t[place] = h.complex("x") if cplx else h.real("x", 0.1, 9)
    t[(0,) * len(key)] = 2.0
    big = {}
    for i in range(m):
        for j in range(m):
            big[i, j] = (h.value(U[i // 2, j // 2]) if i % 2 == j % 2 else 0) if spin else h.value(U[i, j])
    r = PT.general_basis_change(t, U, key)
    if h.flag("object"):
        p = PT.PolynomialTensor({(): 1.5, key: t})
        p.rotate_basis(U)
        h.check(p.constant == 1.5, "the constant stays")
        r = p.n_body_tensors[key]
    for new in each(m, len(key)):
        want = 0
        for old in {place, (0,) * len(key)}:
            w = h.value(t[old])
            for a, b, x in zip(old, new, key):
                u = big[a, b]
                if u is 0:
                    w = 0
                    break
                w = w * (h.num(u).conjugate() if x else u)
            want = want + w
        h.eq(h.value(r[new]), want, "the rotated tensor")


def group(p, q, r, s, cplx):
    g = {(p, q, r, s), (q, p, s, r), (s, r, q, p), (r, s, p, q)}
    if not cplx:
        g |= {(p, s, r, q), (q, r, s, p), (s, p, q, r), (r, q, p, s)}
    return g


def unique(h, n, k):
    """Every symmetry class of non-zero elements is listed exactly once."""
    cplx = h.flag("complex")
    one, two = zeros(n, 2), zeros(n, 4)
    for i in range(k):
        p, q, r, s = [h.fixed_int("%s%d" % (x, i), 0, n - 1) for x in "pqrs"]
        v = h.real("v%d" % i, 0.1, 9)
        for g in group(p, q, r, s, cplx):
            two[g] = v
    a, b = h.fixed_int("a", 0, n - 1), h.fixed_int("b", 0, n - 1)
    one[a, b] = one[b, a] = h.real("o", 0.1, 9)
    iop = InteractionOperator(h.real("k", 0.1, 9) if h.flag("const") else 0.0, one, two)
    got = list(iop.unique_iter(cplx) if cplx or h.flag("explicit") else iop.unique_iter())
    h.same(got.count(()), 1 if nonzero(iop.constant) else 0, "the constant")
    ones = [t for t in got if len(t) == 2]
    h.check(len(ones) == 1 and {x for x, _ in ones[0]} == {a, b} and [y for _, y in ones[0]] == [1, 0], "the one-body class")
    classes = {frozenset(group(*idx, cplx)) for idx in each(n, 4) if nonzero(two[idx])}
    hit = [frozenset(group(*[x for x, _ in t], cplx)) for t in got if len(t) == 4]
    h.check(all(tuple(y for _, y in t) == (1, 1, 0, 0) for t in got if len(t) == 4), "two-body form")
    h.check(len(hit) == len(set(hit)) and set(hit) == classes, "each two-body class once")


def integrals(h, n):
    """Spatial integrals to spin-orbital tensors and back."""
    one, two = zeros(n, 2), zeros(n, 4)
    for i, idx in enumerate(each(n, 2)):
        one[idx] = h.real("o%d" % i, 0.1, 9)
    place = h.choice("place", each(n, 4))
    two[place] = h.real("t", 0.1, 9)
    two[(0,) * 4] = 3.0
    a, b = IO.get_tensors_from_integrals(one, two)
    m = 2 * n
    for p, q in each(m, 2):
        h.eq(h.value(a[p, q]), h.value(one[p // 2, q // 2]) if p % 2 == q % 2 else 0, "one-body integrals conserve spin")
    for p, q, r, s in each(m, 4):
        ok = p % 2 == s % 2 and q % 2 == r % 2
        h.eq(h.value(b[p, q, r, s]), h.value(two[p // 2, q // 2, r // 2, s // 2]) / 2 if ok else 0, "two-body integrals conserve the spin of each particle")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=th, types=True, bounds=b))


for n, k1, k2, th in ((1, 1, 1, 0), (2, 2, 0, 0), (2, 0, 1, 0), (3, 1, 0, 0), (2, 1, 1, 1), (3, 0, 1, 1)):
    add("to_fermions/%d/%d/%d" % (n, k1, k2), to_fermions, "any %d one-body and %d two-body entries on %d modes" % (k1, k2, n), bool(th), n=n, k1=k1, k2=k2)
for n, k, size, th in ((2, 1, 2, 0), (2, 2, 2, 0), (3, 1, 2, 0), (2, 1, 4, 0), (3, 1, 4, 1)):
    add("from_fermions/%d/%d/%d" % (n, k, size), from_fermions, "any %d number-conserving terms of %d ladder operators in any order on %d modes" % (k, size, n), bool(th), n=n, k=k, size=size)
add("refused", refused, "listed terms")
for i, (ka, kb) in enumerate([([(), (1, 0)], [(), (1, 0)]), ([(), (1, 0)], [(1, 0), (0, 1)]), ([(1, 0)], [(), (1, 0), (1, 1, 0, 0)]), ([(), (1, 1, 0, 0)], [(1, 0)])]):
    add("arithmetic/%d" % i, arithmetic, "all operations, tensors with keys %s and %s and any entries" % (ka, kb), n=2, ka=ka, kb=kb)
add("subtract_new_kind", subtract_new_kind, "all entries", n=2)
add("mismatch", mismatch, "all values")
add("equality/2", equality, "any single difference", n=2)
add("access/2", access, "all elements on 2 modes", n=2)
add("projected/2", projected, "listed selections, all elements", n=2)
add("projected/3", projected, "listed selections, all elements", True, n=3)
for key, cplx, spin, th in (((1, 0), 0, 0, 0), ((1, 0), 1, 0, 0), ((0, 1), 1, 0, 0), ((1, 1, 0, 0), 0, 0, 0), ((1, 0, 0, 1), 1, 0, 1), ((1, 0), 0, 1, 0), ((1, 1), 1, 0, 0)):
    add("rotation/%s%s%s" % ("".join(map(str, key)), "/complex" if cplx else "", "/spin" if spin else ""), rotation, "any matrix, tensors with any one entry", bool(th), n=2, key=key, cplx=bool(cplx), spin=bool(spin))
add("unique/2/1", unique, "any symmetric tensor with one class on 2 modes", n=2, k=1)
add("unique/3/1", unique, "any symmetric tensor with one class on 3 modes", True, n=3, k=1)
add("unique/2/2", unique, "any symmetric tensor with two classes on 2 modes", True, n=2, k=2)
add("integrals/2", integrals, "all one-body, any one two-body integral on 2 orbitals", n=2)
