"""Comparisons of matrices: identity, unitarity, equality up to a phase."""
import itertools

from zquantum.core import utils as U

LEVEL = "model_checking"


def arr(m):
    return U.np.array(m)


def mul(h, a, b):
    n = len(a)
    return [[sum((h.num(a[i][k]) * b[k][j] for k in range(n)), 0) for j in range(n)] for i in range(n)]


def unitary(h, name, n):
    """A unitary: phase times rotation, embedded at forked places and multiplied by diagonal signs."""
    a, b = h.unit_vector(name, 2, True)
    (p,) = h.unit_vector(name + "p", 1, True)
    a, b, p = h.num(a), h.num(b), h.num(p)
    g = [[p * a, -p * b.conjugate()], [p * b, p * a.conjugate()]]
    if n == 1:
        return [[p]]
    if n == 2:
        return g
    i, j = h.choice(name + "at", [(i, j) for i in range(n) for j in range(i + 1, n)])
    m = [[1 if r == c else 0 for c in range(n)] for r in range(n)]
    m[i][i], m[i][j], m[j][i], m[j][j] = g[0][0], g[0][1], g[1][0], g[1][1]
    return m


TOLS = {"default": None, "1e-6": 1e-6, "1e-2": 1e-2}


def kw(t):
    return {} if TOLS[t] is None else dict(tol=TOLS[t])


def tol_of(t):
    return 1e-15 if TOLS[t] is None else TOLS[t]


def is_truth(h, x, what):
    h.check(x, what)


def is_false(h, x, what):
    h.check(h.negate(x), what)


def near(h, n, tol):
    """Entries within the tolerance are accepted, whatever they are."""
    t = tol_of(tol)
    m = [[h.real("e%d%d" % (i, j), -0.99 * t, 0.99 * t) + (1 if i == j else 0) for j in range(n)] for i in range(n)]
    is_truth(h, U.is_identity(arr(m), **kw(tol)), "within the tolerance of the identity")


def far(h, n, tol, cplx):
    """One entry that differs by more is enough to be refused."""
    t = tol_of(tol) + 1.001e-5
    m = [[h.real("e%d%d" % (i, j), -9, 9) for j in range(n)] for i in range(n)]
    i, j = h.fixed_int("i", 0, n - 1), h.fixed_int("j", 0, n - 1)
    d = h.real("d", -9, 9)
    h.assume(abs(d) > t)
    m[i][j] = (1 if i == j else 0) + d * (1j if cplx else 1)
    is_false(h, U.is_identity(arr(m), **kw(tol)), "not the identity")


def unitary_yes(h, n, tol):
    is_truth(h, U.is_unitary(arr(unitary(h, "u", n)), **kw(tol)), "unitary")


def unitary_no(h, n, tol, how):
    m = unitary(h, "u", n)
    t = tol_of(tol) + 1.001e-5
    if how == "scaled":
        s = h.real("s", 0, 9)
        h.assume(abs(s * s - 1) > t)
        m = [[s * x for x in r] for r in m]
    elif how == "column":
        s, c = h.real("s", 0, 9), h.fixed_int("c", 0, n - 1)
        h.assume(abs(s * s - 1) > t)
        m = [[s * x if k == c else x for k, x in enumerate(r)] for r in m]
    else:
        # a shear: column c plus k times another column
        k, c = h.real("k", -9, 9), h.fixed_int("c", 0, n - 1)
        h.assume(abs(k) > t)
        o = (c + 1) % n
        m = [[r[j] + k * r[o] if j == c else r[j] for j in range(n)] for r in m]
    is_false(h, U.is_unitary(arr(m), **kw(tol)), "not unitary")


def same_up_to_phase(h, n, tol):
    u = unitary(h, "u", n)
    (p,) = h.unit_vector("phase", 1, True)
    v = [[h.num(p) * x for x in r] for r in u]
    is_truth(h, U.compare_unitary(arr(u), arr(v), **kw(tol)), "equal up to a phase")


def different(h, n, tol, how):
    u = unitary(h, "u", n)
    t = tol_of(tol) + 1.001e-5
    if how == "relative":
        # another phase on one column
        (p,) = h.unit_vector("phase", 1, True)
        p = h.num(p)
        c = h.fixed_int("c", 0, n - 1)
        d = p - 1
        h.assume((d * d.conjugate()).real > t * t * 1.01)
        v = [[p * x if k == c else x for k, x in enumerate(r)] for r in u]
    elif how == "permuted":
        perm = h.choice("perm", [p for p in itertools.permutations(range(n)) if p != tuple(range(n))])
        v = [[r[perm[k]] for k in range(n)] for r in u]
    else:
        c, s = h.unit_vector("a", 2)
        h.assume(abs(s) > 1.01 * t)
        i, j = 0, 1
        v = [list(r) for r in u]
        for r, w in zip(u, v):
            w[i], w[j] = c * r[i] + s * r[j], -s * r[i] + c * r[j]
    is_false(h, U.compare_unitary(arr(u), arr(v), **kw(tol)), "different unitaries")


def not_unitary(h, n, which):
    u = unitary(h, "u", n)
    s = h.real("s", 0, 9)
    h.assume(abs(s * s - 1) > 1e-3)
    v = [[s * x for x in r] for r in u]
    args = dict(first=(v, u), second=(u, v), both=(v, v))[which]
    h.raises(Exception, lambda: U.compare_unitary(arr(args[0]), arr(args[1])), "matrices that are not unitary")


def not_square(h, f):
    r, c = h.fixed_int("r", 1, 4), h.fixed_int("c", 1, 4)
    h.assume(r != c)
    m = arr([[h.real("x%d%d" % (i, j), -9, 9) for j in range(c)] for i in range(r)])
    calls = dict(identity=lambda: U.is_identity(m), unitary=lambda: U.is_unitary(m), compare=lambda: U.compare_unitary(m, m))
    h.raises(Exception, calls[f], "matrices that are not square")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


for tol in TOLS:
    for n in (1, 2, 3):
        add("near/%d/%s" % (n, tol), near, "all %dx%d matrices within the tolerance" % (n, n), n=n, tol=tol)
        add("far/%d/%s" % (n, tol), far, "all %dx%d matrices with an entry beyond the tolerance" % (n, n), n > 2, n=n, tol=tol, cplx=False)
        add("far/%d/%s/i" % (n, tol), far, "all %dx%d matrices with an imaginary entry" % (n, n), n > 2, n=n, tol=tol, cplx=True)
    for n, th in ((1, 0), (2, 0), (3, 0), (4, 1)):
        th = th or (n > 2 and tol != "default")
        add("unitary/%d/%s" % (n, tol), unitary_yes, "rotations in %d dimensions" % n, th, n=n, tol=tol)
        for how in ("scaled", "column") + (("shear",) if n > 1 else ()):
            add("nonunitary/%s/%d/%s" % (how, n, tol), unitary_no, "all rotations, %s" % how, th, n=n, tol=tol, how=how)
        add("same/%d/%s" % (n, tol), same_up_to_phase, "all rotations and phases", th, n=n, tol=tol)
        if n > 1:
            for how in ("relative", "permuted", "rotated"):
                add("different/%s/%d/%s" % (how, n, tol), different, "all rotations, %s" % how, th, n=n, tol=tol, how=how)
for n in (1, 2):
    for w in ("first", "second", "both"):
        add("not_unitary/%s/%d" % (w, n), not_unitary, "all rotations and factors", n=n, which=w)
for f in ("identity", "unitary", "compare"):
    add("not_square/" + f, not_square, "up to 4x4", f=f)
