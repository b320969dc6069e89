"""Hubbard Hamiltonians have exactly the terms of their lattice."""
from zquantum.core.openfermion import FermionOperator
from zquantum.core.openfermion.hamiltonians import fermi_hubbard
from zquantum.core.openfermion.hamiltonians import general_hubbard as G
from zquantum.core.openfermion.hamiltonians import special_operators as SO

from checks.lib import fermi as F

LEVEL = "model_checking"


def edges(x, y, periodic):
    """Unordered pairs of neighbouring sites of the grid (site = row * x + column)."""
    out = set()
    for r in range(y):
        for c in range(x):
            for dr, dc in ((0, 1), (1, 0)):
                R, C = r + dr, c + dc
                if periodic:
                    R, C = R % y, C % x
                if R < y and C < x and (R, C) != (r, c):
                    out.add(frozenset((r * x + c, R * x + C)))
    return out


def n(i):
    return ((i, 1), (i, 0))


def put(d, t, c):
    d[t] = d.get(t, 0) + c


def hubbard(h, xs, ys):
    x, y = h.choice("x", xs), h.choice("y", ys)
    t = h.real("t", 0.1, 9)
    U = h.real("U", 0.1, 9)
    spinless = h.flag("spinless")
    kw = {}
    mu = mag = 0
    if h.flag("fields"):
        mu, mag = kw["chemical_potential"], kw["magnetic_field"] = h.real("mu", 0.1, 1), h.real("h", 2, 9)
    periodic = h.choice("periodic", [None, True, False])
    if periodic is not None:
        kw["periodic"] = periodic
    ph = h.flag("ph")
    if ph:
        kw["particle_hole_symmetry"] = True
    if spinless:
        kw["spinless"] = True
    r = fermi_hubbard(x, y, t, U, **kw)
    h.check(type(r) is FermionOperator, "a fermion operator")
    want = {}

    def coulomb(i, j):
        put(want, n(i) + n(j), U)
        if ph:
            put(want, n(i), -U / 2)
            put(want, n(j), -U / 2)
            put(want, (), U / 4)

    E = edges(x, y, periodic is not False)
    for e in E:
        i, j = sorted(e)
        for s in ((0,) if spinless else (0, 1)):
            a, b = (i, j) if spinless else (2 * i + s, 2 * j + s)
            put(want, ((a, 1), (b, 0)), -t)
            put(want, ((b, 1), (a, 0)), -t)
        if spinless:
            coulomb(i, j)
    for i in range(x * y):
        if spinless:
            put(want, n(i), -mu)
        else:
            coulomb(2 * i, 2 * i + 1)
            put(want, n(2 * i), -mu - mag)
            put(want, n(2 * i + 1), -mu + mag)
    a, b = F.canonical(h, r.terms), F.canonical(h, want)
    keys = sorted(set(a) | set(b))
    h.close([a.get(k, 0) for k in keys], [b.get(k, 0) for k in keys], "hopping, repulsion and field terms of every site and edge, once", 1e-6)


def complex_hopping(h, sizes):
    """With a complex amplitude, hopping there and back are conjugates of each other."""
    x, y = h.choice("size", sizes)
    t = h.complex("t")
    spinless = h.flag("spinless")
    periodic = h.flag("periodic")
    r = fermi_hubbard(x, y, t, h.real("U", 0.1, 9), spinless=spinless, periodic=periodic)
    c = F.canonical(h, r.terms)
    for e in edges(x, y, periodic):
        i, j = sorted(e)
        for s in ((0,) if spinless else (0, 1)):
            a, b = (i, j) if spinless else (2 * i + s, 2 * j + s)
            p, q = c.get(((a, 1), (b, 0)), 0), c.get(((b, 1), (a, 0)), 0)
            h.close(p - h.num(q).conjugate(), 0, "hopping back is the conjugate", 1e-6)
            h.close((p + t) * (p + t.conjugate()), 0, "the amplitude is minus the tunneling or its conjugate", 1e-6)


def general(h, N):
    i, j = h.fixed_int("i", 0, N - 1), h.fixed_int("j", 0, N - 1)
    c = h.real("c", 0.1, 9)
    ph = h.choice("ph", [None, False, True])
    kw = {} if ph is None else {"particle_hole_symmetry": ph}
    s = 0.5 if ph else 0
    a = F.canonical(h, G.number_operator(i, c, **kw).terms)
    b = F.canonical(h, {n(i): c, (): -s * c})
    h.close([a.get(k, 0) for k in sorted(set(a) | set(b))], [b.get(k, 0) for k in sorted(set(a) | set(b))], "c (n - 1/2)")
    a = F.canonical(h, G.interaction_operator(i, j, c, **kw).terms)
    want = {}
    put(want, n(i) + n(j), c)
    put(want, n(i), -s * c)
    put(want, n(j), -s * c)
    put(want, (), s * s * c)
    b = F.canonical(h, want)
    h.close([a.get(k, 0) for k in sorted(set(a) | set(b))], [b.get(k, 0) for k in sorted(set(a) | set(b))], "c (n_i - 1/2)(n_j - 1/2)")
    h.close(F_get(h, G.number_operator(i)), {n(i): 1}[n(i)], "coefficient one by default")


def F_get(h, op):
    (v,) = F.canonical(h, op.terms).values()
    return v


def number(h, N):
    m = h.choice("m", [None] + list(range(N)))
    c = h.real("c", 0.1, 9)
    k = h.fixed_int("N", 1 if m is None else m + 1, N)
    r = SO.number_operator(k, m, c) if h.flag("explicit") else SO.number_operator(k, m, coefficient=c, parity=-1)
    a = F.canonical(h, r.terms)
    h.same(set(a), {n(i) for i in range(k) if m in (None, i)}, "one number operator per mode")
    h.close([a[t] for t in a], [c] * len(a), "with the coefficient")
    for p in (1, 0, 2):
        h.raises(ValueError, lambda: SO.number_operator(2, 0, c, p), "only fermions")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


for xs, ys in (([1, 2, 3, 4], [1]), ([1, 2, 3], [2]), ([1, 2], [3, 4, 5]), ([3, 4], [3]), ([5], [1, 2])):
    add("hubbard/%s/%s" % ("".join(map(str, xs)), "".join(map(str, ys))), hubbard, "all couplings, widths %s, heights %s, all options" % (xs, ys), xs=xs, ys=ys)
for xs, ys in (([3, 4], [4]), ([5], [3])):
    add("hubbard/%s/%s" % ("".join(map(str, xs)), "".join(map(str, ys))), hubbard, "all couplings, widths %s, heights %s, all options" % (xs, ys), True, xs=xs, ys=ys)
add("complex", complex_hopping, "all complex amplitudes, lattices of up to 4 sites", sizes=[(2, 1), (1, 2), (3, 1), (2, 2), (4, 1)])
add("general/3", general, "all pairs of 3 modes, any coefficient", N=3)
add("number/4", number, "all modes of up to 4", N=4)
