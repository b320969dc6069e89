"""Molecules are named, counted and stored as they are."""
import os
import shutil
import tempfile

import numpy
from zquantum.core.openfermion import InteractionRDM
from zquantum.core.openfermion.chem import molecular_data as MD

from symx import h5shim, num

LEVEL = "model_checking"
ASSUMPTIONS = ["HDF5 files return the datasets written (a stand-in keeps symbolic ones in memory; replays use h5py itself)."]

Z = dict(H=1, He=2, Li=3, C=6, N=7, O=8, Ne=10, Na=11, Ar=18, Fe=26, Kr=36, Xe=54, La=57, Lu=71, Au=79, Rn=86, U=92, Lr=103)


def PATCH(p, u=None):
    h5shim.patch(p, MD)
    if u and u.get("text"):
        p.set(num, "PYTEXT", [True])


def here(fn):
    """Runs with a scratch directory as working directory."""

    def f(h, **k):
        old, d = os.getcwd(), tempfile.mkdtemp()
        data = MD.DATA_DIRECTORY
        os.chdir(d)
        MD.DATA_DIRECTORY = d
        try:
            return fn(h, **k)
        finally:
            MD.DATA_DIRECTORY = data
            os.chdir(old)
            shutil.rmtree(d)

    f.__name__, f.__doc__ = fn.__name__, fn.__doc__
    return f


def geometry(h, k, atoms=("H", "He", "Li")):
    return [(h.choice("atom%d" % i, atoms), tuple(h.real("x%d%s" % (i, c), -9, 9) for c in "xyz")) for i in range(k)]


def same_geometry(h, got, want, label):
    h.same([a for a, _ in got], [a for a, _ in want], label + ": atoms in order")
    for (_, x), (_, y) in zip(got, want):
        h.close([h.value(v) for v in x], list(y), label + ": positions", 0)


SPIN = {1: "singlet", 2: "doublet", 3: "triplet", 4: "quartet", 5: "quintet", 6: "sextet", 7: "septet", 8: "octet", 9: "nonet", 10: "dectet", 11: "undectet", 12: "duodectet"}


@here
def named(h, k):
    """Names have formula, basis, spin, charge and description; electrons are counted."""
    g = geometry(h, k, ("H", "He", "O", "Au")) if k else "made-up"
    mult, charge = h.fixed_int("multiplicity", 0, 13) if k < 2 else 1, h.fixed_int("charge", -2, 2)
    desc = h.choice("description", ["", "0.7414"])
    if mult not in SPIN:
        h.raises(MD.MoleculeNameError, lambda: MD.name_molecule(g, "sto-3g", mult, charge, desc), "impossible multiplicities are refused")
        return
    m = MD.MolecularData(g, "sto-3g", mult, charge, desc)
    formula = g if not k else "-".join("%s%d" % (a, n) for a, n in ((a, sum(b == a for b, _ in g)) for a in ("H", "He", "O", "Au")) if n)
    want = "%s_sto-3g_%s" % (formula, SPIN[mult])
    if charge:
        want += "_%d%s" % (charge, "+" if charge > 0 else "-")
    if desc:
        want += "_" + desc
    h.same(m.name, want, "name")
    h.same(MD.name_molecule(g, "sto-3g", mult, charge, desc), want, "name")
    h.same(m.filename, os.path.join(os.getcwd(), want), "file in the data directory")
    h.same(MD.MolecularData(g, "sto-3g", mult, charge, desc, data_directory="d").filename, "d/" + want, "file in the directory given")
    for f in ("here/f", "here/f.hdf5"):
        h.same(MD.MolecularData(g, "sto-3g", mult, charge, desc, filename=f).filename, "here/f", "file given")
    h.same((m.charge, m.multiplicity, m.description, m.basis), (charge, mult, desc, "sto-3g"), "what was given")
    if k:
        h.same((m.n_atoms, list(m.atoms)), (k, sorted((a for a, _ in g), key=Z.get)), "atoms by number")
        h.same(list(m.protons), sorted(Z[a] for a, _ in g), "protons")
        h.same(m.n_electrons, sum(Z[a] for a, _ in g) - charge, "electrons of the ion")
    for x in ("n_orbitals", "n_qubits", "nuclear_repulsion", "hf_energy", "mp2_energy", "cisd_energy", "fci_energy", "ccsd_energy", "one_body_integrals", "fci_two_rdm"):
        h.check(getattr(m, x) is None, "nothing is calculated yet")


def refused(h):
    h.raises(TypeError, lambda: MD.MolecularData([("H", (0, 0, 0))], "b", 2, description=5), "descriptions are text")
    for g, b, m in ((None, "b", 1), ([("H", (0, 0, 0))], None, 1), ([("H", (0, 0, 0))], "b", None)):
        h.raises(ValueError, lambda: MD.MolecularData(g, b, m), "incomplete molecules are refused")


def table(h):
    """Atomic numbers."""
    a = h.choice("atom", sorted(Z))
    h.same(MD.periodic_table.index(a), Z[a], "atomic numbers")
    h.same(MD.periodic_hash_table[a], Z[a], "atomic numbers")
    h.check(len(MD.periodic_table) == 104 and len(set(MD.periodic_table)) == 104, "each element once")


def lengths(h):
    x = h.real("x", 0.001, 1000)
    h.close(MD.bohr_to_angstroms(MD.angstroms_to_bohr(x)) / x, 1, "inverse of each other", 1e-9)
    h.close(MD.angstroms_to_bohr(x) / x, 1.88972612, "Bohr radius", 1e-5)


@here
def from_file(h, k):
    """Geometry files have an atom per line."""
    g = geometry(h, k, ("H", "He"))
    sep = h.choice("separator", [" ", "\t", "   "]) if k < 2 else "  "
    with open("g.txt", "w") as f:
        if h.flag("header"):
            f.write("%d\n\na comment\n" % k)
        for a, x in g:
            f.write(sep.join([a] + [str(v) for v in x]) + "\n")
        if h.flag("trailing"):
            f.write("\n")
    got = MD.geometry_from_file("g.txt")
    h.same(len(got), k, "an entry per atom")
    same_geometry(h, got, g, "geometry")


SCALARS = ("n_orbitals", "n_qubits", "nuclear_repulsion", "hf_energy", "mp2_energy", "cisd_energy", "fci_energy", "ccsd_energy")
ARRAYS = dict(canonical_orbitals=2, overlap_integrals=2, one_body_integrals=2, two_body_integrals=4, cisd_one_rdm=2, cisd_two_rdm=4, fci_one_rdm=2, fci_two_rdm=4, ccsd_single_amps=2, ccsd_double_amps=4)


def array(h, name, rank, n, low=-9):
    a = MD.numpy.zeros((n,) * rank)
    for i in numpy.ndindex(*a.shape):
        a[i] = h.real(name + "".join(map(str, i)), low, 9)
    return a


def fill(h, m, fields, n, tag="", low=-9):
    """Gives the molecule these results; returns what they are."""
    out = {}
    for f in fields:
        if f in ARRAYS:
            v = array(h, tag + f, ARRAYS[f], n, low)
        elif f in ("n_orbitals", "n_qubits"):
            v = h.fixed_int(tag + "n_orbitals", 1, 2) * (2 if f == "n_qubits" else 1)
        elif f == "orbital_energies":
            v = array(h, tag + f, 1, n)
        elif f == "general_calculations":
            v = {"first": h.real(tag + "g1", -9, 9), "2nd": h.real(tag + "g2", -9, 9)}
        else:
            v = h.real(tag + f, -9, 9)
        setattr(m, f, v)
        out[f] = v
    return out


def compare(h, m, want, label):
    for f in SCALARS + tuple(ARRAYS) + ("orbital_energies", "general_calculations"):
        got = getattr(m, f)
        if f == "general_calculations":
            h.same(sorted(got), sorted(want.get(f, {})), label + ": calculations")
            for k in got:
                h.close(h.value(got[k]), want[f][k], label + ": calculations", 0)
            continue
        if f not in want:
            h.check(got is None, label + ": nothing else is there")
            continue
        h.check(got is not None, label + ": results are there")
        w = want[f]
        if hasattr(w, "shape"):
            h.same(tuple(got.shape), tuple(w.shape), label + ": shapes")
            h.close([h.value(x) for x in got.flat], [h.value(x) for x in w.flat], label + ": results", 0)
        else:
            h.close(h.value(got if not hasattr(got, "shape") else got.item()), w, label + ": results", 0)


def metadata(h, m, g, d, label):
    if isinstance(g, str):
        h.same(m.geometry, g, label + ": geometry")
    else:
        same_geometry(h, m.geometry, g, label + ": geometry")
        h.same(m.n_atoms, len(g), label + ": number of atoms")
        h.same([int(p) for p in m.protons], sorted(Z[a] for a, _ in g), label + ": protons")
        h.same(m.n_electrons, sum(Z[a] for a, _ in g) - d["charge"], label + ": electrons")
    for k, v in d.items():
        h.same(getattr(m, k), v, label + ": " + k)


def make(h, k):
    g = geometry(h, k, ("H", "Li")) if k else "made-up"
    d = dict(basis="cc-pvtz", multiplicity=h.choice("multiplicity", [1, 3]), charge=h.choice("charge", [0, -1, 2]), description=h.choice("description", ["", "far"]))
    m = MD.MolecularData(g, filename="m", **d)
    return g, dict(d, name=m.name), m


@here
def stored(h, k, fields, n):
    """What is saved is loaded, nothing else."""
    g, d, m = make(h, k)
    want = fill(h, m, fields, n)
    m.save()
    h.same(os.listdir("."), ["m.hdf5"], "one file")
    metadata(h, m, g, d, "saved")
    compare(h, m, want, "saved")
    r = MD.MolecularData(filename=h.choice("as", ["m", "m.hdf5"]))
    metadata(h, r, g, d, "loaded")
    compare(h, r, want, "loaded")
    s = MD.MolecularData("other", "b", 1, filename="m")
    s.load()
    metadata(h, s, g, d, "loaded again")
    compare(h, s, want, "loaded again")


@here
def resaved(h, k, before, after, n):
    """Saving a loaded molecule keeps what was not changed, looked at or not."""
    g, d, m = make(h, k)
    want = fill(h, m, before, n)
    m.save()
    r = MD.MolecularData(filename="m")
    for f in before:
        if h.flag("look_" + f):
            getattr(r, f)
    want.update(fill(h, r, after, n, "new_"))
    r.save()
    h.same(os.listdir("."), ["m.hdf5"], "one file")
    t = MD.MolecularData(filename="m")
    metadata(h, t, g, d, "saved again")
    compare(h, t, want, "saved again")


@here
def lazy(h, n):
    """Results are read when asked for, and only from the file."""
    g, d, m = make(h, 1)
    f = h.choice("field", sorted(ARRAYS))
    want = fill(h, m, [f], n)
    m.save()
    r = MD.MolecularData(filename="m")
    if h.flag("removed"):
        os.remove("m.hdf5")
        h.check(getattr(r, f) is None, "no file, no result")
        return
    x = getattr(r, f)
    os.remove("m.hdf5")
    h.check(getattr(r, f) is x, "read once")
    compare(h, r, want, "read")
    h.check(r.get_from_file("nothing") is None, "unknown results")


@here
def density(h, n):
    """The density matrices of the method asked for, without small entries."""
    _, _, m = make(h, 1)
    fields = ["cisd_one_rdm", "cisd_two_rdm", "fci_one_rdm", "fci_two_rdm"]
    have = h.choice("have", ["cisd", "fci", "both"])
    want = {}
    for f in fields:
        if have in (f.split("_")[0], "both"):
            a = MD.numpy.zeros((n,) * ARRAYS[f])
            for i in numpy.ndindex(*a.shape):
                a[i] = h.real(f + "".join(map(str, i)), 0.1, 9)
            a[(0,) * ARRAYS[f]] = h.real(f + "small", -9e-9, 9e-9)
            want[f] = a.copy()
            setattr(m, f, a)
    if have != "fci":
        m.cisd_energy = h.real("e", -9, 9)
    if have != "cisd":
        m.fci_energy = h.real("e2", -9, 9)
    fci = h.choice("use_fci", [False, True])
    if have != "both" and fci is not (have == "fci"):
        h.raises(MD.MissingCalculationError, lambda: m.get_molecular_rdm(fci), "missing calculations are reported")
        return
    r = m.get_molecular_rdm(fci) if fci or h.flag("explicit") else m.get_molecular_rdm()
    h.check(type(r) is InteractionRDM, "density matrices")
    for got, f in ((r.one_body_tensor, "one_rdm"), (r.two_body_tensor, "two_rdm")):
        for i in numpy.ndindex(*got.shape):
            w = h.value(want[("fci_" if fci else "cisd_") + f][i])
            h.close(h.value(got[i]), w, "entries", 1.1e-8)
            if not any(i):
                h.check(h.either(h.value(got[i]) == 0, w >= 1e-8, w <= -1e-8), "small entries are dropped")


@here
def loaded_hamiltonian(h, n):
    """Active spaces by number of electrons and orbitals: the lowest orbitals are filled."""
    atoms = [("Li", (0, 0, 0)), ("H", (0, 0, 1))]  # 4 electrons
    m = MD.MolecularData(atoms, "b", 1, description="x")
    want = fill(h, m, ["one_body_integrals", "two_body_integrals", "nuclear_repulsion"], n, low=0.1)
    m.n_orbitals, m.n_qubits = n, 2 * n
    m.save()
    e = h.choice("electrons", [None, 0, 2, 3, 4])
    core = 0 if e is None else (4 - e) // 2
    k = h.choice("orbitals", [None] + list(range(1, n + 1)))
    h.assume(core + (k or 0) <= n and not (e is not None and k is None))
    kw = {}
    if e is not None:
        kw["n_active_electrons"] = e
    if k is not None:
        kw["n_active_orbitals"] = k
    r = MD.load_molecular_hamiltonian(atoms, "b", 1, "x", **kw)
    w = m.get_molecular_hamiltonian(None if e is None else list(range(core)), None if k is None else list(range(core, core + k)))
    h.same(r.n_qubits, w.n_qubits, "modes")
    h.same(r.n_qubits, 2 * (n if k is None else k), "modes")
    h.close(h.value(r.constant), h.value(w.constant), "constant")
    h.close([h.value(x) for x in r.one_body_tensor.flat], [h.value(x) for x in w.one_body_tensor.flat], "one-body part")
    h.close([h.value(x) for x in r.two_body_tensor.flat], [h.value(x) for x in w.two_body_tensor.flat], "two-body part")


UNITS = []


def add(name, fn, b, th=False, text=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b, text=text))


for k in (0, 1, 2, 3):
    add("named/%d" % k, named, "%d atoms of 4 elements, multiplicities from 0 to 13, charges from -2 to 2" % k, k == 3, k=k)
add("refused", refused, "all")
add("table", table, "18 elements")
add("lengths", lengths, "all lengths from 0.001 to 1000")
for k in (0, 1, 2):
    add("from_file/%d" % k, from_file, "%d atoms, all positions" % k, text=True, k=k)
for name, fields in (("nothing", ()), ("energies", SCALARS), ("orbitals", ("canonical_orbitals", "overlap_integrals", "orbital_energies")), ("integrals", ("one_body_integrals", "two_body_integrals", "nuclear_repulsion")),
                     ("cisd", ("cisd_one_rdm", "cisd_two_rdm")), ("fci", ("fci_one_rdm", "fci_two_rdm")), ("ccsd", ("ccsd_single_amps", "ccsd_double_amps")), ("general", ("general_calculations", "hf_energy"))):
    for k in (0, 1, 2):
        add("stored/%s/%d" % (name, k), stored, "%d atoms, all values" % k, k == 2 and name != "nothing", k=k, fields=fields, n=2 if name in ("orbitals", "integrals") else 1)
for i, (b, a) in enumerate(((("one_body_integrals", "fci_energy"), ("two_body_integrals",)), (("general_calculations", "hf_energy"), ("hf_energy",)), (("cisd_one_rdm", "canonical_orbitals"), ("ccsd_energy", "cisd_one_rdm")), (("ccsd_single_amps", "orbital_energies", "n_orbitals"), ()))):
    add("resaved/%d" % i, resaved, "all values, any results looked at", k=1, before=b, after=a, n=1)
add("lazy", lazy, "all values of any array", n=1)
for n in (1, 2):
    add("density/%d" % n, density, "all entries above 0.1 and one below 1e-8, %d modes" % n, n == 2, n=n)
for n in (2, 3):
    add("loaded_hamiltonian/%d" % n, loaded_hamiltonian, "all integrals of %d orbitals" % n, n == 3, n=n)
