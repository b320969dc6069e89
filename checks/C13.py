"""Outcome distributions are valid, normalized and survive being saved."""
import os
import tempfile

from symx import jsonshim
from zquantum.core import bitstring_distribution as B
from zquantum.core import distribution as D
from zquantum.core.distribution import _measurement_outcome_distribution as DM

LEVEL = "model_checking"
PATCH = jsonshim.patch

KEYS = {
    1: [(0,), (1,), (2,), (10,)],
    2: [(0, 0), (1, 0), (0, 1), (2, 3), (10, 1), (1, 10)],
    3: [(0, 0, 1), (1, 0, 0), (0, 12, 3)],
}


def pick_keys(h, n, k):
    out = []
    for i in range(k):
        out.append(h.choice("key%d" % i, [x for x in KEYS[n] if x not in out]))
    return out


def build(h, n, k):
    """Any non-negative values: accepted, and normalized to the same ratios."""
    keys = pick_keys(h, n, k)
    vals = [h.real("v%d" % i, 0, 50) for i in range(k)]
    tot = 0
    for v in vals:
        tot = tot + v
    h.assume(tot > 0.001)
    cls = h.choice("cls", [D.MeasurementOutcomeDistribution, B.BitstringDistribution])
    given = dict(zip(keys, vals))
    norm = h.flag("normalize")
    d = cls(given) if norm else cls(given, normalize=False)
    h.same(list(d.distribution_dict), keys, "same outcomes")
    h.same(list(given), keys, "the given dictionary keeps its keys")
    h.eq([given[x] for x in keys], vals, "the given dictionary is left alone")
    got = [d.distribution_dict[x] for x in keys]
    if norm:
        s = 0
        for x in got:
            s = s + x
        h.close(s, 1, "sums to one", 1e-8)
        h.close([x * tot for x in got], vals, "ratios are kept", 1e-5)
    else:
        h.eq(got, vals, "values are kept when normalization is off")
    for x in got:
        h.check(x >= 0, "no negative probability")
    h.same(d.get_number_of_subsystems(), n, "number of subsystems")
    if cls is B.BitstringDistribution:
        h.same(d.get_qubits_number(), n, "number of qubits")


def forms(h):
    """Tuples, digit strings and comma-separated strings name the same outcomes."""
    ks = h.choice("keys", [[(0, 1), (1, 0)], [(1, 1, 0), (0, 1, 1)], [(3, 0), (2, 9)]])
    v = [h.real("v0", 0.1, 9), h.real("v1", 0.1, 9)]
    form = lambda i: h.choice("f%d" % i, [lambda t: t, lambda t: "".join(map(str, t)), lambda t: ",".join(map(str, t))])
    d = D.MeasurementOutcomeDistribution({form(i)(k): x for i, (k, x) in enumerate(zip(ks, v))}, normalize=False)
    h.same(list(d.distribution_dict), ks, "outcomes named")
    h.eq([d.distribution_dict[k] for k in ks], v, "values kept")


def refused(h):
    """Anything else is refused."""
    k = h.choice("why", ["negative", "empty", "lengths", "negative key", "float key", "list", "zero", "int key", "text"])
    a, b = h.real("a", 0.1, 9), h.real("b", 0.1, 9)
    mk = lambda d, **o: lambda: D.MeasurementOutcomeDistribution(d, **o)
    if k == "negative":
        d = [((0,), a), ((1,), -b)]
        if h.flag("first"):
            d.reverse()
        norm = h.flag("normalize")
        h.raises(RuntimeError, mk(dict(d), normalize=norm), "a negative value")
    elif k == "empty":
        h.raises(RuntimeError, mk({}), "no outcomes")
    elif k == "lengths":
        d = [((0, 1), a), ((1,), b), ((1, 1), a)]
        r = h.fixed_int("rot", 0, 2)
        h.raises(RuntimeError, mk(dict(d[r:] + d[:r])), "outcomes of different lengths")
    elif k == "negative key":
        t = (0, -1) if h.flag("second") else (-2, 0)
        d = [(t, a), ((1, 1), b)]
        if h.flag("last"):
            d.reverse()
        h.raises(RuntimeError, mk(dict(d)), "a negative digit")
    elif k == "float key":
        d = [((0.5, 0), a), ((1, 1), b)]
        if h.flag("last"):
            d.reverse()
        h.raises(RuntimeError, mk(dict(d)), "a digit that is not an integer")
    elif k == "zero":
        h.raises(ValueError, mk({(0,): 0.0, (1,): 0.0}), "nothing to normalize")
    elif k == "int key":
        h.raises(RuntimeError, mk({0: a, 1: b}), "keys that are not outcomes")
    elif k == "text":
        h.raises((RuntimeError, ValueError), mk({"ab": a}), "keys that are not digits")
    else:
        h.raises((RuntimeError, AttributeError), mk([a, b]), "not a dictionary")


def predicates(h):
    a, b = h.real("a", -1, 2), h.real("b", -1, 2)
    d = {(0, 1): a, (1, 1): b}
    valid = h.both(a >= 0, b >= 0)
    h.same(bool(D.is_measurement_outcome_distribution(d)), bool(valid), "valid exactly when no value is negative")
    s = a + b
    if h.both(s > 1 - 1e-10, s < 1 + 1e-10):
        h.check(D.is_normalized(d), "normalized when the sum is one")
    elif h.either(s > 1 + 1e-8, s < 1 - 1e-8):
        h.check(not D.is_normalized(d), "not normalized otherwise")


def files(h, n, k):
    keys = pick_keys(h, n, k)
    vals = [h.real("v%d" % i, 0.1, 9) for i in range(k)]
    d = D.MeasurementOutcomeDistribution(dict(zip(keys, vals)))
    want = [d.distribution_dict[x] for x in keys]
    how = h.choice("how", ["name", "open"])
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, "d.json")
        D.save_measurement_outcome_distribution(d, p)
        if how == "name":
            r = D.load_measurement_outcome_distribution(p)
        else:
            with open(p) as f:
                r = D.load_measurement_outcome_distribution(f)
    h.same(set(d.distribution_dict), set(keys), "saving leaves the distribution alone")
    h.same(set(r.distribution_dict), set(keys), "outcomes read back")
    h.close([r.distribution_dict[x] for x in keys], want, "probabilities read back", 1e-8)


def sets(h, m):
    ds, want = [], []
    for i in range(m):
        n = h.choice("n%d" % i, [1, 2])
        keys = KEYS[n][:2] if n == 2 else KEYS[n][:3]
        vals = [h.real("v%d_%d" % (i, j), 0.1, 9) for j in range(len(keys))]
        d = D.MeasurementOutcomeDistribution(dict(zip(keys, vals)))
        ds.append(d)
        want.append((keys, [d.distribution_dict[x] for x in keys]))
    how = h.choice("how", ["name", "open"])
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, "d.json")
        D.save_measurement_outcome_distributions(ds, p)
        if how == "name":
            rs = D.load_measurement_outcome_distributions(p)
        else:
            with open(p) as f:
                rs = D.load_measurement_outcome_distributions(f)
    h.same(len(rs), m, "number of distributions")
    for r, (keys, vals) in zip(rs, want):
        h.same(set(r.distribution_dict), set(keys), "outcomes read back, in order of the set")
        h.close([r.distribution_dict[x] for x in keys], vals, "probabilities read back", 1e-8)


def from_list(h, n):
    ps = [h.real("p%d" % i, 0.01, 1) for i in range(2 ** n)]
    t = 0
    for x in ps:
        t = t + x
    d = D.create_bitstring_distribution_from_probability_distribution(DM.np.array(ps))
    for i in range(2 ** n):
        k = tuple((i >> (n - 1 - j)) & 1 for j in range(n))
        h.close(d.distribution_dict[k] * t, ps[i], "probability of the outcome with index i", 1e-6)
    h.same(len(d.distribution_dict), 2 ** n, "all outcomes")


UNITS = []
for n, k in ((1, 1), (1, 2), (2, 2), (3, 2)):
    UNITS.append(dict(name="build/%d/%d" % (n, k), fn=build, args=dict(n=n, k=k), types=True, bounds="any %d outcomes of a list, all values up to 50" % k))
for n, k in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (3, 3)):
    UNITS.append(dict(name="files/%d/%d" % (n, k), fn=files, args=dict(n=n, k=k), types=True, bounds="any %d outcomes of a list, all values" % k))
UNITS.append(dict(name="build/2/3", fn=build, args=dict(n=2, k=3), types=True, thorough=True, bounds="any 3 outcomes of a list, all values up to 50"))
for m in (0, 1, 2):
    UNITS.append(dict(name="sets/%d" % m, fn=sets, args=dict(m=m), types=True, bounds="%d distributions, all values" % m))
UNITS.append(dict(name="forms", fn=forms, types=True, bounds="all mixes of key forms, all values"))
UNITS.append(dict(name="refused", fn=refused, types=True, bounds="all values"))
UNITS.append(dict(name="predicates", fn=predicates, types=True, bounds="all values"))
for n in (1, 2, 3):
    UNITS.append(dict(name="from_list/%d" % n, fn=from_list, args=dict(n=n), types=True, bounds="all probabilities of %d bits" % n))
