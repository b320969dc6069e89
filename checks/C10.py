"""Measurements: counts, distributions, sampling and files agree with the recorded bitstrings."""
import itertools
import os
import tempfile

from symx import jsonshim, rng
from zquantum.core.distribution import MeasurementOutcomeDistribution
from zquantum.core.measurement import Measurements, sample_from_wavefunction
from zquantum.core.utils import sample_from_probability_distribution
from zquantum.core.wavefunction import Wavefunction

LEVEL = "model_checking"
PATCH = jsonshim.patch
ASSUMPTIONS = ["Random draws are modelled as arbitrary outcomes of nonzero probability."]


def strings(n):
    return ["".join(t) for t in itertools.product("01", repeat=n)]


def bitlists(h, n, m):
    return [tuple(h.fixed_int("b%d_%d" % (i, j), 0, 1) for j in range(n)) for i in range(m)]


def counts(h, n, hi):
    """from_counts / add_counts / get_counts / get_distribution agree for all counts."""
    pool = strings(n)
    c1 = {}
    order = pool if h.flag("order") else pool[::-1]
    for s in order:
        k = h.fixed_int("c" + s, 0, hi)
        if k or h.flag("list_zero_" + s):
            c1[s] = k
    given = dict(c1)
    m = Measurements.from_counts(c1)
    nz = {s: k for s, k in given.items() if k}
    h.same(c1, given, "the given counts are not changed")
    h.same(m.get_counts(), nz, "counts kept")
    h.same(len(m.bitstrings), sum(nz.values()), "number of measurements")
    h.check(all(type(b) is tuple and "".join(map(str, b)) in nz for b in m.bitstrings), "bitstrings are tuples of the counted outcomes")
    s = h.choice("more", pool)
    k = h.fixed_int("k", 1, 2)
    m.add_counts({s: k})
    want = dict(nz)
    want[s] = want.get(s, 0) + k
    h.same(m.get_counts(), want, "adding counts accumulates")
    N = sum(want.values())
    d = m.get_distribution()
    h.same(set(d.distribution_dict), {tuple(map(int, x)) for x in want}, "the distribution is on the measured outcomes")
    for x, v in want.items():
        h.close(d.distribution_dict[tuple(map(int, x))], v / N, "relative frequencies", 1e-9)


def bits(h, n, m):
    bs = bitlists(h, n, m)
    ms = Measurements(list(bs))
    h.same(ms.bitstrings, bs, "bitstrings kept in order")
    want = {}
    for b in bs:
        k = "".join(map(str, b))
        want[k] = want.get(k, 0) + 1
    h.same(ms.get_counts(), want, "counts of the bitstrings")
    if m:
        d = ms.get_distribution().distribution_dict
        h.same({k: v for k, v in d.items()}, {tuple(map(int, k)): v / m for k, v in want.items()}, "distribution of the bitstrings")
    else:
        h.raises(Exception, ms.get_distribution, "no distribution of no measurements")


def files(h, n, m):
    import numpy

    bs = bitlists(h, n, m)
    kind = h.choice("kind", ["int", "int8"])
    given = [tuple(numpy.int8(x) for x in b) for b in bs] if kind == "int8" else list(bs)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "m.json")
        Measurements(given).save(p)
        r = Measurements.load_from_file(p)
        with open(p) as f:
            r2 = Measurements.load_from_file(f)
    h.same(r.bitstrings, bs, "bitstrings read back, in order")
    h.check(all(type(x) is int for b in r.bitstrings for x in b) and all(type(b) is tuple for b in r.bitstrings), "as tuples of integers")
    h.same(r2.bitstrings, bs, "read from an open file")


def sampling(h, k, ns):
    """Samples come from the support and are as many as asked for; probabilities are passed on."""
    keys = [(0, 0), (0, 1), (1, 0), (1, 1)][:k]
    ps = [h.real("p%d" % i, 0, 1) for i in range(k - 1)]
    last = 1
    for x in ps:
        last = last - x
    h.assume(last >= 0)
    ps.append(last)
    dist = dict(zip(keys, ps))
    with rng.scripted(h) as log:
        c = sample_from_probability_distribution(dist, ns)
    h.same(sum(c.values()), ns, "number of samples")
    for b, v in c.items():
        h.check(b in dist and v > 0, "sampled keys are keys of the distribution")
        h.check(dist[b] > 0, "sampled outcomes are possible")
    e = [x for x in log if x[0] == "choice"][0]
    got = dict(zip(e[1], e[3]))
    h.eq([got[b] for b in keys], ps, "each outcome has its own probability")
    h.raises(RuntimeError, lambda: sample_from_probability_distribution([0.5, 0.5], 1), "only dictionaries are sampled")


def wavefunction(h, n, ns):
    v = h.unit_vector("s", 2 ** n)
    w = Wavefunction(v)
    with rng.scripted(h) as log:
        out = sample_from_wavefunction(w, ns, 3)
    h.same(len(out), ns, "number of samples")
    for b in out:
        h.check(type(b) is tuple and len(b) == n and set(b) <= {0, 1}, "samples are bit tuples")
        a = v[int("".join(map(str, b)), 2)]
        h.check(a * a > 1e-10, "sampled outcomes are possible; qubit 0 is the first bit")
    e = [x for x in log if x[0] == "choice"][0]
    got = dict(zip(e[1], e[3]))
    h.eq([got[format(i, "0%db" % n)[::-1]] for i in range(2 ** n)], [x * x for x in v], "outcome probabilities")
    h.check(("default_rng", 3) in log, "the seed is used")
    h.raises(ValueError, lambda: sample_from_wavefunction(w, h.choice("bad", [0, -1]), 3), "fewer than one sample is refused")


UNITS = []
for n, hi in ((1, 3), (2, 1)):
    UNITS.append(dict(name="counts/%d" % n, fn=counts, args=dict(n=n, hi=hi), types=True, cost=4, bounds="all counts up to %d of all %d-bit outcomes" % (hi, n)))
UNITS.append(dict(name="counts/2+", fn=counts, args=dict(n=2, hi=2), types=True, thorough=True, bounds="all counts up to 2 of all 2-bit outcomes"))
for n, m in ((1, 0), (1, 4), (2, 3), (3, 2)):
    UNITS.append(dict(name="bits/%d/%d" % (n, m), fn=bits, args=dict(n=n, m=m), types=True, bounds="all lists of %d bitstrings of %d bits" % (m, n)))
    UNITS.append(dict(name="files/%d/%d" % (n, m), fn=files, args=dict(n=n, m=m), bounds="all lists of %d bitstrings of %d bits" % (m, n)))
for k, ns in ((2, 3), (3, 2), (4, 1)):
    UNITS.append(dict(name="sampling/%d/%d" % (k, ns), fn=sampling, args=dict(k=k, ns=ns), types=True, bounds="all distributions over %d outcomes, any draws" % k))
for n, ns in ((1, 2), (2, 1), (2, 2), (3, 1)):
    UNITS.append(dict(name="wavefunction/%d/%d" % (n, ns), fn=wavefunction, args=dict(n=n, ns=ns), types=True, bounds="any real state of %d qubits, any draws" % n))
