"""Turning real weights into integer counts keeps the total and the proportions."""
from symx import rng
from zquantum.core import utils as U
from zquantum.core.distribution import MeasurementOutcomeDistribution
from zquantum.core.measurement import Measurements

LEVEL = "model_checking"
ASSUMPTIONS = ["Random draws are modelled as arbitrary outcomes of nonzero probability."]


def scale(h, n, hi):
    vs = [h.real("v%d" % i, 0, 100) for i in range(n)]
    s = 0
    for v in vs:
        s = s + v
    h.assume(s >= 0.01)
    total = h.fixed_int("total", 0, hi)
    r = U.scale_and_discretize(vs if h.flag("list") else tuple(vs), total)
    h.same(len(r), n, "one count per value")
    h.same(sum(r), total, "counts sum to the total")
    h.check(all(isinstance(x, int) for x in r), "integers")
    for i in range(n):
        h.check(r[i] >= 0, "no negative count")
        d = r[i] * s - vs[i] * total
        h.check(h.both(d <= s * (1 + 1e-9), d >= -s * (1 + 1e-9)), "within one of the exact proportion")
        for j in range(n):
            h.check(h.either(r[i] >= r[j], vs[i] < vs[j] + 1e-6, r[j] - r[i] <= 0), "a larger value gets no smaller count")


def represent(h, n, ns):
    """Samples standing for a distribution."""
    keys = [(0, 0), (0, 1), (1, 0), (1, 1)][:n]
    ps = [h.real("p%d" % i, 0, 1) for i in range(n - 1)]
    last = 1
    for p in ps:
        last = last - p
    h.assume(last >= 0)
    ps.append(last)
    d = MeasurementOutcomeDistribution(dict(zip(keys, ps)))
    with rng.scripted(h) as log:
        m = Measurements.get_measurements_representing_distribution(d, ns)
    h.same(len(m.bitstrings), ns, "exactly as many samples as asked for")
    h.check(all(type(b) is tuple and b in keys for b in m.bitstrings), "samples are outcomes of the distribution")
    h.eq([d.distribution_dict[k] for k in keys], ps, "the distribution is left alone")
    for k, p in zip(keys, ps):
        c = m.bitstrings.count(k)
        for v in range(ns + 1):
            if c != v:
                x = p * ns
                h.check(h.either(x < v, x > v), "an outcome with a whole expected count gets exactly it")
    if not log:
        for k, p in zip(keys, ps):
            x = p * ns - m.bitstrings.count(k)
            h.check(h.both(x <= 0.5, x >= -0.5), "counts are the rounded expected counts when these fit")


UNITS = []
for n, hi in ((1, 6), (2, 6), (3, 4)):
    UNITS.append(dict(name="scale/%d/%d" % (n, hi), fn=scale, args=dict(n=n, hi=hi), types=True, bounds="all %d values, totals up to %d" % (n, hi)))
for n, hi in ((2, 12), (3, 7), (4, 4)):
    UNITS.append(dict(name="scale/%d/%d" % (n, hi), fn=scale, args=dict(n=n, hi=hi), types=True, thorough=True, bounds="all %d values, totals up to %d" % (n, hi)))
for n, ns in ((1, 3), (2, 1), (2, 2), (2, 5), (3, 2), (3, 3)):
    UNITS.append(dict(name="represent/%d/%d" % (n, ns), fn=represent, args=dict(n=n, ns=ns), types=True, bounds="all distributions over %d outcomes, %d samples, any draws" % (n, ns)))
for n, ns in ((3, 4), (4, 2), (4, 3)):
    UNITS.append(dict(name="represent/%d/%d" % (n, ns), fn=represent, args=dict(n=n, ns=ns), types=True, thorough=True, bounds="all distributions over %d outcomes, %d samples, any draws" % (n, ns)))
