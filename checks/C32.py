"""Backends count what they run; trackers record all of it."""
import json
import os
import shutil
import tempfile

from zquantum.core import trackers as TK
from zquantum.core.circuits import H, X, Circuit, to_dict
from zquantum.core.interfaces import backend as BE
from zquantum.core.interfaces.backend import QuantumBackend, QuantumSimulator
from zquantum.core.interfaces.mock_objects import MockQuantumBackend
from zquantum.core.measurement import Measurements
from zquantum.core.symbolic_simulator import SymbolicSimulator

from checks.lib import gates as G
from symx import jsonshim, rng

LEVEL = "model_checking"
ASSUMPTIONS = ["Measured bits are chosen by fork; the numbers of samples asked for are symbolic where nothing is sampled."]


def PATCH(p, u=None):
    jsonshim.patch(p, u)


OUTCOMES = [[(0, 1)], [(1, 0), (1, 0)], [(0, 0), (1, 1), (0, 0)]]


class Plain(QuantumBackend):
    """Returns arbitrary measurements; one at a time."""

    def __init__(self, h):
        super().__init__()
        self.h, self.asked, self.given = h, [], []
        self.outcomes = OUTCOMES

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        m = Measurements(list(self.h.choice("m%d" % len(self.given), self.outcomes)))
        self.asked.append((circuit, n_samples))
        self.given.append(m)
        return m


CIRCUITS = [lambda: Circuit([X(0)], n_qubits=2), lambda: Circuit([H(0), X(1)]), lambda: Circuit([], n_qubits=2)]


def counting(h, k):
    """Runs one by one: counted when they are run."""
    b = Plain(h)
    h.check(b.number_of_circuits_run == 0 and b.number_of_jobs_run == 0, "nothing run at first")
    done = 0
    for i in range(k):
        c = CIRCUITS[i % 3]()
        n = h.int("n%d" % i, -3, 1000)
        how = h.choice("how%d" % i, ["run", "distribution", "bitstrings"])
        f = dict(run=b.run_circuit_and_measure, distribution=b.get_measurement_outcome_distribution, bitstrings=b.get_bitstring_distribution)[how]
        if n < 1:
            h.raises(ValueError, lambda: f(c, n), "at least one sample")
        else:
            r = f(c, n)
            done += 1
            h.check(b.asked[-1][0] is c and b.asked[-1][1] == n, "the circuit and number asked for")
            m = b.given[-1]
            if how == "run":
                h.check(r is m, "the measurements")
            else:
                want = {}
                for t in m.bitstrings:
                    want[t] = want.get(t, 0) + 1
                h.same(set(r.distribution_dict), set(want), "the outcomes measured")
                for t in want:
                    h.close(r.distribution_dict[t], want[t] / len(m.bitstrings), "frequencies", 1e-9)
                h.same(type(r).__name__, "MeasurementOutcomeDistribution" if how == "distribution" else "BitstringDistribution", "kind of distribution")
        h.check(b.number_of_circuits_run == done and b.number_of_jobs_run == done, "one circuit and one job per run")
        h.same(len(b.asked), done, "each run happens once")


def sets(h, k):
    """A set is run in order, with the number of samples of each circuit."""
    b = Plain(h)
    cs = [CIRCUITS[h.choice("c%d" % i, [0, 1, 2])]() for i in range(k)]
    ns = [h.int("n%d" % i, 1, 1000) for i in range(k)]
    pre = h.flag("pre")
    if pre:
        b.run_circuit_and_measure(cs[0] if cs else CIRCUITS[0](), 5)
    j = len(b.given)
    kind = h.choice("kind", [list, tuple])
    r = b.run_circuitset_and_measure(kind(cs), kind(ns))
    h.check(isinstance(r, list) and len(r) == k and all(x is y for x, y in zip(r, b.given[j:])), "measurements of each circuit in order")
    h.check(len(b.asked) == j + k and all(a is c for (a, _), c in zip(b.asked[j:], cs)), "circuits in order")
    for (_, got), n in zip(b.asked[j:], ns):
        h.eq(got, n, "number of samples of each circuit")
    h.check(b.number_of_circuits_run == j + k and b.number_of_jobs_run == j + k, "one job per circuit")


def batching(h, sizes):
    """Batches: jobs are the number of batches, for every batch size."""
    size = h.int("size", 1, 40)

    class Batch(QuantumBackend):
        supports_batching = True
        batch_size = size

        def run_circuit_and_measure(self, circuit, n_samples):
            return super().run_circuit_and_measure(circuit, n_samples)

        def run_circuitset_and_measure(self, circuits, n_samples):
            super().run_circuitset_and_measure(circuits, n_samples)
            return [Measurements([(0,)] * 2) for _ in circuits]

    b = Batch()
    total, jobs = 0, 0
    for i, k in enumerate(sizes):
        b.run_circuitset_and_measure([Circuit([X(0)])] * k, [2] * k)
        total = total + k
        full = h.int("full%d" % i, 0, 50)
        rest = h.int("rest%d" % i, 0, 40)
        h.assume(h.both(full * size + rest == k, rest < size))
        jobs = jobs + full + (1 if rest > 0 else 0)
        h.eq(b.number_of_circuits_run, total, "every circuit counts")
        h.eq(b.number_of_jobs_run, jobs, "jobs are the batches needed")
    b.run_circuit_and_measure(Circuit([X(0)]), 2)
    h.eq(b.number_of_circuits_run, total + 1, "single runs count")
    h.eq(b.number_of_jobs_run, jobs + 1, "single runs are jobs")


def sizes_refused(h):
    """Batch sizes are positive integers, when batching at all."""
    size = h.choice("size", [None, "x", 1.5, "sym"])
    if size == "sym":
        size = h.int("n", -20, 20)
    batches = h.flag("batching")

    class Batch(QuantumBackend):
        supports_batching = batches
        batch_size = size

        def run_circuit_and_measure(self, circuit, n_samples):
            pass

    if not batches or (not isinstance(size, (str, float, type(None))) and size > 0):
        b = Batch()
        h.check(b.number_of_circuits_run == 0 and b.number_of_jobs_run == 0, "nothing run at first")
    else:
        h.raises(AssertionError, Batch, "batch size that is no positive integer")


def simulators(h, which):
    """Runs of simulators are counted; mixtures of runs and exact results."""
    sim = SymbolicSimulator() if which == "symbolic" else MockQuantumBackend()
    runs = 0
    for i in range(2):
        c = CIRCUITS[h.choice("c%d" % i, [0, 1])]()
        how = h.choice("how%d" % i, ["run", "sampled", "set"] + (["wavefunction", "exact", "exactly"] if which == "symbolic" else []))
        with rng.scripted(h, name="r%d_" % i):
            if how == "run":
                m = sim.run_circuit_and_measure(c, 2)
                h.same(len(m.bitstrings), 2, "number of samples")
            elif how == "set":
                ms = sim.run_circuitset_and_measure([c, CIRCUITS[0]()], [1, 2])
                h.same([len(m.bitstrings) for m in ms], [1, 2], "number of samples of each circuit")
                h.check(ms[1].bitstrings == [(1, 0)] * 2, "measurements of the second circuit")
                runs += 1
            elif how == "sampled":
                d = sim.get_bitstring_distribution(c, 2)
                h.check(all(v in (0.5, 1) for v in d.distribution_dict.values()), "frequencies of two samples")
            elif how == "wavefunction":
                sim.get_wavefunction(c)
            else:
                d = (sim.get_bitstring_distribution if how == "exact" else sim.get_measurement_outcome_distribution)(c)
                h.same(type(d).__name__, "BitstringDistribution" if how == "exact" else "MeasurementOutcomeDistribution", "kind of distribution")
                want = {(1, 0): 1} if len(c.operations) == 1 else {(0, 1): 0.5, (1, 1): 0.5}
                for t in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    h.close(d.distribution_dict.get(t, 0), want.get(t, 0), "exact probabilities", 1e-6)
        runs += 1
        h.check(sim.number_of_circuits_run == runs and sim.number_of_jobs_run == runs, "one circuit and one job per circuit simulated")


class Inner(Plain):
    """Also remembers how it was asked."""

    def __init__(self, h):
        super().__init__(h)
        self.how = []

    def run_circuitset_and_measure(self, circuits, n_samples):
        self.how.append(("set", circuits, n_samples))
        return super().run_circuitset_and_measure(circuits, n_samples)

    def get_measurement_outcome_distribution(self, circuit, n_samples):
        r = super().get_measurement_outcome_distribution(circuit, n_samples)
        self.how.append(("distribution", circuit, n_samples, r))
        return r

    def get_bitstring_distribution(self, circuit, n_samples):
        r = super().get_bitstring_distribution(circuit, n_samples)
        self.how.append(("bitstrings", circuit, n_samples, r))
        return r


def tracking(h, k, record, wide):
    """Everything that was run, in order, in memory and in the file."""
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "raw.json")
        inner = Inner(h)
        if not wide:
            inner.outcomes = OUTCOMES[1:]
        t = TK.MeasurementTrackingBackend(inner, path, **({} if record is None else dict(record_bitstrings=record)))
        h.check(t.raw_data == [], "nothing tracked at first")
        want = []

        def measured(c, m):
            counts = {}
            for b in m.bitstrings:
                s = "".join(map(str, b))
                counts[s] = counts.get(s, 0) + 1
            e = dict(data_type="measurement", device="Inner", circuit=to_dict(c), counts=counts, number_of_gates=len(c.operations), number_of_shots=len(m.bitstrings))
            if record:
                e["bitstrings"] = [list(b) for b in m.bitstrings]
            return e

        for i in range(k):
            c = CIRCUITS[h.choice("c%d" % i, [0, 1, 2]) if wide else i % 3]()
            n = h.int("n%d" % i, 1, 1000)
            how = h.choice("how%d" % i, ["run", "set", "distribution", "bitstrings"])
            if how == "run":
                r = t.run_circuit_and_measure(c, n)
                h.check(r is inner.given[-1] and inner.asked[-1][0] is c, "what the backend measured")
                h.eq(inner.asked[-1][1], n, "the number of samples")
                want.append(measured(c, r))
            elif how == "set":
                cs, ns = [c, CIRCUITS[1]()], [n, 7]
                r = t.run_circuitset_and_measure(cs, ns)
                h.check(inner.how[-1][0] == "set" and all(x is y for x, y in zip(inner.how[-1][1], cs)) and len(inner.how[-1][1]) == 2, "the backend runs the set")
                h.eq(list(inner.how[-1][2]), ns, "numbers of samples")
                h.check(len(r) == 2 and r[0] is inner.given[-2] and r[1] is inner.given[-1], "what the backend measured")
                want += [measured(x, m) for x, m in zip(cs, r)]
            else:
                f = t.get_measurement_outcome_distribution if how == "distribution" else t.get_bitstring_distribution
                r = f(c, n)
                q = [x for x in inner.how if x[0] == how][-1]
                h.check(r is q[3] and q[1] is c, "the distribution of the backend")
                h.eq(q[2], n, "the number of samples")
                want.append(dict(data_type="measurement outcome distribution" if how == "distribution" else "bitstring distribution", device="Inner", circuit=to_dict(c), distribution=repr(r), number_of_gates=len(c.operations), number_of_shots=n))
            same(h, t.raw_data, want, "data in memory")
            with open(path) as f:
                data = TK.json.loads(f.read())
            h.same(data["schema"], TK.SCHEMA_VERSION + "-raw-data", "schema of the file")
            h.same(sorted(data), ["raw-data", "schema"], "contents of the file")
            same(h, data["raw-data"], json.loads(json.dumps([dict(e, number_of_shots=0) for e in want])), "data in the file", [e["number_of_shots"] for e in want])
        h.same(len(inner.how) + len([1 for e in inner.asked]) > 0, True, "the backend was asked")
    finally:
        shutil.rmtree(d)


def same(h, got, want, label, shots=None):
    h.same(len(got), len(want), label)
    for i, (g, w) in enumerate(zip(got, want)):
        h.same(sorted(g), sorted(w), label)
        for key in w:
            if key == "number_of_shots":
                h.eq(g[key], shots[i] if shots is not None else w[key], label)
            else:
                h.check(g[key] == w[key], label)


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


for k in (1, 2, 3):
    add("counting/%d" % k, counting, "%d runs, any numbers of samples" % k, k > 2, k=k)
for k in (0, 1, 2, 3):
    add("sets/%d" % k, sets, "%d circuits, any numbers of samples" % k, k > 2, k=k)
for s in ((0,), (1,), (5,), (12, 3), (7, 0, 8), (40,), (31, 17)):
    add("batching/%s" % "_".join(map(str, s)), batching, "sets of %s circuits, all batch sizes up to 40" % (s,), s[0] > 12, sizes=s)
add("sizes_refused", sizes_refused, "kinds of batch sizes")
for n in ("symbolic", "mock"):
    add("simulators/%s" % n, simulators, "2 requests of any kind", which=n)
for r in (None, True, False):
    for k in (1, 2, 3):
        add("tracking/%s/%d" % (r, k), tracking, "%d requests of any kind" % k, k > (2 if r else 1), k=k, record=r, wide=k < 2)
add("tracking/True/2/wide", tracking, "2 requests of any kind", True, k=2, record=True, wide=True)
