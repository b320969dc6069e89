"""Expectation values and parities computed from measurements."""
import itertools
import os
import tempfile



from symx import jsonshim
from zquantum.core import measurement as M
from zquantum.core.measurement import ExpectationValues, Measurements, Parities
from zquantum.core.openfermion.ops import IsingOperator, QubitOperator

LEVEL = "model_checking"
PATCH = jsonshim.patch


def subsets(n):
    return [s for k in range(n + 1) for s in itertools.combinations(range(n), k)]


def sign(b, s):
    return (-1) ** sum(int(b[q]) for q in s)


def operator(h, n, nterms):
    """A sum of distinct Z products with arbitrary coefficients, and its terms in order."""
    subs = subsets(n)
    op = IsingOperator()
    terms = []
    for i in range(nterms):
        s = h.choice("t%d" % i, [x for x in subs if x not in [t for t, _ in terms]])
        k = h.real("k%d" % i, 0.1, 9)
        if h.flag("neg%d" % i):
            k = -k
        op += IsingOperator(tuple((q, "Z") for q in s), k)
        terms.append((s, k))
    return op, terms


def bitlists(h, n, m):
    return [tuple(h.fixed_int("b%d_%d" % (i, j), 0, 1) for j in range(n)) for i in range(m)]


def frequencies(h, n):
    """Expectation of Z products for arbitrary outcome counts."""
    outs = ["".join(t) for t in itertools.product("01", repeat=n)]
    if h.flag("order"):
        outs = outs[::-1]
    f = {b: h.int("c" + b, 0, 50) for b in outs}
    N = 0
    for v in f.values():
        N = N + v
    h.assume(N >= 1)
    for s in subsets(n):
        for marked in ([list(s), list(s)[::-1], set(s)] if len(s) > 1 else [list(s)]):
            e = M.get_expectation_value_from_frequencies(marked, f)
            want = 0
            for b, v in f.items():
                want = want + sign(b, s) * v
            h.eq(e * N, want, "mean of the product of the marked bits' signs")


def expectations(h, n, m, nterms):
    bs = bitlists(h, n, m)
    op, terms = operator(h, n, nterms)
    bessel = h.flag("bessel") if m > 1 else False
    meas = Measurements(list(bs))
    r = meas.get_expectation_values(op, bessel) if bessel else meas.get_expectation_values(op)
    h.same(meas.bitstrings, bs, "the measurements are kept")
    h.same(len(r.correlations), 1, "one frame of correlations")
    h.same(len(r.estimator_covariances), 1, "one frame of covariances")
    want = [k * sum(sign(b, s) for b in bs) / m for s, k in terms]
    h.close(list(r.values), want, "values are coefficients times means", 1e-9)
    corr = [[k * l * sum(sign(b, s) * sign(b, t) for b in bs) / m for t, l in terms] for s, k in terms]
    h.close([list(x) for x in r.correlations[0]], corr, "correlations are means of products", 1e-9)
    d = m - 1 if bessel else m
    cov = [[(corr[i][j] - want[i] * want[j]) / d for j in range(nterms)] for i in range(nterms)]
    h.close([list(x) for x in r.estimator_covariances[0]], cov, "covariances of the estimates", 1e-9)


def parities(h, n, m, nterms):
    bs = bitlists(h, n, m)
    op, terms = operator(h, n, nterms)
    p = M.get_parities_from_measurements(list(bs), op)
    for i, (s, _) in enumerate(terms):
        even = sum(1 for b in bs if sign(b, s) == 1)
        h.same([int(x) for x in p.values[i]], [even, m - even], "numbers of even and odd outcomes of each term")
        for j, (t, _) in enumerate(terms):
            eq = sum(1 for b in bs if sign(b, s) == sign(b, t))
            h.same([int(x) for x in p.correlations[0][i][j]], [eq, m - eq], "numbers of equal and unequal parities of each pair")
    h.same(len(p.correlations), 1, "one frame")
    for s in subsets(n):
        for b in bs:
            h.same(M.check_parity(b, list(s)), sign(b, s) == 1, "parity of the marked bits")
            h.same(M.check_parity("".join(map(str, b)), list(s)), sign(b, s) == 1, "parity of the marked characters")
        h.same([int(x) for x in M.check_parity_of_vector(M.np.array(bs), list(s))], [int(sign(b, s) == 1) for b in bs], "parity of every row")
    e = M.get_expectation_values_from_parities(p)
    h.close(list(e.values), [sum(sign(b, s) for b in bs) / m for s, _ in terms], "values agree with the measurements", 1e-9)


def from_parities(h):
    n0, n1 = h.int("n0", 0, 400), h.int("n1", 0, 400)
    h.assume(n0 + n1 >= 1)
    two = h.flag("two")
    vals = [[n0, n1]] + ([[3, 5]] if two else [])
    if two and h.flag("second"):
        vals.reverse()
    i = vals.index([3, 5]) if two else None
    e = M.get_expectation_values_from_parities(Parities(M.np.array(vals)))
    h.same(len(e.values), len(vals), "one value per term")
    h.same(len(e.estimator_covariances), len(vals), "one covariance frame per term")
    if two:
        h.close([e.values[i], e.estimator_covariances[i][0, 0]], [-0.25, 1 / 8], "the other term", 1e-9)
    j = 0 if not two else 1 - i
    N = n0 + n1
    h.eq(e.values[j] * N, n0 - n1, "value is the mean sign")
    v = e.estimator_covariances[j][0, 0]
    small = h.either(N < 100, n0 * 10 < N, n0 * 10 > 9 * N)
    if small:
        h.close(v * N, 1, "few samples: the upper bound 1/N", 1e-9)
    else:
        p = n0 / N
        h.close(v * N, 4 * p * (1 - p), "variance of the mean sign", 1e-9)


def no_samples(h):
    k = h.int("k", 1, 9)
    vals = [[k, 0], [0, 0]]
    if h.flag("o"):
        vals.reverse()
    h.raises(ValueError, lambda: M.get_expectation_values_from_parities(Parities(M.np.array(vals))), "no samples is refused")
    op = QubitOperator("Z0")
    h.raises(TypeError, lambda: Measurements([(0,)]).get_expectation_values(op), "only Ising operators")
    h.raises(TypeError, lambda: M.get_parities_from_measurements([(0,)], op), "only Ising operators")


def frames(h, tag, n):
    return M.np.array([[h.real("%s%d%d" % (tag, i, j)) for j in range(n)] for i in range(n)])


def concatenate(h, k):
    objs, vals, corr, cov = [], [], [], []
    for i in range(k):
        n = h.choice("n%d" % i, [0, 1, 2])
        v = [h.real("v%d%d" % (i, j)) for j in range(n)]
        c = [frames(h, "c%d" % i, n)] if h.flag("c%d?" % i) else None
        e = [frames(h, "e%d" % i, n), frames(h, "f%d" % i, 1)] if h.flag("e%d?" % i) else None
        objs.append(ExpectationValues(M.np.array(v), c, e))
        vals += v
        corr += c or []
        cov += e or []
    shapes = [(len(o.values), o.correlations and len(o.correlations), o.estimator_covariances and len(o.estimator_covariances)) for o in objs]
    kind = h.choice("as", ["list", "iter"])
    r = M.concatenate_expectation_values(objs if kind == "list" else iter(objs))
    h.eq(list(r.values), vals, "values in order")
    h.same(len(r.correlations or []), len(corr), "number of correlation frames")
    h.same(len(r.estimator_covariances or []), len(cov), "number of covariance frames")
    for a, b in zip(r.correlations or [], corr):
        h.eq(a, b, "correlation frames in order")
    for a, b in zip(r.estimator_covariances or [], cov):
        h.eq(a, b, "covariance frames in order")
    if not corr:
        h.check(r.correlations is None, "no correlations")
    h.same([(len(o.values), o.correlations and len(o.correlations), o.estimator_covariances and len(o.estimator_covariances)) for o in objs], shapes, "inputs are left alone")


def files(h, n, cplx):
    mk = (lambda x: h.complex(x)) if cplx else (lambda x: h.real(x))
    dt = complex if cplx else float
    v = M.np.array([mk("v%d" % i) for i in range(n)], dtype=dt)
    nc, ne = h.choice("nc", [None, 1, 2]), h.choice("ne", [None, 1, 2])
    mat = lambda t: M.np.array([[mk("%s%d%d" % (t, i, j)) for j in range(n)] for i in range(n)], dtype=dt)
    c = None if nc is None else [mat("c%d" % i) for i in range(nc)]
    e = None if ne is None else [mat("e%d" % i) for i in range(ne)]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "e.json")
        M.save_expectation_values(ExpectationValues(v, c, e), p)
        r = M.load_expectation_values(p)
    h.eq(r.values, v, "values read back")
    for a, b, w in ((r.correlations, c, "correlations"), (r.estimator_covariances, e, "covariances")):
        if b is None:
            h.check(a is None, w + " absent")
        else:
            h.same(len(a), len(b), "number of " + w)
            for x, y in zip(a, b):
                h.eq(x, y, w + " read back")


def parity_files(h, n):
    v = M.np.array([[h.int("a%d" % i, 0, 99), h.int("b%d" % i, 0, 99)] for i in range(n)])
    nc = h.choice("nc", [None, 1, 2])
    c = None if nc is None else [M.np.array([[[h.int("c%d%d%d" % (f, i, j), 0, 9), h.int("d%d%d%d" % (f, i, j), 0, 9)] for j in range(n)] for i in range(n)]) for f in range(nc)]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "p.json")
        M.save_parities(Parities(v, c), p)
        r = M.load_parities(p)
    h.eq(r.values, v, "parity counts read back")
    h.same(tuple(r.values.shape), (n, 2), "shape")
    if c is None:
        h.check(r.correlations is None, "no correlations")
    else:
        h.same(len(r.correlations), len(c), "number of frames")
        for x, y in zip(r.correlations, c):
            h.eq(x, y, "correlation counts read back")
            h.same(tuple(x.shape), (n, n, 2), "shape")


def to_real(h, n):
    cplx = h.flag("complex")
    v = M.np.array([h.complex("v%d" % i) if cplx else h.real("v%d" % i) for i in range(n)], dtype=complex if cplx else float)
    cc = h.choice("corr", [None, "real", "complex"])
    c = None
    if cc:
        c = [M.np.array([[h.complex("c%d%d" % (i, j)) if cc == "complex" else h.real("c%d%d" % (i, j)) for j in range(n)] for i in range(n)], dtype=complex if cc == "complex" else float)]
    re = lambda x: x.real
    want = [re(x) for x in v]
    wc = None if c is None else [[re(x) for x in row] for row in c[0]]
    r = M.expectation_values_to_real(ExpectationValues(v, c))
    h.eq(list(r.values), want, "real parts of the values")
    if c is not None:
        h.eq([list(x) for x in r.correlations[0]], wc, "real parts of the correlations")


UNITS = []
for n in (1, 2):
    UNITS.append(dict(name="frequencies/%d" % n, fn=frequencies, args=dict(n=n), types=True, bounds="all counts up to 50 of all %d-bit outcomes, all subsets of qubits" % n))
for n, m, t in ((1, 3, 2), (2, 1, 2), (2, 2, 2), (3, 1, 1)):
    UNITS.append(dict(name="expectations/%d/%d/%d" % (n, m, t), fn=expectations, args=dict(n=n, m=m, nterms=t), cost=4, types=True, bounds="all lists of %d %d-bit outcomes, all operators of %d terms with any real coefficients" % (m, n, t)))
    UNITS.append(dict(name="parities/%d/%d/%d" % (n, m, t), fn=parities, args=dict(n=n, m=m, nterms=t), cost=4, types=True, bounds="as for expectations"))
for n, m, t in ((2, 3, 3), (3, 2, 2)):
    UNITS.append(dict(name="expectations/%d/%d/%d" % (n, m, t), fn=expectations, args=dict(n=n, m=m, nterms=t), cost=9, types=True, thorough=True, bounds="all lists of %d %d-bit outcomes, all operators of %d terms" % (m, n, t)))
    UNITS.append(dict(name="parities/%d/%d/%d" % (n, m, t), fn=parities, args=dict(n=n, m=m, nterms=t), cost=9, types=True, thorough=True, bounds="as for expectations"))
UNITS.append(dict(name="from_parities", fn=from_parities, types=True, bounds="all counts up to 400"))
UNITS.append(dict(name="no_samples", fn=no_samples, types=True, bounds="all counts"))
for k in (0, 1, 2):
    UNITS.append(dict(name="concatenate/%d" % k, fn=concatenate, args=dict(k=k), types=True, bounds="%d sets of 0-2 values with or without frames, all values" % k))
for n in (1, 2):
    for cplx in (0, 1):
        UNITS.append(dict(name="files/%d/%d" % (n, cplx), fn=files, args=dict(n=n, cplx=cplx), types=True, bounds="all values, 0-2 frames"))
    UNITS.append(dict(name="parity_files/%d" % n, fn=parity_files, args=dict(n=n), types=True, bounds="all counts, 0-2 frames"))
    UNITS.append(dict(name="to_real/%d" % n, fn=to_real, args=dict(n=n), types=True, bounds="all values"))
