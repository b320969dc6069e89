"""Distances between outcome distributions are the documented quantities."""
import math

from zquantum.core import distribution as D
from zquantum.core.distribution import clipped_negative_log_likelihood as NLL
from zquantum.core.distribution import mmd as MMD

LEVEL = "model_checking"
ASSUMPTIONS = ["The logarithm and the exponential of a symbolic argument are arbitrary monotone functions; equal arguments give equal values."]
KEYS = [(0, 0), (0, 1), (1, 0), (1, 1)]


class Params(dict):
    pass


def dist(h, tag, keys):
    """Arbitrary probabilities that sum to one, in any order."""
    ps = [h.real(tag + "%d" % i, 0, 1) for i in range(len(keys) - 1)]
    last = 1
    for x in ps:
        last = last - x
    h.assume(last >= 0)
    ps.append(last)
    d = list(zip(keys, ps))
    if len(keys) > 1 and h.flag(tag + "rev"):
        d.reverse()
    return D.MeasurementOutcomeDistribution(dict(d)), dict(d)


def pair(h, ka, kb):
    a, pa = dist(h, "a", [KEYS[i] for i in ka])
    b, pb = dist(h, "b", [KEYS[i] for i in kb])
    return a, pa, b, pb


def nll(h, pa, pb, eps):
    s = 0
    for k, v in pa.items():
        q = pb.get(k, 0)
        q = q if q > eps else eps
        s = s + v * NLL.math.log(q)
    return -s


def likelihood(h, ka, kb):
    a, pa, b, pb = pair(h, ka, kb)
    eps = h.choice("eps", [None, 0.01, 0.3])
    params = {} if eps is None else {"epsilon": eps}
    f = h.choice("f", ["nll", "jsd", "via"])
    e = 1e-9 if eps is None else eps
    if f == "nll":
        r = D.compute_clipped_negative_log_likelihood(a, b, params)
        want = nll(h, pa, pb, e)
    elif f == "jsd":
        r = D.compute_jensen_shannon_divergence(a, b, params)
        want = (nll(h, pa, pb, e) + nll(h, pb, pa, e)) / 2
    else:
        r = D.evaluate_distribution_distance(a, b, D.compute_clipped_negative_log_likelihood, distance_measure_parameters=params)
        want = nll(h, pa, pb, e)
    h.close(r, want, "the documented " + f, 1e-6)
    h.eq([a.distribution_dict[k] for k in pa], list(pa.values()), "target left alone")
    h.eq([b.distribution_dict[k] for k in pb], list(pb.values()), "measured left alone")


def kernel(h, sig):
    """Kernels of arbitrary integers and bandwidths."""
    xs = [h.fixed_int("x%d" % i, 0, 3) for i in range(2)]
    ys = [h.fixed_int("y%d" % i, 0, 3) for i in range(2)]
    A = MMD.np.array
    if sig == "one":
        s = h.real("s", 0.1, 9)
        k = D.compute_rbf_kernel(A(xs), A(ys), s)
        ss = [s]
    elif sig == "zero":
        h.raises(ZeroDivisionError, lambda: D.compute_rbf_kernel(A(xs), A(ys), 0), "no bandwidth")
        h.raises(ZeroDivisionError, lambda: D.compute_multi_rbf_kernel(A(xs), A(ys), [1.0, 0]), "no bandwidth")
        return
    else:
        ss = [h.real("s%d" % i, 0.1, 9) for i in range(sig)]
        k = D.compute_multi_rbf_kernel(A(xs), A(ys), ss)
    for i in range(2):
        for j in range(2):
            want = 0
            for s in ss:
                g = 1.0 / (2 * s)
                want = want + MMD.np.exp(-g * (xs[i] - ys[j]) ** 2)
            h.close(k[i][j], want / len(ss), "mean of the gaussians", 1e-6)


def mmd(h, ka, kb, sigma):
    a, pa, b, pb = pair(h, ka, kb)
    params = {} if sigma is None else {"sigma": sigma}
    swap = h.flag("swap")
    r = D.compute_mmd(b, a, params) if swap else D.compute_mmd(a, b, params)
    keys = sorted(set(pa) | set(pb))
    ss = [1.0] if sigma is None else sigma if isinstance(sigma, list) else [sigma]
    want = 0
    for k in keys:
        for l in keys:
            x = int("".join(map(str, k)), 2) - int("".join(map(str, l)), 2)
            K = sum(math.exp(-x * x / (2 * s)) for s in ss) / len(ss)
            want = want + (pa.get(k, 0) - pb.get(k, 0)) * (pa.get(l, 0) - pb.get(l, 0)) * K
    h.close(r, want, "squared mean discrepancy of the two", 1e-6)
    h.check(r >= -1e-6, "not negative")


def itself(h, ka):
    a, pa = dist(h, "a", [KEYS[i] for i in ka])
    b = D.MeasurementOutcomeDistribution(dict(reversed(list(pa.items()))))
    sigma = h.choice("sigma", [0.5, [1.0, 3.0]])
    h.close(D.compute_mmd(a, b, {"sigma": sigma}), 0, "no discrepancy from itself", 1e-7)


def refused(h):
    two, _ = dist(h, "a", KEYS[:2])
    k = h.choice("why", ["length", "norm", "type"])
    swap = h.flag("swap")
    fs = [(D.compute_clipped_negative_log_likelihood, {}), (D.compute_jensen_shannon_divergence, {}), (D.compute_mmd, {})]
    f, p = h.choice("f", fs)
    if k == "length":
        o, _ = dist(h, "b", [(0,), (1,)])
        exc = RuntimeError
    elif k == "norm":
        v = h.real("v", 0.1, 0.9)
        o = D.MeasurementOutcomeDistribution({(0, 0): v, (1, 1): v * v * 0.1}, normalize=False)
        exc = RuntimeError
    else:
        o = {(0, 0): 1.0}
        exc = TypeError
    x, y = (o, two) if swap else (two, o)
    h.raises(exc, lambda: D.evaluate_distribution_distance(x, y, f, distance_measure_parameters=p), "incompatible distributions are refused")


UNITS = []
SETS = [((0, 1), (0, 1)), ((0, 1), (1, 2)), ((0, 3), (1, 2)), ((0, 1, 2), (3, 0))]
for ka, kb in SETS:
    t = "%s/%s" % ("".join(map(str, ka)), "".join(map(str, kb)))
    UNITS.append(dict(name="likelihood/" + t, fn=likelihood, args=dict(ka=ka, kb=kb), types=True, bounds="all probabilities over these outcomes"))
    for sigma in (None, 0.25, [0.5, 2.0], [1.0, 4.0, 1.0]):
        UNITS.append(dict(name="mmd/%s/%s" % (t, sigma), fn=mmd, args=dict(ka=ka, kb=kb, sigma=sigma), types=True, bounds="all probabilities over these outcomes"))
for sig in ("one", "zero", 1, 2, 3):
    UNITS.append(dict(name="kernel/%s" % sig, fn=kernel, args=dict(sig=sig), types=True, bounds="integers up to 3, all bandwidths from 0.1 to 9"))
for ka in ((0, 1), (0, 1, 2)):
    UNITS.append(dict(name="itself/%d" % len(ka), fn=itself, args=dict(ka=ka), types=True, bounds="all probabilities"))
UNITS.append(dict(name="refused", fn=refused, types=True, bounds="all probabilities"))
