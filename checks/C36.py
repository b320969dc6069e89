"""Arrays, estimates, results and histories survive being stored; objects are created from specs."""
import io
import itertools
import json
import os
import pathlib
import shutil
import sys
import tempfile
import types

import numpy
from scipy.optimize import OptimizeResult
from zquantum.core import measurement as ME
from zquantum.core import serialization as SE
from zquantum.core import utils as U
from zquantum.core import wavefunction as WF
from zquantum.core.distribution import MeasurementOutcomeDistribution
from zquantum.core.history.recorder import HistoryEntry, HistoryEntryWithArtifacts

from symx import jsonshim, npshim, veshim

LEVEL = "model_checking"
ASSUMPTIONS = ["JSON writes and reads back finite numbers exactly; files return what was written."]


def PATCH(p, u=None):
    jsonshim.patch(p, u)
    veshim.patch(p, u)
    t = dict(SE.OrquestraEncoder.ENCODERS_TABLE)
    if numpy.ndarray in t:
        t.setdefault(npshim.SArr, t[numpy.ndarray])
    p.set(SE.OrquestraEncoder, "ENCODERS_TABLE", t)


def scratch(f):
    d = tempfile.mkdtemp()
    try:
        return f(os.path.join(d, "x.json"))
    finally:
        shutil.rmtree(d)


def reading(load, p, way):
    if way == "path":
        return load(p)
    if way == "pathlike":
        return load(pathlib.Path(p))
    with open(p) as f:
        return load(f if way == "handle" else io.StringIO(f.read()))


def schema(h, p, name):
    with open(p) as f:
        data = U.json.loads(f.read())
    h.same(data["schema"], U.SCHEMA_VERSION + name, "schema of the file")
    return data


def array(h, shape, kind, tag="a"):
    """All arrays of a shape, of integers, reals, complex or imaginary numbers."""

    def entry(n):
        return h.complex(n) if kind == "complex" else h.int(n, -9, 9) if kind == "int" else h.real(n, -9, 9) * (1j if kind == "imaginary" else 1)

    def nested(i, rest):
        return [nested(i + (k,), rest[1:]) for k in range(rest[0])] if rest else entry("%s%s" % (tag, "".join(map(str, i))))

    if 0 in shape:
        return U.np.zeros(shape)
    return U.np.array(nested((), shape))


def same_array(h, got, want, label):
    h.check(hasattr(got, "shape"), label + ": an array")
    h.same(tuple(got.shape), tuple(want.shape), label + ": shape")
    for i in itertools.product(*map(range, want.shape)):
        h.close(got[i], want[i], label, 1e-9)


def arrays(h, shape, kind, way):
    a = array(h, shape, kind)
    if way == "dict":
        d = U.convert_array_to_dict(a)
        b = U.convert_dict_to_array(d)
        h.same(sorted(d), ["imag", "real"] if kind in ("complex", "imaginary") else ["real"], "parts of the dictionary")
        h.check(all(type(v) in (list, float, int) or not shape for v in d.values()), "native lists")
        h.same(bool(U.np.iscomplexobj(b)), kind in ("complex", "imaginary"), "complex arrays stay complex")
        if shape and 0 not in shape:
            # what was read is an independent array
            keep = [a[i] for i in itertools.product(*map(range, shape))]
            b[(0,) * len(shape)] = 17
            h.eq([a[i] for i in itertools.product(*map(range, shape))], keep, "the array converted is not modified")
            b = U.convert_dict_to_array(d)
        same_array(h, b, a, "array")
        return

    def f(p):
        target = h.choice("target", ["path", "pathlike", "handle"])
        if target == "handle":
            with open(p, "w") as g:
                SE.save_array(a, g)
                h.check(not g.closed, "handles stay open")
        else:
            SE.save_array(a, p if target == "path" else pathlib.Path(p))
        schema(h, p, "-array")
        return reading(SE.load_array, p, way)

    same_array(h, scratch(f), a, "array")


def wavefunctions(h, n, cplx, way):
    """States come back amplitude by amplitude."""
    v = h.unit_vector("a", n, cplx)
    w = WF.Wavefunction(list(v))

    def f(p):
        ME.save_wavefunction(w, p)
        schema(h, p, "-wavefunction")
        return reading(ME.load_wavefunction, p, way)

    r = scratch(f)
    h.check(type(r) is WF.Wavefunction and len(r) == n, "a state of the same size")
    h.close(list(r.amplitudes), list(v), "amplitudes", 1e-9)
    h.close(list(w.amplitudes), list(v), "what was saved is left alone", 0)


def modes(h):
    """Handles that cannot be written are refused."""

    def f(p):
        with open(p, "w") as g:
            g.write("{}")
        with open(p) as g:
            h.raises(ValueError, lambda: SE.save_array(numpy.zeros(1), g), "handle opened for reading")
        with open(p) as g:
            h.same(g.read(), "{}", "files are not modified")
        with SE.ensure_open(p) as g:
            h.check(g.read() == "{}" and g.mode == "r", "opened for reading")
        h.check(g.closed, "closed again")
        with SE.ensure_open(p.encode(), "rb") as g:
            h.same(g.read(), b"{}", "binary")
        with SE.ensure_open(pathlib.Path(p), "a") as g:
            g.write("x")
        with SE.ensure_open(io.StringIO("abc")) as g:
            h.same(g.read(), "abc", "readable objects")

    scratch(f)


def number(h, tag):
    return h.int(tag, -9, 9) if h.flag(tag + "_int") else h.real(tag, -9, 9)


def estimate(h, tag):
    p = h.choice(tag + "_precision", ["none", "default", "some"])
    v = h.real(tag, -9, 9)
    if p == "some":
        q = h.real(tag + "_p", 0, 9)
        return U.ValueEstimate(v, q), v, q
    return (U.ValueEstimate(v) if p == "default" else U.ValueEstimate(v, None)), v, None


def same_estimate(h, got, v, q, label="estimate"):
    h.same(type(got).__name__, "ValueEstimate", label + ": class")
    h.close(got + 0, v, label + ": value", 1e-9)
    h.check((got.precision is None) == (q is None), label + ": precision is known if it is known")
    if q is not None:
        h.close(got.precision, q, label + ": precision", 1e-9)


def estimates(h, way):
    e, v, q = estimate(h, "v")
    if way == "dict":
        d = e.to_dict()
        h.same(sorted(d), ["precision", "schema", "value"], "parts of the dictionary")
        h.same(d["schema"], U.SCHEMA_VERSION + "-value_estimate", "schema")
        same_estimate(h, U.ValueEstimate.from_dict(d), v, q)
        same_estimate(h, U.ValueEstimate.from_dict({"value": v}), v, None)
        if q is not None:
            same_estimate(h, U.ValueEstimate.from_dict({"value": v, "precision": q}), v, q)
        return

    def f(p):
        U.save_value_estimate(e, p if h.flag("plain") else pathlib.Path(p))
        schema(h, p, "-value_estimate")
        return reading(U.load_value_estimate, p, way)

    same_estimate(h, scratch(f), v, q)


def comparisons(h):
    """Equal exactly if value and precision are."""
    a, v, q = estimate(h, "v")
    kind = h.choice("other", ["estimate", "number", "text", "none"])
    if kind == "estimate":
        b, w, r = estimate(h, "w")
    else:
        w, r = h.real("w", -9, 9), None
        b = w if kind == "number" else "x" if kind == "text" else None
    eq, ne = bool(a == b), bool(a != b)
    h.check(eq != ne, "either equal or not")
    if kind in ("text", "none"):
        h.check(not eq, "other things differ")
        return
    if eq:
        h.eq(w, v, "equal values")
        h.check((q is None) == (r is None), "equal precision")
        if q is not None:
            h.eq(r, q, "equal precision")
    else:
        h.check(h.either(v != w, (q is None) != (r is None), q != r if q is not None and r is not None else False), "estimates of equal value and precision are equal")
    h.check(bool(b == a) == eq, "either way around")


def printed(h):
    """The value, and the precision if there is one."""
    e, v, q = estimate(h, "v")
    s = str(e)
    if h.symbolic:
        h.same(s, str(v) if q is None else "%s ± %s" % (v, q), "text")
    else:
        h.same(s, str(float(v)) if q is None else "%s ± %s" % (float(v), q), "text")


def lists(h, way):
    n = h.choice("n", [0, 1, 3])
    x = [number(h, "x%d" % i) for i in range(n)]
    x = [x, [x, "text", None], {"a": x}][h.choice("nest", [0, 1, 2])] if n else x
    name = h.choice("name", [None, "", "dim"])

    def f(p):
        U.save_list(x, p, **({} if name is None else dict(artifact_name=name)))
        schema(h, p, "-%s-list" % (name or ""))
        return reading(U.load_list, p, way)

    same(h, scratch(f), x, "list")


def same(h, got, want, label):
    """Structures of numbers."""
    if isinstance(want, dict):
        h.check(isinstance(got, dict), label + ": a dictionary")
        h.same(sorted(got), sorted(want), label + ": keys")
        for k in want:
            same(h, got[k], want[k], label)
    elif isinstance(want, (list, tuple)):
        h.check(isinstance(got, list) and len(got) == len(want), label + ": a list")
        for a, b in zip(got, want):
            same(h, a, b, label)
    elif want is None or isinstance(want, (str, bool)):
        h.check(type(got) is type(want) and got == want, label)
    else:
        h.eq(got, want, label)


def dictionaries(h):
    d = {"a": number(h, "a"), "b": {"c": [number(h, "c")]}}
    if h.flag("own"):
        d["schema"] = "mine"

    def f(p):
        keep = dict(d)
        U.save_generic_dict(d, p)
        h.check(list(d) == list(keep) and all(d[k] is keep[k] for k in d), "the dictionary is not modified")
        with open(p) as g:
            return U.json.loads(g.read())

    same(h, scratch(f), dict(d, schema=d.get("schema", U.SCHEMA_VERSION + "-dict")), "dictionary")
    t = h.real("t", 0, 1000)
    same(h, scratch(lambda p: (U.save_timing(t, p), U.json.loads(open(p).read()))[1]), {"schema": U.SCHEMA_VERSION + "-timing", "walltime": t}, "timing")


def measurements(h):
    k, n = h.real("k", 0, 1000), h.int("n", 0, 1000)
    m = h.choice("frames", [None, 0, 1, 3])
    a = None if m is None else array(h, (m,), "real")

    def f(p):
        U.save_nmeas_estimate(k, n, p, **({} if a is None and h.flag("default") else dict(frame_meas=a)))
        schema(h, p, "-hamiltonian_analysis")
        return U.load_nmeas_estimate(p)

    got = scratch(f)
    h.same(len(got), 3, "three results")
    h.close(got[0], k, "number of measurements", 1e-9)
    h.eq(got[1], n, "number of terms")
    h.check((got[2] is None) == (a is None), "there are frames if there are frames")
    if a is not None:
        same_array(h, got[2], a, "measurements of each frame")


def through(h, x, way):
    """x written and read by the library's encoder and decoder."""
    if way == "text":
        return SE.json.loads(SE.json.dumps(x, cls=SE.OrquestraEncoder), cls=SE.OrquestraDecoder)

    def f(p):
        with open(p, "w") as g:
            SE.json.dump(x, g, cls=SE.OrquestraEncoder)
        with open(p) as g:
            return SE.json.load(g, cls=SE.OrquestraDecoder)

    return scratch(f)


def agree(h, got, want, label):
    """The same structure with the same classes."""
    n = type(want).__name__
    if n == "ValueEstimate":
        same_estimate(h, got, want + 0, want.precision, label)
    elif isinstance(want, MeasurementOutcomeDistribution):
        h.check(isinstance(got, MeasurementOutcomeDistribution), label + ": a distribution")
        h.same(sorted(got.distribution_dict), sorted(want.distribution_dict), label + ": outcomes")
        for k in want.distribution_dict:
            h.close(got.distribution_dict[k], want.distribution_dict[k], label + ": probabilities", 1e-9)
    elif hasattr(want, "_asdict"):
        h.check(type(got) is type(want), label + ": class")
        for k, v in want._asdict().items():
            agree(h, getattr(got, k), v, label + "." + k)
    elif hasattr(want, "shape"):
        same_array(h, got, want, label)
        h.same(bool(U.np.iscomplexobj(got)), bool(U.np.iscomplexobj(want)), label + ": complex arrays stay complex")
    elif isinstance(want, dict):
        h.check(type(got) is type(want), label + ": class")
        h.same(sorted(got), sorted(want), label + ": keys")
        for k in want:
            agree(h, got[k], want[k], label + "." + k)
    elif isinstance(want, (list, tuple)):
        h.check(isinstance(got, list) and len(got) == len(want), label + ": a list")
        for a, b in zip(got, want):
            agree(h, a, b, label)
    else:
        same(h, got, want, label)


def probabilities(h, tag, keys):
    p = [h.real("%s%d" % (tag, i), 0.05, 1) for i in range(len(keys))]
    return MeasurementOutcomeDistribution(dict(zip(keys, p)), normalize=False)


KEYS = [[(0, 1), (1, 1)], [(0,), (1,)], [(0, 12), (3, 4)], [(7,)], [(10,), (2,)]]
LEAF = {
    "estimate": lambda h, t: estimate(h, t)[0],
    "real": lambda h, t: array(h, (2,), "real", t),
    "complex": lambda h, t: array(h, (1, 2), "complex", t),
    "int": lambda h, t: array(h, (2, 1), "int", t),
    "distribution": lambda h, t: probabilities(h, t, h.choice(t + "_keys", KEYS)),
    "number": number,
    "plain": lambda h, t: h.choice(t, ["text", None, True, False, "", "real"]),
    "entry": lambda h, t: entry(h, t),
    "artifacts": lambda h, t: entry(h, t, True),
}


def entry(h, tag, artifacts=None):
    x = (h.int(tag + "_call", 0, 100), array(h, (2,), "real", tag + "_p"), LEAF[h.choice(tag + "_value", ["number", "estimate"])](h, tag + "_v"))
    if artifacts is None:
        return HistoryEntry(*x)
    a = {True: {"bits": [0, 1], "extra": h.real(tag + "_e", -9, 9)}, "numbers": {"energy": h.real(tag + "_e", -9, 9), "shots": h.int(tag + "_s", 0, 9)}, "none": {}}[artifacts]
    return HistoryEntryWithArtifacts(*x, a)


def encoded(h, leaf, way):
    """Values at any place of lists and dictionaries."""
    x = LEAF[leaf](h, "x")
    place = h.choice("place", ["itself", "list", "tuple", "dict", "deep"])
    y = dict(itself=x, list=[x, "y"], tuple=(1, x), dict={"key": x, "other": "y"}, deep=[{"key": [x, [x]], "o": None}])[place]
    agree(h, through(h, y, way), y, "what was written")


def numbers(h, way):
    """Dictionaries of numbers that are no distributions stay dictionaries."""
    keys = h.choice("keys", [["energy"], ["energy", "shots"], ["a,b"], ["1.5"], ["x1", "12"], ["01", "1"], ["success"], ["call_number"], ["value", "precision"]])
    x = {k: (True if k == "success" else number(h, "v%d" % i)) for i, k in enumerate(keys)}
    y = h.choice("place", [lambda: x, lambda: [x], lambda: {"k": x}, lambda: entry_with(h, x)])()
    agree(h, through(h, y, way), y, "dictionary")


def entry_with(h, artifacts):
    return HistoryEntryWithArtifacts(3, array(h, (1,), "real", "p"), 1.5, artifacts)


def negative(h, way):
    """Values that are no probabilities make no distribution."""
    v = h.real("v", -9, 9)
    w = h.real("w", -9, 9)
    x = {"0": v, "1": w}
    got = through(h, x, way)
    if h.both(v >= 0, w >= 0):
        h.check(isinstance(got, MeasurementOutcomeDistribution), "a distribution")
        h.close([got.distribution_dict[(i,)] for i in (0, 1)], [v, w], "probabilities", 1e-9)
    else:
        agree(h, got, x, "dictionary")


def results(h, kind, way):
    """Optimization results with histories."""
    n = h.choice("n", [0, 1, 2])
    hist = [entry(h, "h%d" % i, [None, True, "numbers"][(i + (kind == "artifacts")) % 3] if kind == "artifacts" else None) for i in range(n)]
    d = dict(opt_value=LEAF["estimate" if kind == "estimates" else "number"](h, "opt"), opt_params=array(h, (2,), "real", "o"), nit=h.int("nit", 0, 99), nfev=h.int("nfev", 0, 99), history=hist)
    if kind == "gradient":
        d["gradient_history"] = [HistoryEntry(0, array(h, (2,), "real", "g"), array(h, (2,), "real", "gv"))] * n
    r = OptimizeResult(d) if h.flag("result") else d
    keep = dict(r)
    if way == "file":

        def f(p):
            SE.save_optimization_results(r, p if h.flag("plain") else pathlib.Path(p))
            schema(h, p, "-optimization_result")
            return SE.load_optimization_results(p)

        got = scratch(f)
    else:
        r = OptimizeResult(d)
        got = SE.json.loads(SE.json.dumps(r, cls=SE.OrquestraEncoder), cls=SE.OrquestraDecoder)
    h.check(sorted(r) == sorted(keep) and all(r[k] is keep[k] for k in keep), "results are not modified")
    h.same(type(got).__name__, "OptimizeResult", "class of results")
    agree(h, got, OptimizeResult(d), "result")


def module(calls):
    m = types.ModuleType("symx_c36_module")

    class Thing:
        def __init__(self, *args, **kwargs):
            calls.append(("Thing", args, kwargs))

    def function(a, b=2, c=3):
        calls.append(("function", (a, b, c)))
        return a

    def load(data):
        calls.append(("load", data))
        return ("noise", data)

    m.Thing, m.function, m.load = Thing, function, load
    sys.modules[m.__name__] = m
    return m


def created(h):
    """Objects get all arguments of the specs and of the call."""
    calls = []
    m = module(calls)
    try:
        what = h.choice("what", ["class", "function", "bare"])
        specs = {"module_name": m.__name__, "function_name": "Thing" if what == "class" else "function"}
        extra, more = {}, {}
        if what != "bare":
            for k in ("a", "b", "c", "other"):
                w = h.choice(k, ["no", "specs", "call"])
                if w != "no":
                    (extra if w == "specs" else more)[k] = h.real("v" + k, -9, 9)
        full = dict(specs, **extra)
        keep = dict(full)
        how = h.choice("how", ["create", "loaded", "text", "func"])
        if how == "create" or more:
            x = U.create_object(full, **more)
        elif how == "loaded":
            x = U.load_from_specs(full)
        elif how == "func":
            x = U.get_func_from_specs(full)
        else:
            x = U.load_from_specs(U.json.dumps(full))
        h.check(list(full) == list(keep) and all(full[k] is keep[k] for k in full), "specs are not modified")
        given = dict(extra, **more)
        if what == "class":
            h.check(type(x) is m.Thing and len(calls) == 1 and calls[0][1] == (), "one object")
            same(h, calls[0][2], given, "arguments of the object")
        else:
            given.pop("other", None)
            h.check(callable(x) and not calls, "a function, not called yet")
            if "a" in given:
                x()
            else:
                x(77)
            a, b, c = calls[0][1]
            h.eq([a, b, c], [given.get("a", 77), given.get("b", 2), given.get("c", 3)], "arguments of the function")
            if what == "bare":
                h.check(x is m.function, "the function itself")
        for k in extra:
            h.raises(ValueError, lambda: U.create_object(full, **{k: 1}), "arguments are given once")
    finally:
        del sys.modules[m.__name__]


def noise(h, way):
    calls = []
    m = module(calls)
    try:
        data = {"rate": number(h, "r"), "kind": "x"}

        def f(p):
            U.save_noise_model(data, m.__name__, "load", p)
            return reading(U.load_noise_model, p, way)

        x = scratch(f)
        h.check(type(x) is tuple and x[0] == "noise" and len(calls) == 1, "the loader's result")
        same(h, x[1], data, "data of the noise model")
    finally:
        del sys.modules[m.__name__]


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


for way in ("dict", "path", "pathlike", "handle", "text"):
    for shape in ((3,), (2, 2), (1, 2, 2), (0,)):
        for kind in ("real", "complex", "int", "imaginary"):
            if shape == (0,) and kind != "real" or kind == "imaginary" and shape != (3,):
                continue
            add("arrays/%s/%s/%s" % (way, kind, "x".join(map(str, shape))), arrays, "all arrays of shape %s" % (shape,), way not in ("dict", "path") and shape != (2, 2), shape=shape, kind=kind, way=way)
for way in ("path", "pathlike", "handle"):
    for n, cplx in ((1, True), (2, False), (2, True), (4, True)):
        add("wavefunctions/%s/%d/%s" % (way, n, "complex" if cplx else "real"), wavefunctions, "all states of that size", n == 4 and way != "path", n=n, cplx=cplx, way=way)
add("modes", modes, "kinds of files")
for way in ("dict", "path", "handle", "text"):
    add("estimates/%s" % way, estimates, "all values and precisions", way=way)
    if way != "dict":
        add("lists/%s" % way, lists, "lists of up to 3 numbers", way == "text", way=way)
        add("noise/%s" % way, noise, "all rates", way=way)
add("comparisons", comparisons, "all values and precisions")
add("printed", printed, "all values and precisions")
add("dictionaries", dictionaries, "all values")
add("measurements", measurements, "all values, up to 3 frames")
for way in ("text", "file"):
    for leaf in sorted(LEAF):
        add("encoded/%s/%s" % (way, leaf), encoded, "all values at any place", way=way, leaf=leaf)
    add("numbers/%s" % way, numbers, "all values", way == "file", way=way)
    add("negative/%s" % way, negative, "all values", way == "file", way=way)
    for kind in ("plain", "estimates", "gradient", "artifacts"):
        add("results/%s/%s" % (way, kind), results, "up to 2 history entries, all values", way=way, kind=kind)
add("created", created, "all ways to give up to 4 arguments")
