"""Recorders, save conditions, artifacts and augmentations keep what they say."""
import copy
import functools
import logging

import numpy
from zquantum.core import cost_function_augmentations as AU
from zquantum.core import gradients as GR
from zquantum.core.history import recorder as RE
from zquantum.core.history import save_conditions as SC
from zquantum.core.interfaces import functions as FU
from zquantum.core.interfaces import optimizer as OP

LEVEL = "model_checking"
KINDS = [(False, False), (False, True), (True, False), (True, True)]


class Target:
    """A function whose values are arbitrary, with what it was asked; with or
    without artifacts and gradient."""

    def __init__(self, h, kind, tag=""):
        self.h, self.kind, self.tag = h, kind, tag
        self.calls, self.gcalls = [], []
        self.extra = "extra" + tag

        def plain(params):
            return self.value(params)

        def storing(params, store_artifact=None):
            v = self.value(params)
            if store_artifact:
                i = len(self.calls) - 1
                for j in range(self.stored.get(i, 0)):
                    store_artifact("a%d" % j, (i, j), force=self.forced.get(i) and j == 0)
            return v

        def grad(params):
            self.gcalls.append(params)
            if self.nested:
                f(params)
            return ("gradient", len(self.gcalls) - 1)

        self.nested = False
        self.stored, self.forced = {}, {}
        f = storing if kind[0] else plain
        f.extra = self.extra
        self.f = FU.function_with_gradient(f, grad) if kind[1] else f

    def value(self, params):
        self.calls.append(params)
        return self.h.real("%sv%d" % (self.tag, len(self.calls) - 1), -9, 9)


CLASSES = {(False, False): RE.SimpleRecorder, (False, True): RE.SimpleRecorderWithGradient, (True, False): RE.ArtifactRecorder, (True, True): RE.ArtifactRecorderWithGradient}


def point(h, i, form="array"):
    if form == "list":
        return [h.real("x%d" % i, -9, 9), 1.0 * i]
    a = GR.np.zeros(2)
    a[0], a[1] = h.real("x%d" % i, -9, 9), 1.0 * i
    return a


def recording(h, kind, k):
    """Exactly the calls the condition picks (or that force an artifact) are
    recorded: number, parameters as they were, value, artifacts of that call."""
    t = Target(h, kind)
    asked = []
    keep = {}
    which = h.choice("condition", ["any", "default", "nth"])
    n = h.fixed_int("n", 1, 3) if which == "nth" else 1
    form = h.choice("form", ["array", "list"]) if k < 3 else "array"

    def condition(value, params, number):
        asked.append((value, params, number))
        i = len(asked) - 1
        keep[i] = h.flag("keep%d" % i)
        return keep[i]

    r = RE.recorder(t.f) if which == "default" else RE.recorder(t.f, condition if which == "any" else SC.every_nth(n))
    h.check(type(r) is CLASSES[kind], "kind of recorder")
    want, gwant = [], []
    fn = gn = 0
    ai = 0
    for i in range(k):
        x = point(h, i, form)
        if kind[1] and h.flag("gradient%d" % i):
            t.nested = h.flag("nested")
            n0 = len(t.calls)
            g = r.gradient(x)
            h.same(g, ("gradient", gn), "the gradient's value")
            if which == "default" or (keep[ai] if which == "any" else gn % n == 0):
                gwant.append((gn, i, g))
            if which == "any":
                ai += 1
            gn += 1
            continue
        if kind[0]:
            c = len(t.calls)
            t.stored[c], t.forced[c] = h.fixed_int("stored%d" % i, 0, 2), h.flag("forced%d" % i)
        c = len(t.calls)
        v = r(x)
        h.same(len(t.calls), c + 1, "the function is called once")
        h.check(t.calls[c] is x, "with the parameters")
        h.close(v, h.real("v%d" % c, -9, 9), "its value is returned", 0)
        saved = which == "default" or (keep[ai] if which == "any" else fn % n == 0)
        if which == "any":
            h.check(asked[ai][1] is x and asked[ai][2] == fn, "the condition sees parameters and call number")
            h.close(asked[ai][0], v, "and value", 0)
            ai += 1
        arts = {"a%d" % j: (c, j) for j in range(t.stored[c])} if kind[0] else None
        if kind[0] and t.forced[c] and t.stored[c]:
            saved = True
        if saved:
            want.append((fn, i, v, arts))
        fn += 1
        x[0] = 100.0
    h.same(r.call_number, fn, "calls are counted")
    h.same(len(r.history), len(want), "as many entries as saved calls")
    for e, (num, i, v, arts) in zip(r.history, want):
        h.same(e.call_number, num, "entry: call number")
        h.close([h.value(e.params[0]), h.value(e.params[1])], [h.real("x%d" % i, -9, 9), i], "entry: parameters as they were", 0)
        h.close(e.value, v, "entry: value", 0)
        if kind[0]:
            h.same(dict(e.artifacts), arts, "entry: artifacts of this call")
    if kind[1]:
        h.same(r.gradient.call_number, gn, "gradient calls are counted")
        h.same([(e.call_number, int(e.params[1]), e.value) for e in r.gradient.history], gwant, "gradient calls are recorded on their own")


def raising(h, kind):
    """A call that raises is not recorded."""
    t = Target(h, kind)
    r = RE.recorder(t.f)
    r(point(h, 0))
    old = t.value
    t.value = lambda p: 1 / 0
    h.raises(ZeroDivisionError, lambda: r(point(h, 1)), "errors pass through")
    t.value = old
    r(point(h, 2))
    h.same([e.call_number for e in r.history], [0, 1], "only completed calls count")
    h.same([h.value(e.params[1]) for e in r.history], [0, 2], "and are recorded")


def nth(h):
    """every_nth picks the multiples of n, for all call numbers."""
    n = h.fixed_int("n", 1, 5)
    c = h.int("c", 0, 1000)
    q = h.int("q", 0, 1000)
    d = h.fixed_int("d", 0, n - 1)
    h.assume(c == q * n + d)
    f = SC.every_nth(n)
    r = f(h.real("v"), None, c)
    h.check(bool(r) == (d == 0), "every n-th call, counting from the zeroth")
    h.check(SC.always(h.real("v"), None, c) is True, "always")


def attributes(h, kind):
    """Other attributes are those of the function; the recorder's own are not
    set on it."""
    t = Target(h, kind)
    r = RE.recorder(t.f)
    h.same(r.extra, "extra", "attributes of the function can be read")
    r.more = 7
    h.check(t.f.more == 7 and r.more == 7, "others are set on the function")
    r.call_number = 5
    h.check(not hasattr(t.f, "call_number"), "the recorder's are its own")
    h.raises(AttributeError, lambda: r.missing, "unknown attributes")


def copies(h, kind):
    """Copies keep history and number, also of the gradient; deep copies are
    independent."""
    t = Target(h, kind)
    r = RE.recorder(t.f, SC.every_nth(2))
    k, g = h.fixed_int("k", 0, 3), h.fixed_int("g", 0, 3) if kind[1] else 0
    for i in range(k):
        t.stored[i], t.forced[i] = 1, False
        r(point(h, i))
    for i in range(g):
        r.gradient(point(h, i))
    deep = h.flag("deep")
    if deep:
        t.h = None
    c = copy.deepcopy(r) if deep else copy.copy(r)
    t.h = h

    def state(r):
        f = lambda r: (r.call_number, [(e.call_number, h.value(e.params[1])) for e in r.history])
        return (type(r), f(r), f(r.gradient) if kind[1] else None)

    before = state(r)
    h.same(state(c), before, "the copy has the same history")
    if deep:
        c.history.append("x")
        c.call_number += 1
        if kind[1]:
            c.gradient.history.append("y")
            c.gradient.call_number = 9
        h.same(state(r), before, "the original does not see changes of a deep copy")
        h.check(all(a is not b for a, b in zip(r.history, c.history) if isinstance(b, tuple) and numpy.ndim(b.params)), "entries are copied")


def forcing(h, k):
    """store_artifact keeps the last artifact of each name; any force counts."""
    a = RE.ArtifactCollection()
    s = RE.store_artifact(a)
    want, forced = {}, False
    for i in range(k):
        name, v, f = h.choice("name%d" % i, ["p", "q"]), h.real("v%d" % i, -9, 9), h.choice("force%d" % i, [None, False, True])
        s(name, v) if f is None else s(name, v, force=f)
        want[name] = v
        forced = forced or bool(f)
        h.same(a.forced, forced, "forced once, forced for good")
    h.same(set(a), set(want), "names")
    for n in want:
        h.close(a[n], want[n], "the last artifact of a name", 0)
    h.check(RE.ArtifactCollection().forced is False and RE.ArtifactCollection() == {}, "other collections are not affected")


def detection(h):
    def plain(x): pass
    def storing(x, store_artifact=None): pass
    def required(x, store_artifact): pass
    def keyword(x, *, store_artifact=None): pass
    def other(x, store_artifacts=None): pass

    @functools.wraps(storing)
    def wrapped(*a, **k): pass

    class C:
        def __call__(self, x, store_artifact=None): pass

    for f, w in ((plain, False), (storing, True), (required, True), (keyword, True), (other, False), (wrapped, True), (C(), True), (numpy.sin, False), (functools.partial(storing, 1), True), (lambda x: x, False)):
        h.same(FU.has_store_artifact_param(f), w, "functions that store artifacts are recognised")
    g = lambda x: ("g", x)
    s = []

    def st(x, store_artifact=None):
        s.append((x, store_artifact))
        return x

    f = FU.function_with_gradient(st, g)
    h.check(type(f) is FU.FunctionWithGradientStoringArtifacts, "with artifacts")
    f(1)
    f(2, "store")
    f(3, store_artifact="kw")
    h.same(s, [(1, None), (2, "store"), (3, "kw")], "artifact storage is passed on")
    f2 = FU.function_with_gradient(lambda x: ("f", x), g)
    h.check(type(f2) is FU.FunctionWithGradient and f2(4) == ("f", 4) and f2.gradient(5) == ("g", 5) and f.gradient(6) == ("g", 6), "function and gradient")


class Log(AU.ConditionalSideEffect):
    def __init__(self, function, predicate, name, log):
        super().__init__(function, predicate)
        self.name, self.log = name, log

    def _act(self, result, params):
        self.log.append((self.name, self.call_number, params, result))


def augmented(h, nf, ng, with_gradient, calls):
    """Augmentations apply left to right; side effects happen when and only when
    the predicate says so; values pass through; the gradient's are its own."""
    log, asked = [], []

    def f(x):
        log.append(("f", x))
        return h.real("f%d" % x, -9, 9)

    f.extra = 5

    def g(x):
        log.append(("g", x))
        return ("g", x)

    cost = FU.function_with_gradient(f, g) if with_gradient else f

    def aug(name):
        def pred(result, params, number):
            asked.append((name, result, params, number))
            return picks[name, number]

        return lambda fn: Log(fn, pred, name, log)

    picks = {}
    fa, ga = [aug("a%d" % i) for i in range(nf)], [aug("b%d" % i) for i in range(ng)]
    for i in range(nf):
        for j in range(calls):
            picks["a%d" % i, j] = h.flag("pa%d_%d" % (i, j))
    for i in range(ng):
        for j in range(calls):
            picks["b%d" % i, j] = h.flag("pb%d_%d" % (i, j))
    give = lambda a: a if a else h.choice("none", [None, []])
    r = AU.augment_cost_function(cost, give(fa), give(ga))
    if not nf and not (ng and with_gradient):
        if not ng:
            h.check(r is cost, "nothing to add")
    for j in range(calls):
        del log[:], asked[:]
        v = r(j)
        h.close(v, h.real("f%d" % j, -9, 9), "the value passes through", 0)
        h.same([x[:2] for x in log], [("f", j)] + [("a%d" % i, j) for i in range(nf) if picks["a%d" % i, j]], "side effects in order, where the predicate holds")
        h.check(all(x[2] == j for x in log[1:]) and all((x[0], x[2], x[3]) == ("a%d" % i, j, j) for i, x in enumerate(asked)) and len(asked) == nf, "each sees parameters and its call number")
        for x in asked:
            h.close(x[1], v, "and the value", 0)
        if with_gradient:
            del log[:], asked[:]
            v = r.gradient(j)
            h.same(v, ("g", j), "the gradient passes through")
            h.same([x[:2] for x in log], [("g", j)] + [("b%d" % i, j) for i in range(ng) if picks["b%d" % i, j]], "gradient augmentations in order")
    h.same(r.extra, 5, "attributes of the function")
    h.check(hasattr(r, "gradient") == with_gradient, "gradient only where there was one")
    if nf:
        h.check(r.call_number == calls and r.name == "a%d" % (nf - 1), "attributes of the last augmentation come first")
    r.extra = 6
    h.check(r.extra == 6, "attributes can be set")
    h.raises(AttributeError, lambda: r.missing, "unknown attributes")


def logger(h):
    """function_logger logs number and value with its level, to its logger."""
    got = []

    class L:
        def log(self, level, msg, *a):
            got.append((level, msg % tuple("v" if i else x for i, x in enumerate(a)), a))

    lvl = h.choice("level", [None, logging.DEBUG, logging.ERROR])
    kw = {} if lvl is None else {"level": lvl}
    n = h.choice("nth", [1, 2])
    f = AU.augment_cost_function(lambda x: h.real("v%d" % x, -9, 9), [AU.function_logger(SC.every_nth(n), logger=L(), message="call %d gave %s", **kw)])
    for i in range(3):
        f(i)
    want = [i for i in range(3) if i % n == 0]
    h.same([g[:2] for g in got], [(logging.INFO if lvl is None else lvl, "call %d gave v" % i) for i in want], "messages")
    for g, i in zip(got, want):
        h.close(g[2][1], h.real("v%d" % i, -9, 9), "with the value", 0)


class Descent(OP.Optimizer):
    """Evaluates given points; reports what was recorded."""

    def __init__(self, script, *a):
        super().__init__(*a)
        self.script = script

    def _preprocess_cost_function(self, cost_function):
        self.pre = getattr(self, "pre", 0) + 1
        return cost_function

    def _minimize(self, cost_function, initial_params, keep_history=False):
        self.seen = cost_function
        for kind, x in self.script:
            v = cost_function(x) if kind == "f" else cost_function.gradient(x)
        return OP.optimization_result(opt_value=v, opt_params=x, nit=1, nfev=len(self.script), **OP.construct_history_info(cost_function, keep_history))


def optimizer(h, kind, k):
    """minimize keeps the history of function and gradient only on request."""
    t = Target(h, kind)
    script = [("g" if kind[1] and i < k - 1 and h.flag("g%d" % i) else "f", point(h, i)) for i in range(k)]
    for i in range(k):
        t.stored[i], t.forced[i] = 1, False
    o = Descent(script)
    keep = h.choice("keep", [None, False, True])
    r = o.minimize(t.f, point(h, 0)) if keep is None else o.minimize(t.f, point(h, 0), keep)
    h.same(o.pre, 1, "the function is preprocessed once")
    fs = [i for i in range(k) if script[i][0] == "f"]
    gs = [i for i in range(k) if script[i][0] == "g"]
    h.close(r.opt_value, h.real("v%d" % (len(fs) - 1), -9, 9), "value", 0)
    h.check(r.opt_params is script[-1][1] and (r.nit, r.nfev) == (1, k), "parameters and counts")
    if not keep:
        h.check(list(r.history) == [] and "gradient_history" not in r, "no history unless asked for")
        h.check(o.seen is t.f, "the function itself is minimized")
        return
    h.same([(e.call_number, int(e.params[1])) for e in r.history], list(enumerate(fs)), "function calls")
    h.check(("gradient_history" in r) == kind[1], "gradient history for functions with gradient")
    if kind[1]:
        h.same([(e.call_number, int(e.params[1])) for e in r.gradient_history], list(enumerate(gs)), "gradient calls")


def histories(h, kind, k):
    """Histories of successive functions are appended in order."""
    hist = {"history": [], "gradient_history": []}
    want, gwant = [], []
    for i in range(k):
        t = Target(h, kind, "f%d" % i)
        r = RE.recorder(t.f)
        for j in range(h.fixed_int("n%d" % i, 0, 2)):
            t.stored[j], t.forced[j] = 0, False
            r(point(h, 10 * i + j))
            want.append((j, 10 * i + j))
        for j in range(h.fixed_int("m%d" % i, 0, 1) if kind[1] else 0):
            r.gradient(point(h, 10 * i + j))
            gwant.append((j, 10 * i + j))
        old = {a: list(b) for a, b in hist.items()}
        new = OP.extend_histories(r, hist)
        h.same({a: len(b) for a, b in hist.items()}, {a: len(b) for a, b in old.items()}, "the given histories are left alone")
        hist = new
    h.same([(e.call_number, int(e.params[1])) for e in hist["history"]], want, "all function calls in order")
    if kind[1]:
        h.same([(e.call_number, int(e.params[1])) for e in hist["gradient_history"]], gwant, "all gradient calls in order")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


def title(kind):
    return {(False, False): "plain", (False, True): "gradient", (True, False): "artifacts", (True, True): "both"}[kind]


for kind in KINDS:
    for k in (1, 2, 3, 4) if not all(kind) else (1, 2, 3):
        add("recording/%s/%d" % (title(kind), k), recording, "%d calls, any values, conditions and artifacts" % k, k > (4 if not any(kind) else 2 if kind[0] else 3), kind=kind, k=k)
    add("raising/%s" % title(kind), raising, "a call that raises", kind=kind)
    add("attributes/%s" % title(kind), attributes, "attributes", kind=kind)
    add("copies/%s" % title(kind), copies, "up to 3 calls", kind=kind)
    add("optimizer/%s/3" % title(kind), optimizer, "3 calls", kind=kind, k=3)
    add("histories/%s" % title(kind), histories, "2 functions", kind=kind, k=2)
add("nth", nth, "all call numbers up to 1000, n up to 5")
add("forcing/3", forcing, "3 artifacts", k=3)
add("detection", detection, "kinds of callables")
for nf in (0, 1, 2):
    for ng in (0, 1, 2):
        for wg in (False, True):
            add("augmented/%d/%d/%s" % (nf, ng, wg), augmented, "%d and %d augmentations, any predicates, 2 calls" % (nf, ng), nf + ng > 3, nf=nf, ng=ng, with_gradient=wg, calls=2)
add("logger", logger, "3 calls")
