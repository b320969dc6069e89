"""Compatibility layers, mock objects, example functions and equality testers do what they document."""
import types
import unittest
import warnings

import numpy
import sympy
from zquantum.core.circuits import RX
from zquantum.core.history import example_functions as EX
from zquantum.core.interfaces import mock_objects as MO
from zquantum.core.interfaces import optimizer as OP
from zquantum.core.openfermion import _compat as OC
from zquantum.core.openfermion.testing.testing_utils import EqualsTester
from zquantum.core.wip import compatibility_tools as CT

LEVEL = "model_checking"
ASSUMPTIONS = ["random.random returns any number from zero to one."]


class Old:
    def __init__(self, x):
        self.x = x


class Older(Old):
    pass


class MyList(list):
    pass


class New:
    def __init__(self, x):
        self.x = x


class Other(Exception):
    pass


KINDS = ["old", "older", "number", "list", "tuple", "nested", "mylist", "empty"]


def translated(h, m, kw, nested, fallback, message):
    """Every old object among arguments, and in containers if asked for, is translated, once."""
    considered = h.choice("considered", [None, (), (list,), (tuple,), [list, tuple]])
    bad = h.fixed_int("bad", -1, 2)  # which translation fails, if any
    done, olds = [], []

    def number():
        return h.real("x%d" % len(olds), -9, 9)

    def old(cls=Old):
        o = cls(number())
        olds.append(o)
        return o

    def make(kind):
        if kind == "old":
            return old()
        if kind == "older":
            return old(Older)
        if kind == "number":
            return h.real("n%d" % len(olds), -9, 9)
        if kind == "list":
            return [old(), 1, old()]
        if kind == "tuple":
            return (2, old())
        if kind == "nested":
            return [(old(), "a"), [old()], {"k": old()}]
        if kind == "mylist":
            return MyList([old()])
        return []

    kinds = KINDS if nested else KINDS[:6]
    args = [make(h.choice("k%d" % i, kinds)) for i in range(m)]
    kwargs = {"w%d" % i: make(h.choice("q%d" % i, kinds)) for i in range(kw)}
    reach = []

    def find(x):
        if isinstance(x, Old):
            reach.append(x)
        elif considered and type(x) in considered:
            for y in x:
                find(y)

    for x in args + list(kwargs.values()):
        find(x)

    def translate(o):
        done.append(o)
        if len(done) - 1 == bad:
            raise Other("translation")
        n = New(o.x)
        n.of = o
        return n

    seen = []

    def f(*a, **k):
        """Wrapped."""
        seen.append((a, k))
        if h.flag("f raises"):
            raise Other("function")
        return h.real("result", -9, 9)

    back = []

    def fall(*a, **k):
        back.append((a, k))
        return h.real("fallback", -9, 9)

    options = {}
    if message:
        options["deprecation_msg"] = "old"
    if fallback:
        options["fallback_function"] = fall
    if considered is not None:
        options["consider_iterable_types"] = considered
    g = CT.compatible_with_old_type(Old, translate, **options)(f)
    fails = 0 <= bad < len(reach)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            out, error = g(*args, **kwargs), None
        except (Other, CT.TranslationFailed) as e:
            out, error = None, e
    tried = reach[:bad + 1] if fails else reach
    h.check(len(done) == len(tried) and all(a is b for a, b in zip(done, tried)), "every old object is translated once, in order")
    dep = [w for w in ws if issubclass(w.category, DeprecationWarning)]
    h.same(len(dep), len(tried) if message else 0, "a deprecation warning for every old object")
    h.same(len(ws) - len(dep), 1 if fails and fallback else 0, "a warning if the fallback is used")

    def agrees(x, y):
        if isinstance(x, Old) and any(x is r for r in reach):
            return type(y) is New and y.of is x
        if considered and type(x) in considered:
            return type(y) is type(x) and len(x) == len(y) and all(agrees(p, q) for p, q in zip(x, y))
        return y is x

    if fails:
        h.same(len(seen), 0, "the function is not called if a translation fails")
        if not fallback:
            h.check(isinstance(error, CT.TranslationFailed), "the failure is reported")
            return
        h.check(error is None and len(back) == 1, "the fallback is called")
        a, k = back[0]
        h.check(len(a) == m and all(p is q for p, q in zip(a, args)) and list(k) == list(kwargs) and all(k[n] is kwargs[n] for n in k), "with the arguments as given")
        h.eq(out, h.real("fallback", -9, 9), "its result is returned")
        return
    h.same((len(seen), len(back)), (1, 0), "the function is called once")
    a, k = seen[0]
    h.check(len(a) == m and all(agrees(p, q) for p, q in zip(args, a)), "with new positional arguments")
    h.check(list(k) == list(kwargs) and all(agrees(kwargs[n], k[n]) for n in k), "with new keyword arguments")
    if h.flag("f raises"):
        h.check(isinstance(error, Other) and error.args == ("function",), "errors of the function itself propagate")
    else:
        h.check(error is None, "no error")
        h.eq(out, h.real("result", -9, 9), "its result is returned")


def wrapped_module(h):
    """A wrapped module has the attributes of the module; deprecated ones warn, every time."""
    m = types.ModuleType("m", "about m")
    m.a, m.b = h.real("a", -9, 9), h.real("b", -9, 9)
    deprecated = h.choice("deprecated", [{}, {"b": ("9.9", "use a")}, {"c": ("9.9", "use a")}, {"a": ("1.0", "x"), "b": ("2.0", "y")}])
    w = OC.wrap_module(m, deprecated)
    h.same((w.__name__, w.__doc__), ("m", "about m"), "name and documentation")
    for n in ("a", "b", "a", "c", "b"):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                x = getattr(w, n)
            except AttributeError:
                x = None
        h.check((x is None) == (n == "c"), "exactly the module's attributes")
        if x is not None:
            h.eq(x, h.real(n, -9, 9), "with their values")
        h.same([x.category for x in ws], [DeprecationWarning] if n in deprecated else [], "deprecated attributes warn")
        if ws:
            text = str(ws[0].message)
            h.check(n in text and all(t in text for t in deprecated[n]), "saying until when, and what to use instead")
    m.d = 5
    h.same(w.d, 5, "attributes added later")


def examples(h, which):
    """The example functions and gradients are those documented."""
    x = [h.real("x%d" % i, -9, 9) for i in range(3)]
    a = h.real("a", -9, 9)
    stored = []

    def store(name, artifact, force=False):
        stored.append((name, artifact, force))

    if which == "sum":
        n = h.fixed_int("n", 0, 3)
        h.eq(EX.sum_of_squares(x[:n]), sum([v * v for v in x[:n]], 0), "sum of squares")
    elif which == "1":
        h.eq(EX.function_1(x[:2]), x[0] * x[0] - x[0] * x[1], "x^2 - xy")
        h.eq(list(EX.function_1.gradient(x[:2])), [2 * x[0] - x[1], -x[0]], "gradient")
    elif which == "2":
        f = EX.Function2(a)
        h.eq(f(x), a * (x[0] - x[0] * x[1] + x[2] * x[2]), "a (x - xy + z^2)")
        h.eq(list(f.gradient(x)), [a * (1 - x[1]), -a * x[0], 2 * a * x[2]], "gradient")
    elif which == "34":
        m = h.fixed_int("m", 0, 40)
        for f in (EX.function_3, EX.function_4):
            h.eq(f(m), 2 * m, "twice the number")
            h.eq(f(m, store), 2 * m, "twice the number, artifacts or not")
        h.same(stored, [("bitstring", format(m, "b"), False), ("bitstring", format(m, "b"), m % 2 == 0)], "artifacts, forced for even numbers")
    else:
        f = EX.Function5(a) if which == "5" else EX.function_6
        k = a if which == "5" else 5
        h.eq(f(x), k * x[0] * x[1] * x[2], "a xyz")
        h.eq(f(x, store_artifact=store), k * x[0] * x[1] * x[2], "a xyz, artifacts or not")
        h.eq(list(f.gradient(x)), [k * x[1] * x[2], k * x[0] * x[2], k * x[0] * x[1]], "gradient")
        if len(stored):
            h.check(x[0] > 0, "an artifact for positive x only")
            h.same((len(stored), stored[0][0], stored[0][2]), (1, "something", False), "one artifact")
            h.eq(stored[0][1], x[0] + x[1], "x + y")
        else:
            h.check(x[0] <= 0, "an artifact for every positive x")
    if which in "25":
        b = h.real("b", -9, 9)
        cls = EX.Function2 if which == "2" else EX.Function5
        if cls(a) == cls(b):
            h.eq(a, b, "equal functions have equal parameters")
        else:
            h.check(h.negate(h.both(a >= b, a <= b)), "functions with equal parameters are equal")
        h.check(not cls(a) == x, "a list is no function")


class Draws:
    def __init__(self, h):
        self.h, self.n = h, 0

    def random(self):
        self.n += 1
        return self.h.real("draw%d" % self.n, 0, 1)


class drawing:
    def __init__(self, h):
        self.d = Draws(h)

    def __enter__(self):
        self.old, MO.random = MO.random, self.d
        return self.d

    def __exit__(self, *a):
        MO.random = self.old


def form(h, xs, kind):
    if kind == "list":
        return list(xs)
    if kind == "ints":
        return numpy.array([1, -2, 3][:len(xs)])
    r = numpy.array(xs, dtype=object) if h.symbolic else numpy.array(xs, dtype=float)
    return r


def moved(h, n):
    """The mock optimizer reports the function at the parameters it returns, each moved by a draw."""
    xs = [h.real("x%d" % i, -9, 9) for i in range(n)]
    kind = h.choice("form", ["array", "list", "ints"])
    start = form(h, xs, kind)
    if kind == "ints":
        xs = [1, -2, 3][:n]
    asked = []

    def f(params):
        asked.append(list(params))
        return h.real("v%d" % (len(asked) - 1), -9, 9)

    keep = h.choice("keep", [None, False, True])
    with drawing(h) as d:
        r = MO.MockOptimizer().minimize(f, start) if keep is None else MO.MockOptimizer().minimize(f, start, keep)
    h.same((len(asked), r.nit, r.nfev), (1, 1, 1), "one evaluation")
    h.eq(list(r.opt_params), [x + h.real("draw%d" % (i + 1), 0, 1) for i, x in enumerate(xs)], "every parameter is moved")
    h.eq(asked[0], list(r.opt_params), "the function is evaluated there")
    h.eq(r.opt_value, h.real("v0", -9, 9), "its value is reported")
    h.eq(list(start), list(xs), "the initial parameters are left alone")
    h.same(len(r.history), 1 if keep else 0, "history on request")
    if keep:
        h.eq(list(r.history[0].params), asked[0], "with the parameters")
        h.eq(r.history[0].value, h.real("v0", -9, 9), "and the value")


class Inner(OP.Optimizer):
    """Evaluates each function as often as told, at arbitrary points."""

    def __init__(self, h, counts):
        super().__init__()
        self.h, self.counts, self.n, self.start = h, counts, 0, []

    def _minimize(self, cost_function, initial_params, keep_history=False):
        self.start.append(list(initial_params))
        c = self.counts[self.n]
        for j in range(c):
            p = numpy.array([self.h.real("p%d_%d" % (self.n, j), -9, 9)], dtype=object if self.h.symbolic else float)
            v = cost_function(p)
        self.n += 1
        return OP.optimization_result(opt_value=v, opt_params=p, nit=1, nfev=c, **OP.construct_history_info(cost_function, keep_history))


def nested(h, k):
    """A nested optimizer minimizes one function after the other and reports all evaluations."""
    n = h.fixed_int("iterations", 1, k)
    counts = [h.fixed_int("c%d" % i, 1, 2) for i in range(n)]
    made, calls = [], []

    def factory(i):
        made.append(i)

        def f(params):
            calls.append((i, params))
            return h.real("v%d" % (len(calls) - 1), -9, 9)

        return f

    keep = h.choice("keep", [None, False, True])
    start = form(h, [h.real("x", -9, 9)], "array")
    inner = Inner(h, counts)
    o = MO.MockNestedOptimizer(inner, n)
    h.check(o.inner_optimizer is inner, "the inner optimizer")
    r = o.minimize(factory, start) if keep is None else o.minimize(factory, start, keep)
    h.same(made, list(range(n)), "one function per iteration, in order")
    h.same([i for i, p in calls], [i for i, c in enumerate(counts) for j in range(c)], "evaluations")
    h.same((r.nit, r.nfev), (n, sum(counts)), "iterations and evaluations are counted")
    h.eq(inner.start[0][0], h.real("x", -9, 9), "starting where told")
    h.eq(r.opt_value, h.real("v%d" % (len(calls) - 1), -9, 9), "the last value")
    h.eq(list(r.opt_params), [h.real("p%d_%d" % (n - 1, counts[-1] - 1), -9, 9)], "at the last parameters")
    h.eq(list(start), [h.real("x", -9, 9)], "the initial parameters are left alone")
    h.same(len(r.history), len(calls) if keep else 0, "history on request")
    for j, e in enumerate(r.history):
        h.eq(list(e.params), list(calls[j][1]), "with the parameters")
        h.eq(e.value, h.real("v%d" % j, -9, 9), "and the value")


def ansatz(h, layers, n):
    """The mock ansatz has one rotation of each qubit by the layer's parameter per layer."""
    a = MO.MockAnsatz(layers, n)
    c = a.parametrized_circuit
    xs = [h.real("x%d" % i, -9, 9) for i in range(layers)]
    h.same((a.number_of_layers, a.number_of_qubits, a.number_of_params), (layers, n, layers), "numbers")
    h.same([(o.gate.name, o.qubit_indices, str(o.params[0])) for o in c.operations], [("RX", (q,), "theta_%d" % l) for l in range(layers) for q in range(n)], "layers")
    e = a.get_executable_circuit(form(h, xs, "array"))
    h.same([(o.gate.name, o.qubit_indices) for o in e.operations], [("RX", (q,)) for l in range(layers) for q in range(n)], "bound layers")
    for o, l in zip(e.operations, [l for l in range(layers) for q in range(n)]):
        h.eq(o.params[0], xs[l], "parameters in order")
    h.same([str(s) for s in c.free_symbols], ["theta_%d" % l for l in range(layers)] if n else [], "the parametrized circuit keeps its symbols")


class Item:
    """Equal if the keys are, with a hash that may or may not follow; possibly with wrong inequality."""

    def __init__(self, h, key, hsh, odd=False):
        self.h, self.key, self.hsh, self.odd = h, key, hsh, odd

    def __eq__(self, other):
        if not isinstance(other, Item):
            return NotImplemented
        return bool(self.key == other.key)

    def __ne__(self, other):
        if not isinstance(other, Item):
            return NotImplemented
        r = bool(self.key == other.key)
        return r if self.odd else not r

    def __hash__(self):
        return self.hsh


class Careless(Item):
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = Item.__hash__


def equality(h, sizes, hashes):
    """Groups are accepted exactly if equality, inequality and hashes are those of classes."""
    t = EqualsTester(unittest.TestCase())
    n, groups = 0, []
    odd = h.fixed_int("odd", -1, sum(sizes) - 1)
    careless = h.flag("careless")
    for s in sizes:
        g = []
        for _ in range(s):
            k = h.int("k%d" % n, 0, 3)
            hs = h.fixed_int("h%d" % n, 0, 1) if hashes else 0
            g.append((Careless if careless and n == 0 else Item)(h, k, hs, odd == n))
            n += 1
        pair = s == 2 and h.flag("pair%d" % n)
        it = iter(list(g))
        try:
            t.make_equality_pair(lambda: next(it)) if pair else t.add_equality_group(*g)
            ok = True
        except AssertionError:
            ok = False
        bad = [i.odd and type(i) is Item for i in g] + [type(i) is Careless for i in g]
        bad += [i.key != j.key for i in g for j in g if i is not j]
        bad += [i.key == j.key for i in g for o in groups for j in o]
        bad += [i.hsh != j.hsh for i in g for j in g]
        if ok:
            h.check(h.negate(h.either(*bad)), "groups are refused if equal items are in different groups or different ones in one")
        else:
            h.check(h.either(*bad), "proper groups are accepted")
            return
        groups.append(g)


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


for m, kw in ((1, 0), (0, 1), (2, 0), (1, 1), (3, 0), (2, 1)):
    for fb in (False, True):
        for msg in (False, True):
            add("compatible/%d/%d/%s/%s" % (m, kw, fb, msg), translated, "%d and %d arguments of any kind, any failing translation" % (m, kw), m + kw > 2 or (m + kw == 2 and fb != msg), m=m, kw=kw, nested=m + kw == 1 or m + kw == 3, fallback=fb, message=msg)
add("module", wrapped_module, "any attributes")
for w in ("sum", "1", "2", "34", "5", "6"):
    add("examples/" + w, examples, "any numbers", which=w)
for n in (0, 1, 2, 3):
    add("moved/%d" % n, moved, "%d parameters" % n, n=n)
add("nested/3", nested, "up to 3 iterations of up to 2 evaluations", k=3)
for l in (0, 1, 2, 3):
    for n in (1, 2, 3):
        add("ansatz/%d/%d" % (l, n), ansatz, "any parameters", l * n > 6, layers=l, n=n)
for sizes in ((1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1), (4,), (3, 2), (2, 2, 1)):
    for hs in (False, True):
        add("equality/%s/%s" % ("-".join(map(str, sizes)), hs), equality, "groups of %s items, any keys" % (sizes,), sum(sizes) > 4 or (hs and sum(sizes) > 3), sizes=sizes, hashes=hs)
