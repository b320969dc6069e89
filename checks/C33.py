"""Circuit layouts: layers, connectivity, orderings, and their files."""
import io
import os
import shutil
import tempfile

from zquantum.core.circuits import layouts as LA

from symx import jsonshim

LEVEL = "model_checking"


def PATCH(p, u=None):
    jsonshim.patch(p, u)


def disjoint(h, layers, q, label):
    """No qubit twice in a layer: for an arbitrary qubit, no two places of the
    layer hold it."""
    for layer in layers:
        places = [v for g in layer for v in g]
        twice = [h.both(a == q, b == q) for i, a in enumerate(places) for b in places[:i]]
        h.check(h.negate(h.either(*twice)) if twice else True, label)


def nearest(h, top):
    """A chain of any length: every neighbouring pair once."""
    n = h.fixed_int("n", 0, top)
    connectivity, layers = LA.build_circuit_layers_and_connectivity(n, **h.choice("how", [{}, {"layer_type": "nearest-neighbor"}, {"y_dimension": 3}]))
    con = connectivity.connectivity
    h.check(isinstance(connectivity, LA.CircuitConnectivity) and isinstance(layers, LA.CircuitLayers), "kinds of results")
    h.check(all(type(g) is tuple and len(g) == 2 for g in con), "pairs")
    # an arbitrary neighbouring pair
    i = h.int("i", 0, top)
    h.assume(i + 1 < n)
    h.check(h.either(*[h.both(a == i, b == i + 1) for a, b in con]) if con else False, "neighbours are connected")
    whole(h, con, layers.layers, n)
    h.same(len(layers.layers), 2, "two layers")
    h.same(len(con), max(n - 1, 0), "one connection per neighbouring pair")


def short(h):
    """No pairs: chains of up to one qubit."""
    n = h.int("n", 0, 1)
    c, l = LA.build_circuit_layers_and_connectivity(n)
    h.same(list(c.connectivity), [], "no connections")
    h.same([list(x) for x in l.layers], [[], []], "empty layers")


def whole(h, con, layers, n, times=1):
    """Layers use the connections, each one a given number of times, and no
    qubit twice."""
    q = h.int("q", 0, 400)
    a, b = h.int("a", 0, 400), h.int("b", 0, 400)
    disjoint(h, layers, q, "no qubit is in two groups of a layer")
    inside = [h.both(x >= 0, x < n) for g in con for x in g]
    h.check(h.both(*inside) if inside else True, "qubits of the register")
    used = [g for l in layers for g in l]
    # an arbitrary pair is in the layers exactly if it is a connection
    h.assume(h.both(a < n, b < n))
    h.same(len(used), times * len(con), "number of groups in layers")
    f = lambda gs: h.either(*[h.either(h.both(x == a, y == b), h.both(x == b, y == a)) for x, y in gs]) if gs else False
    u, c = f(used), f(con)
    h.check(h.either(h.both(u, c), h.both(h.negate(u), h.negate(c))), "layers have exactly the connections")
    # never twice among the connections
    twice = [h.both(h.either(h.both(x == a, y == b), h.both(x == b, y == a)), h.either(h.both(z == a, w == b), h.both(z == b, w == a))) for i, (x, y) in enumerate(con) for z, w in con[:i]]
    h.check(h.negate(h.either(*twice)) if twice else True, "connections are listed once")


def sycamore(h, xs, ys):
    """Rows of qubits, each connected to the two nearest of the rows above and
    below (rows are shifted by half a qubit)."""
    x = h.fixed_int("x", *xs)
    y = h.fixed_int("y", *ys)
    connectivity, layers = LA.build_circuit_layers_and_connectivity(x, y, "sycamore")
    con = connectivity.connectivity
    h.check(isinstance(connectivity, LA.CircuitConnectivity) and isinstance(layers, LA.CircuitLayers), "kinds of results")
    h.same(len(layers.layers), 8, "eight layers")
    whole(h, con, layers.layers, x * y, 2)
    # a pair (column c of row r, column d of row r+1)
    c, r, d = h.int("c", 0, 20), h.int("r", 0, 20), h.int("d", 0, 20)
    h.assume(h.both(c < x, d < x, r + 1 < y))
    p, q = r * x + c, (r + 1) * x + d
    # odd rows are shifted to the right
    odd = r % 2 == 1
    near = h.either(c == d, h.both(odd, d == c + 1), h.both(h.negate(odd), c == d + 1))
    f = h.either(*[h.either(h.both(a == p, b == q), h.both(a == q, b == p)) for a, b in con])
    h.check(h.either(h.both(f, near), h.both(h.negate(f), h.negate(near))), "nearest qubits of neighbouring rows are connected")
    h.same(len(con), (y - 1) * (2 * x - 1), "no other connections")
    # both halves of the layers use every connection once
    for half in (layers.layers[0:2] + layers.layers[4:6], layers.layers[2:4] + layers.layers[6:8]):
        h.same(len([g for l in half for g in l]), len(con), "each pattern of four layers has every connection")
        g = h.either(*[h.either(h.both(a == p, b == q), h.both(a == q, b == p)) for l in half for a, b in l])
        h.check(h.either(h.both(g, near), h.both(h.negate(g), h.negate(near))), "each pattern of four layers has every connection once")


def refused(h):
    k = h.choice("kind", ["grid", "", None, "Sycamore", "nearest_neighbor"])
    h.raises(ValueError, lambda: LA.build_circuit_layers_and_connectivity(3, 3, k), "undefined layer types")


def group(h, name, sizes):
    k = h.choice(name, sizes)
    return tuple(h.int("%s_%d" % (name, i), 0, 1000) for i in range(k))


def stored(h, what, x, path, way):
    save, load = dict(layers=(LA.save_circuit_layers, LA.load_circuit_layers), connectivity=(LA.save_circuit_connectivity, LA.load_circuit_connectivity), ordering=(LA.save_circuit_ordering, LA.load_circuit_ordering))[what]
    save(x, path)
    with open(path) as f:
        data = LA.json.loads(f.read())
    h.same(data["schema"], LA.SCHEMA_VERSION + "-circuit_" + what, "schema")
    if way == "path":
        return load(path)
    with open(path) as f:
        if way == "handle":
            return load(f)
        return load(io.StringIO(f.read()))


def files(h, what, sizes, way):
    d = tempfile.mkdtemp()
    path = os.path.join(d, "x.json")
    try:
        if what == "layers":
            x = [[group(h, "g%d%d" % (i, j), [1, 2, 3]) for j in range(k)] for i, k in enumerate(sizes)]
            a = LA.CircuitLayers(x)
            b = LA.CircuitLayers.from_dict(a.to_dict()) if way == "dict" else stored(h, what, a, path, way)
            h.check(isinstance(b, LA.CircuitLayers) and all(type(g) is tuple for l in b.layers for g in l), "kinds of results")
            compare(h, b.layers, x)
            compare(h, a.layers, x)
        elif what == "connectivity":
            x = [group(h, "g%d" % j, [1, 2, 3]) for j in range(sizes[0])]
            a = LA.CircuitConnectivity(x)
            b = LA.CircuitConnectivity.from_dict(a.to_dict()) if way == "dict" else stored(h, what, a, path, way)
            h.check(isinstance(b, LA.CircuitConnectivity) and all(type(g) is tuple for g in b.connectivity), "kinds of results")
            compare(h, [b.connectivity], [x])
            compare(h, [a.connectivity], [x])
        else:
            x = [h.int("x%d" % i, 0, 1000) for i in range(sizes[0])]
            y = stored(h, what, list(x), path, way)
            h.same(len(y), len(x), "length of the ordering")
            h.eq(y, x, "the ordering") if x else None
    finally:
        shutil.rmtree(d)


def compare(h, got, want):
    h.same([[len(g) for g in l] for l in got], [[len(g) for g in l] for l in want], "groups of each layer")
    for l, m in zip(got, want):
        for g, k in zip(l, m):
            h.eq(list(g), list(k), "qubits of a group")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


add("nearest/12", nearest, "chains of 2 to 12 qubits, all pairs of qubits", top=12)
add("nearest/24", nearest, "chains of 2 to 24 qubits, all pairs of qubits", True, top=24)
add("short", short, "chains of up to 1 qubit")
for xs, ys, th in (((1, 2), (2, 5), False), ((3, 3), (2, 4), False), ((4, 4), (2, 4), False), ((3, 4), (5, 6), True), ((5, 5), (2, 5), True), ((1, 1), (6, 9), False), ((2, 2), (6, 7), False), ((2, 2), (8, 9), True)):
    add("sycamore/%d-%d/%d-%d" % (xs + ys), sycamore, "%d to %d qubits in %d to %d rows, all pairs of qubits" % (xs + ys), th, xs=xs, ys=ys)
add("refused", refused, "undefined types")
for way in ("dict", "path", "handle", "text"):
    for what, sizes in (("layers", [()]), ("layers", [(0,), (2,), (1, 1)][:3]), ("connectivity", [(0,), (2,)]), ("ordering", [(0,), (3,)])):
        for s in sizes:
            if not (what == "ordering" and way == "dict"):
                add("files/%s/%s/%s" % (what, way, "_".join(map(str, s))), files, "all qubits, groups of up to 3", what=what, sizes=s, way=way)
