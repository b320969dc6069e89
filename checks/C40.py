"""Graphs: weights, samplers, comparison, files."""
import io
import itertools
import os
import random
import shutil
import tempfile

import networkx as nx
from zquantum.core import graph as G

from symx import jsonshim

LEVEL = "model_checking"
ASSUMPTIONS = ["networkx builds the structures of the graphs; JSON writes and reads back finite numbers exactly."]


def PATCH(p, u=None):
    jsonshim.patch(p, u)


NODES = [0, 1, 2, "a", "b"]


def some_graph(h, name, nodes, weighted=False):
    g = nx.Graph()
    g.add_nodes_from(nodes)
    for i, e in enumerate(itertools.combinations(nodes, 2)):
        if h.choice("%s_e%d" % (name, i), [False, True]):
            g.add_edge(*e, **(dict(weight=h.real("%s_w%d" % (name, i), -9, 9)) if weighted else {}))
    return g


def prefix(a, b):
    return all(x == y for x, y in zip(a, b))


def compare(h, most):
    """Identical graphs and no others of the same size are equal."""
    a = some_graph(h, "a", range(h.fixed_int("na", 0, most)))
    b = some_graph(h, "b", range(h.fixed_int("nb", 0, most)))
    want = list(a.nodes) == list(b.nodes) and set(a.edges) == set(b.edges)
    if want or not (prefix(a.nodes, b.nodes) and prefix(a.edges, b.edges)):
        h.check(bool(G.compare_graphs(a, b)) is want, "equal exactly if nodes and edges are the same")


def compare_sizes(h, most):
    """Known finding: graphs that extend one another."""
    a = some_graph(h, "a", range(h.fixed_int("na", 0, most)))
    b = some_graph(h, "b", range(h.fixed_int("nb", 0, most)))
    if len(a.nodes) != len(b.nodes) or len(a.edges) != len(b.edges):
        h.check(not G.compare_graphs(a, b), "graphs of different sizes are not equal")


def compare_names(h):
    nodes = [h.choice("n%d" % i, NODES) for i in range(4)]
    h.assume(nodes[0] != nodes[1] and nodes[2] != nodes[3])
    a, b = some_graph(h, "a", nodes[:2]), some_graph(h, "b", nodes[2:])
    if set(nodes[:2]) != set(nodes[2:]):
        h.check(not G.compare_graphs(a, b), "different nodes")
    elif nodes[:2] == nodes[2:] and len(a.edges) == len(b.edges):
        h.check(bool(G.compare_graphs(a, b)), "the same nodes and edges")


class Draws:
    """Stands for the module random: any outcome of a draw, the same for the same seed and place."""

    def __init__(self, h):
        self.h, self.key, self.n, self.asked = h, "", 0, []

    def seed(self, s=None):
        self.key, self.n = "seed%s_" % s, 0

    def _draw(self, lo=None, hi=None):
        self.n += 1
        x = self.h.real("%sdraw%d" % (self.key, self.n), -99, 99)
        if lo is not None:
            self.h.assume(x >= lo)
            self.h.assume(x <= hi)
        self.asked.append(x)
        return x

    def uniform(self, a, b):
        return self._draw(a, b)

    def random(self):
        return self._draw(0, 1)

    def normalvariate(self, mu=0.0, sigma=1.0):
        return mu + sigma * self._draw()

    gauss = normalvariate

    def choice(self, seq):
        self.n += 1
        return self.h.choice("%sdraw%d" % (self.key, self.n), list(seq))

    def __getattr__(self, name):
        return getattr(random, name)


class stub:
    def __init__(self, h):
        self.d = Draws(h)

    def __enter__(self):
        self.old, G.random = G.random, self.d
        # networkx draws from the module's own generator
        self.inst, self.own = random._inst, "random" in vars(random._inst)
        random._inst.random = self.d.random
        return self.d

    def __exit__(self, *a):
        G.random = self.old
        del random._inst.random


def cliques(k, s):
    return {frozenset(e) for i in range(k) for e in itertools.combinations(range(i * s, (i + 1) * s), 2)}


def ladder(n):
    return {frozenset(e) for i in range(n) for e in ([(i, i + n)] + ([(i, i + 1), (n + i, n + i + 1)] if i + 1 < n else []))}


def barbell(n):
    return cliques(2, n) | {frozenset((n - 1, n))}


def kinds(h, kind):
    """Arguments, deprecated specs, number of nodes and edges of graphs of fixed structure."""
    if kind == "caveman":
        k, s = h.fixed_int("k", 1, 3), h.fixed_int("s", 2, 4)
        return (k, s), dict(number_of_cliques=k, size_of_cliques=s), k * s, cliques(k, s), G.generate_caveman_graph
    if kind == "ladder":
        n = h.fixed_int("n", 1, 5)
        return (n,), dict(length_of_ladder=n), 2 * n, ladder(n), G.generate_ladder_graph
    if kind == "barbell":
        n = h.fixed_int("n", 2, 5)
        return (n,), dict(number_of_vertices_complete_graph=n), 2 * n, barbell(n), G.generate_barbell_graph
    n = h.fixed_int("n", 1, 5)
    edges = {frozenset(e) for e in itertools.combinations(range(n), 2)}
    return (n, 1.0), dict(), n, edges, G.generate_random_graph_erdos_renyi


def structure(h, g, n, edges):
    h.check(isinstance(g, nx.Graph) and not g.is_directed() and not g.is_multigraph(), "a simple graph")
    h.same(sorted(g.nodes), list(range(n)), "nodes")
    h.check({frozenset(e) for e in g.edges} == edges and len(g.edges) == len(edges), "edges of the kind of graph")


def fixed(h, kind, sampler, seeded):
    """Structures are those of the kind, weights come from the sampler, one each."""
    args, specs, n, edges, make = kinds(h, kind)
    seed = h.choice("seed", [0, 1, 7]) if seeded else None
    kw = {} if seed is None else dict(seed=seed)
    with stub(h) as d:
        values = []

        def mine():
            while True:
                values.append(h.real("w%d" % len(values), -9, 9))
                yield values[-1]

        if sampler == "none":
            g = make(*args, **kw)
        elif sampler == "own":
            g = make(*args, mine(), **kw)
        elif sampler == "keyword":
            g = make(*args, weight_sampler=mine(), **kw)
        else:
            lo = h.real("lo", -9, 9)
            hi = lo + h.real("width", 0, 9)
            g = make(*args, G.uniform_sampler(lo, hi), **kw)
            values = d.asked
        structure(h, g, n, edges)
        ws = [g.edges[e]["weight"] for e in g.edges]
        if sampler == "none":
            h.eq(ws, [1.0] * len(ws), "weights are one unless a sampler is given")
        else:
            h.same(len(values), len(ws), "one value per edge")
            h.eq(ws, values, "weights from the sampler in order of the edges")
        if sampler == "uniform":
            for w in ws:
                h.check(h.both(w >= lo, w <= hi), "range of the weights")
            if seeded:
                g2 = make(*args, G.uniform_sampler(lo, hi), **kw)
                h.eq([g2.edges[e]["weight"] for e in g.edges], ws, "the same seed gives the same weights")


def erdos(h, n, edge_case):
    """Every pair of nodes is an edge if its draw is below the probability."""
    p = h.real("p", 0, 1) if edge_case is None else edge_case
    if edge_case is None:
        h.assume(p > 0.001)
        h.assume(p < 0.999)
    with stub(h) as d:
        g = G.generate_random_graph_erdos_renyi(n, p)
    draws = list(d.asked)
    h.same(sorted(g.nodes), list(range(n)), "nodes")
    pairs = n * (n - 1) // 2
    if edge_case is None:
        h.same(len(draws), pairs, "one draw for every pair")
        below = [x for x in draws if x < p]
        h.same(len(g.edges), len(below), "edges for draws below the probability")
    else:
        h.same(len(g.edges), pairs if edge_case else 0, "all edges or none")
    h.eq([g.edges[e]["weight"] for e in g.edges], [1.0] * len(g.edges), "weights")


def regular(h):
    n, k, seed = h.fixed_int("n", 2, 6), h.fixed_int("k", 1, 3), h.choice("seed", [0, 1, 7])
    h.assume(k < n and n * k % 2 == 0)
    gs = []
    for _ in range(2):
        with stub(h):
            gs.append(G.generate_random_regular_graph(n, k, G.uniform_sampler(), seed))
    g, g2 = gs
    h.same(sorted(g.nodes), list(range(n)), "nodes")
    h.same([x for _, x in g.degree], [k] * n, "degree of every node")
    h.same(sorted(map(sorted, g2.edges)), sorted(map(sorted, g.edges)), "the same seed gives the same edges")
    h.eq([g2.edges[e]["weight"] for e in g.edges], [g.edges[e]["weight"] for e in g.edges], "the same seed gives the same weights")


def samplers(h, kind):
    lo = h.real("lo", -9, 9)
    with stub(h) as d:
        if kind == "constant":
            s = G.constant_sampler(lo)
            h.eq([next(s) for _ in range(4)], [lo] * 4, "constant")
        elif kind == "choice":
            vals = [h.real("v%d" % i, 3 * i, 3 * i + 2) for i in range(3)]
            s = G.choice_sampler(vals)
            for i in range(3):
                x = next(s)
                h.check(any(x is v for v in vals), "one of the choices")
            h.same(d.n, 3, "a draw for every value")
        elif kind in ("uniform", "unit"):
            hi = lo + h.real("w", 0, 9)
            if kind == "unit":
                lo, hi, s = 0, 1, G.uniform_sampler()
            else:
                s = G.uniform_sampler(lo, hi)
            got = [next(s) for _ in range(3)]
            h.eq(got, d.asked, "fresh draws")
            for x in got:
                h.check(h.both(x >= lo, x <= hi), "range")
        else:
            sd = h.real("sd", 0, 9)
            s = G.normal_sampler() if kind == "standard" else G.normal_sampler(lo, sd)
            got = [next(s) for _ in range(3)]
            h.eq(got, [x if kind == "standard" else lo + sd * x for x in d.asked], "mean and deviation")


def specs(h, kind):
    """The generator that dispatches on a dictionary."""
    args, sp, n, edges, make = kinds(h, kind)
    seed = h.choice("seed", [None, 0, 1])
    rnd = h.choice("random", [None, False, True])
    sp = dict(sp, type_graph=kind, num_nodes=n)
    if seed is not None:
        sp["seed"] = seed
    if rnd is not None:
        sp["random_weights"] = rnd
    keep = dict(sp)
    with stub(h) as d:
        g = G.generate_graph_from_specs(sp)
        structure(h, g, n, edges)
        ws = [g.edges[e]["weight"] for e in g.edges]
        if rnd:
            h.same(len(d.asked), len(ws), "one value per edge")
            for w in ws:
                h.check(h.both(w >= 0, w <= 1), "weights between zero and one")
            if seed is not None:
                g2 = G.generate_graph_from_specs(dict(keep))
                h.eq([g2.edges[e]["weight"] for e in g.edges], ws, "the same seed gives the same weights")
            else:
                h.eq(ws, d.asked, "weights drawn")
        else:
            h.eq(ws, [1.0] * len(ws), "weights")
    h.check(sp == keep, "the specs are not modified")


def specs_random(h, kind):
    n = h.fixed_int("n", 2, 4)
    sp = dict(type_graph=kind, num_nodes=n, seed=h.choice("seed", [0, 3]))
    if kind == "regular":
        sp["degree"] = h.fixed_int("k", 1, n - 1)
        h.assume(n * sp["degree"] % 2 == 0)
        g = G.generate_graph_from_specs(sp)
        h.same([x for _, x in g.degree], [sp["degree"]] * n, "degree of every node")
    else:
        del sp["seed"]
        sp["probability"] = p = h.real("p", 0.001, 0.999)
        with stub(h) as d:
            g = G.generate_graph_from_specs(sp)
        h.same(len(g.edges), len([x for x in d.asked if x < p]), "edges for draws below the probability")
    h.same(sorted(g.nodes), list(range(n)), "nodes")


def unknown(h):
    k = h.choice("k", ["", "Complete", "ring", None])
    h.raises(NotImplementedError, lambda: G.generate_graph_from_specs(dict(type_graph=k, num_nodes=3)), "other types of graphs")


def multi(h):
    g = nx.MultiGraph()
    g.add_edge(0, 1)
    h.raises(ValueError, lambda: G._weight_graph_edges(g, G.constant_sampler(1.0)), "multigraphs")


def files(h, n, how):
    """Graphs come back from files with nodes, edges and weights in order."""
    nodes = [h.choice("n%d" % i, NODES) for i in range(n)]
    h.assume(len(set(map(str, nodes))) == n)
    g = some_graph(h, "g", nodes, True)
    keep = {frozenset(e): g.edges[e]["weight"] for e in g.edges}
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "g.json")
        if how == "handle":
            with open(p, "w") as f:
                G.save_graph(g, f)
            with open(p) as f:
                got = G.load_graph(f)
        elif how == "text":
            f = io.StringIO()
            G.save_graph(g, f)
            got = G.load_graph(io.StringIO(f.getvalue()))
        else:
            G.save_graph(g, p)
            got = G.load_graph(p)
    finally:
        shutil.rmtree(d)
    h.check(type(got) is nx.Graph, "a graph")
    h.same(list(got.nodes), nodes, "nodes in order")
    h.check({frozenset(e) for e in got.edges} == set(keep) and len(got.edges) == len(keep), "edges")
    for e in got.edges:
        h.eq(got.edges[e]["weight"], keep[frozenset(e)], "weights")
    h.check(bool(G.compare_graphs(g, got)), "the same graph")
    h.check(all(g.edges[e]["weight"] is keep[frozenset(e)] for e in g.edges) and list(g.nodes) == nodes, "the graph is not modified")


def node_dict(h):
    n = h.fixed_int("n", 0, 4)
    nodes = [h.choice("n%d" % i, NODES) for i in range(n)]
    h.assume(len(set(nodes)) == n)
    g = nx.Graph()
    g.add_nodes_from(nodes)
    h.check(G.generate_graph_node_dict(g) == {x: i for i, x in enumerate(nodes)}, "nodes are numbered in order")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


add("compare/2", compare, "all pairs of graphs of up to 2 nodes", most=2)
add("compare_sizes", compare_sizes, "all pairs of graphs of up to 2 nodes and different sizes", most=2)
add("compare/3", compare, "all pairs of graphs of up to 3 nodes", most=3)
add("compare_names", compare_names, "pairs of graphs of 2 named nodes")
for k in ("caveman", "ladder", "barbell", "complete"):
    for s in ("none", "own", "keyword", "uniform"):
        for seeded in (False, True):
            add("fixed/%s/%s/%s" % (k, s, seeded), fixed, "graphs of up to 12 nodes, any weights", kind=k, sampler=s, seeded=seeded)
    add("specs/" + k, specs, "graphs of up to 12 nodes", kind=k)
for n in (1, 2, 3):
    add("erdos/%d" % n, erdos, "any probability and draws", n=n, edge_case=None)
add("erdos/4", erdos, "any probability and draws", True, n=4, edge_case=None)
for p in (0, 1):
    add("erdos/4/%d" % p, erdos, "any draws", n=4, edge_case=p)
add("regular", regular, "up to 6 nodes of degree 3, three seeds, any weights")
for k in ("constant", "choice", "uniform", "unit", "normal", "standard"):
    add("sampler/" + k, samplers, "all parameters and draws", kind=k)
for k in ("regular", "erdos_renyi"):
    add("specs/" + k, specs_random, "up to 4 nodes", kind=k)
add("unknown", unknown, "other types")
add("multi", multi, "multigraphs")
for n, w in ((1, "file"), (2, "file"), (2, "handle"), (2, "text")):
    add("files/%d/%s" % (n, w), files, "graphs of %d named nodes, any weights" % n, n=n, how=w)
add("files/3/file", files, "graphs of 3 named nodes, any weights", True, n=3, how="file")
add("node_dict", node_dict, "up to 4 nodes")
