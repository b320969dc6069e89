"""Wavefunctions are normalized vectors of power-of-two size, whatever is done to them."""
import math

import numpy
import sympy
from zquantum.core.wavefunction import Wavefunction, flip_amplitudes, flip_wavefunction

LEVEL = "model_checking"
ASSUMPTIONS = ["Norms are compared with the tolerance 1e-4 (the code's own is about 1e-5)."]


def norm2(vs):
    s = 0
    for v in vs:
        s = s + v.real * v.real + v.imag * v.imag
    return s


def amps(h, n, name="a"):
    """Complex amplitudes in size 2, real ones above (keeps the solver in low dimension)."""
    return [h.complex("%s%d" % (name, i)) if n == 2 else h.real("%s%d" % (name, i)) for i in range(n)]


def construct(h, n):
    vs = amps(h, n)
    try:
        w = Wavefunction(list(vs))
    except ValueError:
        h.check(h.either(norm2(vs) < 0.9999999, norm2(vs) > 1.0000001), "a normalized vector is accepted")
        return
    h.check(h.both(norm2(vs) <= 1.0001, norm2(vs) >= 0.9999), "only normalized vectors are accepted")
    h.eq(list(w.amplitudes), vs, "amplitudes kept")
    h.same(len(w), n, "size")
    h.same(w.n_qubits, int(math.log2(n)), "number of qubits")
    h.eq(list(w.get_probabilities()), [v.real * v.real + v.imag * v.imag for v in vs], "probabilities are squared moduli")
    p = w.get_outcome_probs()
    k = int(math.log2(n))
    h.same(sorted(p), sorted("".join(str((i >> j) & 1) for j in range(k)) for i in range(n)), "all outcomes listed")
    h.eq([p["".join(str((i >> j) & 1) for j in range(k))] for i in range(n)], [v.real * v.real + v.imag * v.imag for v in vs], "outcome probabilities")


def bad_size(h):
    n = h.fixed_int("n", 0, 9)
    vec = [0] * n
    if n:
        vec[h.choice("one", range(n))] = 1
    if n in (1, 2, 4, 8):
        w = Wavefunction(vec)
        h.same(len(w), n, "size")
    else:
        h.raises(ValueError, lambda: Wavefunction(vec), "sizes other than powers of two are refused")


def assign(h, n, how):
    """Every assignment leaves a normalized vector, or changes nothing and fails."""
    base = {2: [0.6, 0.8], 4: [0.5, -0.5, 0.5j, 0.5]}[n]
    w = Wavefunction([h.num(v) for v in base])
    if how == "slice":
        i = h.choice("i", range(n - 1))
        idx, new = slice(i, i + 2), [h.complex("x"), h.real("y")]
    else:
        i = h.choice("i", range(-n, n))
        idx, new = i, h.complex("x")
    want = list(base)
    want[idx] = new
    try:
        w[idx] = new
    except ValueError:
        h.eq(list(w.amplitudes), base, "a refused assignment changes nothing")
        h.check(h.either(norm2(want) < 0.9999999, norm2(want) > 1.0000001), "assignments that keep the norm are accepted")
        return
    h.eq(list(w.amplitudes), want, "the assignment is made")
    h.check(h.both(norm2(want) <= 1.0001, norm2(want) >= 0.9999), "only assignments that keep the norm are accepted")


def symbolic(h, n):
    """Symbolic wavefunctions: ground part bounded, binding checked."""
    a, b = sympy.Symbol("a"), sympy.Symbol("b")
    kind = h.choice("kind", ["one", "two", "expr"])
    k = h.real("k")
    vec = {"one": [a, k], "two": [a, b], "expr": [a / 2, a + b]}[kind] + [0] * (n - 2)
    ground = k * k if kind == "one" else 0
    try:
        w = Wavefunction(vec)
    except ValueError:
        h.check(ground > 0.9999, "symbolic vectors whose numbers fit are accepted")
        return
    h.check(ground <= 1.0001, "symbolic vectors whose numbers exceed probability one are refused")
    syms = {a} if kind == "one" else {a, b}
    h.check({s for s in w.free_symbols if not str(s).endswith("__")} == syms, "free symbols")
    va, vb = h.real("va"), h.real("vb")
    want = {"one": [va, k], "two": [va, vb], "expr": [va / 2, va + vb]}[kind] + [0] * (n - 2)
    s = norm2([h.value(x) for x in want])
    try:
        r = w.bind({a: va, b: vb})
    except ValueError:
        h.check(h.either(s < 0.9999999, s > 1.0000001), "bindings that give norm one are accepted")
        h.check({s for s in w.free_symbols if not str(s).endswith("__")} == syms, "a refused binding changes nothing")
        return
    h.check(h.both(s <= 1.0001, s >= 0.9999), "only bindings that give norm one are accepted")
    h.eq(r.amplitudes, want, "binding evaluates every amplitude")
    h.check({s for s in w.free_symbols if not str(s).endswith("__")} == syms, "the original is unchanged")
    h.check(not {s for s in r.free_symbols if not str(s).endswith("__")}, "nothing left unbound")


def partial(h):
    a, b = sympy.Symbol("a"), sympy.Symbol("b")
    w = Wavefunction([a, b, 0, 0])
    va = h.real("va")
    try:
        r = w.bind({a: va})
    except ValueError:
        h.check(va * va > 0.9999, "partial bindings that fit are accepted")
        return
    h.check(va * va <= 1.0001, "partial bindings exceeding probability one are refused")
    h.check({s for s in r.free_symbols if not str(s).endswith("__")} == {b}, "the other symbol stays")
    vb = h.real("vb")
    h.eq([h.value(x, {b: vb}) for x in numpy.asarray(r.amplitudes, dtype=object).reshape(-1)], [va, vb, 0, 0], "partial binding")


def ground(h):
    """The numbers of a symbolic vector take up their squared moduli, whatever their phases."""
    a = sympy.Symbol("a")
    x = h.real("x")
    y = h.choice("phase", [1, 1j, -1j, 0.6 + 0.8j, 0.8 - 0.6j]) * h.real("y")
    s = norm2([x, y])
    try:
        w = Wavefunction([a, x, y, 0])
    except ValueError:
        h.check(s > 0.9999, "vectors whose numbers fit are accepted")
        return
    h.check(s <= 1.0001, "vectors whose numbers exceed probability one are refused")
    h.eq([h.value(v, {a: 1}) for v in w], [1, x, y, 0], "amplitudes")


def rename(h):
    """Maps to other symbols are applied at once."""
    a, b, c = sympy.symbols("a b c")
    va, vb, vc = (h.real("v" + x) for x in "abc")
    env = {a: va, b: vb, c: vc}
    w = Wavefunction([a, b / 2, a + 2 * b, 0])
    k = h.choice("map", ["swap", "chain", "number", "self"])
    m = {"swap": {a: b, b: a}, "chain": {a: b, b: c}, "number": {a: b, b: vc}, "self": {a: a + b, b: a}}[k]
    try:
        r = w.bind(m)
    except ValueError:
        h.check(k == "number" and vc * vc > 0.4, "bindings that fit are accepted")
        return
    x, y = (h.value(m[s], env) for s in (a, b))
    got = numpy.asarray(r.amplitudes, dtype=object).reshape(-1)
    h.eq([h.value(v, env) for v in got], [x, y / 2, x + 2 * y, 0], "all symbols are replaced at once")


def states(h):
    n = h.fixed_int("n", 1, 6)
    z = Wavefunction.zero_state(n)
    h.eq(list(z.amplitudes), [1] + [0] * (2 ** n - 1), "zero state")
    h.same(z.n_qubits, n, "zero state size")
    k = h.fixed_int("k", -1, 7)
    if 0 <= k <= n:
        d = Wavefunction.dicke_state(n, k)
        want = [1 / math.sqrt(math.comb(n, k)) if bin(i).count("1") == k else 0 for i in range(2 ** n)]
        h.eq(list(d.amplitudes), want, "Dicke state")
    else:
        h.raises(ValueError, lambda: Wavefunction.dicke_state(n, k), "impossible weights are refused")
    h.raises(ValueError, lambda: Wavefunction.zero_state(-n + 1), "non-positive sizes are refused")


def flip(h, n):
    vs = [h.complex("a%d" % i) for i in range(2 ** n)]
    f = flip_amplitudes(vs)
    want = [vs[int("".join(reversed(format(i, "0%db" % n) if n else "")) or "0", 2)] for i in range(2 ** n)]
    h.eq(list(f), want, "qubit order reversed")
    h.eq(list(flip_amplitudes(f)), vs, "flipping twice is the identity")
    i, j = h.choice("i", range(2 ** n)), h.choice("j", range(2 ** n))
    v = [0.0] * 2 ** n
    v[i], v[j] = 0.6, 0.8j
    if i == j:
        v[j] = 1.0
    w = flip_wavefunction(Wavefunction(v))
    h.eq(list(w.amplitudes), [v[int(format(t, "0%db" % n)[::-1], 2)] for t in range(2 ** n)], "wavefunction flipped")


def equality(h):
    pool = [[1, 0], [0, 1], [0.6, 0.8], [0.6, 0.8j], [1, 0, 0, 0], [sympy.Symbol("a"), 0.5], [sympy.Symbol("b"), 0.5]]
    i, j = h.choice("i", range(len(pool))), h.choice("j", range(len(pool)))
    a, b = Wavefunction(list(pool[i])), Wavefunction(list(pool[j]))
    r = a == b
    h.check(r is True or r is False, "equality is a truth value", repr(r))
    h.check(bool(r) == (i == j), "equal exactly when all amplitudes agree")
    h.check(not (a == pool[i]), "never equal to something else")


UNITS = [
    dict(name="construct/2", fn=construct, args=dict(n=2), types=True, bounds="all complex vectors of size 2"),
    dict(name="construct/4", fn=construct, args=dict(n=4), types=True, cost=3, bounds="all vectors of size 4 (real amplitudes)"),
    dict(name="bad_size", fn=bad_size, bounds="sizes 0..9"),
    dict(name="states", fn=states, bounds="1-6 qubits, all weights"),
    dict(name="ground", fn=ground, types=True, bounds="two arbitrary real moduli, 5 relative phases"),
    dict(name="rename", fn=rename, types=True, bounds="4 kinds of maps, all real values"),
    dict(name="partial", fn=partial, types=True, bounds="all real values"),
    dict(name="equality", fn=equality, bounds="7x7 states"),
]
for n in (2, 4):
    for how in ("index", "slice"):
        UNITS.append(dict(name="assign/%s/%d" % (how, n), fn=assign, args=dict(n=n, how=how), types=True, bounds="all values, all indices"))
    UNITS.append(dict(name="symbolic/%d" % n, fn=symbolic, args=dict(n=n), types=True, bounds="all real values bound"))
for n in (1, 2, 3):
    UNITS.append(dict(name="flip/%d" % n, fn=flip, args=dict(n=n), types=True, bounds="all complex amplitudes on %d qubits" % n))
