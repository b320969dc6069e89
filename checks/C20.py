"""Operators form a ring: sums, products, scalars, equality, iteration."""
import copy

import sympy
from zquantum.core.openfermion import FermionOperator, IsingOperator, QubitOperator

LEVEL = "model_checking"
TOL = 1e-8
POOL = {
    FermionOperator: [(), ((0, 1),), ((1, 1), (0, 0)), ((0, 0), (1, 1)), ((2, 1), (2, 0))],
    QubitOperator: [(), ((0, "X"),), ((0, "Y"),), ((0, "Z"), (2, "X")), ((1, "Z"), (2, "Y"))],
    IsingOperator: [(), ((0, "Z"),), ((2, "Z"),), ((0, "Z"), (1, "Z")), ((1, "Z"), (2, "Z"))],
}
CL = [FermionOperator, QubitOperator, IsingOperator]
PROD = {("X", "Y"): (1j, "Z"), ("Y", "Z"): (1j, "X"), ("Z", "X"): (1j, "Y"), ("Y", "X"): (-1j, "Z"), ("Z", "Y"): (-1j, "X"), ("X", "Z"): (-1j, "Y")}


def make(h, cls, tag, k, pool=None, coef=None):
    op = cls()
    for i in range(k):
        t = h.choice("%s%d" % (tag, i), [t for t in pool or POOL[cls] if t not in op.terms])
        op.terms[t] = coef(i) if coef else h.real("%sc%d" % (tag, i), 0.1, 9)
    return op


def some(h, cls, k):
    """The first k terms of the pool, from any of them on."""
    op, r = cls(), h.fixed_int("rot", 0, len(POOL[cls]) - 1)
    for i in range(k):
        op.terms[POOL[cls][(i + r) % len(POOL[cls])]] = h.real("c%d" % i, 0.1, 9)
    return op


def product(cls, s, t):
    if cls is FermionOperator:
        return 1, s + t
    out, c = dict(s), 1
    for q, p in t:
        if q not in out:
            out[q] = p
        elif out[q] == p:
            del out[q]
        else:
            f, out[q] = PROD[out[q], p]
            c = c * f
    return c, tuple(sorted(out.items()))


def times(cls, A, B):
    out = {}
    for s, a in A.items():
        for t, b in B.items():
            f, u = product(cls, s, t)
            out[u] = out.get(u, 0) + f * a * b
    return out


def plus(A, B, sign=1):
    out = dict(A)
    for t, b in B.items():
        out[t] = out.get(t, 0) + sign * b
    return out


def agrees(h, op, want, label):
    """The operator has the wanted terms, and no other ones."""
    for t in set(op.terms) | set(want):
        h.close(op.terms.get(t, 0), want.get(t, 0), label, 1e-6)


def arithmetic(h, cls, steps, ka=2, kb=1):
    """A sequence of steps on a running operator, in place or not; operands
    keep their value, results do not share state with them."""
    a = cls()
    for i in range(ka):
        a.terms[POOL[cls][i + 1]] = h.real("ac%d" % i, 0.1, 9)
    b = make(h, cls, "b", kb, POOL[cls][:3])
    A, B = dict(a.terms), dict(b.terms)
    x, X = a, dict(A)
    held = []
    for i in range(steps):
        s = 1.5
        f = h.choice("f%d" % i, ["+", "+=", "-", "-=", "*", "*=", "s*", "*s", "*=s", "/s", "/=s", "+s", "s+", "-s", "s-", "+=s", "-=s", "neg", "self+=", "self-=", "self-", "self*"])
        held.append((x, dict(x.terms)))
        y = x
        if "s" in f and not f.startswith("self"):
            s = h.choice("s%d" % i, ["real", 2, 1j])
            s = h.real("sv%d" % i, 0.5, 3) if s == "real" else s
        if f == "+":
            y, X = x + b, plus(X, B)
        elif f == "+=":
            y += b
            X = plus(X, B)
        elif f == "-":
            y, X = x - b, plus(X, B, -1)
        elif f == "-=":
            y -= b
            X = plus(X, B, -1)
        elif f == "*":
            y, X = x * b, times(cls, X, B)
        elif f == "*=":
            y *= b
            X = times(cls, X, B)
        elif f in ("s*", "*s", "*=s"):
            if f == "s*":
                y = s * x
            elif f == "*s":
                y = x * s
            else:
                y *= s
            X = {t: c * s for t, c in X.items()}
        elif f in ("/s", "/=s"):
            if f == "/s":
                y = x / s
            else:
                y /= s
            X = {t: c / s for t, c in X.items()}
        elif f in ("+s", "s+", "+=s"):
            if f == "+=s":
                y += s
            else:
                y = x + s if f == "+s" else s + x
            X = plus(X, {(): s})
        elif f in ("-s", "-=s"):
            if f == "-=s":
                y -= s
            else:
                y = x - s
            X = plus(X, {(): s}, -1)
        elif f == "s-":
            y, X = s - x, plus({(): s}, X, -1)
        elif f == "neg":
            y, X = -x, {t: -c for t, c in X.items()}
        elif f == "self+=":
            y += x
            X = plus(X, X)
        elif f == "self-=":
            y -= x
            X = {}
        elif f == "self-":
            y, X = x - x, {}
        else:
            y, X = x * x, times(cls, X, X)
        if f.endswith("=") or "=s" in f:
            h.check(y is x, "in-place operations keep the object")
            held = [z for z in held if z[0] is not x]
        else:
            h.check(y is not x and y.terms is not x.terms, "results are new objects")
        agrees(h, y, X, "the result of %s" % f)
        for op, terms in held:
            agrees(h, op, terms, "operands are left alone")
        x = y
    agrees(h, b, B, "the other operand is left alone")


def cancel(h, cls):
    """Terms that cancel vanish; terms that do not stay."""
    t, u = POOL[cls][1], POOL[cls][2]
    c, d, e = h.real("c", 0.1, 3), h.real("d", 0.1, 3), h.real("e", 0.1, 1)
    a, b = cls(), cls()
    a.terms[t], a.terms[u] = c, e
    b.terms[t] = d
    f = h.choice("f", ["+", "-", "+=", "-=", "sum", "accumulate"])
    if h.flag("opposite"):
        d = b.terms[t] = -d
    if f in ("+", "+=", "sum", "accumulate"):
        want = c + d
    else:
        want = c - d
    if f == "+":
        r = a + b
    elif f == "-":
        r = a - b
    elif f == "+=":
        r = a
        r += b
    elif f == "-=":
        r = a
        r -= b
    elif f == "sum":
        r = sum([a, b])
    else:
        r = cls.accumulate([a, b])
    if abs(want) < TOL / 2:
        h.check(t not in r.terms, "cancelled terms vanish")
    if abs(want) > TOL * 2:
        h.check(t in r.terms, "other terms stay")
        h.close(r.terms.get(t, 0), want, "with their coefficient", 2 * TOL)
    h.close(r.terms.get(u, 0), e, "the other term", 1e-9)


def equality(h, cls, ka, kb):
    """Equal exactly when every term agrees within its tolerance."""
    p = POOL[cls]
    a, b = cls(), cls()
    for i in range(ka):
        a.terms[p[i + 1]] = h.real("ac%d" % i, -9, 9)
    for i in range(kb):
        b.terms[h.choice("b%d" % i, [[p[1], p[3]], [p[2], p[0]]][i])] = h.real("bc%d" % i, -9, 9)
    same, differ = [], []
    for t in set(a.terms) | set(b.terms):
        d = a.terms.get(t, 0) - b.terms.get(t, 0)
        same.append(h.both(d < TOL * 0.9, d > -TOL * 0.9))
        differ.append(h.either(d > 100 * TOL, d < -100 * TOL))
    if h.flag("complex"):
        for o in (a, b):
            for t in o.terms:
                o.terms[t] = o.terms[t] * (0.6 + 0.8j)
    f = h.choice("f", ["a==b", "b==a", "a!=b"])
    r = a == b if f == "a==b" else b == a if f == "b==a" else not (a != b)
    if r:
        h.check(h.negate(h.either(*differ)), "operators that differ in some term are not equal")
    else:
        h.check(h.negate(h.both(*same)), "operators that agree are equal")


def large(h, cls):
    """The tolerance is relative for large coefficients, term by term."""
    t, u = POOL[cls][1], POOL[cls][2]
    a, b = cls(), cls()
    big, small = h.real("big", 1e5, 1e6), h.real("small", -1, 1)
    d = h.real("d", -1, 1)
    a.terms[t] = b.terms[t] = big
    a.terms[u], b.terms[u] = small, small + d
    h.assume(h.either(d > 1e-4, d < -1e-4))
    h.check(not (a == b), "a big term does not hide a difference in another")
    h.check(not (b == a), "a big term does not hide a difference in another, other way")
    x = cls()
    x.terms[t], x.terms[u] = big + 1e-5, small
    x2 = cls()
    x2.terms[t], x2.terms[u] = big, small
    h.check(x == x2, "big coefficients are compared relative to their size")


def kinds(h):
    a, b = h.choice("a", CL), h.choice("b", CL)
    x, y = make(h, a, "x", 1), make(h, b, "y", 1)
    if a is not b:
        h.check(not (x == y), "operators of different kinds are not equal")
        for f in (lambda: x + y, lambda: x - y, lambda: x * y):
            h.raises(TypeError, f, "operators of different kinds do not mix")
    X = dict(x.terms)
    for bad in ("a", None, [1], {}):
        for f in (lambda: x + bad, lambda: x - bad, lambda: x * bad, lambda: x / bad, lambda: bad * x):
            h.raises(TypeError, f, "things that are neither numbers nor operators are refused")
    for e in (-1, 0.5, "2"):
        h.raises(ValueError, lambda: x ** e, "powers are non-negative integers")
    agrees(h, x, X, "refused operations change nothing")
    h.raises(TypeError, lambda: hash(x), "mutable operators have no hash")


def laws(h, cls):
    """Ring laws, as the library itself judges equality."""
    ops = [make(h, cls, n, 1, POOL[cls][i:i + 3]) for i, n in enumerate("abc")]
    a, b, c = ops
    law = h.choice("law", ["assoc+", "comm+", "assoc*", "left", "right", "zero", "one", "neg", "pow", "div"])
    s = h.real("s", 0.5, 2)
    l, r = {
        "assoc+": lambda: ((a + b) + c, a + (b + c)), "comm+": lambda: (a + b, b + a), "assoc*": lambda: ((a * b) * c, a * (b * c)),
        "left": lambda: (a * (b + c), a * b + a * c), "right": lambda: ((a + b) * c, a * c + b * c),
        "zero": lambda: (a + cls.zero(), a), "one": lambda: (cls.identity() * a * cls.identity(), a),
        "neg": lambda: (a - b, -(b - a)), "pow": lambda: (a ** 3, a * a * a), "div": lambda: ((a * s) / s, a)}[law]()
    agrees(h, l, r.terms, law)
    if law in ("zero", "one", "comm+"):
        h.check(l == r, law)


def compress(h, cls):
    ts = POOL[cls][1:3]
    z, w = h.complex("z"), h.real("w", -3, 3)
    op = cls()
    op.terms[ts[0]] = z
    if h.flag("other"):
        op.terms[ts[1]] = w
    vs = list(op.terms.items())
    tol = h.choice("tol", [None, 1e-3, 0.5])
    op.compress() if tol is None else op.compress(tol)
    tol = TOL if tol is None else tol
    for t, v in vs:
        got = h.num(op.terms.get(t, 0))
        v = h.num(v)
        h.close(got.real, v.real, "compressing moves parts by no more than the tolerance", tol * 1.01)
        h.close(got.imag, v.imag, "compressing moves parts by no more than the tolerance", tol * 1.01)
        for g, x in ((got.real, v.real), (got.imag, v.imag)):
            h.check(h.either(x * x > tol * tol * 0.9, g == 0), "small parts go")
        m = v.real * v.real + v.imag * v.imag
        if t in op.terms:
            h.check(m > tol * tol * 0.9, "small terms go")
        else:
            h.check(m < tol * tol * 2.1, "large terms stay")


def iterate(h, cls, k):
    """Iteration gives every term once, whatever else iterates."""
    op = some(h, cls, k)
    A = dict(op.terms)
    first = list(op)
    h.same(len(first), k, "one operator per term")
    for o in first:
        h.check(type(o) is cls and len(o.terms) == 1, "of one term each")
    seen = {}
    for o in first:
        for t, c in o.terms.items():
            h.check(t not in seen, "each term once")
            seen[t] = c
    agrees(h, op, seen, "with its coefficient")
    pairs = [(x, y) for x in op for y in op]
    h.same(len(pairs), k * k, "nested iteration sees all pairs")
    i, j = iter(op), iter(op)
    n = h.fixed_int("n", 0, k)
    for _ in range(n):
        next(i)
    h.same(len(list(j)), k, "iterators are independent")
    h.same(len(list(i)), k - n, "and each goes on where it was")
    for o in first:
        o *= 5
    agrees(h, op, A, "changing a yielded operator leaves the whole alone")
    h.same(len(list(op.get_operators())), k, "get_operators gives all")


def groups(h, cls, k):
    op = some(h, cls, k)
    A = dict(op.terms)
    n = h.fixed_int("n", -1, k + 2)
    gs = list(op.get_operator_groups(n))
    h.same(len(gs), min(max(n, 1), k), "as many groups as asked for, none empty")
    total = {}
    for g in gs:
        h.check(len(g.terms) >= 1, "no group is empty")
        for t, c in g.terms.items():
            h.check(t not in total, "each term in one group")
            total[t] = c
    agrees(h, op, total, "the groups sum to the operator")
    h.check(max(len(g.terms) for g in gs) - min(len(g.terms) for g in gs) <= 1, "the groups are even")
    agrees(h, op, A, "the operator is left alone")


def accumulate(h, cls, k):
    ops = [make(h, cls, "a%d" % i, 1, POOL[cls][:3]) for i in range(k)]
    start = h.choice("start", [None, "zero", "op"])
    want = {}
    for o in ops:
        want = plus(want, o.terms)
    before = [dict(o.terms) for o in ops]
    if start is None:
        r = cls.accumulate(h.choice("it", [iter, list, tuple])(ops))
    else:
        st = cls() if start == "zero" else make(h, cls, "st", 1)
        S = dict(st.terms)
        r = cls.accumulate(ops, st)
        want = plus(want, S)
        agrees(h, st, S, "the start is left alone")
        h.check(r is not st, "the total is a new operator")
    agrees(h, r, want, "the total")
    h.check(all(r is not o for o in ops), "the total is a new operator")
    for o, b in zip(ops, before):
        agrees(h, o, b, "the operands are left alone")


def constants(h, cls):
    op = make(h, cls, "a", 2)
    A = dict(op.terms)
    h.eq(op.constant, A.get((), 0), "the constant is the coefficient of the empty term")
    agrees(h, op, A, "reading it changes nothing")
    v = h.real("v", -5, 5)
    op.constant = v
    A[()] = v
    agrees(h, op, A, "setting it sets only this term")
    h.check(len(cls.zero().terms) == 0, "zero has no terms")
    h.check(cls.identity().terms == {(): 1.0}, "identity is the empty term")
    z, one = cls.zero(), cls.identity()
    z += op
    one *= 3
    h.check(len(cls.zero().terms) == 0 and cls.identity().terms == {(): 1.0}, "they are new each time")


def order(h, cls):
    """The order is the longest term whose coefficient is not zero."""
    ts = [(), POOL[cls][1], POOL[cls][3]]
    op = cls()
    cs = [h.real("c%d" % i, -2, 2) for i in range(3)]
    for t, c in zip(ts, cs):
        if h.flag("has%d" % len(t)):
            op.terms[t] = c
    got = op.many_body_order()
    for n, t in enumerate(ts):
        if t in op.terms and abs(op.terms[t]) > 2 * TOL:
            h.check(got >= n, "no shorter than any term")
    h.check(got == 0 or (ts[got] in op.terms and bool(abs(op.terms[ts[got]]) > TOL / 2)), "attained by a term that is not zero")


def norm(h, cls):
    a, b = h.real("a", -5, 5), h.complex("b")
    op = cls()
    op.terms[POOL[cls][1]] = a
    o = h.choice("order", [1, 2])
    if o == 2:
        op.terms[POOL[cls][2]] = b
        n = op.induced_norm(2)
        h.eq(n * n, a * a + b.real * b.real + b.imag * b.imag, "the square of the 2-norm")
    else:
        b = h.real("b1", -5, 5)
        op.terms[POOL[cls][2]] = b
        n = op.induced_norm() if h.flag("default") else op.induced_norm(1)
        h.eq(n, abs(a) + abs(b), "the 1-norm")
    h.check(n >= 0, "norms are not negative")


def renormalize(h):
    op = QubitOperator()
    r, ts = h.real("r", 0.5, 4), POOL[QubitOperator]
    cs = [3 * r, -4j * r] if h.flag("two") else [r]
    for t, c in zip(ts[1:], cs):
        op.terms[t] = c
    op.renormalize()
    want = [0.6, -0.8j] if len(cs) == 2 else [1]
    for t, c in zip(ts[1:], want):
        h.close(op.terms[t], c, "each coefficient divided by the 2-norm", 1e-9)
    h.raises(ZeroDivisionError, lambda: QubitOperator().renormalize(), "zero has no normal form")


def text(h, cls, k):
    """The printed form reads back as the operator."""
    cs = [1.5, -2.25, 1e-3, 2j, 1 - 2j, -0.5 + 3j, -1.0]
    op = make(h, cls, "a", k, None, lambda i: h.choice("c%d" % i, cs[i::2]))
    back = cls(str(op))
    agrees(h, back, dict(op.terms), "printed and read back")
    h.check(back == op, "equal to the original")
    h.same(str(cls()), "0", "zero prints as 0")
    s = h.real("s", 0.5, 2)
    scaled = cls(str(op), s)
    agrees(h, scaled, {t: c * s for t, c in op.terms.items()}, "with a factor")


def parse(h, cls):
    """Terms given as text, tuples or lists are the same; bad ones are refused."""
    acts = {FermionOperator: [(1, "^"), (0, "")], QubitOperator: [("X", "X"), ("Y", "Y"), ("Z", "Z")], IsingOperator: [("Z", "Z")]}[cls]
    k = h.fixed_int("k", 1, 2)
    # distinct qubits, so that nothing simplifies
    fs = [(h.choice("q%d" % i, [[0, 10, 3], [2, 21]][i]), h.choice("p%d" % i, acts)) for i in range(k)]
    c = h.real("c", 0.1, 3)
    txt = " ".join("%d%s" % (q, s) if cls is FermionOperator else "%s%d" % (s, q) for q, (_, s) in fs)
    tup = tuple((q, a) for q, (a, _) in fs)
    want = {(tup if cls is FermionOperator else tuple(sorted(tup))): c}
    for x in (txt, "  " + txt + " ", tup, list(tup), "[" + txt + "]", "1 [" + txt + "]", "0.5 [" + txt + "]+0.5[" + txt + "]"):
        agrees(h, cls(x, c), want, "term given as %r" % (x,))
    agrees(h, cls("-[" + txt + "]", c), {t: -v for t, v in want.items()}, "negated term")
    agrees(h, cls("-2j[" + txt + "]", c), {t: -2j * v for t, v in want.items()}, "imaginary term")
    if k == 1:
        agrees(h, cls(tup[0], c), want, "a single factor")
    agrees(h, cls("", c), {(): c}, "the empty term")
    agrees(h, cls((), c), {(): c}, "the empty term")
    agrees(h, cls(None, c), {}, "no term")
    bad = {FermionOperator: ["-1^", "0^^", "X0", "0 x"], QubitOperator: ["X-1", "W0", "0X", "X"], IsingOperator: ["X0", "Z-1", "0Z", "Z"]}[cls]
    for b in bad + [((-1, acts[0][0]),), ((0, "Q"),), ((0.5, acts[0][0]),), 5, ((0, acts[0][0], 1),)]:
        h.raises(ValueError, lambda: cls(b, c), "bad terms are refused")
    h.raises(ValueError, lambda: cls(txt, "x"), "bad coefficients are refused")


def symbolic(h, cls):
    """Symbolic coefficients: sums, equality and compress keep values."""
    x = h.symbol("x")
    e = h.choice("e", [x, x + 1, 2 * x - 3, x * sympy.I, sympy.Integer(-2) + sympy.I, sympy.Rational(1, 3) * sympy.I])
    t, u = POOL[cls][1], POOL[cls][2]
    a = cls(t, e)
    k = h.real("k", 0.5, 2)
    f = h.choice("f", ["compress", "add", "cancel", "scale", "product", "equal"])
    if f == "compress":
        if not e.free_symbols:
            a.compress()
        agrees(h, a, {t: h.value(e)}, "compressing keeps the value")
    elif f == "add":
        agrees(h, a + cls(u, e), {t: h.value(e), u: h.value(e)}, "sum")
        agrees(h, a + cls(t, sympy.Integer(4)), {t: h.value(e) + 4}, "sum on one term")
    elif f == "cancel":
        h.check(len((a - cls(t, e)).terms) == 0, "cancelled terms vanish")
    elif f == "scale":
        agrees(h, a * sympy.Symbol("x"), {t: h.value(e) * h.value(x)}, "scaling by a symbol")
    elif f == "product":
        agrees(h, a * cls(u, e), times(cls, {t: h.value(e)}, {u: h.value(e)}), "product")
    else:
        h.check(a == cls(t, e), "equal")
        h.check(not (a == cls(t, e + 1)), "not equal")
        h.check(not (a == cls(u, e)), "not equal")


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=th, types=True, bounds=b))


for cls in CL:
    n = cls.__name__[:5]
    add("arithmetic/%s/1" % n, arithmetic, "one operation of any kind on sums of two terms, any coefficients", cls=cls, steps=1)
    add("arithmetic/%s/2" % n, arithmetic, "two operations of any kind, any coefficients", True, cls=cls, steps=2)
    add("arithmetic/%s/2/small" % n, arithmetic, "two operations of any kind on single terms, any coefficients", True, cls=cls, steps=2, ka=1)
    add("cancel/%s" % n, cancel, "all coefficients", cls=cls)
    add("equality/%s/1/1" % n, equality, "all coefficients", cls=cls, ka=1, kb=1)
    add("equality/%s/2/1" % n, equality, "all coefficients", cls=cls, ka=2, kb=1)
    add("equality/%s/2/2" % n, equality, "all coefficients", cls=cls, ka=2, kb=2)
    add("large/%s" % n, large, "all coefficients and differences", cls=cls)
    add("laws/%s" % n, laws, "all laws, single terms with any coefficients", cls=cls)
    add("compress/%s" % n, compress, "all complex coefficients, three tolerances", cls=cls)
    for k in (1, 3):
        add("iterate/%s/%d" % (n, k), iterate, "any %d terms" % k, cls=cls, k=k)
    for k in (1, 2, 4):
        add("groups/%s/%d" % (n, k), groups, "any %d terms, any number of groups" % k, cls=cls, k=k)
    for k in (0, 2, 3):
        add("accumulate/%s/%d" % (n, k), accumulate, "any %d terms" % k, cls=cls, k=k)
    add("constants/%s" % n, constants, "all values", cls=cls)
    add("order/%s" % n, order, "all coefficients", cls=cls)
    add("norm/%s" % n, norm, "all coefficients", cls=cls)
    add("text/%s" % n, text, "any two terms with listed coefficients, any factor", cls=cls, k=2)
    add("parse/%s" % n, parse, "all terms of up to two factors from the listed forms", cls=cls)
    add("symbolic/%s" % n, symbolic, "listed expressions, all values of the symbol", cls=cls)
add("kinds", kinds, "all pairs of operator kinds")
add("renormalize", renormalize, "all scales")
