"""Expressions keep their value when translated between dialects."""
import operator
from functools import reduce

import sympy
from zquantum.core.circuits.symbolic import expressions as EX
from zquantum.core.circuits.symbolic import sympy_expressions as SE
from zquantum.core.circuits.symbolic import translations as TR

LEVEL = "model_checking"
x, y, z = sympy.symbols("x y z")
R = sympy.Rational
LEAVES = [x, y, sympy.Integer(2), sympy.Integer(-1), R(1, 2), R(-3, 4), sympy.Float(0.25), sympy.I]
UNARY = {
    "neg": lambda a: -a,
    "inverse": lambda a: 1 / a,
    "sqrt": sympy.sqrt,
    "square": lambda a: a ** 2,
    "power -2": lambda a: a ** -2,
    "inverse sqrt": lambda a: a ** R(-1, 2),
    "cos": sympy.cos,
    "sin": sympy.sin,
    "exp": lambda a: sympy.exp(sympy.I * a),
    "tan": sympy.tan,
    "triple": lambda a: 3 * a,
    "plus one": lambda a: a + 1,
    "minus": lambda a: 1 - a,
    "times i": lambda a: sympy.I * a,
}
BINARY = {
    "add": operator.add,
    "sub": operator.sub,
    "mul": operator.mul,
    "div": operator.truediv,
    "rsub": lambda a, b: b - a,
    "sub2": lambda a, b: a - 2 * b,
    "three": lambda a, b: a + b + z,
    "three-": lambda a, b: -a - b - z,
    "prod": lambda a, b: a * b * z,
    "over prod": lambda a, b: z / (a * b),
    "ratio2": lambda a, b: a / b ** 2,
    "unexpanded": lambda a, b: sympy.Mul(-1, sympy.Add(a, b, evaluate=False), evaluate=False),
    "not negated": lambda a, b: sympy.Add(a, sympy.Mul(-1, b, evaluate=False), evaluate=False),
    "reciprocal": lambda a, b: sympy.Mul(a, sympy.Pow(b, -1, evaluate=False), evaluate=False),
}


class Numbers:
    """A dialect that computes: symbols are arbitrary numbers."""

    def __init__(self, h, env):
        self.h, self.env = h, env
        f = lambda name: lambda v: getattr(v, name)() if hasattr(v, name) and h.symbolic else getattr(__import__("cmath"), name)(v)
        n = h.num
        self.seen = []
        self.dialect = EX.ExpressionDialect(
            symbol_factory=self.symbol,
            number_factory=self.number,
            known_functions={
                "add": EX.reduction(operator.add), "mul": EX.reduction(operator.mul), "div": operator.truediv, "sub": operator.sub, "pow": operator.pow,
                "cos": f("cos"), "sin": f("sin"), "exp": f("exp"), "sqrt": f("sqrt"), "tan": lambda v: f("sin")(v) / f("cos")(v),
            },
        )

    def symbol(self, s):
        self.seen.append(s)
        return self.env[s.name]

    def number(self, v):
        self.seen.append(v)
        return self.h.num(v)


def supported(e):
    """No infinities and undefined values, no functions outside the dialect."""
    return not e.has(sympy.cosh, sympy.sinh, sympy.tanh) and not e.has(sympy.nan, sympy.zoo, sympy.oo) and not any(isinstance(a, sympy.Pow) and a.base.is_number and not a.exp.is_Integer for a in sympy.preorder_traversal(e))


def translation(h, make):
    e = make(h)
    if not supported(e):
        return
    variables(h)
    tree = SE.expression_from_sympy(e)
    back = TR.translate_expression(tree, SE.SYMPY_DIALECT)
    h.check(isinstance(back, (sympy.Basic, int, float, complex)), "a sympy expression")
    h.check(native(tree), "the tree has symbols, calls and numbers only")
    back = sympy.sympify(back)
    h.check(back.free_symbols <= e.free_symbols, "no other symbols")
    if back == e:
        return
    # same value for all values of the symbols
    w = value_of(h, e)
    if w is not None:
        h.close(h.value(back), w, "the value of the expression")


def native(t):
    if isinstance(t, EX.Symbol):
        return isinstance(t.name, str)
    if isinstance(t, EX.FunctionCall):
        return isinstance(t.name, str) and all(native(a) for a in t.args)
    return type(t) in (int, float, complex)


def variables(h):
    """Arbitrary positive values."""
    env = {}
    for s in (x, y, z):
        v = h.angle(s.name)
        h.symbol(s.name, value=v)
        h.assume(v > 0.05)
        env[s.name] = v
    return env


def value_of(h, e):
    """The expression's value, None where it has none."""
    try:
        v = h.value(e)
    except ZeroDivisionError:
        return None
    if not h.symbolic and not abs(complex(v)) < 1e6:
        return None
    return v


def numeric(h, make):
    """Translated to a computing dialect, the value is that of the expression."""
    e = make(h)
    if not supported(e):
        return
    n = Numbers(h, variables(h))
    w = value_of(h, e)
    if w is None:
        return
    v = TR.translate_expression(SE.expression_from_sympy(e), n.dialect)
    h.check(all(isinstance(s, EX.Symbol) or type(s) in (int, float, complex) for s in n.seen), "native numbers and symbols")
    h.close(v, w, "the value of the expression")


def one(h):
    return UNARY[h.choice("f", sorted(UNARY))](h.choice("a", LEAVES))


def two(h):
    return BINARY[h.choice("f", sorted(BINARY))](h.choice("a", LEAVES), h.choice("b", LEAVES))


def nested(h):
    """f(g(x), y)"""
    a = UNARY[h.choice("g", sorted(UNARY))](x)
    b = h.choice("b", [y, x, sympy.Integer(3)])
    if h.flag("swap"):
        a, b = b, a
    return BINARY[h.choice("f", sorted(BINARY))](a, b)


def inner(fs):
    def inner(h):
        """f(g(x, y))"""
        return UNARY[h.choice("f", fs)](BINARY[h.choice("g", sorted(BINARY))](x, h.choice("b", [y, sympy.Integer(2), R(1, 2)])))

    return inner


def deep(h):
    a = BINARY[h.choice("g", sorted(BINARY))](x, y)
    b = BINARY[h.choice("k", ["add", "sub", "mul", "div", "unexpanded"])](y, z)
    return BINARY[h.choice("f", sorted(BINARY))](a, b)


def parsing(h):
    """Differences, quotients and square roots are recognised as such."""
    S, F = EX.Symbol, EX.FunctionCall
    a, b = S("x"), S("y")
    for e, t in ((x - y, F("sub", (a, b))), (x / y, F("div", (a, b))), (1 / x, F("div", (1, a))), (sympy.sqrt(x), F("sqrt", (a,))), (x ** y, F("pow", (a, b))), (x + y, F("add", (a, b))),
                 (x * y, F("mul", (a, b))), (sympy.cos(x), F("cos", (a,))), (sympy.Symbol("t[0]"), S("t[0]")), (sympy.Integer(5), 5), (R(1, 4), 0.25), (sympy.I, 1j), (2, 2), (1.5, 1.5)):
        h.same(SE.expression_from_sympy(e), t, "tree of an expression")
    h.same(SE.expression_from_sympy((x, sympy.Integer(1))), (a, 1), "tuples")
    for bad in (sympy.pi, sympy.Eq(x, y), "x", None, sympy.Matrix([x])):
        h.raises(NotImplementedError, lambda: SE.expression_from_sympy(bad), "unsupported expressions")


def other_dialects(h):
    """Every symbol, number and function goes through the dialect."""
    d = EX.ExpressionDialect(lambda s: "<%s>" % s.name, lambda n: "#%s" % n, {"add": lambda *a: "(%s)" % "+".join(a), "f": lambda *a: "f[%s]" % ",".join(a)})
    v = h.choice("n", [1, -2, 1.5, 2j])
    F, S = EX.FunctionCall, EX.Symbol
    t = F("add", (S("a"), F("f", (v, S("b"), F("f", ()))), v))
    h.same(TR.translate_expression(t, d), "(<a>+f[#%s,<b>,f[]]+#%s)" % (v, v), "structure")
    h.same(TR.translate_expression((S("a"), v), d), ("<a>", "#%s" % v), "tuples of expressions")
    h.same(TR.translate_tuple((S("a"), v), d), ("<a>", "#%s" % v), "tuples of expressions")
    for bad in (F("g", (1,)), F("add", (F("sin", (S("a"),)),))):
        h.raises(ValueError, lambda: TR.translate_expression(bad, d), "unknown functions")
    k = h.fixed_int("k", 1, 4)
    xs = [h.real("x%d" % i, -9, 9) for i in range(k)]
    h.close(EX.reduction(operator.sub)(*xs), reduce(operator.sub, xs), "reduction goes left to right", 1e-9)


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


for f in (translation, numeric):
    for m, th in ((one, False), (two, False), (nested, False), (deep, f is translation)):
        add("%s/%s" % (f.__name__, m.__name__), f, "all %s expressions of the palette, all values" % m.__name__, th, make=m)
for f in (translation, numeric):
    for u in sorted(UNARY):
        add("%s/inner/%s" % (f.__name__, u), f, "all %s of a binary expression, all values" % u, u == "tan", make=inner([u]))
add("parsing", parsing, "kinds of expressions")
add("other_dialects", other_dialects, "a dialect of strings")
