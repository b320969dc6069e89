"""Symbolic numbers that the real /repo code is executed on.

A symbolic number is a pair of polynomials (real part, imaginary part) with
rational coefficients over *atoms*.  An atom is a solver variable: an input of
the harness, the cosine/sine of an input angle, or a value introduced with a
defining constraint (a reciprocal, a square root, a floor).  Comparisons give
`SymBool`s, whose truth value is asked of the engine, which forks the path.

The objects pretend (through `__class__`) to be int/float/complex so that the
isinstance tests of the code under test take the branch a user's number takes,
but they are not instances at C level, so that no library can silently read a
concrete value out of them: `__index__`, `__int__` and `__hash__` of an integer
fork over its feasible values, and `__float__`/`__complex__` raise.
"""
import re
import math
from fractions import Fraction

_CTX = [None]


def ctx():
    c = _CTX[0]
    if c is None:
        raise RuntimeError("no symbolic context is active")
    return c


class Unsupported(Exception):
    """The execution left what can be encoded (recorded, never a verdict)."""


# ----------------------------------------------------------------- polynomials
# dict: monomial -> Fraction; monomial = tuple of (atom index, exponent), sorted
ZERO = {}
ONE = {(): Fraction(1)}


def pconst(q):
    q = Fraction(q)
    return {(): q} if q else {}


def padd(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def psub(a, b):
    return padd(a, pneg(b)) if b else a


def pscale(a, q):
    if not q:
        return {}
    if q == 1:
        return a
    return {m: c * q for m, c in a.items()}


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for k, e in n:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k)
            v = c * d if v is None else v + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > 20000:
        raise Unsupported("polynomial too large")
    return preduce(r)


def preduce(r):
    """Replace sin(u)^2 by 1-cos(u)^2, sqrt(n)^2 by n: the atoms' own laws."""
    c = _CTX[0]
    rules = c.square_rules if c is not None else None
    if not rules:
        return r
    todo = None
    for m in r:
        for k, e in m:
            if e >= 2 and k in rules:
                todo = True
                break
        if todo:
            break
    if not todo:
        return r
    out = {}
    for m, co in r.items():
        hit = None
        for k, e in m:
            if e >= 2 and k in rules:
                hit = (k, e)
                break
        if hit is None:
            out = padd(out, {m: co})
        else:
            k, e = hit
            rest = tuple((a, x) for a, x in m if a != k)
            if e % 2:
                rest = mmul(rest, ((k, 1),))
            p = {rest: co}
            for _ in range(e // 2):
                p = pmul(p, rules[k])
            out = padd(out, preduce(p))
    return out


def pis_const(a):
    return not a or (len(a) == 1 and () in a)


def pconst_value(a):
    return a.get((), Fraction(0))


def pkey(a):
    return tuple(sorted(a.items()))


# --------------------------------------------------------------- number parsing
_PI = math.pi


def nice_float(x):
    """Fraction, ('pi', q), or ('sqrt', q, k) a float stands for.

    Rounding is abstracted: a float within 1e-13 (relative) of k*pi/48, of a
    rational of denominator <= 1024, or of such a rational times sqrt(2), is
    taken to be that number; any other float is its exact binary value.
    """
    if math.isnan(x) or math.isinf(x):
        raise Unsupported("nan/inf reached symbolic arithmetic")
    if x == int(x) and abs(x) < 2 ** 60:
        return Fraction(int(x))
    tol = 1e-13 * max(1.0, abs(x)) if abs(x) > 1e-3 else 1e-14 * abs(x)
    f = Fraction(x)
    if f.denominator <= 2 ** 20:
        return f
    g = f.limit_denominator(1024)
    if abs(float(g) - x) <= tol and g:
        return g
    y = x / _PI * 48
    if abs(y - round(y)) <= 1e-11 and round(y) != 0 and abs(round(y)) < 10000:
        return ("pi", Fraction(round(y), 48))
    for k in (2, 3, 5, 6, 7):
        z = x / math.sqrt(k)
        g = Fraction(z).limit_denominator(256)
        if g and abs(float(g) - z) <= tol:
            return ("sqrt", g, k)
    return f


def to_poly_real(x):
    if isinstance(x, Fraction):
        return pconst(x)
    t = type(x)
    if t is int or t is bool:
        return pconst(x)
    if t is float:
        v = nice_float(x)
        if isinstance(v, tuple):
            c = ctx()
            if v[0] == "pi":
                return pscale(c.pi_poly(), v[1])
            return pscale(c.sqrt_int(v[2]), v[1])
        return pconst(v)
    if hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        return to_poly_real(x.item())
    if isinstance(x, int):
        return pconst(int(x))
    if isinstance(x, float):
        return to_poly_real(float(x))
    raise TypeError(x)


SYMFLOAT = [None]  # the base class of symbolic value estimates


def lift(x):
    """SymNum for x, or None when x is not a number."""
    t = type(x)
    if t is SymNum:
        return x
    if t is SymBool:
        return lift(x.as_int())
    if t is int or t is bool or t is Fraction:
        return SymNum(pconst(x), ZERO, "int" if t is not Fraction else "float")
    if t is float:
        return SymNum(to_poly_real(x), ZERO, "float")
    if t is complex:
        return SymNum(to_poly_real(x.real), to_poly_real(x.imag), "complex")
    if SYMFLOAT[0] is not None and isinstance(x, SYMFLOAT[0]):
        return x._sym
    if hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        y = x.item()
        return None if y is x else lift(y)
    import sympy

    if isinstance(x, sympy.Basic):
        from .bridge import from_sympy

        return from_sympy(x)
    if isinstance(x, (int, float, complex)):
        if isinstance(x, int):
            return lift(int(x))
        if isinstance(x, float):
            return lift(float(x))
        return lift(complex(x))
    return None


_RANK = {"int": 0, "float": 1, "complex": 2}
_KINDS = {"int": int, "float": float, "complex": complex}


def _is_arraylike(x):
    return hasattr(x, "dtype") and getattr(x, "shape", ()) != ()


class SymBool:
    """A solver formula used as a Python truth value."""

    __slots__ = ("z", "_c")

    def __init__(self, z):
        self.z = z
        self._c = None

    def __bool__(self):
        return ctx().branch(self.z)

    def __and__(self, o):
        import z3

        return SymBool(z3.And(self.z, tobool(o)))

    __rand__ = __and__

    def __or__(self, o):
        import z3

        return SymBool(z3.Or(self.z, tobool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        import z3

        return SymBool(z3.Xor(self.z, tobool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        import z3

        return SymBool(z3.Not(self.z))

    def logical_not(self):
        return ~self

    def as_int(self):
        return 1 if bool(self) else 0

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return self.as_int()

    __index__ = __int__

    def __float__(self):
        return float(self.as_int())

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __repr__(self):
        return "SymBool"


def tobool(x):
    if type(x) is SymBool:
        return x.z
    import z3

    return z3.BoolVal(bool(x))


class SymNum:
    __slots__ = ("re", "im", "kind", "_z")

    def __init__(self, re, im=ZERO, kind="float"):
        self.re = re
        self.im = im
        self.kind = kind

    # --- identity as a Python number
    @property
    def __class__(self):
        return _KINDS[self.kind]

    @property
    def real(self):
        return _wrap(self.re, ZERO, "float" if self.kind == "complex" else self.kind)

    @property
    def imag(self):
        return _wrap(self.im, ZERO, "float" if self.kind == "complex" else self.kind)

    # what numpy's ufuncs look for on objects
    def conjugate(self):
        if not self.im:
            return self
        return SymNum(self.re, pneg(self.im), self.kind)

    def conj(self):
        return self.conjugate()

    def is_integer(self):
        return lift_bool(ctx().is_integer(self))

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def item(self):
        return self

    @property
    def is_const(self):
        return pis_const(self.re) and pis_const(self.im)

    def __repr__(self):
        return "<sym %s %s>" % (self.kind, ctx().show(self) if _CTX[0] else "?")

    def __str__(self):
        # a name that parses back to the same value: printing a number and
        # reading it back is the identity
        if self.is_const:
            return str(to_python(self))
        if PYTEXT[0]:
            return python_text(self)
        return str(self._sympy_())

    def __format__(self, spec):
        if PYTEXT[0]:
            return python_text(self)
        return str(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # --- arithmetic
    def _bin(self, o, f):
        if _is_arraylike(o):
            return NotImplemented
        import sympy

        if isinstance(o, (sympy.Basic, sympy.MatrixBase)):
            return NotImplemented
        v = lift(o)
        if v is None:
            return NotImplemented
        return f(self, v)

    def __add__(self, o):
        import sympy

        if isinstance(o, sympy.Basic):
            return self._sympy_() + o
        return self._bin(o, _add)

    def __radd__(self, o):
        import sympy

        if isinstance(o, sympy.Basic):
            return o + self._sympy_()
        return self._bin(o, lambda a, b: _add(b, a))

    def __sub__(self, o):
        import sympy

        if isinstance(o, sympy.Basic):
            return self._sympy_() - o
        return self._bin(o, _sub)

    def __rsub__(self, o):
        import sympy

        if isinstance(o, sympy.Basic):
            return o - self._sympy_()
        return self._bin(o, lambda a, b: _sub(b, a))

    def __mul__(self, o):
        import sympy

        if isinstance(o, (sympy.Basic, sympy.MatrixBase)):
            return self._sympy_() * o
        if type(o) in (list, tuple, str, bytes):
            return o * self.__index__()
        return self._bin(o, _mul)

    def __rmul__(self, o):
        import sympy

        if isinstance(o, (sympy.Basic, sympy.MatrixBase)):
            return o * self._sympy_()
        if type(o) in (list, tuple, str, bytes):
            return o * self.__index__()
        return self._bin(o, lambda a, b: _mul(b, a))

    def __truediv__(self, o):
        import sympy

        if isinstance(o, sympy.Basic):
            return self._sympy_() / o
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        import sympy

        if isinstance(o, (sympy.Basic, sympy.MatrixBase)):
            return o / self._sympy_()
        if isinstance(o, list):  # as numpy's scalars do
            from .npshim import sarr

            return sarr(o) / self
        return self._bin(o, lambda a, b: _div(b, a))

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: _divmod(a, b)[0])

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: _divmod(b, a)[0])

    def __mod__(self, o):
        return self._bin(o, lambda a, b: _divmod(a, b)[1])

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._bin(o, lambda a, b: _divmod(b, a)[1])

    def __divmod__(self, o):
        return self._bin(o, _divmod)

    def __pow__(self, o, mod=None):
        import sympy

        if isinstance(o, sympy.Basic):
            return self._sympy_() ** o
        return self._bin(o, _pow)

    def __rpow__(self, o):
        import sympy

        if isinstance(o, sympy.Basic):
            return o ** self._sympy_()
        return self._bin(o, lambda a, b: _pow(b, a))

    def __neg__(self):
        return SymNum(pneg(self.re), pneg(self.im), self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.im or (self.kind == "complex" and not pis_const(self.re)):
            sq = padd(pmul(self.re, self.re), pmul(self.im, self.im))
            return _wrap(ctx().sqrt_poly(sq), ZERO, "float")
        if bool(SymNum(self.re) >= 0):
            return self if self.kind != "complex" else SymNum(self.re, ZERO, "float")
        return SymNum(pneg(self.re), ZERO, "float" if self.kind == "complex" else self.kind)

    # --- bit operations on (bounded) integers
    def _bits(self, o, f):
        if type(o) is SymNum or isinstance(o, int):
            return f(self.__index__(), o.__index__())
        return NotImplemented

    def __and__(self, o):
        if type(o) is int and o == 1 and self.kind == "int":
            return self % 2
        return self._bits(o, lambda a, b: a & b)

    def __rand__(self, o):
        return self.__and__(o)

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b)

    def __ror__(self, o):
        return self._bits(o, lambda a, b: b | a)

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b)

    def __rxor__(self, o):
        return self._bits(o, lambda a, b: b ^ a)

    def __lshift__(self, o):
        if type(o) is int:
            return self * (1 << o)
        return self._bits(o, lambda a, b: a << b)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if type(o) is int:
            return self // (1 << o)
        return self._bits(o, lambda a, b: a >> b)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __invert__(self):
        return -self - 1

    # --- comparisons
    def _cmp(self, o, op):
        if _is_arraylike(o):
            return NotImplemented
        v = lift(o)
        if v is None:
            return NotImplemented
        return compare(self, v, op)

    def __eq__(self, o):
        import sympy

        if isinstance(o, sympy.Basic):
            try:
                v = lift(o)
            except Unsupported:
                return False
            return compare(self, v, "==")
        if SYMFLOAT[0] is not None and isinstance(o, SYMFLOAT[0]):
            return NotImplemented  # a subclass of float: its own comparison is asked first
        r = self._cmp(o, "==")
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if type(r) is SymBool:
            return ~r
        return not r

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __bool__(self):
        r = compare(self, lift(0), "==")
        if type(r) is SymBool:
            return not ctx().branch(r.z)
        return not r

    # --- leaving the symbolic world
    def __index__(self):
        if self.kind != "int":
            raise TypeError("not an integer")
        return ctx().concretize_int(self)

    def __hash__(self):
        if self.is_const:
            return hash(to_python(self))
        if self.kind == "int":
            return hash(ctx().concretize_int(self))
        # equal polynomials hash equal; distinct ones that happen to have equal
        # values are not explored as one key
        return hash((pkey(self.re), pkey(self.im)))

    def __int__(self):
        if self.kind == "int":
            return ctx().concretize_int(self)
        if self.kind == "complex":
            raise TypeError("can't convert complex to int")
        return ctx().concretize_int(ctx().trunc(self))

    def __trunc__(self):
        return self.__int__()

    def __floor__(self):
        return ctx().floor(self)

    def __ceil__(self):
        return -ctx().floor(-self)

    def __round__(self, nd=None):
        if self.kind == "int":
            return self
        if nd:
            raise Unsupported("round to digits")
        return ctx().round_half_even(self)

    def floor(self):
        f = ctx().floor(self)
        return SymNum(f.re, f.im, "float")

    def ceil(self):
        return -((-self).floor())

    def rint(self):
        f = ctx().round_half_even(self)
        return SymNum(f.re, f.im, "float")

    def __float__(self):
        if self.is_const and not self.im:
            return float(to_python(self))
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        if self.is_const:
            return complex(to_python(self))
        raise Unsupported("complex() of a symbolic value")

    # --- ufunc hooks
    def sqrt(self):
        if not self.im:
            p = self.re
            if pis_const(p) and pconst_value(p) < 0:
                raise Unsupported("sqrt of a negative number")
            return _wrap(ctx().sqrt_poly(p), ZERO, "float")
        raise Unsupported("sqrt of a complex")

    def cos(self):
        return SymNum(ctx().cos_sin(self)[0], ZERO, "float")

    def sin(self):
        return SymNum(ctx().cos_sin(self)[1], ZERO, "float")

    def exp(self):
        if not self.re:
            c, s = ctx().cos_sin(SymNum(self.im, ZERO, "float"))
            return SymNum(c, s, "complex")
        e = ctx().transcendental("exp", self.re)
        if self.im:
            c, s = ctx().cos_sin(SymNum(self.im, ZERO, "float"))
            return SymNum(pmul(e, c), pmul(e, s), "complex")
        return SymNum(e, ZERO, "float")

    def log(self):
        if self.im:
            raise Unsupported("log of a complex")
        return SymNum(ctx().transcendental("log", self.re), ZERO, "float")

    def absolute(self):
        return abs(self)

    def square(self):
        return self * self

    # --- sympy
    def _sympy_(self):
        from .bridge import to_sympy

        return to_sympy(self)


def lift_bool(z):
    return z


def _wrap(re, im, kind):
    return SymNum(re, im, kind)


def _k(a, b):
    return a.kind if _RANK[a.kind] >= _RANK[b.kind] else b.kind


def _add(a, b):
    return SymNum(padd(a.re, b.re), padd(a.im, b.im), _k(a, b))


def _sub(a, b):
    return SymNum(psub(a.re, b.re), psub(a.im, b.im), _k(a, b))


def _mul(a, b):
    if not a.im and not b.im:
        return SymNum(pmul(a.re, b.re), ZERO, _k(a, b))
    return SymNum(
        psub(pmul(a.re, b.re), pmul(a.im, b.im)),
        padd(pmul(a.re, b.im), pmul(a.im, b.re)),
        _k(a, b),
    )


def _div(a, b):
    k = _k(a, b)
    if k == "int":
        k = "float"
    if b.is_const:
        d = padd(pmul(b.re, b.re), pmul(b.im, b.im))
        dv = pconst_value(d)
        if not dv:
            raise ZeroDivisionError("division by zero")
        n = _mul(a, SymNum(b.re, pneg(b.im), b.kind))
        return SymNum(pscale(n.re, 1 / dv), pscale(n.im, 1 / dv), k)
    if not b.im:
        r = ctx().inverse(b.re)
        return SymNum(pmul(a.re, r), pmul(a.im, r), k)
    d = padd(pmul(b.re, b.re), pmul(b.im, b.im))
    r = ctx().inverse(d)
    n = _mul(a, SymNum(b.re, pneg(b.im), b.kind))
    return SymNum(pmul(n.re, r), pmul(n.im, r), k)


def _divmod(a, b):
    if a.kind == "complex" or b.kind == "complex":
        raise TypeError("can't take floor of complex number.")
    if not b.is_const:
        if b.kind == "int":
            b = lift(ctx().concretize_int(b))
        else:
            raise Unsupported("divmod by a symbolic real")
    d = pconst_value(b.re)
    if not d:
        raise ZeroDivisionError("integer division or modulo by zero")
    q = ctx().floor(SymNum(pscale(a.re, 1 / d), ZERO, "float"))
    r = SymNum(psub(a.re, pscale(q.re, d)), ZERO, _k(a, b))
    return SymNum(q.re, ZERO, _k(a, b)), r


def _pow(a, b):
    if not b.is_const:
        if b.kind == "int":
            b = lift(ctx().concretize_int(b))
        elif a.is_const and not a.im and pconst_value(a.re) > 0:
            raise Unsupported("power with a symbolic real exponent")
        else:
            raise Unsupported("power with a symbolic exponent")
    if b.im:
        raise Unsupported("complex exponent")
    e = pconst_value(b.re)
    if e.denominator == 1:
        n = int(e)
        k = _k(a, b)
        if n < 0:
            return _div(lift(1), _pow(a, lift(-n)))
        r = SymNum(ONE, ZERO, k)
        for _ in range(n):
            r = _mul(r, a)
        return SymNum(r.re, r.im, k)
    if e.denominator == 2 and not a.im:
        s = a.sqrt()
        return _pow(s, lift(int(e * 2)))
    raise Unsupported("power %s" % e)


def to_python(a):
    re = pconst_value(a.re)
    im = pconst_value(a.im)
    if a.kind == "int" and re.denominator == 1:
        return int(re)
    if a.kind == "complex":
        return complex(float(re), float(im))
    return float(re)


def compare(a, b, op):
    if op != "==" and (a.im or b.im or a.kind == "complex" or b.kind == "complex"):
        if op != "==" and (a.kind == "complex" or b.kind == "complex"):
            raise TypeError("'%s' not supported between complex numbers" % op)
    d = psub(a.re, b.re)
    if op == "==":
        e = psub(a.im, b.im)
        if pis_const(d) and pconst_value(d):
            return False
        if pis_const(e) and pconst_value(e):
            return False
        if not d and not e:
            return True
        import z3

        c = ctx()
        parts = []
        if d:
            parts.append(c.zrel(d, "=="))
        if e:
            parts.append(c.zrel(e, "=="))
        return SymBool(parts[0] if len(parts) == 1 else z3.And(*parts))
    if pis_const(d):
        v = pconst_value(d)
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op]
    return SymBool(ctx().zrel(d, op))


# Numbers printed the way Python prints them, with marks for the magnitudes.
PYTEXT = [False]
_MAGNITUDES = []
_MAG = re.compile(r"^(-?)<m(\d+)>$")
_CPLX = re.compile(r"^(-?<m\d+>)?([+-]?)(<m\d+>)[jJ]$")


def python_text(x):
    if x.is_const:
        return str(to_python(x))

    def real(v):
        s = "-" if v < 0 else ""
        _MAGNITUDES.append(-v if s else v)
        return s + "<m%d>" % (len(_MAGNITUDES) - 1)

    if x.kind != "complex":
        return real(x)
    r = x.real
    if r == 0:
        return real(x.imag) + "j"
    i = real(x.imag)
    return "(%s%s%sj)" % (real(r), "" if i[0] == "-" else "+", i)


def from_python_text(s, kind):
    """The number a text with marks stands for, or None."""
    if "<m" not in s:
        return None
    s = s.strip()
    if kind == "complex" and s[:1] == "(" and s[-1:] == ")":
        s = s[1:-1]

    def real(t):
        m = _MAG.match(t)
        if not m:
            raise ValueError("could not convert string to %s: %r" % (kind, s))
        v = _MAGNITUDES[int(m.group(2))]
        return -v if m.group(1) else v

    if kind == "complex":
        m = _CPLX.match(s)
        if m:
            v = real(m.group(3))
            if m.group(2) == "-":
                v = -v
            v = v * 1j
            return v + real(m.group(1)) if m.group(1) else v
        v = real(s)
        return SymNum(v.re, v.im, "complex")
    v = real(s)
    if kind == "int" and v.kind != "int":
        raise ValueError("invalid literal for int()")
    return SymNum(v.re, v.im, kind)
