"""The interface harnesses are written against, in its two modes.

Symbolic mode: inputs are symbolic, checks are decided by the solver.
Concrete mode (replay): inputs are plain Python values, the real code runs
unpatched, checks compare numerically.
"""
import math
import random as _random
from fractions import Fraction

import numpy
import sympy

from . import num
from .num import SymBool, SymNum, Unsupported, lift, padd, pmul, psub


class CheckFailed(BaseException):
    def __init__(self, label, detail):
        self.label = label
        self.detail = detail
        super().__init__(label)


class Skip(BaseException):
    """Concrete mode: an assumption does not hold for these values."""


def flatten(x):
    """Any nesting of arrays, matrices, lists, dicts to a list of scalars."""
    if isinstance(x, sympy.MatrixBase):
        return list(x)
    if type(x) is SymNum or type(x) is SymBool:
        return [x]
    if hasattr(x, "toarray"):
        x = x.toarray()
    if isinstance(x, numpy.ndarray):
        return [v for v in x.flat]
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            out.extend(flatten(v))
        return out
    return [x]


def shape(x):
    if isinstance(x, sympy.MatrixBase):
        return tuple(x.shape)
    if type(x) is SymNum or type(x) is SymBool:
        return ()
    if hasattr(x, "shape"):
        return tuple(x.shape)
    if isinstance(x, (list, tuple)):
        return (len(x),) + (shape(x[0]) if len(x) else ())
    return ()


class SymHarness:
    symbolic = True

    def __init__(self, c):
        self.c = c

    # ---------------------------------------------------------------- inputs
    def int(self, name, lo, hi):
        a = self.c.atom(name, "int", "input", (lo, hi))
        self.c.inputs[name] = {"kind": "int"}
        import z3

        self.c.fact(z3.And(a.z >= lo, a.z <= hi))
        return SymNum({((a.idx, 1),): Fraction(1)}, num.ZERO, "int")

    def fixed_int(self, name, lo, hi):
        """An integer over which the path forks at once."""
        return self.int(name, lo, hi).__index__()

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[self.fixed_int(name, 0, len(seq) - 1)]

    def flag(self, name):
        return bool(self.fixed_int(name, 0, 1))

    def real(self, name, lo=None, hi=None):
        a = self.c.atom(name, "real", "input")
        self.c.inputs[name] = {"kind": "real"}
        if lo is not None:
            self.c.fact(a.z >= num_to_z(lo))
        if hi is not None:
            self.c.fact(a.z <= num_to_z(hi))
        return SymNum({((a.idx, 1),): Fraction(1)}, num.ZERO, "float")

    def complex(self, name):
        r = self.c.atom(name + ".re", "real", "input")
        i = self.c.atom(name + ".im", "real", "input")
        self.c.inputs[name] = {"kind": "complex"}
        return SymNum({((r.idx, 1),): Fraction(1)}, {((i.idx, 1),): Fraction(1)}, "complex")

    def unit_vector(self, name, n, cplx=False):
        """An arbitrary vector of norm one (real, or complex)."""
        parts = []
        for i in range(n):
            parts.append(self.real("%s%d.r" % (name, i), -1, 1))
            if cplx:
                parts.append(self.real("%s%d.i" % (name, i), -1, 1))
        sq = num.ZERO
        for x in parts[:-1]:
            sq = padd(sq, pmul(x.re, x.re))
        import z3

        last = self.c.by_name["%s%d.%s" % (name, n - 1, "i" if cplx else "r")]
        rest = psub(num.ONE, sq)
        self.c.fact(last.z * last.z == self.c.zpoly(rest))
        self.c.square_rules[last.idx] = rest
        if not cplx:
            return parts
        return [SymNum(a.re, b.re, "complex") for a, b in zip(parts[::2], parts[1::2])]

    def num(self, x):
        """A given number, in the form the engine computes with."""
        return lift(x)

    def angle(self, name, unit=2):
        """A real used as an angle: cos/sin of name/unit are its atoms."""
        a = self.c.atom(name, "real", "input")
        self.c.inputs[name] = {"kind": "angle"}
        self.c.units = dict(self.c.units)
        self.c.units[name] = unit
        return SymNum({((a.idx, 1),): Fraction(1)}, num.ZERO, "float")

    def symbol(self, name, unit=2, value=None):
        """A sympy symbol standing for an arbitrary real (angle)."""
        s = sympy.Symbol(name)
        self.c.symbols[s] = self.angle("v_" + name, unit) if value is None else value
        return s

    def fresh_unit(self, unit):
        self.c.default_unit = unit

    # ---------------------------------------------------------------- claims
    def assume(self, cond):
        self.c.assume(cond)

    def both(self, *conds):
        r = True
        for x in conds:
            if type(x) is SymBool:
                r = x if r is True else (r & x if r is not False else False)
            elif not x:
                return False
        return r

    def either(self, *conds):
        r = False
        for x in conds:
            if type(x) is SymBool:
                r = x if r is False else r | x
            elif x:
                return True
        return r

    def negate(self, cond):
        return ~cond if type(cond) is SymBool else not cond

    def check(self, cond, label, detail=None):
        if type(cond) is SymBool:
            self.c.check_formula(cond.z, label, detail)
            return
        import z3

        if cond:
            # the same for every value that follows this path
            self.c.stats.path_constant += 1
            self.c.stats.reach[label] = self.c.stats.reach.get(label, 0) + 1
        else:
            self.c.check_formula(z3.BoolVal(False), label, detail)

    def value(self, x, env=None):
        """x as a number; env overrides what sympy symbols stand for."""
        if env:
            c = self.c
            saved, cache = dict(c.symbols), c.__dict__.get("_from_sympy", {})
            c.symbols.update({k: lift(v) for k, v in env.items()})
            c._from_sympy = {}
            try:
                return self.value(x)
            finally:
                c.symbols = saved
                c._from_sympy = cache
        v = lift(x)
        if v is None:
            raise Unsupported("not a number: %r" % type(x))
        return v

    def eq(self, a, b, label, detail=None):
        """a and b (numbers, arrays, matrices) are equal for all values."""
        import z3

        sa, sb = shape(a), shape(b)
        if sa != sb and len(flatten(a)) != len(flatten(b)):
            self.c.check_formula(z3.BoolVal(False), label, "shapes %s and %s" % (sa, sb))
            return
        c = self.c
        parts, margins = [], []
        seen = set()
        for x, y in zip(flatten(a), flatten(b)):
            x, y = self.value(x), self.value(y)
            c.stats.comparisons += 1
            for p, q in ((x.re, y.re), (x.im, y.im)):
                if not p and not q:
                    continue
                key = (num.pkey(p), num.pkey(q))
                if key in seen:
                    continue
                seen.add(key)
                d = psub(p, q)
                zp = c.zpoly(p)
                zq = c.zpoly(q)
                parts.append(zp == zq)
                if d:
                    zd = c.zpoly(d)
                    margins.append(z3.Or(zd > z3.Q(1, 50), zd < -z3.Q(1, 50)))
        z = z3.And(*parts) if parts else z3.BoolVal(True)
        c.check_formula(z, label, detail, z3.Or(*margins) if margins else None)

    def close(self, a, b, label, tol=1e-6, detail=None):
        """|a-b| <= tol for all values (for quantities the code computes in
        floating-point constants)."""
        import z3

        c = self.c
        parts, margins = [], []
        fa, fb = flatten(a), flatten(b)
        if len(fa) != len(fb):
            c.check_formula(z3.BoolVal(False), label, "shapes differ")
            return
        for x, y in zip(fa, fb):
            x, y = self.value(x), self.value(y)
            c.stats.comparisons += 1
            for p, q in ((x.re, y.re), (x.im, y.im)):
                d = psub(p, q)
                if not d:
                    continue
                zd = c.zpoly(d)
                t = z3.RealVal(Fraction(tol).limit_denominator(10 ** 12))
                parts.append(z3.And(zd <= t, zd >= -t))
                margins.append(z3.Or(zd > 50 * t, zd < -50 * t))
        z = z3.And(*parts) if parts else z3.BoolVal(True)
        c.check_formula(z, label, detail, z3.Or(*margins) if margins else None)

    def same(self, a, b, label, detail=None):
        """Plain Python equality (forks when symbolic)."""
        r = a == b
        self.check(r if type(r) is SymBool else bool(r), label, detail or "%r != %r" % (a, b) if not (type(r) is SymBool or r) else None)

    def raises(self, exc, f, label):
        try:
            f()
        except exc:
            self.check(True, label)
            return
        self.check(False, label, "no exception")

    def no_raise(self, f, label, allowed=()):
        try:
            return f()
        except Unsupported:
            raise
        except allowed:
            raise
        except Exception as e:
            self.check(False, label, "%s: %s" % (type(e).__name__, e))

    def subs(self, e):
        return e

    def fail(self, label, detail=None):
        self.check(False, label, detail)


def num_to_z(x):
    import z3

    if type(x) is SymNum:
        return num.ctx().zpoly(x.re)
    return z3.RealVal(Fraction(x))


class ConcreteHarness:
    symbolic = False

    def __init__(self, values, rng=None, generic=False):
        self.values = values
        self.rng = rng or _random.Random(0)
        self.generic = generic
        self.used = {}
        self.symbols = {}
        self.checks = 0

    def _get(self, name, default, kind):
        if name in self.values and (kind == "int" or not self.generic):
            v = self.values[name]
        else:
            v = default()
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        return self._get(name, lambda: lo, "int")

    fixed_int = int

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[self.int(name, 0, len(seq) - 1)]

    def flag(self, name):
        return bool(self.int(name, 0, 1))

    def real(self, name, lo=None, hi=None):
        def d():
            a = -2.0 if lo is None else float(lo)
            b = 2.0 if hi is None else float(hi)
            if lo is not None and hi is None:
                b = a + 4
            if hi is not None and lo is None:
                a = b - 4
            return self.rng.uniform(a, b)

        return float(self._get(name, d, "real"))

    def complex(self, name):
        v = self._get(name, lambda: [self.rng.uniform(-2, 2), self.rng.uniform(-2, 2)], "complex")
        return complex(*v)

    def unit_vector(self, name, n, cplx=False):
        out = []
        for i in range(n):
            r = self.real("%s%d.r" % (name, i), -1, 1)
            out.append(complex(r, self.real("%s%d.i" % (name, i), -1, 1)) if cplx else r)
        t = sum(abs(x) ** 2 for x in out) ** 0.5
        if t < 1e-6:
            raise Skip()
        return [x / t for x in out]

    def num(self, x):
        return x

    def angle(self, name, unit=2):
        return float(self._get(name, lambda: self.rng.uniform(-5, 5), "angle"))

    def symbol(self, name, unit=2, value=None):
        s = sympy.Symbol(name)
        self.symbols[s] = self.angle("v_" + name) if value is None else value
        return s

    def fresh_unit(self, unit):
        pass

    def assume(self, cond):
        if not cond:
            raise Skip()

    def both(self, *c):
        return all(bool(x) for x in c)

    def either(self, *c):
        return any(bool(x) for x in c)

    def negate(self, cond):
        return not cond

    def check(self, cond, label, detail=None):
        self.checks += 1
        if not cond:
            raise CheckFailed(label, detail)

    def value(self, x, env=None):
        if isinstance(x, sympy.Basic):
            m = dict(self.symbols)
            for k, v in (env or {}).items():
                m[k] = self.value(v)
            if x.free_symbols:
                x = x.xreplace({s: sympy.sympify(v) for s, v in m.items()})
            v = complex(sympy.N(x))
        else:
            v = complex(x)
        return v.real if v.imag == 0 else v

    def eq(self, a, b, label, detail=None, tol=1e-6):
        self.checks += 1
        fa, fb = flatten(a), flatten(b)
        if len(fa) != len(fb):
            raise CheckFailed(label, "shapes differ: %s %s" % (shape(a), shape(b)))
        for x, y in zip(fa, fb):
            x, y = self.value(x), self.value(y)
            if not abs(x - y) <= tol * max(1.0, min(abs(x), 1e3)):
                raise CheckFailed(label, "%s != %s %s" % (x, y, detail or ""))

    def close(self, a, b, label, tol=1e-6, detail=None):
        self.eq(a, b, label, detail, tol=2 * tol)

    def same(self, a, b, label, detail=None):
        self.checks += 1
        if not a == b:
            raise CheckFailed(label, detail or "%r != %r" % (a, b))

    def raises(self, exc, f, label):
        self.checks += 1
        try:
            f()
        except exc:
            return
        raise CheckFailed(label, "no exception")

    def no_raise(self, f, label, allowed=()):
        try:
            return f()
        except allowed:
            raise
        except Exception as e:
            raise CheckFailed(label, "%s: %s" % (type(e).__name__, e))

    def fail(self, label, detail=None):
        raise CheckFailed(label, detail)
