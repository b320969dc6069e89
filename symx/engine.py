"""Path-exploring symbolic executor: runs a harness once per feasible path."""
import gc
import math
import sys
import time
from fractions import Fraction

from . import num
from .num import (
    ONE,
    ZERO,
    SymBool,
    SymNum,
    Unsupported,
    lift,
    padd,
    pconst,
    pconst_value,
    pis_const,
    pkey,
    pmul,
    pneg,
    pscale,
    psub,
)

import z3


class PathDead(BaseException):
    """The current path cannot be completed (assumption false)."""


class OutOfBudget(BaseException):
    pass


class Violated(BaseException):
    """A checked assertion has a counterexample on this path."""

    def __init__(self, label, detail, model):
        self.label = label
        self.detail = detail
        self.model = model


class Atom:
    __slots__ = ("idx", "name", "z", "sort", "kind", "info")

    def __init__(self, idx, name, z, sort, kind, info=None):
        self.idx = idx
        self.name = name
        self.z = z
        self.sort = sort
        self.kind = kind  # input | cos | sin | aux | const
        self.info = info


class Stats:
    def __init__(self):
        self.paths = 0
        self.dead = 0
        self.branch_queries = 0
        self.assert_queries = 0
        self.discharged = 0
        self.comparisons = 0
        self.unknown = 0
        self.path_constant = 0
        self.unsupported = 0
        self.solver_s = 0.0
        self.reach = {}
        self.notes = {}

    def as_dict(self):
        return dict(self.__dict__)


# atoms are numbered by name for the whole process, so that a value cached by a
# library during one path means the same thing in another
_INDEX = {}


class SymContext:
    symbolic = True

    def __init__(self, stats, prefix, deadline, query_ms=20000):
        self.stats = stats
        self.prefix = prefix
        self.trace = []  # decisions of this run
        self.deadline = deadline
        self.query_ms = query_ms
        self.atoms = {}
        self.by_name = {}
        self.square_rules = {}
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", query_ms)
        self.path = []
        self.cache_inv = {}
        self.cache_sqrt = {}
        self.cache_floor = {}
        self.cache_tr = {}
        self.cache_val = {}
        self.inputs = {}  # name -> description for model extraction
        self.symbols = {}  # sympy symbol -> SymNum
        self.touched = set()
        self.linear = True
        self.nonlinear_facts = []

    # ----------------------------------------------------------------- atoms
    def atom(self, name, sort, kind, info=None):
        if name in self.by_name:
            return self.by_name[name]
        z = z3.Int(name) if sort == "int" else z3.Real(name)
        a = Atom(_INDEX.setdefault(name, len(_INDEX)), name, z, sort, kind, info)
        self.atoms[a.idx] = a
        self.by_name[name] = a
        return a

    def show(self, x):
        def sp(p):
            if not p:
                return "0"
            out = []
            for m, c in sorted(p.items())[:6]:
                t = "*".join(
                    self.atoms[k].name + ("^%d" % e if e > 1 else "") for k, e in m
                )
                out.append(("%s*%s" % (c, t)) if t else str(c))
            return "+".join(out) + ("+..." if len(p) > 6 else "")

        if x.im:
            return "(%s)+(%s)j" % (sp(x.re), sp(x.im))
        return sp(x.re)

    # --------------------------------------------------------- z3 translation
    def _is_intpoly(self, p):
        for m, c in p.items():
            for k, e in m:
                if self.atoms[k].sort != "int":
                    return False
        return True

    def zpoly(self, p, as_int=False):
        terms = []
        for m, c in sorted(p.items()):
            f = []
            for k, e in m:
                z = self.atoms[k].z
                if not as_int and self.atoms[k].sort == "int":
                    z = z3.ToReal(z)
                f.extend([z] * e)
            if as_int:
                cz = z3.IntVal(int(c))
            else:
                cz = z3.RealVal(c)
            if not f:
                terms.append(cz)
            else:
                t = f[0]
                for g in f[1:]:
                    t = t * g
                if c != 1:
                    t = cz * t
                terms.append(t)
        if not terms:
            return z3.IntVal(0) if as_int else z3.RealVal(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def zrel(self, p, op):
        """The formula p op 0."""
        if p and self._is_intpoly(p):
            l = 1
            for c in p.values():
                l = l * c.denominator // math.gcd(l, c.denominator)
            q = {m: c * l for m, c in p.items()}
            z = self.zpoly(q, True)
            zero = z3.IntVal(0)
        else:
            z = self.zpoly(p)
            zero = z3.RealVal(0)
        if op == "==":
            return z == zero
        if op == "<":
            return z < zero
        if op == "<=":
            return z <= zero
        if op == ">":
            return z > zero
        if op == ">=":
            return z >= zero
        raise ValueError(op)

    # --------------------------------------------------------------- solving
    def _tick(self):
        if time.time() > self.deadline:
            raise OutOfBudget()

    def sat(self, *extra):
        """sat/unsat/unknown of the path condition with extra formulas."""
        self._tick()
        t = time.time()
        self.stats.branch_queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        return r

    def add(self, z):
        self.path.append(z)
        self.solver.add(z)

    def assume(self, cond):
        if type(cond) is SymBool:
            self.add(cond.z)
            if len(self.trace) >= len(self.prefix):
                if self.sat() == z3.unsat:
                    raise PathDead()
        elif not cond:
            raise PathDead()

    def branch(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.trace.append(d)
            v = d[1]
            self.add(z if v else z3.Not(z))
            return v
        rt = self.sat(z)
        rf = self.sat(z3.Not(z)) if rt != z3.unsat else z3.sat
        if rt == z3.unsat:
            # forced: not a decision, replays the same way
            self.trace.append(("b", False, False))
            self.add(z3.Not(z))
            return False
        if rf == z3.unsat:
            self.trace.append(("b", True, False))
            self.add(z)
            return True
        self.trace.append(("b", True, True))
        self.add(z)
        return True

    def concretize_int(self, x):
        """Fork over the feasible values of an integer term."""
        if x.im:
            raise Unsupported("complex as an integer")
        p = x.re
        if pis_const(p):
            v = pconst_value(p)
            if v.denominator != 1:
                raise Unsupported("non-integer used as an integer")
            return int(v)
        key = pkey(p)
        if key in self.cache_val:
            return self.cache_val[key]
        z = self.zpoly(p, True) if self._is_intpoly(p) and all(
            c.denominator == 1 for c in p.values()
        ) else None
        n = len(self.trace)
        tried = []
        fixed = None
        if n < len(self.prefix):
            d = self.prefix[n]
            tried = list(d[1])
            fixed = d[2]
        rng = None
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                rng = self.atoms[m[0][0]].info
                if not (isinstance(rng, tuple) and len(rng) == 2):
                    rng = None

        def eq(v):
            return (z == v) if z is not None else self.zrel(psub(p, pconst(v)), "==")

        if fixed is None:
            if rng is not None:
                lo, hi = rng
                start = tried[-1] + 1 if tried else lo
                for v in range(start, hi + 1):
                    if self.sat(eq(v)) != z3.unsat:
                        fixed = v
                        break
                more = fixed is not None and fixed < hi
            else:
                r = self.sat(*[z3.Not(eq(v)) for v in tried])
                if r == z3.unknown:
                    raise Unsupported("solver could not enumerate an integer")
                if r == z3.sat:
                    m = self.solver.model()
                    mv = m.eval(self.zpoly(p), model_completion=True)
                    mv = _frac(mv)
                    if mv.denominator != 1:
                        raise Unsupported("non-integer used as an integer")
                    fixed = int(mv)
                more = fixed is not None
            if fixed is None:
                raise PathDead()
            if len(tried) > 4000:
                raise Unsupported("too many integer values")
            self.trace.append(("v", tuple(tried), fixed, more))
        else:
            self.trace.append(self.prefix[n])
        self.cache_val[key] = fixed
        self.add(eq(fixed))
        return fixed

    # ------------------------------------------------------------ aux values
    def fact(self, z):
        self.path.append(z)
        self.solver.add(z)

    def pi_poly(self):
        new = "pi" not in self.by_name
        a = self.atom("pi", "real", "const")
        if new:
            self.fact(z3.And(a.z > z3.Q(314159265, 10 ** 8), a.z < z3.Q(314159266, 10 ** 8)))
        return {((a.idx, 1),): Fraction(1)}

    def sqrt_int(self, n):
        name = "sqrt%d" % n
        new = name not in self.by_name
        a = self.atom(name, "real", "const")
        if new:
            self.square_rules[a.idx] = pconst(n)
            f = Fraction(math.isqrt(n * 10 ** 24), 10 ** 12)
            self.fact(
                z3.And(a.z * a.z == n, a.z > z3.RealVal(f - Fraction(1, 10 ** 9)),
                       a.z < z3.RealVal(f + Fraction(1, 10 ** 9)))
            )
        return {((a.idx, 1),): Fraction(1)}

    def sqrt_poly(self, p):
        if pis_const(p):
            v = pconst_value(p)
            if v < 0:
                raise Unsupported("square root of a negative number")
            n, d = v.numerator, v.denominator
            # sqrt(n/d) = sqrt(n*d)/d
            m = n * d
            k = 1
            f = 2
            while f * f <= m and f < 5000:
                while m % (f * f) == 0:
                    m //= f * f
                    k *= f
                f += 1
            r = math.isqrt(m)
            if r * r == m:
                return pconst(Fraction(k * r, d))
            if m > 10 ** 9:
                raise Unsupported("square root of a large number")
            return pscale(self.sqrt_int(m), Fraction(k, d))
        key = pkey(p)
        if key in self.cache_sqrt:
            return self.cache_sqrt[key]
        a = self.atom("sq%d" % len(self.cache_sqrt), "real", "aux")
        self.fact(z3.And(a.z >= 0, self.zrel(psub({((a.idx, 2),): Fraction(1)}, p), "==")))
        r = {((a.idx, 1),): Fraction(1)}
        if len(p) <= 40:
            self.square_rules[a.idx] = p
        self.cache_sqrt[key] = r
        return r

    def inverse(self, p):
        if pis_const(p):
            v = pconst_value(p)
            if not v:
                raise ZeroDivisionError("division by zero")
            return pconst(1 / v)
        if self.branch(self.zrel(p, "==")):
            raise ZeroDivisionError("division by zero")
        # normalise the leading coefficient so that p and 2p share an atom
        m = min(p)
        lc = p[m]
        q = pscale(p, 1 / lc)
        key = pkey(q)
        if key not in self.cache_inv:
            a = self.atom("inv%d" % len(self.cache_inv), "real", "aux")
            r = {((a.idx, 1),): Fraction(1)}
            self.fact(self.zrel(psub(pmul(r, q), ONE), "=="))
            self.cache_inv[key] = r
        return pscale(self.cache_inv[key], 1 / lc)

    def is_integer(self, x):
        f = self.floor(x)
        r = num.compare(f, x, "==")
        return bool(r)

    def floor(self, x):
        p = x.re
        if x.kind == "int":
            return x
        if pis_const(p):
            return lift(math.floor(pconst_value(p)))
        if self._is_intpoly(p) and all(c.denominator == 1 for c in p.values()):
            return SymNum(p, ZERO, "int")
        key = pkey(p)
        if key not in self.cache_floor:
            a = self.atom("flr%d" % len(self.cache_floor), "int", "aux")
            r = {((a.idx, 1),): Fraction(1)}
            d = psub(p, r)
            self.fact(z3.And(self.zrel(d, ">="), self.zrel(psub(d, ONE), "<")))
            self.cache_floor[key] = r
        return SymNum(self.cache_floor[key], ZERO, "int")

    def trunc(self, x):
        if bool(x >= 0):
            return self.floor(x)
        return -self.floor(-x)

    def round_half_even(self, x):
        f = self.floor(SymNum(x.re, ZERO, "float"))
        d = SymNum(psub(x.re, f.re), ZERO, "float")
        half = Fraction(1, 2)
        if bool(d < half):
            return f
        if bool(d > half):
            return f + 1
        v = self.concretize_int(f)
        return lift(v if v % 2 == 0 else v + 1)

    def transcendental(self, fn, p):
        if fn == "exp" and not p:
            return ONE
        if fn == "log" and p == ONE:
            return ZERO
        key = (fn, pkey(p))
        if key not in self.cache_tr:
            a = self.atom("%s%d" % (fn, len(self.cache_tr)), "real", "aux")
            r = {((a.idx, 1),): Fraction(1)}
            if fn == "exp":
                self.fact(a.z > 0)
            if fn == "log":
                self.fact(z3.And(
                    z3.Implies(self.zrel(psub(p, ONE), ">="), a.z >= 0),
                    z3.Implies(self.zrel(psub(p, ONE), "<="), a.z <= 0)))
            for (f2, k2), r2 in self.cache_tr.items():
                if f2 == fn:  # strictly increasing
                    q = dict(k2)
                    self.fact(z3.And(
                        z3.Implies(self.zrel(psub(p, q), "=="), self.zrel(psub(r, r2), "==")),
                        z3.Implies(self.zrel(psub(p, q), ">"), self.zrel(psub(r, r2), ">")),
                        z3.Implies(self.zrel(psub(p, q), "<"), self.zrel(psub(r, r2), "<"))))
            self.cache_tr[key] = r
        return self.cache_tr[key]

    # ------------------------------------------------------------------ angles
    UNIT = 24  # an angle variable t has atoms cos(t/u), sin(t/u)

    def angle_atoms(self, a, u):
        cn, sn = "cos[%s/%d]" % (a.name, u), "sin[%s/%d]" % (a.name, u)
        new = cn not in self.by_name
        c = self.atom(cn, "real", "cos", (a.name, u))
        s = self.atom(sn, "real", "sin", (a.name, u))
        if new:
            self.square_rules[s.idx] = psub(ONE, {((c.idx, 2),): Fraction(1)})
            self.fact(c.z * c.z + s.z * s.z == 1)
            self.fact(z3.And(c.z >= -1, c.z <= 1, s.z >= -1, s.z <= 1))
        return {((c.idx, 1),): Fraction(1)}, {((s.idx, 1),): Fraction(1)}

    def cos_sin(self, x):
        """(cos, sin) polynomials of a real symbolic number."""
        p = x.re
        if x.im:
            raise Unsupported("cosine of a complex number")
        parts = []
        for m, co in sorted(p.items()):
            if m == ():
                if co == 0:
                    continue
                parts.append(self._cos_sin_const("1", 1.0, co))
                continue
            k = None
            if len(m) == 1 and m[0][1] == 1:
                k = self.atoms[m[0][0]]
            if k is not None and k.name == "pi":
                parts.append(self._cos_sin_pi(co))
            else:
                # m is an angle variable, or a product of variables used as one
                base = k if k is not None else self._product_angle(m)
                u = self.angle_unit(base)
                q = co * u
                if q.denominator != 1:
                    raise Unsupported(
                        "angle %s*%s is finer than its unit 1/%d" % (co, base.name, u)
                    )
                n = int(q)
                if abs(n) > 64:
                    raise Unsupported("angle multiple %d" % n)
                c1, s1 = self.angle_atoms(base, u)
                c, s = self._multiple(c1, s1, abs(n))
                if n < 0:
                    s = pneg(s)
                parts.append((c, s))
        c, s = ONE, ZERO
        for c2, s2 in parts:
            c, s = psub(pmul(c, c2), pmul(s, s2)), padd(pmul(s, c2), pmul(c, s2))
        return c, s

    def angle_unit(self, atom):
        return self.units.get(atom.name, self.default_unit)

    units = {}
    default_unit = 2

    def _product_angle(self, m):
        name = "*".join(self.atoms[k].name + ("^%d" % e if e > 1 else "") for k, e in m)
        a = self.atom("ang[%s]" % name, "real", "aux")
        return a

    def _multiple(self, c1, s1, n):
        c, s = ONE, ZERO
        for _ in range(n):
            c, s = psub(pmul(c, c1), pmul(s, s1)), padd(pmul(s, c1), pmul(c, s1))
        return c, s

    def _cos_sin_pi(self, q):
        q = q % 2
        t = q * 12
        if t.denominator == 1:
            n = int(t)  # multiples of pi/12
            # cos/sin of pi/12 = (sqrt6 +- sqrt2)/4
            if n % 3 == 0:
                h = pscale(self.sqrt_int(2), Fraction(1, 2)) if (n // 3) % 2 else None
                k = n // 3
                table = {
                    0: (ONE, ZERO), 1: (h, h), 2: (ZERO, ONE), 3: (pneg(h) if h else h, h),
                    4: (pneg(ONE), ZERO), 5: (pneg(h) if h else h, pneg(h) if h else h),
                    6: (ZERO, pneg(ONE)), 7: (h, pneg(h) if h else h)}
                return table[k]
            if n % 2 == 0:
                h = pconst(Fraction(1, 2))
                r = pscale(self.sqrt_int(3), Fraction(1, 2))
                k = n // 2
                return {
                    1: (r, h), 2: (h, r), 4: (pneg(h), r), 5: (pneg(r), h),
                    7: (pneg(r), pneg(h)), 8: (pneg(h), pneg(r)),
                    10: (h, pneg(r)), 11: (r, pneg(h))}[k]
        # an arbitrary rational multiple of pi: atoms for it
        return self._cos_sin_const("pi", math.pi, q)

    def _cos_sin_const(self, base, val, q):
        """cos and sin of the constant q*val, as powers of those of val/denominator."""
        d = q.denominator
        n = q.numerator
        if abs(n) > 64:
            d, n, base, val = 1, 1, "%s*%s" % (q, base), float(q) * val
        name = "%s/%d" % (base, d)
        cn, sn = "cos[%s]" % name, "sin[%s]" % name
        new = cn not in self.by_name
        c = self.atom(cn, "real", "const")
        s = self.atom(sn, "real", "const")
        if new:
            self.square_rules[s.idx] = psub(ONE, {((c.idx, 2),): Fraction(1)})
            cv, sv = math.cos(val / d), math.sin(val / d)
            e = Fraction(1, 10 ** 9)
            self.fact(z3.And(
                c.z * c.z + s.z * s.z == 1,
                c.z > z3.RealVal(Fraction(cv) - e), c.z < z3.RealVal(Fraction(cv) + e),
                s.z > z3.RealVal(Fraction(sv) - e), s.z < z3.RealVal(Fraction(sv) + e)))
        c, s = self._multiple({((c.idx, 1),): Fraction(1)}, {((s.idx, 1),): Fraction(1)}, abs(n))
        return c, (pneg(s) if n < 0 else s)

    # -------------------------------------------------------------- assertions
    def check_formula(self, z, label, detail=None, margin=None):
        """z must hold on this path for every value; margin: a stronger negation."""
        st = self.stats
        st.assert_queries += 1
        st.reach[label] = st.reach.get(label, 0) + 1
        neg = z3.Not(z)
        r, model = self._decide(neg, margin)
        if r == z3.unsat:
            st.discharged += 1
            return
        if r == z3.unknown:
            st.unknown += 1
            st.notes["unknown: " + label] = st.notes.get("unknown: " + label, 0) + 1
            return
        raise Violated(label, detail, model)

    def _decide(self, neg, margin):
        self._tick()
        t0 = time.time()
        try:
            r = None
            if margin is not None:
                s = z3.SolverFor("QF_NRA") if not self._has_int() else z3.Solver()
                s.set("timeout", min(5000, self.query_ms))
                s.add(*self.path)
                s.add(neg, margin)
                if s.check() == z3.sat:
                    return z3.sat, s.model()
            solvers = []
            if not self._has_int():
                solvers.append(lambda: z3.SolverFor("QF_NRA"))
            solvers.append(lambda: z3.Solver())
            for mk in solvers:
                s = mk()
                s.set("timeout", self.query_ms)
                s.add(*self.path)
                s.add(neg)
                r = s.check()
                if r == z3.sat:
                    return r, s.model()
                if r == z3.unsat:
                    return r, None
            return z3.unknown, None
        finally:
            self.stats.solver_s += time.time() - t0

    def _has_int(self):
        return any(a.sort == "int" for a in self.atoms.values())

    def model_values(self, model):
        """Concrete input values from a solver model."""
        out = {}
        for name, d in self.inputs.items():
            kind = d["kind"]
            if kind == "int" or kind == "real":
                a = self.by_name[name]
                out[name] = _num(model, a.z, kind)
            elif kind == "complex":
                out[name] = [
                    _num(model, self.by_name[name + ".re"].z, "real"),
                    _num(model, self.by_name[name + ".im"].z, "real"),
                ]
            elif kind == "angle":
                val = None
                for a in self.atoms.values():
                    if a.kind == "cos" and a.info[0] == name:
                        u = a.info[1]
                        c = _num(model, a.z, "real")
                        s = _num(model, self.by_name["sin[%s/%d]" % (name, u)].z, "real")
                        val = math.atan2(s, c) * u
                if val is None:
                    val = _num(model, self.by_name[name].z, "real")
                out[name] = val
        return out

    def some_model(self):
        for s in (self.solver,):
            if s.check() == z3.sat:
                return s.model()
        return None


def _frac(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return _frac(v.approx(20))
    raise Unsupported("model value %s" % v)


def _num(model, z, kind):
    v = model.eval(z, model_completion=True)
    f = _frac(v)
    if kind == "int":
        return int(f)
    return float(f)


def _rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


def explore(run, stats, budget_s=600.0, max_paths=200000, query_ms=20000, on_path=None, confirm=None):
    """Run `run(ctx)` along every feasible path.

    Returns ("ok"|"violated"|"budget", info).
    """
    prefix = []
    t0 = time.time()
    deadline = t0 + budget_s
    n, floor = 0, _rss()
    while True:
        c = SymContext(stats, prefix, deadline, query_ms)
        num._CTX[0] = c
        tr = c.trace
        dead = False
        try:
            run(c)
        except PathDead:
            dead = True
        except OutOfBudget:
            return "budget", None
        except Unsupported as e:
            stats.unsupported += 1
            k = "unsupported: %s" % e
            stats.notes[k] = stats.notes.get(k, 0) + 1
            m = c.some_model()
            yield_ = ("unsupported", c.model_values(m) if m is not None else None)
            if on_path is not None:
                r = on_path(yield_)
                if r is not None:
                    return "violated", r
        except Violated as v:
            info = {
                "label": v.label,
                "detail": v.detail,
                "values": c.model_values(v.model) if v.model is not None else {},
                "trace": len(c.trace),
            }
            # a counterexample that the real code does not reproduce does not
            # stop the exploration of the other paths
            if confirm is None or confirm(info):
                return "violated", info
        finally:
            num._CTX[0] = None
        # z3's memory is freed only with the Python objects that refer to it
        n += 1
        if n % 10 == 0:
            size = _rss()
            if size > floor + 400e6:
                del c
                gc.collect()
                floor = _rss()
        if dead:
            stats.dead += 1
        else:
            stats.paths += 1
        # backtrack
        while tr:
            d = tr[-1]
            if d[0] == "b" and d[2]:
                tr = tr[:-1] + [("b", not d[1], False)]
                break
            if d[0] == "v" and d[3]:
                tr = tr[:-1] + [("v", d[1] + (d[2],), None, True)]
                break
            tr = tr[:-1]
        if not tr:
            return "ok", None
        prefix = tr
        if stats.paths + stats.dead > max_paths:
            return "budget", None
