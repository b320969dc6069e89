"""Between sympy expressions and symbolic numbers.

The code under test builds circuit matrices as sympy expressions; they are
translated term by term into polynomials over solver atoms.  Symbols stand for
real numbers.
"""
from fractions import Fraction

import sympy
from sympy.core.sympify import converter

from . import num
from .num import (
    ONE,
    ZERO,
    SymNum,
    Unsupported,
    ctx,
    lift,
    padd,
    pconst,
    pconst_value,
    pis_const,
    pmul,
    pneg,
    pscale,
    psub,
)



def install():
    conv = converter
    if getattr(install, "done", False):
        return
    install.done = True
    for t in (int, float, complex):
        orig = conv.get(t)

        def f(a, orig=orig):
            if type(a) is SymNum:
                return a._sympy_()
            return orig(a)

        conv[t] = f


def to_sympy(x):
    c = ctx()
    if x.is_const:
        re, im = pconst_value(x.re), pconst_value(x.im)

        def cv(q):
            if x.kind != "int":
                return sympy.Float(float(q))
            return sympy.Integer(int(q))

        r = cv(re)
        if im:
            r = r + sympy.I * cv(im)
        return r
    if x.im:
        return to_sympy(x.real) + sympy.I * to_sympy(x.imag)
    p = x.re
    # linear in atoms: keep the structure, so that angles stay recognisable
    if all(len(m) <= 1 and all(e == 1 for _, e in m) for m in p):
        r = sympy.Integer(0)
        for m, co in sorted(p.items()):
            q = sympy.Rational(co.numerator, co.denominator)
            if m:
                r = r + q * atom_symbol(c.atoms[m[0][0]])
            else:
                r = r + q
        return r
    key = num.pkey(p)
    if key not in _POLY_NAMES:
        s = sympy.Symbol("sx%d__" % len(_POLY_NAMES))
        _POLY_NAMES[key] = s
        _POLYS[s] = p
    return _POLY_NAMES[key]


_POLY_NAMES = {}
_POLYS = {}
_ATOM_SYMS = {}


def atom_symbol(a):
    if a.name == "pi":
        return sympy.pi
    s = sympy.Symbol("sv%d__" % a.idx)
    _ATOM_SYMS[s] = a.idx
    return s


def symbol_value(s):
    c = ctx()
    if s in c.symbols:
        return c.symbols[s]
    if s in _ATOM_SYMS and _ATOM_SYMS[s] in c.atoms:
        return SymNum({((_ATOM_SYMS[s], 1),): Fraction(1)}, ZERO, "float")
    if s in _POLYS:
        return SymNum(_POLYS[s], ZERO, "float")
    raise Unsupported("unregistered symbol %s" % s)


def from_sympy(e, cache=None):
    c = ctx()
    cache = c.__dict__.setdefault("_from_sympy", {})
    if e in cache:
        return cache[e]
    r = _from(e)
    cache[e] = r
    return r


def _from(e):
    if isinstance(e, sympy.Symbol):
        return symbol_value(e)
    if isinstance(e, sympy.Integer):
        return lift(int(e))
    if isinstance(e, sympy.Rational):
        return lift(Fraction(int(e.p), int(e.q)))
    if isinstance(e, sympy.Float):
        return lift(float(e))
    if e is sympy.I:
        return SymNum(ZERO, ONE, "complex")
    if e is sympy.pi:
        return SymNum(ctx().pi_poly(), ZERO, "float")
    if isinstance(e, sympy.Add):
        r = lift(0)
        for a in e.args:
            r = r + from_sympy(a)
        return r
    if isinstance(e, sympy.Mul):
        r = lift(1)
        for a in e.args:
            r = r * from_sympy(a)
        return r
    if isinstance(e, sympy.exp):
        return from_sympy(e.args[0]).exp()
    if isinstance(e, sympy.Pow):
        b, x = e.args
        if b is sympy.E:
            return from_sympy(x).exp()
        if isinstance(x, sympy.Integer):
            return from_sympy(b) ** int(x)
        if isinstance(x, sympy.Rational) and x.q == 2:
            bv = from_sympy(b)
            if bv.im:
                raise Unsupported("square root of a complex")
            if pis_const(bv.re) and pconst_value(bv.re) < 0:
                s = SymNum(ZERO, ctx().sqrt_poly(pneg(bv.re)), "complex")
            else:
                s = bv.sqrt()
            return s ** int(x.p)
        if isinstance(x, sympy.Float):
            v = from_sympy(x)
            q = pconst_value(v.re)
            if q.denominator in (1, 2):
                return from_sympy(b) ** v
        bv = from_sympy(b)
        raise Unsupported("power %s" % e)
    if isinstance(e, sympy.cos):
        return from_sympy(e.args[0]).cos()
    if isinstance(e, sympy.sin):
        return from_sympy(e.args[0]).sin()
    if isinstance(e, sympy.tan):
        v = from_sympy(e.args[0])
        return v.sin() / v.cos()
    if isinstance(e, sympy.conjugate):
        return from_sympy(e.args[0]).conjugate()
    if isinstance(e, sympy.re):
        return from_sympy(e.args[0]).real
    if isinstance(e, sympy.im):
        return from_sympy(e.args[0]).imag
    if isinstance(e, sympy.Abs):
        return abs(from_sympy(e.args[0]))
    if isinstance(e, sympy.log):
        return from_sympy(e.args[0]).log()
    if e in (sympy.nan, sympy.zoo, sympy.oo, -sympy.oo):
        raise Unsupported("infinite or undefined sympy value")
    raise Unsupported("sympy node %s" % type(e).__name__)


def internal(sym):
    return sym.name.endswith("__")
