"""ValueEstimate is a float with a precision: for symbolic values its class
statement is run again, from the current source, on a base class that holds a
symbolic number where float holds a number."""
import ast
import inspect
import sys
import textwrap
import types

from . import num
from .num import SymNum, lift


class SymFloat:
    """Stands in for float as a base class."""

    def __new__(cls, value=0.0):
        self = object.__new__(cls)
        v = lift(value._sym if isinstance(value, SymFloat) else value)
        if v is None:
            v = lift(float(value))
        if v.kind == "complex":
            raise TypeError("can't convert complex to float")
        object.__setattr__(self, "_sym", SymNum(v.re, num.ZERO, "float"))
        return self

    def __str__(self):
        return str(self._sym)

    __repr__ = __str__

    def __format__(self, spec):
        return format(self._sym, spec)

    def __hash__(self):
        return hash(self._sym)

    def __bool__(self):
        return bool(self._sym)

    def __neg__(self):
        return -self._sym

    def __pos__(self):
        return self._sym

    def __abs__(self):
        return abs(self._sym)

    def conjugate(self):
        return self._sym

    @property
    def real(self):
        return self._sym

    @property
    def imag(self):
        return 0.0


def _op(name):
    def f(self, o):
        o = o._sym if isinstance(o, SymFloat) else o
        return getattr(self._sym, name)(o)

    f.__name__ = name
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "rpow", "floordiv", "mod", "eq", "ne", "lt", "le", "gt", "ge"):
    setattr(SymFloat, "__%s__" % _n, _op("__%s__" % _n))


def swap(x, original, new):
    """The class or its methods, for tables of them."""
    if x is original:
        return new
    if isinstance(x, types.MethodType) and x.__self__ is original:
        return getattr(new, x.__name__)
    if isinstance(x, types.FunctionType) and vars(original).get(x.__name__) is x:
        return vars(new)[x.__name__]
    return x


def patch(p, u=None):
    from zquantum.core import utils

    original = utils.ValueEstimate
    tree = ast.parse(textwrap.dedent(inspect.getsource(original)))
    cls = tree.body[0]
    cls.decorator_list = []
    cls.bases = [ast.Name("_SymxFloat", ast.Load()) if isinstance(b, ast.Name) and b.id == "float" else b for b in cls.bases]
    ast.fix_missing_locations(tree)
    p.set(utils, "_SymxFloat", SymFloat)
    local = {}
    exec(compile(tree, inspect.getsourcefile(original), "exec"), utils.__dict__, local)
    new = local[cls.name]
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith("zquantum."):
            continue
        for k, v in list(vars(mod).items()):
            if v is original:
                p.set(mod, k, new)
        for c in list(vars(mod).values()):
            if isinstance(c, type) and str(c.__module__).startswith("zquantum."):
                for k, v in list(vars(c).items()):
                    if isinstance(v, dict) and not k.startswith("__"):
                        w = {swap(a, original, new): swap(b, original, new) for a, b in v.items()}
                        if any(x is not y for x, y in zip(list(v) + list(v.values()), list(w) + list(w.values()))):
                            p.set(c, k, w)
    num.SYMFLOAT[0] = SymFloat
    return new
