"""json for symbolic numbers: they are written as marker strings and read back
as the same number, as printing and reading a number exactly does."""
import json
import re

from . import npshim
from .num import SymBool, SymNum
from .veshim import SymFloat

_TABLE = []
_MARK = "\x02sym%d\x03"
_RE = re.compile("^\x02sym(\\d+)\x03$")


def _walk(x, enc):
    t = type(x)
    if t is SymNum:
        if x.kind == "complex":
            raise TypeError("Object of type complex is not JSON serializable")
        _TABLE.append(x)
        return _MARK % (len(_TABLE) - 1)
    if isinstance(x, SymFloat):
        return _walk(x._sym, enc)
    if t is SymBool:
        return bool(x)
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if type(k) is SymNum:
                k = k.__index__()
            elif not (isinstance(k, (str, int, float, bool)) or k is None):
                raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)
            out[k] = _walk(v, enc)
        return out
    if isinstance(x, (list, tuple)):
        return [_walk(v, enc) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if enc is not None:
        y = enc.default(x)
        if y is x:
            raise TypeError("Object of type %s is not JSON serializable" % t.__name__)
        return _walk(y, enc)
    raise TypeError("Object of type %s is not JSON serializable" % t.__name__)


def _back(x):
    if isinstance(x, str):
        m = _RE.match(x)
        return _TABLE[int(m.group(1))] if m else x
    if isinstance(x, list):
        return [_back(v) for v in x]
    if isinstance(x, dict):
        return {k: _back(v) for k, v in x.items()}
    return x


def _hooked(x, hook):
    if isinstance(x, list):
        return [_hooked(v, hook) for v in x]
    if isinstance(x, dict):
        return hook({k: _hooked(v, hook) for k, v in x.items()})
    return x


class JsonShim:
    JSONDecodeError = json.JSONDecodeError

    def __init__(self, base=json):
        self._base = base

    def __getattr__(self, name):
        return getattr(json, name)

    def dumps(self, x, cls=None, _how="encode", **k):
        default = k.pop("default", None)
        enc = None
        if cls is not None:
            e = cls()
            seen = []

            class Enc:
                default = staticmethod(e.default)

            enc = Enc
            orig = getattr(json.JSONEncoder, _how)
            if getattr(cls, _how) is not orig:
                # let the encoder's own preprocessing run, but write ourselves
                try:
                    setattr(json.JSONEncoder, _how, lambda self, o, *a, **k: seen.append(o) or "")
                    if _how == "encode":
                        e.encode(x)
                    else:
                        list(e.iterencode(x, _one_shot=True))
                finally:
                    setattr(json.JSONEncoder, _how, orig)
                x = seen[0]
        elif default is not None:
            class Enc2:
                pass

            Enc2.default = staticmethod(default)
            enc = Enc2
        return json.dumps(_walk(x, enc), **k)

    def dump(self, x, f, **k):
        f.write(self.dumps(x, _how="iterencode", **k))

    def loads(self, s, cls=None, object_hook=None, **k):
        d = _back(json.loads(s, **k))
        if cls is not None:
            object_hook = cls().object_hook
        return _hooked(d, object_hook) if object_hook is not None else d

    def load(self, f, **k):
        return self.loads(f.read(), **k)


def patch(p, u=None):
    import sys

    try:
        import rapidjson
    except ImportError:
        rapidjson = None
    for name, mod in list(sys.modules.items()):
        if not name.startswith("zquantum.") or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if v is json or (rapidjson is not None and v is rapidjson):
                p.set(mod, k, JsonShim())


class MarshalShim:
    """marshal for symbolic numbers, by the same markers."""

    def dump(self, x, f):
        f.write(self.dumps(x))

    def load(self, f):
        return self.loads(f.read())

    def dumps(self, x):
        import marshal

        def walk(v):
            if type(v) is SymNum:
                _TABLE.append(v)
                return _MARK % (len(_TABLE) - 1)
            if isinstance(v, dict):
                return {walk(k): walk(w) for k, w in v.items()}
            if isinstance(v, (list, tuple)):
                return type(v)(walk(w) for w in v)
            return v

        return marshal.dumps(walk(x))

    def loads(self, s):
        import marshal

        def back(v):
            if isinstance(v, dict):
                return {back(k): back(w) for k, w in v.items()}
            if isinstance(v, (list, tuple)):
                return type(v)(back(w) for w in v)
            return _back(v)

        return back(marshal.loads(s))
