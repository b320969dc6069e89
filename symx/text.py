"""Symbolic text: strings of known length whose characters are symbolic codes.

A Text stands for all strings of its length; `re` patterns are matched by a
backtracking matcher that forks on character classes, so a path of the program
stands for all the strings that the pattern treats alike.
"""
import builtins
import re

try:
    import sre_constants as C
    import sre_parse
except ImportError:  # pragma: no cover
    from re import _constants as C
    from re import _parser as sre_parse

TEXTS = []


def between(c, lo, hi):
    return lo <= c and c <= hi


class Text:
    """chars: codes (int or symbolic int)."""

    def __init__(self, codes):
        self.codes = list(codes)

    @staticmethod
    def of(x):
        return x if isinstance(x, Text) else Text([ord(c) for c in x])

    def __len__(self):
        return len(self.codes)

    def __iter__(self):
        return (Text([c]) for c in self.codes)

    def __getitem__(self, i):
        return Text(self.codes[i] if isinstance(i, slice) else [self.codes[i]])

    def __add__(self, o):
        return Text(self.codes + Text.of(o).codes)

    def __radd__(self, o):
        return Text(Text.of(o).codes + self.codes)

    def __eq__(self, o):
        if not isinstance(o, (str, Text)):
            return False
        o = Text.of(o)
        return len(o) == len(self) and all(bool(a == b) for a, b in zip(self.codes, o.codes))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __bool__(self):
        return len(self.codes) > 0

    def __format__(self, spec):
        TEXTS.append(self)
        return "<t%d>" % (len(TEXTS) - 1)

    __str__ = __repr__ = lambda self: format(self, "")

    def decode(self, *a):
        return self

    def strip(self, chars=" \t\n\r\x0b\x0c"):
        return self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=" \t\n\r\x0b\x0c"):
        i = 0
        while i < len(self) and _in(self.codes[i], chars):
            i += 1
        return self[i:]

    def rstrip(self, chars=" \t\n\r\x0b\x0c"):
        i = len(self)
        while i > 0 and _in(self.codes[i - 1], chars):
            i -= 1
        return self[:i]

    def startswith(self, s):
        return len(self) >= len(s) and self[: len(s)] == s

    def endswith(self, s):
        return len(self) >= len(s) and (len(s) == 0 or self[-len(s) :] == s)

    def find(self, s, start=0):
        for i in range(start, len(self) - len(s) + 1):
            if self[i : i + len(s)] == s:
                return i
        return -1

    def __contains__(self, s):
        return self.find(s) >= 0

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise NotImplementedError("split at blanks")
        out, s = [], self
        while maxsplit != 0:
            i = s.find(sep)
            if i < 0:
                break
            out.append(s[:i])
            s = s[i + len(sep) :]
            maxsplit -= 1
        return out + [s]

    def partition(self, sep):
        i = self.find(sep)
        return (self, "", "") if i < 0 else (self[:i], sep, self[i + len(sep) :])

    def isdigit(self):
        return len(self) > 0 and all(between(c, 48, 57) for c in self.codes)

    isdecimal = isnumeric = isdigit


def _in(c, chars):
    return any(bool(c == ord(x)) for x in chars)


class IntMeta(type(builtins.int)):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)


def to_int(x=0, *a):
    """int() of a text: digits, blanks around and underscores left out."""
    if not isinstance(x, Text):
        return builtins.int(x, *a)
    x = x.strip()
    if not x.isdigit():
        raise ValueError("invalid literal for int()")
    v = 0
    for c in x.codes:
        v = v * 10 + (c - 48)
    return v


# --- regular expressions

CATEGORY = {
    C.CATEGORY_DIGIT: lambda c: between(c, 48, 57),
    C.CATEGORY_SPACE: lambda c: _in(c, " \t\n\r\x0b\x0c"),
    C.CATEGORY_WORD: lambda c: between(c, 48, 57) or between(c, 65, 90) or between(c, 97, 122) or bool(c == 95),
}
CATEGORY[C.CATEGORY_NOT_DIGIT] = lambda c: not CATEGORY[C.CATEGORY_DIGIT](c)
CATEGORY[C.CATEGORY_NOT_SPACE] = lambda c: not CATEGORY[C.CATEGORY_SPACE](c)
CATEGORY[C.CATEGORY_NOT_WORD] = lambda c: not CATEGORY[C.CATEGORY_WORD](c)


def _member(c, items):
    neg, hit = False, False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif not hit:
            if op is C.LITERAL:
                hit = bool(c == av)
            elif op is C.RANGE:
                hit = bool(between(c, *av))
            elif op is C.CATEGORY:
                hit = bool(CATEGORY[av](c))
            else:
                raise NotImplementedError("regular expression %s" % op)
    return hit != neg


def _walk(ops, text, i, groups):
    """All ways to match, in order of preference."""
    if not ops:
        yield i, groups
        return
    (op, av), rest = ops[0], ops[1:]
    n = len(text)
    if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
        if i < n:
            c = text.codes[i]
            ok = bool(c == av) if op is C.LITERAL else not (c == av) if op is C.NOT_LITERAL else not (c == 10) if op is C.ANY else _member(c, av)
            if ok:
                yield from _walk(rest, text, i + 1, groups)
    elif op is C.SUBPATTERN:
        g, sub = av[0], list(av[-1])
        for j, gs in _walk(sub, text, i, groups):
            yield from _walk(rest, text, j, dict(gs, **{str(g): (i, j)}) if g is not None else gs)
    elif op is C.BRANCH:
        for b in av[1]:
            yield from _walk(list(b) + rest, text, i, groups)
    elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)
        more = lambda: (x for j, gs in _walk(sub, text, i, groups) if j > i or lo > 0 for x in _walk([(op, (max(lo - 1, 0), hi - 1 if hi is not C.MAXREPEAT else hi, sub))] + rest, text, j, gs))
        if hi is C.MAXREPEAT or hi > 0:
            if op is C.MAX_REPEAT:
                yield from more()
                if lo <= 0:
                    yield from _walk(rest, text, i, groups)
            else:
                if lo <= 0:
                    yield from _walk(rest, text, i, groups)
                yield from more()
        elif lo <= 0:
            yield from _walk(rest, text, i, groups)
    elif op is C.AT:
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            ok = i == 0
        elif av is C.AT_END:
            ok = i == n or (i == n - 1 and bool(text.codes[i] == 10))
        elif av is C.AT_END_STRING:
            ok = i == n
        else:
            raise NotImplementedError("regular expression %s" % av)
        if ok:
            yield from _walk(rest, text, i, groups)
    else:
        raise NotImplementedError("regular expression %s" % op)


class Match:
    def __init__(self, text, start, end, groups, index, count):
        self.string, self._start, self._end, self._groups, self._index, self._count = text, start, end, groups, index, count

    def group(self, *which):
        out = []
        for w in which or (0,):
            if w == 0:
                out.append(self.string[self._start : self._end])
                continue
            k = self._groups.get(str(self._index[w] if isinstance(w, str) else w))
            out.append(None if k is None else self.string[k[0] : k[1]])
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        out = [self.group(i + 1) for i in range(self._count)]
        return tuple(default if g is None else g for g in out)

    def groupdict(self, default=None):
        return {k: default if self.group(k) is None else self.group(k) for k in self._index}


class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags
        self.real = re.compile(pattern, flags)
        self.tree = sre_parse.parse(pattern, flags)

    def _at(self, text, i, full):
        if self.flags & ~re.ASCII:
            raise NotImplementedError("flags")
        for j, gs in _walk(list(self.tree), text, i, {}):
            if not full or j == len(text):
                return Match(text, i, j, gs, self.real.groupindex, self.real.groups)
        return None

    def match(self, s, *a):
        return self._at(s, 0, False) if isinstance(s, Text) else self.real.match(s, *a)

    def fullmatch(self, s, *a):
        return self._at(s, 0, True) if isinstance(s, Text) else self.real.fullmatch(s, *a)

    def search(self, s, *a):
        if not isinstance(s, Text):
            return self.real.search(s, *a)
        for i in range(len(s) + 1):
            m = self._at(s, i, False)
            if m:
                return m
        return None

    def __getattr__(self, k):
        return getattr(self.real, k)


class ReShim:
    def compile(self, p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(getattr(p, "pattern", p), flags)

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def __getattr__(self, k):
        return getattr(re, k)


def patch(p, mods):
    """The modules' re and int work on texts; compiled patterns too."""
    for m in mods:
        for k, v in list(vars(m).items()):
            if v is re:
                p.set(m, k, ReShim())
            elif isinstance(v, re.Pattern):
                p.set(m, k, Pattern(v.pattern, v.flags & ~re.UNICODE))
        p.set(m, "int", to_int)
