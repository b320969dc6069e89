"""The next version is the next minor release."""
import contextlib
import importlib.util
import io
import os
import re
import sys

from symx import num
from symx import text as T

LEVEL = "model_checking"
ASSUMPTIONS = ["Versions are ASCII text of the stated lengths."]
import symx.run

PATH = os.path.join(symx.run.REPO, "subtrees/z_quantum_actions/bin/get_next_version.py")
spec = importlib.util.spec_from_file_location("get_next_version", PATH)
NV = sys.modules["get_next_version"] = importlib.util.module_from_spec(spec)
spec.loader.exec_module(NV)


def PATCH(p, u=None):
    p.set(num, "PYTEXT", [True])
    T.patch(p, [NV])


MARK = re.compile(r"<m(\d+)>|<t(\d+)>|([0-9]+)|(.)", re.S)


def pieces(h, s):
    """Numbers and characters (codes) a text is made of."""
    if isinstance(s, T.Text):
        return s.codes
    out = []
    for m, t, n, c in MARK.findall(s):
        if m:
            out.append(("n", num._MAGNITUDES[int(m)]))
        elif t:
            out += T.TEXTS[int(t)].codes
        elif n:
            out.append(("n", int(n)))
        else:
            out.append(ord(c))
    return out


def same_text(h, got, want, label):
    """want: characters, numbers (as tuples)."""
    if not h.symbolic:
        h.same(got, "".join(str(x[1]) if isinstance(x, tuple) else chr(x) for x in want), label)
        return
    got = pieces(h, got)
    h.same([isinstance(x, tuple) for x in got], [isinstance(x, tuple) for x in want], label)
    for x, y in zip(got, want):
        h.eq(x[1] if isinstance(x, tuple) else x, y[1] if isinstance(y, tuple) else y, label)


def text(h, codes):
    return T.Text(codes) if h.symbolic else "".join(chr(c) for c in codes)


def number(h, name, digits):
    """A numeral: its characters and its value."""
    k = h.choice(name + "_len", digits)
    cs = [h.int("%s_%d" % (name, i), 48, 57) for i in range(k)]
    if k > 1:
        h.assume(cs[0] != 48)
    v = 0
    for c in cs:
        v = v * 10 + (c - 48)
    return cs, v


def version(h, digits, pre):
    """major.minor, maybe .patch, maybe .pre (starting with a letter)."""
    a, b = number(h, "a", digits), number(h, "b", digits)
    cs = a[0] + [46] + b[0]
    p = None
    if h.flag("patch"):
        c = number(h, "c", digits)
        cs, p = cs + [46] + c[0], c[1]
    e = None
    if pre:
        k = h.choice("pre_len", [None] + list(range(1, pre + 1)))
        if k:
            e = [h.int("e%d" % i, 33, 126) for i in range(k)]
            h.assume(h.negate(h.both(e[0] >= 48, e[0] <= 57)))
            cs = cs + [46] + e
    return cs, a[1], b[1], p, e


def parsed(h, digits, pre):
    cs, a, b, p, e = version(h, digits, pre)
    v = NV.parse_version_str(text(h, cs))
    h.eq(v.major, a, "major")
    h.eq(v.minor, b, "minor")
    h.check((v.patch is None) == (p is None), "there is a patch number if there is one")
    if p is not None:
        h.eq(v.patch, p, "patch")
    h.check((v.pre is None) == (e is None), "there is a suffix if there is one")
    if e is not None:
        same_text(h, v.pre, e, "suffix")
    want = [("n", a), 46, ("n", b)] + ([46, ("n", p)] if p is not None else []) + ([46] + e if e is not None else [])
    same_text(h, v.version_str, want, "printed as it was read")
    nxt = v.bump_minor
    h.check(type(nxt) is NV.Semver, "a version")
    h.eq((nxt.major, nxt.minor, nxt.patch), (a, b + 1, 0), "next minor version")
    h.check(nxt.pre is None, "no suffix")
    same_text(h, nxt.version_str, [("n", a), 46, ("n", b + 1), 46, ("n", 0)], "next version")


class Output(io.StringIO):
    pass


def script(h, digits, pre):
    """What the action prints."""
    cs, a, b, p, e = version(h, digits, pre)
    cs = cs + [10] if h.flag("newline") else cs
    asked = []

    class Sub:
        @staticmethod
        def check_output(cmd, *x, **k):
            asked.append(list(cmd))
            return text(h, cs) if h.symbolic else text(h, cs).encode()

    old, NV.subprocess = NV.subprocess, Sub
    try:
        out = Output()
        with contextlib.redirect_stdout(out):
            NV.main()
    finally:
        NV.subprocess = old
    h.same(asked, [["python3", "setup.py", "--version"]], "the version is asked for once")
    line = [l for l in out.getvalue().split("\n") if l.startswith("::set-output name=next_version::")]
    h.same(len(line), 1, "one output is set")
    same_text(h, line[0][len("::set-output name=next_version::"):], [("n", a), 46, ("n", b + 1), 46, ("n", 0)], "the next version")


def arbitrary(h, n):
    """Any text: a version if it starts with digits, a dot and digits."""
    cs = [h.int("c%d" % i, 32, 126) for i in range(n)]
    digit = lambda c: bool(c >= 48) and bool(c <= 57)
    i = 0
    while i < n and digit(cs[i]):
        i += 1
    j = i + 1
    while i and i < n and bool(cs[i] == 46) and j < n and digit(cs[j]):
        j += 1
    t = text(h, cs)
    if i and j > i + 1:
        v = NV.parse_version_str(t)
        a = b = 0
        for c in cs[:i]:
            a = a * 10 + (c - 48)
        for c in cs[i + 1:j]:
            b = b * 10 + (c - 48)
        h.eq((v.major, v.minor), (a, b), "major and minor")
        w = v.bump_minor
        h.eq((w.major, w.minor, w.patch), (a, b + 1, 0), "next minor version")
    else:
        h.raises(ValueError, lambda: NV.parse_version_str(t), "no version")


def printed(h):
    """Versions made of numbers, with and without parts."""
    a, b = h.int("a", 0, 10 ** 6), h.int("b", 0, 10 ** 6)
    p = h.int("p", 0, 10 ** 6) if h.flag("patch") else None
    pre = h.choice("pre", [None, "dev3", "rc1"])
    v = NV.Semver(a, b, p, pre)
    same_text(h, v.version_str, [("n", a), 46, ("n", b)] + ([46, ("n", p)] if p is not None else []) + ([46] + suffix(pre) if pre else []), "parts in order")
    same_text(h, v.bump_minor.version_str, [("n", a), 46, ("n", b + 1), 46, ("n", 0)], "next version")


def suffix(pre):
    return [("n", int(x)) if x.isdigit() else ord(x) for x in pre]


UNITS = []


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


add("parsed/1-2", parsed, "numbers of up to 2 digits, suffixes of up to 2 characters", digits=[1, 2], pre=2)
add("parsed/3", parsed, "numbers of 3 digits, suffixes of up to 4 characters", digits=[3], pre=4)
add("parsed/1-4", parsed, "numbers of up to 4 digits, suffixes of up to 6 characters", True, digits=[1, 2, 3, 4], pre=6)
add("script/1-2", script, "numbers of up to 2 digits, suffixes of up to 3 characters", digits=[1, 2], pre=3)
for n in range(7):
    add("arbitrary/%d" % n, arbitrary, "all texts of %d characters" % n, n > 5, n=n)
add("printed", printed, "all numbers up to a million")
