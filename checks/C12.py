"""Conversions between integers, bit lists, bit strings and orbital indices are inverse to each other."""
from zquantum.core import measurement as M
from zquantum.core import utils as U
from zquantum.core.openfermion.utils import indexing as X

LEVEL = "model_checking"


def number(h, length):
    k = h.fixed_int("k", 0, 2 ** length - 1)
    b = U.dec2bin(k, length)
    h.same(list(b), [(k >> (length - 1 - i)) & 1 for i in range(length)], "binary digits, most significant first, padded")
    h.check(type(b) is list and all(type(x) is int for x in b), "a list of integers")
    h.same(U.bin2dec(b), k, "converted back")
    over = h.fixed_int("over", 0, 3)
    h.raises((SystemExit, ValueError), lambda: U.dec2bin(2 ** length + over, length), "a number too large for its length is refused")


def bits(h, n):
    b = [h.int("b%d" % i, 0, 1) for i in range(n)]
    given = list(b)
    v = U.bin2dec(b)
    want = 0
    for x in b:
        want = want * 2 + x
    h.eq(v, want, "value of the bits, most significant first")
    h.check(all(x is y for x, y in zip(b, given)), "bits are left alone")


def little(h, n):
    b = [h.fixed_int("b%d" % i, 0, 1) for i in range(n)]
    kind = h.choice("as", [tuple, list])
    h.same(M.convert_bitstring_to_int(kind(b)), sum(x << i for i, x in enumerate(b)), "value of the bits, least significant first")


def strings(h, n, m):
    ts = [tuple(h.fixed_int("b%d_%d" % (i, j), 0, 1) for j in range(n)) for i in range(m)]
    ss = U.convert_tuples_to_bitstrings(ts)
    h.same(ss, ["".join(map(str, t)) for t in ts], "strings of the tuples, in order")
    h.same(U.convert_bitstrings_to_tuples(ss), ts, "and back")
    h.check(all(type(t) is tuple and all(type(x) is int for x in t) for t in U.convert_bitstrings_to_tuples(iter(ss))), "tuples of integers")


def ordered(h):
    n = h.fixed_int("n", 0, 6)
    s = U.get_ordered_list_of_bitstrings(n)
    if n == 0:
        h.same(len(s), 1, "one outcome of no bits")
        return
    k = h.fixed_int("k", 0, 2 ** n - 1)
    h.same(len(s), 2 ** n, "all bitstrings")
    h.check(len(s[k]) == n and int(s[k], 2) == k, "in ascending order")


def spins(h):
    i, j = h.int("i", 0, 10 ** 6), h.int("j", 0, 10 ** 6)
    h.eq(X.up_index(i), 2 * i, "spin up of orbital i")
    h.eq(X.down_index(i), 2 * i + 1, "spin down of orbital i")
    h.check(X.up_index(i) != X.down_index(j), "spin orbitals are distinct")


def reorder(h):
    """up_then_down is the documented bijection."""
    n = h.int("n", 1, 400)
    i, j = h.int("i", 0, 399), h.int("j", 0, 399)
    h.assume(i < n)
    h.assume(j < n)
    a, b = X.up_then_down(i, n), X.up_then_down(j, n)
    h.check(h.both(a >= 0, a < n), "within range")
    half = (n + 1) // 2
    if i % 2 == 0:
        h.eq(2 * a, i, "even indices first, in order")
    else:
        h.eq(2 * (a - half) + 1, i, "then odd indices, in order")
    h.check(h.either(a != b, i == j), "no two modes meet")


UNITS = []
for n in (1, 2, 3, 4, 5, 6, 8):
    UNITS.append(dict(name="number/%d" % n, fn=number, args=dict(length=n), bounds="all numbers of %d bits" % n))
for n in (1, 4, 16, 40):
    UNITS.append(dict(name="bits/%d" % n, fn=bits, args=dict(n=n), types=True, bounds="all lists of %d bits" % n))
for n in (1, 2, 5, 7):
    UNITS.append(dict(name="little/%d" % n, fn=little, args=dict(n=n), types=True, bounds="all lists of %d bits" % n))
for n, m in ((1, 4), (2, 3), (3, 2), (5, 1), (2, 0)):
    UNITS.append(dict(name="strings/%d/%d" % (n, m), fn=strings, args=dict(n=n, m=m), bounds="all lists of %d tuples of %d bits" % (m, n)))
UNITS.append(dict(name="ordered", fn=ordered, bounds="up to 6 bits"))
UNITS.append(dict(name="spins", fn=spins, types=True, bounds="orbitals up to 10^6"))
UNITS.append(dict(name="reorder", fn=reorder, types=True, bounds="up to 400 modes, any two modes"))
