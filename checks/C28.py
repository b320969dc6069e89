"""Operators, tensors and evaluations survive being written and read."""
import io
import json
import os
import shutil
import tempfile

import sympy
from zquantum.core import openfermion as OF
from zquantum.core.openfermion import FermionOperator, InteractionOperator, InteractionRDM, IsingOperator, QubitOperator
from zquantum.core.openfermion.ops.representations import interaction_operator as IO
from zquantum.core.openfermion.utils import operator_utils as OU
from zquantum.core.utils import ValueEstimate

from symx import jsonshim, num

LEVEL = "model_checking"
ASSUMPTIONS = ["JSON and marshal write and read back finite numbers exactly; files return what was written."]


def PATCH(p, u=None):
    jsonshim.patch(p, u)
    p.set(OU, "marshal", jsonshim.MarshalShim())
    p.set(num, "PYTEXT", [True])


POOL = {
    FermionOperator: [(), ((0, 1),), ((11, 1), (0, 0)), ((0, 0), (1, 1), (2, 1)), ((2, 1), (2, 0))],
    QubitOperator: [(), ((0, "X"),), ((0, "Y"), (10, "Z")), ((1, "Z"), (2, "Y"), (3, "X")), ((12, "X"),)],
    IsingOperator: [(), ((0, "Z"),), ((10, "Z"),), ((0, "Z"), (1, "Z")), ((1, "Z"), (2, "Z"), (13, "Z"))],
}
TO = {QubitOperator: "qubitop", IsingOperator: "isingop"}


def coefficient(h, tag, kinds):
    k = h.choice(tag + "kind", kinds)
    if k == "complex":
        return h.complex(tag)
    if k == "imaginary":
        return 1j * h.real(tag, 0.1, 9)
    if k == "int":
        return h.int(tag, 1, 9)
    if k == "tiny":
        return h.real(tag, -1e-9, 1e-9)
    return h.real(tag, *(0.1, 9) if k == "positive" else (-9, -0.1))


def operator(h, cls, k, kinds=("complex", "imaginary", "int", "negative", "positive")):
    op, r = cls(), h.fixed_int("rot", 0, len(POOL[cls]) - 1)
    for i in range(k):
        op.terms[POOL[cls][(i + r) % len(POOL[cls])]] = coefficient(h, "c%d" % i, kinds)
    return op


def scratch(f):
    d = tempfile.mkdtemp()
    try:
        return f(d)
    finally:
        shutil.rmtree(d)


def read(load, save, x, way):
    """x after a round trip through a file, read by name or from a handle."""

    def f(d):
        p = os.path.join(d, "x.json")
        save(x, p)
        if way == "name":
            return load(p)
        with open(p) as fd:
            return load(fd if way == "handle" else io.StringIO(fd.read()))

    return scratch(f)


def agree(h, a, b, label):
    """Same class, same terms; terms the format may drop have tiny coefficients."""
    h.check(type(a) is type(b), label + ": class")
    for t in sorted(set(a.terms) | set(b.terms)):
        h.close(a.terms.get(t, 0), b.terms.get(t, 0), label + ": coefficients", 1e-7)


def dicts(h, cls, k, kinds):
    op = operator(h, cls, k, kinds)
    before = dict(op.terms)
    name = TO[cls]
    to, back = getattr(OF, "convert_%s_to_dict" % name), getattr(OF, "convert_dict_to_%s" % name)
    way = h.choice("way", (["dict", "name"] if k == 2 else ["dict", "name", "handle", "buffer"]) + (["set"] if cls is QubitOperator else []))
    if way == "dict":
        r = back(to(op))
    elif way == "set":
        other = QubitOperator("X5 Y7", 2.5)
        how = h.choice("how", ["name", "handle"])
        rs = read(OF.load_qubit_operator_set, OF.save_qubit_operator_set, [other, op, QubitOperator()], how)
        h.same(len(rs), 3, "as many operators")
        h.same((rs[0].terms, rs[2].terms), (other.terms, {}), "in their order")
        r = rs[1]
    elif cls is QubitOperator:
        r = read(OF.load_qubit_operator, OF.save_qubit_operator, op, way)
    else:
        r = read(OF.load_ising_operator, OF.save_ising_operator, op, way)
    agree(h, r, op, "operator")
    h.check(dict(op.terms) == before, "the operator is left alone")


def small(h, cls):
    """Tiny and vanishing terms: nothing else appears."""
    op = operator(h, cls, 2, ("tiny", "positive"))
    name = TO[cls]
    agree(h, getattr(OF, "convert_dict_to_" + name)(getattr(OF, "convert_%s_to_dict" % name)(op)), op, "operator")


def array(h, tag, n, k, cplx):
    t = IO.numpy.zeros((n,) * k, complex if cplx else float)
    for i in range(n ** k):
        idx, j = (), i
        for _ in range(k):
            idx, j = idx + (j % n,), j // n
        t[idx] = h.complex(tag + "%d" % i) if cplx else h.real(tag + "%d" % i, -9, 9)
    return t


def tensors(h, n, rdm):
    cplx = h.flag("cplx")
    mixed = h.flag("mixed")
    one, two = array(h, "o", n, 2, cplx), array(h, "t", n, 4, cplx != mixed)
    way = h.choice("way", ["dict", "name", "handle", "buffer"])
    if rdm:
        op = InteractionRDM(one, two)
        to, back, save, load = OF.convert_interaction_rdm_to_dict, OF.convert_dict_to_interaction_rdm, OF.save_interaction_rdm, OF.load_interaction_rdm
    else:
        const = h.choice("const", ["real", "complex", "zero"])
        c = h.real("c", -9, 9) if const == "real" else h.complex("c") if const == "complex" else 0
        op = InteractionOperator(c, one, two)
        to, back, save, load = OF.convert_interaction_op_to_dict, OF.convert_dict_to_interaction_op, OF.save_interaction_operator, OF.load_interaction_operator
    r = back(to(op)) if way == "dict" else read(load, save, op, way)
    h.check(type(r) is type(op), "class")
    if not rdm:
        h.close(r.constant, c, "constant")
    for name, t in (("one_body_tensor", one), ("two_body_tensor", two)):
        b = getattr(r, name)
        h.same(b.shape, t.shape, name + ": shape")
        h.close([h.value(x) for x in b.reshape(-1)], [h.value(x) for x in t.reshape(-1)], name)


def data_files(h, cls, k, kinds):
    """save_operator and load_operator, in both formats."""
    op = operator(h, cls, k, kinds)
    before = dict(op.terms)
    plain = h.flag("plain")
    ext = h.choice("name", ["op", "op.data", "op.data.x"] if k < 2 else ["op"])

    def f(d):
        kw = dict(data_directory=d, plain_text=plain)
        OU.save_operator(op, ext, **kw)
        h.same(os.listdir(d), [ext if ext.endswith(".data") else ext + ".data"], "one file with the given name")
        agree(h, OU.load_operator(ext, **kw), op, "operator")
        h.check(dict(op.terms) == before, "the operator is left alone")
        other = cls(POOL[cls][-1], 3.0)
        h.raises(OU.OperatorUtilsError, lambda: OU.save_operator(other, ext, **kw), "existing files are kept")
        agree(h, OU.load_operator(ext, **kw), op, "operator after a refused overwrite")
        OU.save_operator(other, ext, allow_overwrite=True, **kw)
        agree(h, OU.load_operator(ext, **kw), other, "overwritten")

    scratch(f)


def refused(h):
    plain = h.flag("plain")

    def f(d):
        kw = dict(data_directory=d, plain_text=plain)
        op = h.choice("op", [FermionOperator((), sympy.Symbol("a")), QubitOperator("X0", sympy.Symbol("a") + 1) + QubitOperator("Z1")])
        h.raises(TypeError, lambda: OU.save_operator(op, "a", **kw), "symbolic coefficients")
        h.raises(TypeError, lambda: OU.save_operator("X0", "a", **kw), "other objects")
        h.raises(NotImplementedError, lambda: OU.save_operator(InteractionOperator.zero(2), "a", **kw), "interaction operators")
        h.raises(OU.OperatorUtilsError, lambda: OU.save_operator(QubitOperator("X0"), **kw), "no name")
        h.same(os.listdir(d), [], "nothing is written")

    scratch(f)


def strings(h, k):
    op = operator(h, QubitOperator, k, ("positive",))
    s = OF.get_pauli_strings(op)
    h.same(len(s), k, "one string per term")
    for t, x in zip(op.terms, s):
        h.same(x, "".join(p + str(q) for q, p in t), "string of a term, in order")


def text(h, cls, k):
    """Operators read from text have the coefficients it states."""
    want, parts = {}, []
    for i in range(k):
        t = POOL[cls][h.fixed_int("t%d" % i, 0, len(POOL[cls]) - 1)]
        c, v = h.choice("c%d" % i, [("", 1), ("-", -1), ("2.5", 2.5), ("-1e-3", -0.001), ("1e+2", 100), ("2j", 2j), ("-2j", -2j), ("1+2j", 1 + 2j), ("-1+2j", -1 + 2j), ("(-1+2j)", -1 + 2j),
                                    ("-(1+2j)", -1 - 2j), ("(1-2j)", 1 - 2j), ("-1-2j", -1 - 2j), ("1 - 2j", 1 - 2j)])
        spaced = "%s" if i % 2 else "%s "
        op = " ".join("%d%s" % (q, "^" if a else "") if cls is FermionOperator else "%s%d" % (a, q) for q, a in t)
        parts.append(spaced % c + "[" + op + "]")
        want[t] = want.get(t, 0) + v
    f = h.real("f", 0.1, 9)
    r = cls(h.choice("sep", [" + ", "+", " +\n"]).join(parts), f)
    h.same(set(r.terms), set(want), "terms")
    for t in want:
        h.close(r.terms[t], want[t] * f, "coefficients")


def grid(h):
    """A saved grid has the values and precisions, and the list is left alone."""
    a, b = ValueEstimate(1.5, 0.25), ValueEstimate(-2.0)
    ev = [{"parameter1": h.real("x", -9, 9), "parameter2": h.real("y", -9, 9), "value": a}, {"parameter1": h.real("z", -9, 9), "value": b}]
    copy = [dict(e) for e in ev]

    def f(d):
        p = os.path.join(d, "g.json")
        for _ in range(h.choice("times", [1, 2])):
            OF.save_parameter_grid_evaluation(ev, p)
        with open(p) as fd:
            return OU_json().load(fd)

    r = scratch(f)["values_set"]
    h.same(len(r), 2, "as many points")
    for i in range(2):
        h.same(set(r[i]), set(copy[i]), "fields")
        for k in copy[i]:
            if k != "value":
                h.close(r[i][k], copy[i][k], "parameters")
        v = ValueEstimate.from_dict(r[i]["value"])
        h.check(v == copy[i]["value"], "values and precisions")
        h.check(ev[i] == copy[i] and type(ev[i]["value"]) is ValueEstimate, "the list is left alone")


def OU_json():
    from zquantum.core.openfermion.zapata_utils import _io

    return _io.json


UNITS = []
ALL = ("complex", "imaginary", "int", "negative", "positive")


def add(name, fn, b, th=False, **args):
    UNITS.append(dict(name=name, fn=fn, args=args, thorough=bool(th), types=True, bounds=b))


for cls in (QubitOperator, IsingOperator):
    for k in (0, 1, 2, 3):
        add("dicts/%s/%d" % (cls.__name__, k), dicts, "%d terms" % k, k > 2, cls=cls, k=k, kinds=ALL if k < 2 else ("complex", "negative"))
    add("dicts/%s/2/all" % cls.__name__, dicts, "two terms, every kind of coefficient", True, cls=cls, k=2, kinds=ALL)
    add("small/%s" % cls.__name__, small, "two terms, tiny coefficients", cls=cls)
for n in (1, 2):
    for rdm in (False, True):
        add("tensors/%s/%d" % ("rdm" if rdm else "operator", n), tensors, "all real or complex tensors on %d modes" % n, n=n, rdm=rdm)
for cls in (FermionOperator, QubitOperator):
    for k in (1, 2, 3):
        add("data_files/%s/%d" % (cls.__name__, k), data_files, "%d terms" % k, k > 2, cls=cls, k=k, kinds=ALL if k < 2 else ("complex", "negative"))
    add("data_files/%s/2/all" % cls.__name__, data_files, "two terms, every kind of coefficient", True, cls=cls, k=2, kinds=ALL)
    add("data_files/zero/%s" % cls.__name__, data_files, "zero operator", cls=cls, k=0, kinds=())
    for k in (1, 2):
        add("data_files/tiny/%s/%d" % (cls.__name__, k), data_files, "%d terms, tiny coefficients" % k, cls=cls, k=k, kinds=("tiny", "positive"))
    for k in (1, 2):
        add("text/%s/%d" % (cls.__name__, k), text, "%d terms, all number formats" % k, k > 1, cls=cls, k=k)
add("refused", refused, "unsupported objects")
add("strings/2", strings, "two terms", k=2)
add("grid", grid, "all parameters")
