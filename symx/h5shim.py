"""HDF5 files whose datasets may hold symbolic numbers.

The file on disk holds a key; what was written under it is kept in memory, so
that moving, replacing and removing files does what it does for real ones.
"""
import itertools

import numpy

from . import npshim
from .num import SymNum

STORE = {}
COUNT = itertools.count()


class Dataset:
    def __init__(self, data, compression):
        if isinstance(data, (list, tuple)) and not any(isinstance(x, (bytes, str)) for x in data):
            data = npshim.NP.array(data)
        a = numpy.asarray(data)
        if a.dtype.kind == "U":
            raise TypeError("No conversion path for dtype: %r" % a.dtype)
        if a.dtype.kind == "S" and a.dtype.itemsize == 0:
            a = a.astype("S1")
        if a.dtype == object and not all(isinstance(x, (SymNum, int, float, complex)) for x in a.flat):
            raise TypeError("Object dtype has no native HDF5 equivalent")
        if compression is not None and a.shape == ():
            raise TypeError("Scalar datasets don't support chunk/filter options")
        self.data = a.copy()

    @property
    def shape(self):
        return self.data.shape

    @property
    def dtype(self):
        return self.data.dtype

    def __getitem__(self, i):
        if i is Ellipsis or i == ():
            r = self.data.copy()
            return r.view(npshim.SArr) if r.dtype == object else r
        return self.data[i]

    def __len__(self):
        return len(self.data)


class Group:
    def __init__(self, tree, path=""):
        self.tree, self.path = tree, path

    def create_group(self, name):
        return Group(self.tree, self.path + name + "/")

    def create_dataset(self, name, shape=None, dtype=None, data=None, compression=None, **k):
        name = self.path + name
        if name in self.tree:
            raise ValueError("Unable to create dataset (name already exists)")
        self.tree[name] = Dataset(data, compression)
        return self.tree[name]

    def __getitem__(self, name):
        name = self.path + name
        if name in self.tree:
            return self.tree[name]
        if any(k.startswith(name + "/") for k in self.tree):
            return Group(self.tree, name + "/")
        raise KeyError("Unable to open object (object %r doesn't exist)" % name)

    def __setitem__(self, name, data):
        self.create_dataset(name, data=data)

    def __contains__(self, name):
        name = self.path + name
        return name in self.tree or any(k.startswith(name + "/") for k in self.tree)

    def keys(self):
        return sorted({k[len(self.path):].split("/")[0] for k in self.tree if k.startswith(self.path)})


class File(Group):
    def __init__(self, name, mode="r", **k):
        if mode == "w":
            key = "h5 %d" % next(COUNT)
            with open(name, "w") as f:
                f.write(key)
            STORE[key] = {}
        elif mode in ("r", "a", "r+"):
            with open(name) as f:
                key = f.read()
            if key not in STORE:
                raise OSError("Unable to open file (file signature not found)")
        else:
            raise ValueError("Invalid mode")
        Group.__init__(self, STORE[key])

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Module:
    File, Group, Dataset = File, Group, Dataset


def patch(p, mod):
    p.set(mod, "h5py", Module)
