"""Random draws as nondeterministic choices.

While `scripted(h, name)` is active every draw from numpy.random or random is an
input of the harness: any outcome of nonzero probability.  Replays feed the
recorded outcomes back, so that the same run happens on the real code.
"""
import contextlib
import random

import numpy

from . import npshim
from .num import SymNum


class Generator:
    def __init__(self, h, name, log):
        self.h, self.name, self.n, self.log = h, name, 0, log

    def _next(self):
        self.n += 1
        return "%s%d" % (self.name, self.n)

    def choice(self, a, size=None, replace=True, p=None, **k):
        if isinstance(a, (int, numpy.integer)):
            a = range(a)
        a = list(a)
        if p is not None:
            p = list(p)
            if len(p) != len(a):
                raise ValueError("'a' and 'p' must have same size")
            tot = 0
            for x in p:
                if x < 0:
                    raise ValueError("probabilities are not non-negative")
                tot = tot + x
            if not (abs(tot - 1) < 1e-6):
                raise ValueError("probabilities do not sum to 1")
        if not replace:
            raise NotImplementedError("choice without replacement")
        self.log.append(("choice", list(a), size, p))
        out = []
        for _ in range(1 if size is None else int(size)):
            i = self.h.choice(self._next(), list(range(len(a))))
            if p is not None:
                self.h.assume(p[i] > 1e-9)
            out.append(a[i])
        if size is None:
            return out[0]
        r = numpy.empty(len(out), dtype=object)
        for i, v in enumerate(out):
            r[i] = v
        return r

    def uniform(self, low=0.0, high=1.0, size=None):
        self.log.append(("uniform", low, high, size))
        if size is None:
            return self.h.real(self._next(), low, high)
        n = size if isinstance(size, int) else int(numpy.prod(size))
        r = numpy.empty(n, dtype=object)
        for i in range(n):
            r[i] = self.h.real(self._next(), low, high)
        r = r.reshape(size)
        return r.view(npshim.SArr) if self.h.symbolic else r.astype(float)

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.log.append(("normal", loc, scale, size))
        n = 1 if size is None else (size if isinstance(size, int) else int(numpy.prod(size)))
        r = numpy.empty(n, dtype=object)
        for i in range(n):
            r[i] = self.h.real(self._next())
        if size is None:
            return r[0]
        r = r.reshape(size)
        return r.view(npshim.SArr) if self.h.symbolic else r.astype(float)

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def integers(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        f = lambda: self.h.fixed_int(self._next(), int(low), int(high) - 1)
        if size is None:
            return f()
        return numpy.array([f() for _ in range(int(size))])

    randint = integers

    def seed(self, *a):
        self.log.append(("seed",) + a)


@contextlib.contextmanager
def scripted(h, name="rng"):
    """Yields the log of the draws requested."""
    log = []
    g = Generator(h, name, log)

    def default_rng(seed=None):
        log.append(("default_rng", seed))
        return g

    names = ("choice", "uniform", "normal", "random", "randint", "seed")
    if h.symbolic:
        target = npshim.NP.random
        saved = dict(target.__dict__)
        target.default_rng = default_rng
        for n in names:
            setattr(target, n, getattr(g, n))
        try:
            yield log
        finally:
            target.__dict__.clear()
            target.__dict__.update(saved)
    else:
        saved = {n: getattr(numpy.random, n) for n in names + ("default_rng",)}
        numpy.random.default_rng = default_rng
        for n in names:
            setattr(numpy.random, n, getattr(g, n))
        try:
            yield log
        finally:
            for n, v in saved.items():
                setattr(numpy.random, n, v)
