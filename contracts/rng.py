"""Contract of a random generator: every draw is an arbitrary value of the distribution's support, remembered in a log."""
import numpy as np


class Rng:
    def __init__(self, cx, prefix="rnd"):
        self.cx, self.prefix, self.k, self.log, self.generations = cx, prefix, 0, [], 0
        self.replay = None

    # a second pass over the same draws (self-composition)
    def rewind(self):
        self.replay, self.log, self.k = list(self.log), [], 0

    def _one(self, kind, **kw):
        j = len(self.log)
        if self.replay is not None and j < len(self.replay):
            v = self.replay[j][1]
        elif kind == "int":
            v = self.cx.int(f"{self.prefix}{self.k}", lo=kw["lo"], hi=kw["hi"])
            self.k += 1
        else:
            v = self.cx.real(f"{self.prefix}{self.k}", **kw)
            self.k += 1
        self.log.append((kind, v))
        return v

    def _many(self, size, kind, **kw):
        if size is None:
            return self._one(kind, **kw)
        n = int(np.prod(size))
        vals = [self._one(kind, **kw) for _ in range(n)]
        a = self.cx.array(vals)
        return a.reshape(size) if isinstance(size, tuple) and len(size) > 1 else a

    def random(self, size=None, **_):
        return self._many(size, "random", lo=0, lt=1)

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self._many(size, "random", lo=0, lt=1)
        return low + (high - low) * r

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._many(size, "normal", typ=(-3, 3))

    def standard_normal(self, size=None, **_):
        return self._many(size, "normal", typ=(-3, 3))

    def laplace(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._many(size, "laplace", typ=(-4, 4))

    def exponential(self, scale=1.0, size=None):
        return scale * self._many(size, "exponential", lo=0, typ=(0, 4))

    def triangular(self, left, mode, right, size=None):
        return left + (right - left) * self._many(size, "triangular", lo=0, hi=1)

    def integers(self, low, high=None, size=None, endpoint=False, **_):
        if high is None:
            low, high = 0, low
        hi = high if endpoint else high - 1
        if size is not None:
            return self.cx.array([self._one("int", lo=low, hi=hi) for _ in range(int(np.prod(size)))])
        return self._one("int", lo=low, hi=hi)

    def choice(self, a, size=None, replace=True, p=None, **_):
        opts = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        j = len(self.log)
        if self.replay is not None and j < len(self.replay):
            i = self.replay[j][1]
        else:
            i = self.cx.choice(f"{self.prefix}{self.k}c", list(range(len(opts))))
            self.k += 1
        self.log.append(("choice", i, p, len(opts)))
        return opts[i] if size is None else [opts[i]] * int(np.prod(size))


def with_rng(cls, rng):
    """a subclass of cls whose RandomComponent interface is the contract above"""

    class Sub(cls):
        random_generator = property(lambda self: rng)
        _random_generator = property(lambda self: rng, lambda self, value: None)

        def next_generator(self):
            rng.generations += 1

    Sub.__name__ = cls.__name__
    Sub.__qualname__ = cls.__qualname__
    return Sub
