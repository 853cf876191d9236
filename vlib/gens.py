"""recording stand-in for numpy's random generators: every primitive draw is a named value"""
import contextlib

import numpy as np

from . import env, symx


def log(x):
    return x.log() if isinstance(x, symx.Sym) else float(np.log(x))


class Gen:
    def __init__(self, ctx, tag):
        self.ctx, self.tag = ctx, tag
        self.us, self.zs, self.gs = [], [], []

    def _u(self):
        u = self.ctx.real("%su%d" % (self.tag, len(self.us)), 0, 1)
        self.us.append(u)
        return u

    def _many(self, f, size):
        if size is None:
            return f()
        n = int(np.prod(size))
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = f()
        return a.reshape(size)

    def random(self, size=None, *a, **k):
        return self._many(self._u, size)
    random_sample = random

    def rand(self, *shape):
        return self._many(self._u, shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many(lambda: low + (high - low) * self._u(), size)

    def exponential(self, scale=1.0, size=None):
        return self._many(lambda: scale * (-log(self._u())), size)

    def standard_exponential(self, size=None, *a, **k):
        return self.exponential(1.0, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        def one():
            z = self.ctx.real("%sz%d" % (self.tag, len(self.zs)), -50, 50)
            self.zs.append((loc, scale, z))
            return loc + scale * z
        return self._many(one, size)

    def standard_normal(self, size=None, *a, **k):
        return self.normal(0.0, 1.0, size)

    def gamma(self, shape, scale=1.0, size=None):
        def one():
            g = self.ctx.real("%sg%d" % (self.tag, len(self.gs)), 0, 1000)
            self.gs.append((shape, scale, g))
            return scale * g
        return self._many(one, size)

    def standard_gamma(self, shape, size=None, *a, **k):
        return self.gamma(shape, 1.0, size)

    def used(self):
        return len(self.us) + len(self.zs) + len(self.gs)


NAMES = ["random", "random_sample", "rand", "uniform", "exponential", "standard_exponential", "normal",
         "standard_normal", "gamma", "standard_gamma"]


@contextlib.contextmanager
def global_random(g):
    with env.patched(np.random, **{n: getattr(g, n) for n in NAMES}):
        yield


def same(ctx, a, b, tol=1e-7):
    """a == b on this path (forks when undecided)"""
    if ctx.symbolic:
        d = env.lift(a) - env.lift(b)
        if not d.n:
            return True
        return bool(env.lift(a) == env.lift(b))
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def one_of(ctx, x, cands, label, detail=""):
    """x equals one of the candidates; deferred candidates are zero-argument functions"""
    for c in cands:
        if same(ctx, x, c() if callable(c) else c):
            return True
    ctx.check(False, label, detail)
