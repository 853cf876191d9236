"""scripted random sources for the demonstrations: every law yields given values"""
import contextlib
import io
import os
import sys

sys.path.insert(0, os.getcwd())
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
import numpy as np          # noqa: E402

try:
    import matplotlib
    matplotlib.use = lambda *a, **k: None
except ImportError:
    pass
import most_queue.rand_distribution as rd       # noqa: E402

CLASSES = ["Normal_dist", "Uniform_dist", "H2_dist", "Cox_dist", "Det_dist", "Pareto_dist", "Erlang_dist", "Exp_dist", "Gamma"]


def key(p):
    return tuple(p) if isinstance(p, (list, tuple)) else p


def script(streams):
    """streams: {parameters of a law: list of values its objects yield in turn (then 1e6)}"""
    its = {key(k): iter(v) for k, v in streams.items()}
    for n in CLASSES:
        c = getattr(rd, n)

        def init(self, *a, _o=c.__init__, **k):
            _o(self, *a, **k)
            self._it = its.get(key(a[0] if a else next(iter(k.values()))))

        def gen(self, _o=c.generate):
            return _o(self) if self._it is None else float(next(self._it, 1e6))
        c.__init__, c.generate = init, gen


@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def expect(ok, msg):
    if not ok:
        print("FAIL:", msg)
        sys.exit(1)
