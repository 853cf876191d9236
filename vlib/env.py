"""
Binding of the symbolic executor to most_queue: import of /repo's current
source, replacement of `math`/`numpy` inside most_queue modules by versions that
understand symbolic values, and nondeterministic stubs for the random sources.

In replay mode nothing of the code under test is patched; only the random
sources are scripted with the counterexample's values.
"""
import builtins
import cmath as _cmath
import contextlib
import functools
import importlib
import io
import math as _math
import os
import sys
import types
from fractions import Fraction

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")

import numpy as _np          # noqa: E402

from . import symx           # noqa: E402
from .symx import Sym, SymBool, SymC, lift  # noqa: E402


def has_sym(x):
    if isinstance(x, (Sym, SymBool, SymC)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    return False


# --------------------------------------------------------------------------
# math


def _w(orig, sym):
    @functools.wraps(orig)
    def f(*a, **k):
        for x in a:
            if isinstance(x, (Sym, SymC, SymBool)):
                return sym(*a, **k)
        return orig(*a, **k)
    f.__symx__ = True
    return f


def _pow(a, b):
    return symx.sym_pow(lift(a), lift(b))


def _fabs(a):
    return abs(a)


def _isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    # read as equality over the reals
    return bool(lift(a) == lift(b))


def _factorial(a):
    a = lift(a)
    if a.is_const():
        return _math.factorial(int(a.const()))
    raise symx.EngineUnsupported("factorial of a symbolic value")


def _floor(a):
    a = lift(a)
    if a.is_const():
        return _math.floor(a.const())
    for k in range(-1, 13):         # one path per integer part
        if a < k:
            if k == -1:
                break
            return k - 1
    raise symx.EngineUnsupported("floor of a symbolic value outside [-1, 12)")


def _ceil(a):
    a = lift(a)
    if a.is_const():
        return _math.ceil(a.const())
    for k in range(-1, 13):
        if a <= k:
            if k == -1:
                break
            return k
    raise symx.EngineUnsupported("ceil of a symbolic value outside (-1, 12]")


def _isnan(a):
    return False


def _fsqrt(a):
    return symx.sym_sqrt(lift(a))


def _csqrt(a):
    return SymC.of(a).sqrt()


def _log(a, base=None):
    r = symx.sym_log(lift(a))
    return r if base is None else r / symx.sym_log(lift(base))


def _fsum(xs):
    xs = list(xs)
    if has_sym(xs):
        t = lift(0)
        for x in xs:
            t = t + x
        return t
    return _math_orig["fsum"](xs)


def _prod(xs, *, start=1):
    xs = list(xs)
    t = start
    for x in xs:
        t = t * x
    return t


_math_orig = dict(vars(_math))
_sym_math = {
    "pow": _pow, "sqrt": _fsqrt, "exp": lambda a: symx.sym_exp(a), "log": _log,
    "fabs": _fabs, "isclose": _isclose, "factorial": _factorial, "floor": _floor,
    "ceil": _ceil, "isnan": _isnan, "isinf": _isnan, "isfinite": lambda a: True,
    "expm1": lambda a: symx.sym_exp(a) - 1, "log1p": lambda a: symx.sym_log(1 + a),
    "hypot": lambda a, b: symx.sym_sqrt(a * a + b * b),
    "trunc": lambda a: int(a),
}
_sym_cmath = {"sqrt": _csqrt, "exp": lambda a: SymC.of(a).exp(), "isclose": _isclose}

_math_map = {}        # original function -> wrapper
_patched = []


def _build_math(mod, table):
    ns = types.ModuleType(mod.__name__)
    for k, v in vars(mod).items():
        if k in table and callable(v):
            w = _w(v, table[k])
            _math_map[v] = w
            setattr(ns, k, w)
        else:
            setattr(ns, k, v)
    return ns


MATH = _build_math(_math, _sym_math)
CMATH = _build_math(_cmath, _sym_cmath)
MATH.fsum = _fsum
MATH.prod = _prod
_math_map[_math.fsum] = _fsum
_math_map[_math.prod] = _prod


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.complex, SymC))

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.complex) or issubclass(x, SymC)


class _sym_complex(builtins.complex, metaclass=_ComplexMeta):
    """`complex` inside most_queue modules: keeps symbolic values"""
    def __new__(cls, *a):
        if len(a) == 1 and isinstance(a[0], (Sym, SymC)):
            return SymC.of(a[0])
        if len(a) == 2 and (isinstance(a[0], Sym) or isinstance(a[1], Sym)):
            return SymC(lift(a[0]), lift(a[1]))
        return builtins.complex(*a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Sym))

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.float) or issubclass(x, Sym)


class SymFloat(builtins.float, metaclass=_FloatMeta):
    """`float` inside most_queue modules: keeps symbolic values"""
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return lift(x)
        return builtins.float(x)


# --------------------------------------------------------------------------
# numpy proxy: arrays that may hold symbolic values are object arrays


class _LinalgProxy:
    def __getattr__(self, name):
        return getattr(_np.linalg, name)

    def inv(self, a):
        a = _np.asarray(a)
        if not has_sym(a):
            return _np.linalg.inv(a)
        n = a.shape[0]
        return _gauss(a, _eye(n))

    def solve(self, a, b):
        a = _arr(a)
        b = _arr(b)
        if not (has_sym(a) or has_sym(b)):
            return _np.linalg.solve(a, b)
        if b.ndim == 1:
            return _gauss(a, b.reshape(-1, 1))[:, 0]
        return _gauss(a, b)

    LSTSQ = []      # stand-ins for a solution of a symbolic system

    def lstsq(self, a, b, *x, **k):
        a, b = _arr(a), _arr(b)
        if not (has_sym(a) or has_sym(b)):
            return _np.linalg.lstsq(a, b, *x, **k)
        if not self.LSTSQ:
            raise symx.EngineUnsupported("lstsq")
        return (self.LSTSQ[-1](a, b), None, None, None)

    def det(self, a):
        a = _arr(a)
        if not has_sym(a):
            return _np.linalg.det(a)
        return _det(a)

    def matrix_power(self, a, k):
        a = _arr(a)
        if not has_sym(a):
            return _np.linalg.matrix_power(a, k)
        r = _eye(a.shape[0])
        for _ in range(k):
            r = r.dot(a)
        return r


@contextlib.contextmanager
def lstsq_as(fn):
    """fn(A, b) stands for the solution of the symbolic system in np.linalg.lstsq"""
    _LinalgProxy.LSTSQ.append(fn)
    try:
        yield
    finally:
        _LinalgProxy.LSTSQ.pop()


def _arr(x, dtype=None):
    if isinstance(x, _np.ndarray):
        return x
    if has_sym(x):
        return _np.array(x, dtype=object)
    return _np.array(x)


def _eye(n, m=None):
    m = n if m is None else m
    a = _np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            a[i, j] = lift(1 if i == j else 0)
    return a


def _is_zero(x):
    x = SymC.of(x)
    return bool(x.re == 0) and bool(x.im == 0)


def _simple(x):
    x = SymC.of(x)
    return x.re.is_const() and x.im.is_const()


def _gauss(a, b):
    n = a.shape[0]
    A = [[a[i, j] for j in range(n)] + [b[i, j] for j in range(b.shape[1])] for i in range(n)]
    for c in range(n):
        piv = None
        for r in range(c, n):       # prefer constant pivots
            if _simple(A[r][c]) and not _is_zero(A[r][c]):
                piv = r
                break
        if piv is None:
            for r in range(c, n):
                if not _is_zero(A[r][c]):
                    piv = r
                    break
        if piv is None:
            raise _np.linalg.LinAlgError("Singular matrix")
        A[c], A[piv] = A[piv], A[c]
        p = A[c][c]
        A[c] = [x / p for x in A[c]]
        for r in range(n):
            if r != c:
                f = A[r][c]
                if _simple(f) and _is_zero(f):
                    continue
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    out = _np.empty(b.shape, dtype=object)
    for i in range(n):
        for j in range(b.shape[1]):
            out[i, j] = A[i][n + j]
    return out


def _det(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    t = lift(0)
    for j in range(n):
        if _simple(a[0, j]) and _is_zero(a[0, j]):
            continue
        minor = _np.array([[a[i, k] for k in range(n) if k != j] for i in range(1, n)], dtype=object)
        s = a[0, j] * _det(minor)
        t = t + s if j % 2 == 0 else t - s
    return t


def _filled(shape, v):
    a = _np.empty(shape, dtype=object)
    a[...] = v
    return a


class NpProxy(types.ModuleType):
    """numpy with object-dtype construction"""

    def __init__(self):
        types.ModuleType.__init__(self, "numpy")
        self.linalg = _LinalgProxy()
        self.random = _np.random
        self.float64 = _np.float64

    def __getattr__(self, name):
        return getattr(_np, name)

    @staticmethod
    def _numeric(dtype):
        if dtype is None:
            return True
        try:
            k = _np.dtype(dtype).kind
        except TypeError:
            return True
        return k in "fcO"

    def zeros(self, shape, dtype=None, **k):
        if self._numeric(dtype):
            return _filled(shape, 0.0)
        return _np.zeros(shape, dtype=dtype)

    def ones(self, shape, dtype=None, **k):
        if self._numeric(dtype):
            return _filled(shape, 1.0)
        return _np.ones(shape, dtype=dtype)

    def full(self, shape, v, dtype=None, **k):
        if self._numeric(dtype):
            return _filled(shape, v)
        return _np.full(shape, v, dtype=dtype)

    def empty(self, shape, dtype=None, **k):
        return self.zeros(shape, dtype)

    def zeros_like(self, a, dtype=None, **k):
        return _filled(_np.shape(a), 0.0)

    def ones_like(self, a, dtype=None, **k):
        return _filled(_np.shape(a), 1.0)

    def empty_like(self, a, dtype=None, **k):
        return _filled(_np.shape(a), 0.0)

    def eye(self, n, M=None, k=0, dtype=None):
        m = n if M is None else M
        a = _filled((n, m), 0.0)
        for i in range(n):
            if 0 <= i + k < m:
                a[i, i + k] = 1.0
        return a

    def identity(self, n, dtype=None):
        return self.eye(n)

    def array(self, x, dtype=None, **k):
        if has_sym(x) or dtype is object:
            return _np.array(x, dtype=object)
        try:
            a = _np.array(x, **k)
        except (TypeError, ValueError):
            return _np.array(x, dtype=object)
        if a.dtype.kind in "fc" or (a.dtype.kind in "iu" and dtype is not None and self._numeric(dtype)):
            return a.astype(object)
        if dtype is not None and not self._numeric(dtype):
            return a.astype(dtype)
        return a

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, _np.ndarray) and x.dtype == object:
            return x
        return self.array(x, dtype=dtype)

    def diag(self, v, k=0):
        v = self.asarray(v)
        return _np.diag(v, k)

    def real(self, x):
        return self._part(x, "real")

    def imag(self, x):
        return self._part(x, "imag")

    @staticmethod
    def _part(x, nm):
        if isinstance(x, (Sym, SymC)):
            return getattr(x, nm)
        if has_sym(x):
            a = _np.array(x, dtype=object)
            out = _np.empty(a.shape, dtype=object)
            for i, y in _np.ndenumerate(a):
                out[i] = getattr(y, nm) if hasattr(y, nm) else getattr(complex(y), nm)
            return out
        return getattr(_np, nm)(x)

    def isclose(self, a, b, *aa, **k):
        if has_sym(a) or has_sym(b):
            if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
                raise symx.EngineUnsupported("isclose on arrays")
            return bool(lift(a) == lift(b))
        return _np.isclose(a, b, *aa, **k)

    def isnan(self, a):
        if has_sym(a):
            return _np.zeros(_np.shape(a), dtype=bool) if isinstance(a, _np.ndarray) else False
        return _np.isnan(a)

    def power(self, a, b):
        if has_sym(a) or has_sym(b):
            return a ** b
        return _np.power(a, b)

    def sqrt(self, a):
        if isinstance(a, (Sym, SymC)):
            return a.sqrt()
        return _np.sqrt(a)

    def exp(self, a):
        if isinstance(a, (Sym, SymC)):
            return a.exp()
        return _np.exp(a)

    def log(self, a):
        if isinstance(a, Sym):
            return a.log()
        return _np.log(a)

    def abs(self, a):
        if isinstance(a, (Sym, SymC)):
            return abs(a)
        return _np.abs(a)

    absolute = abs
    fabs = abs

    def max(self, a, *aa, **k):
        return _np.max(a, *aa, **k)

    def cumsum(self, a, *aa, **k):
        return _np.cumsum(_arr(a), *aa, **k)

    def dot(self, a, b):
        return _np.dot(_arr(a), _arr(b))

    def matmul(self, a, b):
        return _np.dot(_arr(a), _arr(b))


NP = NpProxy()


# --------------------------------------------------------------------------
# quiet


class FakeBar:
    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, *a):
        pass

    def set_description(self, *a, **k):
        pass

    def close(self):
        pass


def _install_quiet():
    """formatting / progress / sleeping are not the subject: empty bodies"""
    import time
    time.sleep = lambda *a, **k: None
    m = types.ModuleType("tqdm")
    m.tqdm = FakeBar
    m.trange = lambda *a, **k: FakeBar(range(*a))
    sys.modules["tqdm"] = m
    try:
        import colorama
        colorama.init = lambda *a, **k: None
    except ImportError:
        pass
    try:
        import matplotlib
        matplotlib.use = lambda *a, **k: None
    except ImportError:
        pass


_install_quiet()


def mq(name):
    """import a most_queue module from the working tree"""
    m = importlib.import_module("most_queue." + name if name else "most_queue")
    f = getattr(m, "__file__", "") or ""
    assert os.path.abspath(f).startswith(os.path.abspath(REPO)), f
    return m


def mq_modules():
    return [m for n, m in list(sys.modules.items())
            if (n == "most_queue" or n.startswith("most_queue.")) and m is not None]


def bind(numpy=True):
    """make every loaded most_queue module symbolic-aware (symbolic mode only)"""
    for m in mq_modules():
        g = m.__dict__
        for k, v in list(g.items()):
            if v is _math:
                g[k] = MATH
            elif v is _cmath:
                g[k] = CMATH
            elif v is _np and numpy:
                g[k] = NP
            else:
                try:
                    w = _math_map.get(v)
                except TypeError:
                    w = None
                if w is not None:
                    g[k] = w
        g.setdefault("complex", _sym_complex)
        g.setdefault("float", SymFloat)


# --------------------------------------------------------------------------
# random sources


class Draws:
    """named draws shared by the code under test and the reference model:
    get(stem, i) is the i-th value of that stream."""

    def __init__(self, ctx, lo=0, hi=1000):
        self.ctx = ctx
        self.lo, self.hi = lo, hi
        self.pool = {}
        self.used = {}

    def get(self, stem, i):
        k = (stem, i)
        v = self.pool.get(k)
        if v is None:
            v = self.ctx.real("%s_%d" % (stem, i), self.lo, self.hi)
            self.pool[k] = v
        return v

    def next(self, stem):
        i = self.used.get(stem, 0)
        self.used[stem] = i + 1
        return self.get(stem, i)


DIST_CLASSES = ["Normal_dist", "Uniform_dist", "H2_dist", "Cox_dist", "Det_dist", "Pareto_dist",
                "Erlang_dist", "Exp_dist", "Gamma"]


def _pkey(p):
    if isinstance(p, (list, tuple)):
        return tuple(_pkey(x) for x in p)
    return p


@contextlib.contextmanager
def scripted_sampling(draws, labels, default=None):
    """Distribution objects yield named values: the stream of an object is
    labels[params] (params as given to the constructor).  This is the only
    stub the simulators get, in symbolic mode and in replay mode alike."""
    rd = mq("rand_distribution")
    saved = []
    labels = {_pkey(k): v for k, v in labels.items()}

    def mk_init(orig):
        @functools.wraps(orig)
        def init(self, *a, **k):
            orig(self, *a, **k)
            p = a[0] if a else (k.get("params") or k.get("mu") or k.get("b"))
            try:
                self._stream = labels.get(_pkey(p), default)
            except TypeError:
                self._stream = default
        return init

    def mk_gen(orig):
        @functools.wraps(orig)
        def gen(self):
            s = getattr(self, "_stream", None)
            if s is None:
                raise symx.EngineUnsupported("sample from an unlabelled distribution %s" % type(self).__name__)
            return draws.next(s)
        return gen

    for n in DIST_CLASSES:
        c = getattr(rd, n, None)
        if c is None:
            continue
        for attr, f in (("__init__", mk_init), ("generate", mk_gen)):
            o = c.__dict__.get(attr)
            if o is not None:
                saved.append((c, attr, o))
                setattr(c, attr, f(o))
    try:
        yield
    finally:
        for c, attr, o in saved:
            setattr(c, attr, o)


@contextlib.contextmanager
def patched(obj, **kw):
    saved = {}
    for k, v in kw.items():
        saved[k] = getattr(obj, k)
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in saved.items():
            setattr(obj, k, v)


class SymGen:
    """numpy Generator / RandomState stand-in"""

    def __init__(self, uniform01, log=None):
        self._u = uniform01
        self.log = log if log is not None else []

    def random(self, *a, **k):
        return self._u()
    rand = random
    random_sample = random

    def uniform(self, lo=0.0, hi=1.0, size=None):
        return lo + (hi - lo) * self._u()


@contextlib.contextmanager
def scripted_uniform(fn):
    """np.random.rand()/random()/uniform() and generators' random() yield fn()"""
    g = SymGen(fn)
    with patched(_np.random, rand=g.rand, random=g.random, random_sample=g.random,
                 uniform=g.uniform):
        yield g


@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e
