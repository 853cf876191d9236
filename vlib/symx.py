"""
symx -- a small symbolic executor for the real Python code of most_queue.

The code under test is run by the ordinary CPython interpreter on proxy values
(`Sym`): exact rational functions over named real variables.  Every comparison
whose outcome is not fixed by the path condition forks the execution (depth
first, by re-execution with a decision prefix); z3 decides which sides are
feasible.  Assertions are sent to z3 together with the path condition: `unsat`
means the assertion holds for every value on this path, `sat` yields a
counterexample, which is replayed later on the unpatched code with floats.

Nothing here is specific to most_queue.
"""
import math as _math
import time as _time
from fractions import Fraction

import z3

# --------------------------------------------------------------------------
# exceptions


class EngineUnsupported(BaseException):
    """The engine cannot encode this operation (-> inconclusive, never a verdict)."""


class PathInfeasible(BaseException):
    """The path contradicts an assumption."""


class BudgetExceeded(BaseException):
    pass


# --------------------------------------------------------------------------
# constants -> exact rationals

_frac_cache = {}


def to_frac(x):
    """float/int -> Fraction; a float is read as the simplest rational it stands for."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    r = _frac_cache.get(x)
    if r is not None:
        return r
    if x != x or x in (_math.inf, -_math.inf):
        raise EngineUnsupported("non-finite constant %r" % x)
    ex = Fraction(x)
    r = ex
    if x != 0 and ex.denominator > 1:
        for lim in (1000, 10 ** 5, 10 ** 7):
            c = ex.limit_denominator(lim)
            if c != 0 and abs(c - ex) <= abs(ex) * Fraction(1, 10 ** 15) * 2:
                r = c
                break
    _frac_cache[x] = r
    return r


# --------------------------------------------------------------------------
# polynomials: dict monomial -> Fraction ; monomial = sorted tuple of var ids


def p_const(c):
    return {(): c} if c else {}


def p_add(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


MAX_TERMS = 60000


REDUCE = {}     # root atoms of the current path: var id -> (q, polynomial equal to var**q)


def _reduce(p):
    """rewrite root**q by its argument until every exponent is below q"""
    for _ in range(200):
        hit = None
        for m in p:
            for v in m:
                if v in REDUCE and m.count(v) >= REDUCE[v][0]:
                    hit = v
                    break
            if hit is not None:
                break
        if hit is None:
            return p
        q, arg = REDUCE[hit]
        keep, red = {}, {}
        for m, c in p.items():
            if m.count(hit) >= q:
                mm = list(m)
                for _i in range(q):
                    mm.remove(hit)
                red[tuple(mm)] = c
            else:
                keep[m] = c
        p = p_add(keep, p_mul(red, arg, True))
    raise EngineUnsupported("root reduction")


def _conjugate(p):
    """p with the sign of one square root changed (the last one introduced), or None"""
    vs = [v for m in p for v in m if v in REDUCE and REDUCE[v][0] == 2]
    if not vs:
        return None
    v = max(vs)
    return {m: (-c if m.count(v) % 2 else c) for m, c in p.items()}


def p_mul(a, b, raw=False):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        if m == ():
            return p_scale(b, c)
    if len(a) * len(b) > 4000000:
        raise EngineUnsupported("polynomial too large")
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            c = c1 * c2
            s = r.get(m)
            if s is None:
                r[m] = c
            else:
                r[m] = s + c
    r = {m: c for m, c in r.items() if c}
    if len(r) > MAX_TERMS:
        raise EngineUnsupported("polynomial too large (%d terms)" % len(r))
    if REDUCE and not raw:
        r = _reduce(r)
    return r


def p_is_const(a):
    return not a or (len(a) == 1 and () in a)


def p_key(a):
    return frozenset(a.items())


def p_lead(a):
    return max(a, key=lambda m: (len(m), m))


def p_exact_div(a, b):
    """a / b if exact, else None (multivariate, lexicographic by graded order)."""
    if not a:
        return {}
    lm = p_lead(b)
    lc = b[lm]
    q = {}
    r = dict(a)
    steps = 0
    while r:
        steps += 1
        if steps > 3000:
            return None
        m = p_lead(r)
        # divide monomials
        rest = list(m)
        ok = True
        for v in lm:
            try:
                rest.remove(v)
            except ValueError:
                ok = False
                break
        if not ok:
            return None
        t = tuple(rest)
        c = r[m] / lc
        q[t] = q.get(t, 0) + c
        r = p_add(r, p_mul({t: -c}, b, True))
    return {m: c for m, c in q.items() if c}


def p_normalize(a):
    """-> (factor, unit): a == unit * factor with factor's leading coeff 1."""
    lc = a[p_lead(a)]
    if lc == 1:
        return a, Fraction(1)
    return {m: c / lc for m, c in a.items()}, lc


class HPoly:
    """hashable polynomial (denominator factor)"""
    __slots__ = ("t", "k", "h")

    def __init__(self, t):
        self.t = t
        self.k = p_key(t)
        self.h = hash(self.k)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.h == o.h and self.k == o.k


def p_sqrt(a):
    """polynomial q with q*q == a and positive leading coefficient, or None"""
    if not a:
        return {}

    def mono_sqrt(m):
        if len(m) % 2:
            return None
        h = []
        i = 0
        while i < len(m):
            if m[i] != m[i + 1]:
                return None
            h.append(m[i])
            i += 2
        return tuple(h)

    def q_sqrt(c):
        if c < 0:
            return None
        n, d = _math.isqrt(c.numerator), _math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Fraction(n, d)
        return None
    if len(a) > 2000:
        return None
    lm = p_lead(a)
    hm, hc = mono_sqrt(lm), q_sqrt(a[lm])
    if hm is None or hc is None:
        return None
    # the lowest term must be a square as well
    lo = min(a, key=lambda m: (len(m), m))
    if mono_sqrt(lo) is None or q_sqrt(a[lo]) is None:
        return None
    q = {hm: hc}
    r = p_add(a, p_neg(p_mul(q, q, True)))
    for _ in range(300):
        if not r:
            return q
        m = p_lead(r)
        rest = list(m)
        try:
            for v in hm:
                rest.remove(v)
        except ValueError:
            return None
        t = {tuple(rest): r[m] / (2 * hc)}
        if tuple(rest) in q:
            return None
        # r - (2 q t + t^2)
        r = p_add(r, p_neg(p_add(p_scale(p_mul(q, t, True), 2), p_mul(t, t, True))))
        q = p_add(q, t)
    return None


# --------------------------------------------------------------------------
# current context

CTX = None


def set_ctx(c):
    global CTX
    CTX = c


# --------------------------------------------------------------------------


def lift(x):
    """-> Sym or None"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return Sym(p_const(Fraction(int(bool(x)))), {})
    if isinstance(x, (bool, int, float, Fraction)):
        if isinstance(x, float) and (x != x or x in (_math.inf, -_math.inf)):
            return None
        return Sym(p_const(to_frac(x)), {})
    if isinstance(x, complex):
        if x.imag == 0:
            return Sym(p_const(to_frac(x.real)), {})
        return None
    tn = type(x)
    if tn.__module__ == "numpy":
        if getattr(x, "shape", None) == ():
            return lift(x.item())
    return None


def mk(n, d):
    """make Sym, cancelling denominator factors that divide the numerator"""
    if not n:
        return Sym({}, {})
    if d:
        nd = {}
        for f, e in d.items():
            while e > 0:
                q = p_exact_div(n, f.t)
                if q is None:
                    break
                n = q
                e -= 1
            if e:
                nd[f] = e
        d = nd
    return Sym(n, d)


class Sym:
    __slots__ = ("n", "d", "_z")
    __array_priority__ = 1000

    def __init__(self, n, d):
        self.n = n
        self.d = d

    # ---- structure
    def is_const(self):
        return not self.d and p_is_const(self.n)

    def const(self):
        return self.n.get((), Fraction(0))

    def den_poly(self):
        r = {(): Fraction(1)}
        for f, e in self.d.items():
            for _ in range(e):
                r = p_mul(r, f.t)
        return r

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, SymC):
            return NotImplemented
        o2 = lift(o)
        if o2 is None:
            return special_add(self, o)
        if not self.d and not o2.d:
            return Sym(p_add(self.n, o2.n), {})
        if self.d == o2.d:
            return mk(p_add(self.n, o2.n), self.d)
        L = dict(self.d)
        for f, e in o2.d.items():
            if L.get(f, 0) < e:
                L[f] = e
        a, b = self.n, o2.n
        for f, e in L.items():
            for _ in range(e - self.d.get(f, 0)):
                a = p_mul(a, f.t)
            for _ in range(e - o2.d.get(f, 0)):
                b = p_mul(b, f.t)
        return mk(p_add(a, b), L)

    __radd__ = __add__

    def __neg__(self):
        return Sym(p_neg(self.n), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, SymC):
            return NotImplemented
        o2 = lift(o)
        if o2 is None:
            if isinstance(o, (float,)):
                return special_add(self, -o)
            return NotImplemented
        return self + (-o2)

    def __rsub__(self, o):
        o2 = lift(o)
        if o2 is None:
            return special_add(-self, o)
        return o2 + (-self)

    def __mul__(self, o):
        if isinstance(o, SymC):
            return NotImplemented
        o2 = lift(o)
        if o2 is None:
            return special_mul(self, o)
        if not self.d and not o2.d:
            return Sym(p_mul(self.n, o2.n), {})
        a, b = self.n, o2.n
        da, db = dict(self.d), dict(o2.d)
        # cross cancel
        if a and b:
            for f in list(db):
                while db[f] > 0:
                    q = p_exact_div(a, f.t)
                    if q is None:
                        break
                    a = q
                    db[f] -= 1
                if not db[f]:
                    del db[f]
            for f in list(da):
                while da[f] > 0:
                    q = p_exact_div(b, f.t)
                    if q is None:
                        break
                    b = q
                    da[f] -= 1
                if not da[f]:
                    del da[f]
        n = p_mul(a, b)
        if not n:
            return Sym({}, {})
        for f, e in db.items():
            da[f] = da.get(f, 0) + e
        return Sym(n, da)

    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise ZeroDivisionError("float division by zero")
        if p_is_const(self.n):
            c = self.n[()]
            return Sym(p_scale(self.den_poly(), 1 / c), {})
        if REDUCE:
            conj = _conjugate(self.n)
            if conj is not None:
                norm = p_mul(self.n, conj)
                sq = p_sqrt(norm) or norm
                if not p_is_const(norm) and CTX is not None:
                    zero = CTX.decide_sign(sq, (0,))
                else:
                    zero = not norm
                if not zero:
                    # 1/(A+Br) = (A-Br)/(A^2-B^2 r^2): denominators stay free of roots
                    return Sym(p_mul(self.den_poly(), conj), {}) * Sym(norm, {}).inv()
        if CTX is not None:
            # division by a symbolic quantity: fork on it being zero
            if CTX.decide_sign(self.n, (0,)):
                raise ZeroDivisionError("float division by zero")
        f, u = p_normalize(self.n)
        # split monomial content into separate factors
        facs = {}
        common = None
        for m in f:
            cnt = {}
            for v in m:
                cnt[v] = cnt.get(v, 0) + 1
            if common is None:
                common = cnt
            else:
                common = {v: min(e, cnt[v]) for v, e in common.items() if v in cnt}
            if not common:
                break
        if common:
            strip = []
            for v, e in common.items():
                strip += [v] * e
                facs[HPoly({(v,): Fraction(1)})] = e
            g = {}
            for m, c in f.items():
                mm = list(m)
                for v in strip:
                    mm.remove(v)
                g[tuple(mm)] = c
            f = g
        if not p_is_const(f):
            facs[HPoly(f)] = facs.get(HPoly(f), 0) + 1
        return mk(p_scale(self.den_poly(), 1 / u), facs)

    def __truediv__(self, o):
        if isinstance(o, SymC):
            return NotImplemented
        o2 = lift(o)
        if o2 is None:
            if isinstance(o, float):
                if o != o:
                    return o
                return Sym({}, {})      # x / +-inf
            return NotImplemented
        if o2.is_const():
            c = o2.const()
            if c == 0:
                raise ZeroDivisionError("float division by zero")
            return Sym(p_scale(self.n, 1 / c), self.d)
        return self * o2.inv()

    def __rtruediv__(self, o):
        o2 = lift(o)
        if o2 is None:
            if isinstance(o, complex):
                return SymC.of(o) / SymC.of(self)
            return NotImplemented
        return o2 / self

    def __floordiv__(self, o):
        o2 = lift(o)
        if o2 is not None and self.is_const() and o2.is_const():
            return lift(self.const() // o2.const())
        raise EngineUnsupported("symbolic //")

    def __mod__(self, o):
        o2 = lift(o)
        if o2 is not None and self.is_const() and o2.is_const():
            return lift(self.const() % o2.const())
        raise EngineUnsupported("symbolic %")

    def __pow__(self, e, mod=None):
        e2 = lift(e)
        if e2 is None:
            if isinstance(e, SymC) or isinstance(e, complex):
                raise EngineUnsupported("complex power")
            return NotImplemented
        return sym_pow(self, e2)

    def __rpow__(self, b):
        b2 = lift(b)
        if b2 is None:
            return NotImplemented
        return sym_pow(b2, self)

    def __abs__(self):
        if self.is_const():
            return lift(abs(self.const()))
        if self < 0:
            return -self
        return self

    # ---- numpy ufunc fallbacks (object arrays call these)
    def sqrt(self):
        return sym_sqrt(self)

    def exp(self):
        return sym_exp(self)

    def log(self):
        return sym_log(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym({}, {})

    # ---- comparisons
    def _cmp(self, o, signs):
        if isinstance(o, SymC):
            o = o.re
        o2 = lift(o)
        if o2 is None:
            if isinstance(o, float) or type(o).__module__ == "numpy":
                try:
                    f = float(o)
                except Exception:
                    return NotImplemented
                if f != f:
                    return False
                sg = -1 if f > 0 else 1      # self - (+inf) < 0
                return sg in signs
            return NotImplemented
        diff = self - o2
        if diff.is_const():
            c = diff.const()
            sg = (c > 0) - (c < 0)
            return sg in signs
        return SymBool(diff, signs)

    def __lt__(self, o):
        return self._cmp(o, (-1,))

    def __le__(self, o):
        return self._cmp(o, (-1, 0))

    def __gt__(self, o):
        return self._cmp(o, (1,))

    def __ge__(self, o):
        return self._cmp(o, (0, 1))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return False
        return self._cmp(o, (0,))

    def __ne__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return True
        return self._cmp(o, (-1, 1))

    def __hash__(self):
        return hash((p_key(self.n), tuple(sorted((f.h, e) for f, e in self.d.items()))))

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise TypeError("symbolic value has no float")

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise EngineUnsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        raise TypeError("symbolic value is not an index")

    def __round__(self, nd=None):
        if self.is_const():
            return lift(round(self.const(), nd)) if nd is not None else round(self.const())
        raise EngineUnsupported("round() of a symbolic value")

    def is_integer(self):
        if self.is_const():
            return self.const().denominator == 1
        raise EngineUnsupported("is_integer")

    def __complex__(self):
        raise TypeError("symbolic value has no complex")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "Sym(%s)" % show(self)

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self


def show(s, limit=12):
    def pp(p):
        if not p:
            return "0"
        out = []
        for i, (m, c) in enumerate(sorted(p.items(), key=lambda t: (len(t[0]), t[0]))):
            if i >= limit:
                out.append("...")
                break
            names = "*".join(VARS[v].name for v in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(names)
            else:
                out.append("%s*%s" % (c, names))
        return " + ".join(out)
    t = pp(s.n)
    if s.d:
        t = "(%s)/(%s)" % (t, " * ".join("(%s)^%d" % (pp(f.t), e) for f, e in s.d.items()))
    return t


def special_add(a, o):
    if isinstance(o, complex):
        return SymC.of(a) + SymC.of(o)
    if isinstance(o, float):
        return o        # inf / nan absorb
    return NotImplemented


def special_mul(a, o):
    if isinstance(o, complex):
        return SymC.of(a) * SymC.of(o)
    if isinstance(o, float):
        if o != o:
            return o
        if a.is_const():
            return float(a.const()) * o
        if a > 0:
            return o
        if a < 0:
            return -o
        return float("nan")
    return NotImplemented


# --------------------------------------------------------------------------
# complex symbolic numbers


class SymC:
    """complex number with Sym parts"""
    __slots__ = ("re", "im")
    __array_priority__ = 1001

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, complex):
            return SymC(lift(x.real), lift(x.imag))
        s = lift(x)
        if s is None:
            if type(x).__module__ == "numpy" and hasattr(x, "item"):
                return SymC.of(x.item())
            return None
        return SymC(s, Sym({}, {}))

    @staticmethod
    def down(c):
        return c

    def __add__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return SymC(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return SymC(-self.re, -self.im)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return SymC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return SymC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        if o.im.is_const() and o.im.const() == 0:
            return SymC(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        n = self * SymC(o.re, -o.im)
        return SymC(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, e):
        e2 = lift(e)
        if e2 is None or not e2.is_const() or e2.const().denominator != 1:
            raise EngineUnsupported("complex power")
        k = int(e2.const())
        r = SymC.of(1)
        for _ in range(abs(k)):
            r = r * self
        return r if k >= 0 else SymC.of(1) / r

    def conjugate(self):
        return SymC(self.re, -self.im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __abs__(self):
        return sym_sqrt(self.re * self.re + self.im * self.im)

    def exp(self):
        if self.im.is_const() and self.im.const() == 0:
            return SymC(sym_exp(self.re), self.im)
        raise EngineUnsupported("complex exp")

    def sqrt(self):
        if self.im.is_const() and self.im.const() == 0:
            if self.re.is_const() or True:
                if self.re >= 0:
                    return SymC(sym_sqrt(self.re), self.im)
                return SymC(Sym({}, {}), sym_sqrt(-self.re))
        m = sym_sqrt(self.re * self.re + self.im * self.im)
        re = sym_sqrt((m + self.re) / 2)
        im = sym_sqrt((m - self.re) / 2)
        return SymC(re, -im if self.im < 0 else im)

    def __eq__(self, o):
        o = SymC.of(o)
        if o is None:
            return False
        return bool(self.re == o.re) and bool(self.im == o.im)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self.re < SymC.of(o).re

    def __gt__(self, o):
        return self.re > SymC.of(o).re

    def __le__(self, o):
        return self.re <= SymC.of(o).re

    def __ge__(self, o):
        return self.re >= SymC.of(o).re

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return self != 0

    def __float__(self):
        raise TypeError("symbolic complex has no float")

    def __format__(self, spec):
        return "<symc>"

    def __repr__(self):
        return "SymC(%s, %s)" % (show(self.re), show(self.im))


# --------------------------------------------------------------------------
# variables


class Var:
    __slots__ = ("name", "z", "kind", "arg")

    def __init__(self, name, kind="free", arg=None):
        self.name = name
        self.z = z3.Real(name)
        self.kind = kind
        self.arg = arg


VARS = []


def new_var(name, kind="free", arg=None):
    VARS.append(Var(name, kind, arg))
    return len(VARS) - 1


def var_sym(i):
    return Sym({(i,): Fraction(1)}, {})


_q = {}


def zq(c):
    r = _q.get(c)
    if r is None:
        r = z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)
        if len(_q) < 20000:
            _q[c] = r
    return r


def p_z3(p):
    terms = []
    for m, c in p.items():
        fs = []
        if c != 1 or not m:
            fs.append(zq(c))
        i = 0
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]:
                j += 1
            z = VARS[m[i]].z
            fs.extend([z] * (j - i))
            i = j
        terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    if not terms:
        return zq(Fraction(0))
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


# --------------------------------------------------------------------------
# functions


def sym_pow(b, e):
    if e.is_const():
        ev = e.const()
        if ev.denominator == 1:
            k = int(ev)
            if k < 0:
                return lift(1) / sym_pow(b, lift(-k))
            if k > 400 and not b.is_const():
                raise EngineUnsupported("power %d" % k)
            r = lift(1)
            base = b
            while k:
                if k & 1:
                    r = r * base
                k >>= 1
                if k:
                    base = base * base
            return r
        if b.is_const() and b.const() >= 0:
            if ev.denominator == 2:
                return sym_pow(sym_sqrt(b), lift(ev.numerator))
        if ev.denominator == 2:
            return sym_pow(sym_sqrt(b), lift(ev.numerator))
        # rational root: r = b**(1/q), r>=0, r**q == b
        return sym_pow(sym_root(b, ev.denominator), lift(ev.numerator))
    return sym_exp(e * sym_log(b))


def sym_root(b, q):
    if b.is_const() and b.const() == 0:
        return b
    if b.is_const() and b.const() > 0:
        c = b.const()
        rn, rd = round(c.numerator ** (1.0 / q)), round(c.denominator ** (1.0 / q))
        if rn ** q == c.numerator and rd ** q == c.denominator:
            return lift(Fraction(rn, rd))
    if CTX is None:
        raise EngineUnsupported("root outside context")
    if b < 0:
        raise ValueError("math domain error")
    return CTX.atom("root%d" % q, b)


def sym_sqrt(b):
    b = lift(b)
    if b.is_const():
        c = b.const()
        if c < 0:
            raise ValueError("math domain error")
        n, d = _math.isqrt(c.numerator), _math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return lift(Fraction(n, d))
        if CTX is None:
            raise EngineUnsupported("sqrt")
        return CTX.atom("root2", b)
    # perfect squares are extracted exactly
    n, dd = b.n, {}
    for f, e in b.d.items():
        if e % 2:
            n = p_mul(n, f.t)
            e += 1
        dd[f] = e // 2
    q = p_sqrt(n)
    if q is not None:
        return abs(mk(q, dd))
    if len(n) == 1:
        # even powers out of the root
        (m, c), = n.items()
        half, rest = [], []
        for v in sorted(set(m)):
            k = m.count(v)
            half += [v] * (k // 2)
            rest += [v] * (k % 2)
        if half:
            return abs(mk({tuple(half): Fraction(1)}, dd)) * sym_sqrt(Sym({tuple(rest): c}, {}))
    if dd:
        # sqrt(n/d) = sqrt(n*d) / d over the square-free part
        den = mk({(): Fraction(1)}, dd)
        return sym_sqrt(Sym(n, {})) * abs(den)
    if b < 0:
        raise ValueError("math domain error")
    return CTX.atom("root2", b)


def sym_exp(x):
    if isinstance(x, SymC):
        return x.exp()
    x = lift(x)
    if x.is_const() and x.const() == 0:
        return lift(1)
    if CTX is None:
        raise EngineUnsupported("exp")
    return CTX.exp(x)


def sym_log(x):
    x = lift(x)
    if x.is_const() and x.const() == 1:
        return lift(0)
    if CTX is None:
        raise EngineUnsupported("log")
    if x <= 0:
        raise ValueError("math domain error")
    return CTX.log(x)


# --------------------------------------------------------------------------
# symbolic booleans


class SymBool:
    """sign(diff) in signs"""
    __slots__ = ("diff", "signs")

    def __init__(self, diff, signs):
        self.diff = diff
        self.signs = signs

    def __bool__(self):
        if CTX is None:
            raise EngineUnsupported("symbolic branch outside a context")
        return CTX.branch(self.diff, self.signs)

    def __invert__(self):
        return SymBool(self.diff, tuple(s for s in (-1, 0, 1) if s not in self.signs))

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)

    # arithmetic on booleans (sum of comparisons ...)
    def __add__(self, o):
        return lift(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return lift(self) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return o - lift(self)

    def __abs__(self):
        return int(bool(self))
    __pos__ = __abs__

    def __neg__(self):
        return -int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "SymBool(%s in %s)" % (show(self.diff), self.signs)


# --------------------------------------------------------------------------
# execution context for one path


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.queries = 0
        self.assertions = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.truncated = 0
        self.reach = {}

    def as_dict(self):
        return dict(self.__dict__)


class Violation:
    def __init__(self, kind, label, values, detail):
        self.kind = kind
        self.label = label
        self.values = values
        self.detail = detail


class Ctx:
    symbolic = True

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.trace = []
        self.alts = []          # decision prefixes still to explore
        self.stats = stats
        self.opts = opts
        self.no_ties = opts.get("no_ties", False)
        self.timeout = opts.get("query_timeout_ms", 20000)
        self.solver = z3.SimpleSolver() if not opts.get("nra") else z3.SolverFor("QF_NRA")
        self.solver.set("timeout", self.timeout)
        self.cons = []          # all constraints of this path (polynomial, signs)
        self.signs = {}         # normalised poly key -> allowed signs
        self.names = {}         # free input name -> Sym
        self.order = []
        self.atoms = {}
        self.exp_base = {}
        self.pending = []       # (label, z3 negated condition, info)
        self.counter = {}
        self.witness = None
        self.deadline = opts.get("deadline")
        self.notes = []
        self.bounds = {}        # var id -> (lo, lo_open, hi, hi_open)
        self.cut = None         # decision budget set by limit()
        REDUCE.clear()

    # ---- inputs
    def real(self, name, lo=None, hi=None, strict=True):
        """free real input"""
        assert name not in self.names, name
        vid = self.opts["vars"].get(name)
        if vid is None:
            vid = new_var(name)
            self.opts["vars"][name] = vid
        s = var_sym(vid)
        self.names[name] = s
        self.order.append(name)
        self.bounds[vid] = (None if lo is None or isinstance(lo, Sym) else to_frac(lo), strict,
                            None if hi is None or isinstance(hi, Sym) else to_frac(hi), strict)
        if lo is not None:
            self.assume_sign((s - lo), (1,) if strict else (0, 1))
        if hi is not None:
            self.assume_sign((s - hi), (-1,) if strict else (-1, 0))
        return s

    def fresh(self, stem, lo=None, hi=None, strict=True):
        i = self.counter.get(stem, 0)
        self.counter[stem] = i + 1
        return self.real("%s%d" % (stem, i), lo, hi, strict)

    def _internal(self, name, kind, arg):
        key = "@" + name
        vid = self.opts["vars"].get(key)
        if vid is None:
            vid = new_var(name, kind, arg)
            self.opts["vars"][key] = vid
        VARS[vid].arg = arg
        return var_sym(vid)

    # ---- atoms
    def atom(self, kind, arg):
        k = (kind, p_key(arg.n), frozenset((f, e) for f, e in arg.d.items()))
        r = self.atoms.get(k)
        if r is not None:
            return r
        r = self._internal("%s#%d" % (kind, len(self.atoms)), kind, arg)
        self.atoms[k] = r
        if kind.startswith("root"):
            q = int(kind[4:])
            (m,) = r.n
            self.bounds[m[0]] = (Fraction(0), False, None, True)
            self.assume_sign(r, (0, 1))
            self.raw_eq(sym_pow(r, lift(q)) - arg)
            if not arg.d:
                REDUCE[m[0]] = (q, arg.n)
        return r

    def raw_eq(self, diff):
        self.add(p_z3(diff.n) == 0)

    def exp(self, x):
        """exp of a polynomial/rational, split over monomials so exp(a+b)=exp(a)exp(b)"""
        r = lift(1)
        if x.d:
            parts = [(p_key(x.n), x, Fraction(1))]
            # treat numerator normalised
            f, u = p_normalize(x.n)
            parts = [(("rf", p_key(f), frozenset(x.d.items())), Sym(f, x.d), u)]
        else:
            parts = [(("m", m), Sym({m: Fraction(1)}, {}), c) for m, c in x.n.items()]
        for key, base, c in parts:
            la = self.atoms.get(("explog", key))
            if la is not None and c.denominator == 1:
                # base is itself log(la)
                r = r * sym_pow(la, lift(int(c)))
                continue
            if la is not None:
                r = r * sym_pow(sym_root(la, c.denominator), lift(c.numerator))
                continue
            b = self.exp_base.get(key)
            if b is None:
                c0 = abs(c)
                a = self._internal("exp#%d" % len(self.exp_base), "exp", base * c0)
                self.exp_base[key] = b = (c0, a)
                (mm,) = a.n
                self.bounds[mm[0]] = (Fraction(0), True, None, True)
                self.assume_sign(a, (1,))
                # exp(y) > 1 + y and exp(y) * (1-y) < 1 for y != 0 (y = base*c0)
                y = base * c0
                if bool(y > 0):
                    self.assume_sign(a - 1 - y, (1,))
                elif bool(y < 0):
                    self.assume_sign(a - 1, (-1,))
                    self.assume_sign(a - 1 - y, (1,))
                else:
                    self.assume_sign(a - 1, (0,))
            c0, a = b
            k = c / c0
            if k.denominator == 1:
                r = r * sym_pow(a, lift(int(k)))
            else:
                r = r * sym_pow(sym_root(a, k.denominator), lift(k.numerator))
        return r

    def log(self, x):
        k = ("log", p_key(x.n), frozenset(x.d.items()))
        r = self.atoms.get(k)
        if r is not None:
            return r
        # log of a product of variables / known exponentials: split monomials
        if len(x.n) == 1 and (len(next(iter(x.n))) + len(x.d)) > 1 and not x.is_const():
            (m, c), = x.n.items()
            pos = True
            for v in set(m):
                if not bool(var_sym(v) > 0):
                    pos = False
            for f in x.d:
                if not bool(Sym(f.t, {}) > 0):
                    pos = False
            if pos and c > 0:
                t = lift(0)
                if c != 1:
                    t = t + self.log(lift(c))
                for v in m:
                    t = t + self.log(var_sym(v))
                for f, e in x.d.items():
                    t = t - self.log(Sym(f.t, {})) * e
                self.atoms[k] = t
                return t
        if len(x.n) == 1 and not x.d:
            (m, c), = x.n.items()
            if len(m) == 1 and c == 1:
                # log of an exp atom?
                for key, (c0, a) in self.exp_base.items():
                    if a.n == x.n:
                        arg = VARS[m[0]].arg
                        return arg
        r = self._internal("log#%d" % len(self.atoms), "log", x)
        self.atoms[k] = r
        (mono,) = r.n
        self.atoms[("explog", ("m", mono))] = x
        if bool(x > 1):
            self.assume_sign(r, (1,))
            self.assume_sign(x - 1 - r, (1,))
        elif bool(x < 1):
            self.assume_sign(r, (-1,))
            self.assume_sign(x - 1 - r, (1,))
        else:
            self.assume_sign(r, (0,))
        return r

    # ---- constraints
    def add(self, z):
        self.solver.add(z)

    def _check(self, *extra):
        t = _time.time()
        if self.deadline and t > self.deadline:
            raise BudgetExceeded()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += _time.time() - t
        return r

    def _cons_z3(self, p, signs):
        z = p_z3(p)
        s = frozenset(signs)
        if s == {-1}:
            return z < 0
        if s == {1}:
            return z > 0
        if s == {0}:
            return z == 0
        if s == {-1, 0}:
            return z <= 0
        if s == {0, 1}:
            return z >= 0
        if s == {-1, 1}:
            return z != 0
        if not s:
            return z3.BoolVal(False)
        return z3.BoolVal(True)

    def _norm(self, p):
        f, u = p_normalize(p)
        return f, (1 if u > 0 else -1)

    def limit(self, n):
        """loop bound: a path needing more than n further decisions is dropped"""
        self.cut = len(self.trace) + n

    def unlimit(self):
        self.cut = None

    def assume(self, cond):
        """assume a SymBool / bool"""
        if isinstance(cond, SymBool):
            self.assume_sign(cond.diff, cond.signs)
        elif not cond:
            raise PathInfeasible()

    def _den_sign(self, s):
        """sign of the denominator of s (forks when unknown)"""
        sg = 1
        for f, e in s.d.items():
            if e % 2:
                if not self.decide_sign(f.t, (1,)):
                    sg = -sg
        return sg

    def assume_sign(self, s, signs):
        if s.is_const():
            c = s.const()
            if ((c > 0) - (c < 0)) not in signs:
                raise PathInfeasible()
            return
        sg = self._den_sign(s)
        f, u = self._norm(s.n)
        u *= sg
        want = set(x * u for x in signs)
        if self.no_ties and want != {0}:
            want -= {0}
        k = p_key(f)
        cur = self.signs.get(k, {-1, 0, 1})
        new = cur & want
        if not new:
            raise PathInfeasible()
        if new != cur:
            self.signs[k] = new
            self.add(self._cons_z3(f, new))

    def branch(self, diff, signs):
        if diff.is_const():
            c = diff.const()
            return ((c > 0) - (c < 0)) in signs
        sg = self._den_sign(diff)
        if sg < 0:
            signs = tuple(-x for x in signs)
        return self.decide_sign(diff.n, signs)

    def interval_signs(self, p):
        """signs of p compatible with the input ranges (interval arithmetic), or None"""
        if len(p) > 400:
            return None
        lo, lo_open, hi, hi_open = Fraction(0), False, Fraction(0), False
        get = self.bounds.get
        for m, c in p.items():
            if not m:
                a = b = Fraction(1)
                ao = bo = False
            elif len(m) == 1:
                t = get(m[0])
                if t is None:
                    return None
                a, ao, b, bo = t
            else:
                a = b = Fraction(1)
                ao = bo = False
                zero_closed = False
                for v in m:
                    t = get(v)
                    if t is None or t[0] is None or t[0] < 0:
                        return None
                    if t[0] == 0 and not t[1]:
                        zero_closed = True
                    a = a * t[0]
                    ao = ao or t[1]
                    b = None if (b is None or t[2] is None) else b * t[2]
                    bo = bo or t[3]
                if a == 0 and zero_closed:
                    ao = False
            if c < 0:
                a, ao, b, bo = b, bo, a, ao
            lo = None if (lo is None or a is None) else lo + c * a
            lo_open = lo_open or ao
            hi = None if (hi is None or b is None) else hi + c * b
            hi_open = hi_open or bo
            if lo is None and hi is None:
                return None
        s = {-1, 0, 1}
        if lo is not None:
            if lo > 0 or (lo == 0 and lo_open):
                s = {1}
            elif lo == 0:
                s = {0, 1}
        if hi is not None:
            if hi < 0 or (hi == 0 and hi_open):
                s = s & {-1}
            elif hi == 0:
                s = s & {-1, 0}
        return s

    def _strip(self, f):
        """-> (cofactor of the factors known to be nonzero, their sign or 0 if unknown)"""
        g, su = f, 1
        # variables of known sign
        for v in set(p_lead(f)):
            while len(g) > 1 and all(v in m for m in g):
                sg = self.signs.get(p_key({(v,): Fraction(1)}))
                if sg is None or 0 in sg:
                    break
                su = su * next(iter(sg)) if len(sg) == 1 else 0
                h = {}
                for m, c in g.items():
                    mm = list(m)
                    mm.remove(v)
                    h[tuple(mm)] = c
                g = h
        for kf, sg in list(self.signs.items()):
            if 0 in sg or not sg or len(kf) < 2 or len(kf) > 40:
                continue
            t = dict(kf)
            if len(p_lead(t)) > len(p_lead(g)):
                continue
            for _ in range(6):
                if p_is_const(g) or len(g) == 1:
                    break
                q = p_exact_div(g, t)
                if q is None:
                    break
                g = q
                su = su * next(iter(sg)) if len(sg) == 1 else 0
        return g, su

    def decide_sign(self, p, signs):
        """decide (fork if needed) whether sign(p) in signs"""
        if p_is_const(p):
            c = p.get((), 0)
            return ((c > 0) - (c < 0)) in signs
        f, u = self._norm(p)
        k = p_key(f)
        cur = self.signs.get(k)
        if cur is None and 1 < len(f) <= 400 and len(p_lead(f)) > 1:
            g, su = self._strip(f)
            if g is not f:
                # nonzero factors of known sign (or even powers) taken out
                if su == 0:
                    if set(signs) == {0} or set(signs) == {-1, 1}:
                        return self.decide_sign(g, signs)
                else:
                    return self.decide_sign(g, tuple(x * u * su for x in signs))
        if cur is None:
            cur = self.interval_signs(f)
            if cur is None or len(cur) == 0:
                cur = {-1, 0, 1}
            if self.no_ties:
                cur = cur & {-1, 1} or cur
            self.signs[k] = cur
        yes = cur & set(x * u for x in signs)
        no = cur - yes
        if not no:
            return True
        if not yes:
            return False
        i = len(self.trace)
        if self.cut is not None and i >= self.cut:
            self.stats.truncated += 1
            raise PathInfeasible()
        self.stats.decisions += 1
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            zy = self._cons_z3(f, yes)
            ry = self._check(zy)
            if ry == z3.unsat:
                d = False
            else:
                zn = self._cons_z3(f, no)
                rn = self._check(zn)
                if rn == z3.unsat:
                    d = True
                else:
                    if ry == z3.unknown:
                        self.stats.unknown += 1
                    if rn == z3.unknown:
                        self.stats.unknown += 1
                    d = True
                    self.alts.append(tuple(self.trace) + (False,))
        self.trace.append(d)
        new = yes if d else no
        self.signs[k] = new
        self.add(self._cons_z3(f, new))
        return d

    def choose(self, name, options):
        """a symbolic choice among concrete options (forks)"""
        v = self.real(name, 0, len(options) - 1, strict=False)
        for i in range(len(options) - 1):
            if v < i + Fraction(1, 2):
                return options[i]
        return options[-1]

    # ---- assertions
    def check(self, cond, label, detail=""):
        self.stats.assertions += 1
        if isinstance(cond, SymBool):
            diff = cond.diff
            sg = self._den_sign(diff)
            neg = tuple(s * sg for s in (-1, 0, 1) if s not in cond.signs)
            z = self._cons_z3(diff.n, neg)
            self.pending.append((label, z, None, detail or show(diff)))
            return
        if cond is True or (cond is not False and bool(cond)):
            return
        self.pending.append((label, z3.BoolVal(True), None, detail))
        self.flush()

    def check_eq(self, a, b, label, detail="", margin=True):
        self.stats.assertions += 1
        if isinstance(a, SymC) or isinstance(b, SymC) or isinstance(a, complex) or isinstance(b, complex):
            a, b = SymC.of(a), SymC.of(b)
            self.check_eq(a.re, b.re, label + " (re)", detail)
            self.check_eq(a.im, b.im, label + " (im)", detail)
            return
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            ok = (a is b) or (not (la is not None or lb is not None) and a == b)
            if not ok:
                self.check(False, label, "%r vs %r %s" % (a, b, detail))
            return
        # common denominator, numerators handed to z3 side by side
        diff = la - lb
        if not diff.n:
            # let z3 confirm the identity on the un-subtracted sides when small
            if len(la.n) + len(lb.n) <= 400 and not la.is_const():
                L = dict(la.d)
                for f, e in lb.d.items():
                    L[f] = max(L.get(f, 0), e)
                x, y = la.n, lb.n
                for f, e in L.items():
                    for _ in range(e - la.d.get(f, 0)):
                        x = p_mul(x, f.t)
                    for _ in range(e - lb.d.get(f, 0)):
                        y = p_mul(y, f.t)
                self.pending.append((label, p_z3(x) != p_z3(y), None, detail))
            return
        if diff.is_const() and la.is_const() and abs(diff.const()) <= Fraction(1, 10 ** 9) * max(1, abs(la.const())):
            return          # two numbers: the run itself computed them in floating point
        z = p_z3(diff.n) != 0
        wide = None
        if margin:
            zz = p_z3(diff.n)
            dd = p_z3(diff.den_poly()) if diff.d else None
            tol = zq(Fraction(1, 50))
            if dd is None:
                wide = z3.Or(zz > tol, zz < -tol)
            else:
                wide = zz * zz > tol * tol * dd * dd
        self.pending.append((label, z, wide, detail or ("%s vs %s" % (show(la), show(lb)))))

    def reach(self, label):
        self.stats.reach[label] = self.stats.reach.get(label, 0) + 1

    def flush(self):
        """discharge the pending assertions of this path"""
        if not self.pending:
            return
        pend, self.pending = self.pending, []
        r = self._check(z3.Or([p[1] for p in pend]) if len(pend) > 1 else pend[0][1])
        if r == z3.unsat:
            return
        # find which
        unknown = False
        for label, z, wide, detail in pend:
            r = None
            if wide is not None:
                r = self._check(wide)
                if r != z3.sat:
                    r = None
            if r is None:
                r = self._check(z)
            if r == z3.unsat:
                continue
            if r == z3.sat:
                raise FoundViolation(Violation("assert", label, self.values(self.solver.model()), detail))
            unknown = True
        if unknown:
            self.stats.unknown += 1
            raise EngineUnsupported("solver returned unknown for an assertion: " +
                                    ", ".join(p[0] for p in pend)[:300])

    def values(self, model):
        out = {}
        for name in self.order:
            s = self.names[name]
            (m,) = s.n
            v = model.eval(VARS[m[0]].z, model_completion=True)
            out[name] = zval(v)
        return out

    def model_values(self):
        r = self._check()
        if r == z3.sat:
            return self.values(self.solver.model())
        return None


class FoundViolation(BaseException):
    def __init__(self, v):
        self.v = v


def zval(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return zval(v.approx(30))
    return Fraction(0)


# --------------------------------------------------------------------------
# exploration


class Result:
    def __init__(self):
        self.status = "held"        # held | violation | inconclusive
        self.violation = None
        self.reason = ""
        self.stats = Stats()
        self.samples = []
        self.wall = 0.0


def explore(fn, opts=None, max_paths=200000, budget_s=None, collect=2):
    """run fn(ctx) on every feasible path"""
    opts = dict(opts or {})
    opts["vars"] = {}
    VARS.clear()
    _q.clear()
    res = Result()
    t0 = _time.time()
    if budget_s:
        opts["deadline"] = t0 + budget_s
    work = [()]
    global CTX
    while work:
        prefix = work.pop()
        ctx = Ctx(prefix, res.stats, opts)
        CTX = ctx
        try:
            if budget_s and _time.time() - t0 > budget_s:
                raise BudgetExceeded()
            try:
                fn(ctx)
                ctx.flush()
                res.stats.paths += 1
                if len(res.samples) < collect:
                    CTX = None
                    v = ctx.model_values()
                    if v is not None:
                        res.samples.append({"inputs": {k: str(x) for k, x in v.items()},
                                            "decisions": len(ctx.trace)})
            except PathInfeasible:
                res.stats.infeasible += 1
            except FoundViolation:
                raise
            except (RecursionError, MemoryError):
                raise
            except Exception as e:      # raised by the code under test (or the harness)
                pend = ctx.pending
                v = None
                r = ctx._check()
                if r == z3.unsat:
                    res.stats.infeasible += 1
                elif r == z3.sat:
                    import traceback
                    v = ctx.values(ctx.solver.model())
                    tb = traceback.extract_tb(e.__traceback__)
                    where = ["%s:%d %s" % (f.filename, f.lineno, f.name) for f in tb[-5:]]
                    raise FoundViolation(Violation("exception", type(e).__name__, v,
                                                   "%s: %s | %s" % (type(e).__name__, e, " < ".join(reversed(where)))))
                else:
                    raise EngineUnsupported("unknown path condition at exception %r" % e)
        except FoundViolation as fv:
            res.status = "violation"
            res.violation = fv.v
            break
        except EngineUnsupported as e:
            res.status = "inconclusive"
            res.reason = "EngineUnsupported: %s" % e
            break
        except BudgetExceeded:
            res.status = "inconclusive"
            res.reason = "time budget exhausted after %d paths" % res.stats.paths
            break
        except (RecursionError, MemoryError) as e:
            res.status = "inconclusive"
            res.reason = repr(e)
            break
        finally:
            CTX = None
        work.extend(ctx.alts)
        if res.stats.paths > max_paths:
            res.status = "inconclusive"
            res.reason = "path budget exhausted"
            break
    res.wall = _time.time() - t0
    return res


# --------------------------------------------------------------------------
# concrete replay context: same harness, floats, unpatched code


class ReplayMismatch(Exception):
    pass


class ReplayFail(Exception):
    def __init__(self, label, detail):
        Exception.__init__(self, "%s %s" % (label, detail))
        self.label = label


class ReplayCtx:
    symbolic = False

    def limit(self, n):
        pass

    def unlimit(self):
        pass

    def __init__(self, values, tol=1e-6):
        self.values_ = values
        self.counter = {}
        self.tol = tol
        self.fails = []
        self.used = []

    def real(self, name, lo=None, hi=None, strict=True):
        if name not in self.values_:
            # an input never reached on the symbolic path: any admissible value does
            v = 1.0
            if lo is not None and hi is not None:
                v = (float(lo) + float(hi)) / 2
            elif lo is not None:
                v = float(lo) + 1
            elif hi is not None:
                v = float(hi) - 1
            self.used.append((name, v))
            return v
        v = float(Fraction(self.values_[name]))
        self.used.append((name, v))
        return v

    def fresh(self, stem, lo=None, hi=None, strict=True):
        i = self.counter.get(stem, 0)
        self.counter[stem] = i + 1
        return self.real("%s%d" % (stem, i), lo, hi, strict)

    def choose(self, name, options):
        v = self.real(name, 0, len(options) - 1)
        return options[max(0, min(len(options) - 1, int(round(v))))]

    def assume(self, cond):
        if not cond:
            raise PathInfeasible()

    def check(self, cond, label, detail=""):
        if not cond:
            self.fails.append((label, detail))
            raise ReplayFail(label, detail)

    def check_eq(self, a, b, label, detail="", margin=True):
        a, b = complex(a), complex(b)
        if not abs(a - b) <= self.tol * max(1.0, abs(a), abs(b)):
            self.fails.append((label, "%r vs %r %s" % (a, b, detail)))
            raise ReplayFail(label, "observed %r, required %r %s" % (a, b, detail))

    def reach(self, label):
        pass

    def flush(self):
        pass
