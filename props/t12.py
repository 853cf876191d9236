"""fork-join formulas: mean sojourn times, order statistics, moments of the maximum"""
import math
from fractions import Fraction
from math import comb, factorial

import numpy as np

from vlib import env, laws
from vlib.runner import Harness
fj = env.mq("theory.fj_calc")
ASSUMPTIONS = ["the approximations are judged as the published formulas (exact for two branches), not for their accuracy",
               "moments of the maximum: the ten-point Gauss-Laguerre rule applied to the fitted law; its truncation error and the fit (D03) and distribution functions (D02) are not part of it",
               "get_v1_fj_invar_sj has no stated meaning and is left out"]
WITNESSES = ["means", "order statistics", "maximum", "maximum with delays", "ratio methods"]
X10, W10 = np.polynomial.laguerre.laggauss(10)


def q(ctx, x):
    return env.lift(Fraction(x)) if ctx.symbolic else float(x)


def H(n):
    return sum(Fraction(1, i) for i in range(1, n + 1))


def V(n):
    """light-traffic coefficient (Varma, Makowski)"""
    return sum(comb(n, r) * (-1) ** (r - 1) * sum(comb(r, m) * Fraction(factorial(m - 1), r ** (m + 1)) for m in range(1, r + 1))
               for r in range(1, n + 1))


def means(ctx, cfg):
    n = cfg["n"]
    l, mu = ctx.real("l", 0, 100), ctx.real("mu", 0, 100)
    ctx.assume(l < mu)
    rho = l / mu
    z = q(ctx, Fraction(3, 2)) - rho / 8
    nt = lambda i: (11 * q(ctx, H(i)) + 4 * rho * q(ctx, H(2) - H(i))) * (12 - rho) / (88 * q(ctx, H(2)))
    va = lambda i: q(ctx, H(i)) + q(ctx, V(i) - H(i)) * rho

    def eq(got, want, label):
        ctx.check(abs(got * (mu - l) - want) <= 1e-6, label)
    eq(fj.get_v1_fj2(l, mu), z, "two branches")
    eq(fj.get_v1_fj_varma(l, mu, n), va(n), "Varma, %d branches" % n)
    eq(fj.get_v1_fj_varma(l, mu, 2), z, "Varma is exact for two branches")
    if n >= 2:
        eq(fj.get_v1_fj_nelson_tantawi(l, mu, n), nt(n), "Nelson-Tantawi, %d branches" % n)
        eq(fj.get_v1_fj_nelson_tantawi(l, mu, 2), z, "Nelson-Tantawi is exact for two branches")
    s1 = sum(1 / (i - rho) for i in range(1, n + 1))
    s2 = sum(1 / (i * (i - rho)) for i in range(1, n + 1))
    eq(fj.get_v1_fj_varki_merchant(l, mu, n), q(ctx, H(n)) * (1 - rho) + rho / 2 * (s1 + (1 - 2 * rho) * s2), "Varki-Merchant, %d branches" % n)
    if n == 1:
        for f in (fj.get_v1_fj_varma, fj.get_v1_fj_varki_merchant):
            eq(f(l, mu, 1), 1, "one branch is M/M/1")
    # k-th of n: E X(k) = sum_i (-1)^(i-k) C(i-1, k-1) C(n, i) E max_i, the first of one branch being M/M/1
    for k in range(1, n + 1):
        c = {i: (-1) ** (i - k) * comb(i - 1, k - 1) * comb(n, i) for i in range(k, n + 1)}
        for i in c:
            ctx.check_eq(fj.get_W(n, k, i), c[i], "weight of the maximum of %d in the %d-th of %d" % (i, k, n))
        eq(fj.get_v1_varma_nk(l, mu, n, k), sum(c[i] * va(i) for i in c), "Varma, %d-th of %d branches" % (k, n))
        eq(fj.get_v1_fj_nelson_nk(l, mu, n, k), sum(c[i] * (nt(i) if i > 1 else 1) for i in c), "Nelson-Tantawi, %d-th of %d branches" % (k, n))
    ctx.reach("means")
    ctx.reach("order statistics")


class Fits:
    """distribution functions and fits of fj_calc replaced by tables of unknowns"""
    def __init__(self, ctx):
        self.ctx, self.tab, self.par = ctx, {}, {}

    def fit(self, name):
        def f(b, *a, **k):
            key = (name, keyof(b))
            if key not in self.par:
                self.par[key] = [self.ctx.real("par%d_%d" % (len(self.par), i), 0, 10) for i in range(2)]
            return list(self.par[key])
        return f

    def cdf(self, name):
        def f(*a):
            *p, t = a
            if len(p) == 1:
                p = list(p[0])
            key = (name, keyof(p))
            xs = self.tab.setdefault(key, [])
            for u, v in xs:
                # one value per argument
                if (abs(float(u) - float(t)) <= 1e-6 * abs(float(u)) if not self.sym(t) and not self.sym(u) else str(u) == str(t)):
                    return v
            v = self.ctx.real("F%d" % sum(len(z) for z in self.tab.values()), 0, 1, strict=False)
            xs.append((t, v))
            return v
        return f

    def sym(self, t):
        return isinstance(t, env.Sym) and not t.is_const()

    def __enter__(self):
        self.old = []
        for c, fit in ((fj.Erlang_dist, "get_params"), (fj.H2_dist, "get_params"), (fj.Gamma, "get_mu_alpha")):
            for a in (fit, "get_cdf"):
                self.old.append((c, a, c.__dict__[a]))
            setattr(c, fit, staticmethod(self.fit(c.__name__)))
            setattr(c, "get_cdf", staticmethod(self.cdf(c.__name__)))
        self.old.append((fj.Gamma, "calc_theory_moments", fj.Gamma.__dict__["calc_theory_moments"]))
        fj.Gamma.calc_theory_moments = staticmethod(self.back)
        return self

    def back(self, mu, alpha, num=3):
        for (name, b), p in self.par.items():
            if keyof(p) == keyof([mu, alpha]):
                return [m for m in self.src]
        raise AssertionError("moments of a law that was not fitted")

    def __exit__(self, *a):
        for c, n, f in self.old:
            setattr(c, n, f)


def maxmoments(ctx, F, num):
    """ten-point rule for k int t^(k-1) (1 - F(t)) dt"""
    return [sum(float(w) * math.exp(x) * k * float(x) ** (k - 1) * (1 - F(float(x))) for x, w in zip(X10, W10)) for k in range(1, num + 1)]


def close(ctx, a, b, label):
    """|a - b| <= 1e-6; both are polynomials in values between zero and one: when the coefficients of the
    difference are small, every product of such values may stand for any number between zero and one"""
    if ctx.symbolic:
        d = env.lift(a - b)
        if not d.d and sum(abs(c) for c in d.n.values()) <= Fraction(1, 10 ** 6):
            lin = 0
            for m, c in d.n.items():
                if m not in CLOSE:
                    CLOSE[m] = ctx.real("m%d" % len(CLOSE), 0, 1, strict=False)
                lin = lin + c * CLOSE[m]
            ctx.check(lin <= 1e-6, label)
            ctx.check(lin >= -1e-6, label)
            return
    ctx.check(abs(a - b) <= 1e-6, label)


CLOSE = {}


def keyof(xs):
    return tuple(str(x) if isinstance(x, env.Sym) else "%.9g" % x for x in xs)


def maximum(ctx, cfg):
    n, kind, num = cfg["n"], cfg["kind"], cfg["num"]
    b1 = ctx.real("b1", 0, 10)
    b2 = ctx.real("b2", 0, 200)
    b = [b1, b2] + [ctx.real("b%d" % i, 0, 1000) for i in range(3, cfg["len"] + 1)]
    ctx.assume(b2 > b1 * b1)
    if kind == "Erlang_dist":
        ctx.assume(b2 < 2 * b1 * b1)
    elif kind == "H2_dist":
        ctx.assume(b2 > 2 * b1 * b1)
    CLOSE.clear()
    with Fits(ctx) as T:
        got = fj.getMaxMoments(n, b, num) if num else fj.getMaxMoments(n, b)
        k = min(num or len(b), len(b))
        ctx.check(len(got) == k, "number of moments")
        p = T.fit(kind)(b)
        F = lambda x: T.cdf(kind)(p, x) ** n
        want = maxmoments(ctx, F, k)
    for i in range(k):
        close(ctx, got[i], want[i], "moment %d of the maximum of %d" % (i + 1, n))
    ctx.reach("maximum")


def delayed(ctx, cfg):
    n, num = cfg["n"], cfg.get("num", 3)
    b = [ctx.real("b%d" % i, 0, 100) for i in (1, 2, 3)]
    ctx.assume(b[1] > b[0] * b[0])
    d = cfg["delta"]
    if d == "law":
        delta = [ctx.real("d%d" % i, 0, 100) for i in (1, 2, 3)]
        ctx.assume(delta[1] > delta[0] * delta[0])
    else:
        delta = float(Fraction(d))
    CLOSE.clear()
    with Fits(ctx) as T:
        T.src = b
        got = fj.getMaxMomentsDelta(n, b, num, delta) if num != 3 else fj.getMaxMomentsDelta(n, b, delta=delta)

        def F(x):
            r = 1
            w = list(b)
            for i in range(n):
                if d == "law":
                    r = r * T.cdf("Gamma")(*T.fit("Gamma")(w), x)
                    w = laws.conv(w, delta)
                else:
                    r = r * T.cdf("Gamma")(*T.fit("Gamma")(b), x - i * delta)
            return r
        want = maxmoments(ctx, F, num)
    for i in range(num):
        close(ctx, got[i], want[i], "moment %d of the maximum of %d started one after another" % (i + 1, n))
    ctx.reach("maximum with delays")


def tails(ctx, cfg):
    """tail of the maximum of n variables, each started delta after the one before"""
    n, d = cfg["n"], cfg.get("delta")
    t = cfg.get("t", 3.0)
    with Fits(ctx) as T:
        for name, fn in (("H2_dist", fj.dfr_H2_Mult), ("Erlang_dist", fj.dfr_Erl_Mult), ("Gamma", fj.dfr_Gamma_Mult)):
            p = T.fit(name)([1.0, 2.0, 3.0])
            got = fn(p, t, n) if d is None else fn(p, t, n, d)
            r = 1
            for i in range(n):
                r = r * T.cdf(name)(p, t - i * (d or 0))
            ctx.check_eq(got, 1 - r, "tail of the maximum of %d (%s)" % (n, name))
    ctx.reach("maximum with delays")


def ratios(ctx, cfg):
    n = cfg["n"]
    l, mu = ctx.real("l", 0, 100), ctx.real("mu", 0, 100)
    ctx.assume(l < mu)
    z = (q(ctx, Fraction(3, 2)) - l / mu / 8) / (mu - l)
    v = {}

    class MM:
        @staticmethod
        def get_v(l_, m_, n_, r, *a):
            ctx.check_eq(l_, l, "arrival rate of the many-server queue")
            ctx.check_eq(m_ * n_, mu, "%d servers together as fast as one branch" % n_)
            ctx.check(n_ in (2, n), "number of servers")
            ctx.check(r == 50, "waiting room")
            if n_ not in v:
                v[n_] = ctx.real("v%d" % n_, 0.1, 100)
            return [v[n_], 0, 0]
    with env.patched(fj, MMnr_calc=MM):
        got = fj.get_v1_fj_invar(l, mu, n, r=50)
    ctx.check_eq(got * v[2], z * v[n], "branches by the ratio of many-server queues")
    # general service: waiting times of M/G/n and M/G/2 with the load of a branch
    b1 = ctx.real("b1", 0, 10)
    b2 = ctx.real("b2", 0, 200)
    ctx.assume(b2 > b1 * b1)
    lb = ctx.real("lb", 0, 10)
    ctx.assume(lb * b1 < 1)
    c2 = (b2 - b1 * b1) / (b1 * b1)
    w = {}

    class TT:
        def __init__(self, n_, l_, b_, *a, **k):
            ctx.check(n_ in (2, n), "number of servers of the many-server queue")
            ctx.check_eq(l_, lb, "its arrival rate")
            m = n_ * b1
            for i, x in enumerate([m, m * m * (c2 + 1), m ** 3 * (c2 + 1) * (1 + 2 * c2)]):
                ctx.check_eq(b_[i], x, "its service moment %d: same load and variation as a branch" % (i + 1))
            self.n, self.done = n_, False

        def run(self):
            self.done = True

        def get_w(self, *a):
            ctx.check(self.done, "solved before it is read")
            if self.n not in w:
                w[self.n] = [ctx.real("w%d_%d" % (self.n, i), 0.1, 100) for i in range(3)]
            return list(w[self.n])
    with env.patched(fj, MGnCalc=TT):
        got = fj.get_v_fj_invar_tt(lb, [b1, b2, ctx.real("b3", 0, 1000)], n)
    z = (q(ctx, Fraction(3, 2)) - lb * b1 / 8) * b1 / (1 - lb * b1)
    ctx.check_eq(got[0] * w[2][0], z * w[n][0], "mean for general service by the ratio of many-server queues")
    # maximum of independent branches
    vb = [ctx.real("vb%d" % i, 0, 100) for i in range(3)]
    ctx.assume(vb[1] > vb[0] * vb[0])
    mm = [ctx.real("mm%d" % i, 0.1, 100) for i in range(2)]

    def gv(l_, b_, num=3):
        ctx.check_eq(l_, lb, "rate of a branch")
        ctx.check_eq(b_[0], b1, "service of a branch")
        ctx.check(num == 3, "moments of a branch")
        return list(vb)

    def gm(n_, b_, num=None):
        ctx.check(n_ == n, "number of branches")
        for i in range(2):
            ctx.check_eq(b_[i], vb[i], "sojourn of a branch, moment %d" % (i + 1))
        return mm[:num] if num else list(mm)
    with env.patched(fj, get_v=gv, getMaxMoments=gm):
        got = fj.get_v_fj_max(lb, [b1, b2, 1, 1], n)
    with env.patched(fj, getMaxMoments=lambda n_, b_, num=None: list(mm) if n_ == n and b_[0] is b1 else None):
        lm = fj.get_1ambda_max([b1, b2], n, 0.5)
    ctx.check_eq(got[0], mm[0], "independent branches: mean of the maximum")
    ctx.check_eq(lm * mm[0], 0.5, "largest rate for a split-join load of 0.5")
    ctx.reach("ratio methods")


HARNESSES = [
    Harness("means", means, quick=[dict(n=n) for n in (1, 2, 3, 5)], thorough=[dict(n=n) for n in (4, 6, 7, 8)], bounds="all stable rates, 1-5 (thorough 8) branches, every k"),
    Harness("maximum", maximum, quick=[dict(n=2, kind="Erlang_dist", len=3, num=0), dict(n=3, kind="H2_dist", len=4, num=3), dict(n=3, kind="Gamma", len=2, num=2), dict(n=1, kind="Erlang_dist", len=4, num=4), dict(n=4, kind="H2_dist", len=3, num=5)],
            thorough=[dict(n=n, kind=k, len=3, num=3) for n in (2, 5) for k in ("Erlang_dist", "H2_dist")], bounds="all moments, all values of the distribution function at the ten nodes, 1-4 (thorough 5) variables", tol=1e-6),
    Harness("delayed", delayed, quick=[dict(n=2, delta="1/2"), dict(n=2, delta="0"), dict(n=3, delta="law"), dict(n=3, delta="5/4", num=4)], thorough=[dict(n=4, delta="law", num=4), dict(n=5, delta="1/8")],
            bounds="2-3 (thorough 5) variables, fixed and random delays", tol=1e-6),
    Harness("tails", tails, quick=[dict(n=1), dict(n=3), dict(n=2, delta=0.25), dict(n=4, delta=0.5), dict(n=3, delta=0)], bounds="1-4 variables, delays 0-0.5"),
    Harness("ratios", ratios, quick=[dict(n=2), dict(n=3), dict(n=5)], bounds="all rates and moments, 2, 3 and 5 branches"),
]
