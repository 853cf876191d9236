import contextlib
import math

from vlib import env, laws
from vlib.runner import Harness
rd = env.mq("rand_distribution")
ASSUMPTIONS = ["scipy.stats.gamma.cdf and scipy.special.gamma are what they say (Gamma law, integer shape: closed form)"]
WITNESSES = ["outside the support", "inside the support"]


def close(ctx, got, want, label):
    got = list(got)
    ctx.check(len(got) == len(want), label + ": number of moments", "%d vs %d" % (len(got), len(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.check_eq(a, b, "%s %d" % (label, i + 1))


def moments(ctx, cfg):
    kind, n = cfg["kind"], cfg["n"]
    r = lambda s, lo=0, hi=50: ctx.real(s, lo, hi)
    if kind == "Uniform":
        m, h = r("mean", -50, 50), r("h")
        close(ctx, rd.Uniform_dist.calc_theory_moments(m, h, n) if n != 3 else rd.Uniform_dist.calc_theory_moments(m, h),
              laws.uniform(m, h, n), "uniform moment")
    elif kind == "H":
        p = [r("y1", -2, 3), r("m1"), r("m2")]
        close(ctx, rd.H2_dist.calc_theory_moments(*p, n) if n != 3 else rd.H2_dist.calc_theory_moments(*p), laws.h2(*p, n), "H2 moment")
        if n >= 2:
            ctx.assume(p[0] > 0)
            ctx.assume(p[0] < 1)
            rp = rd.H2_dist.get_residual_params(p)
            close(ctx, laws.h2(*rp, n - 1), laws.residual(laws.h2(*p, n)), "moment of the residual law")
    elif kind == "C":
        p = [r("y1", -2, 3), r("m1"), r("m2")]
        close(ctx, rd.Cox_dist.calc_theory_moments(*p), laws.cox(*p, 3), "Cox moment")
    elif kind == "E":
        mu = r("mu")
        close(ctx, rd.Erlang_dist.calc_theory_moments(cfg["r"], mu, n) if n != 3 else
              rd.Erlang_dist.calc_theory_moments(cfg["r"], mu), laws.erlang(cfg["r"], mu, n), "Erlang moment")
    elif kind == "M":
        mu = r("mu")
        close(ctx, rd.Exp_dist.calc_theory_moments(mu, n) if n != 3 else rd.Exp_dist.calc_theory_moments(mu),
              laws.expo(mu, n), "exponential moment")
    elif kind == "Gamma":
        mu, al = r("mu"), r("alpha")
        close(ctx, rd.Gamma.calc_theory_moments(mu, al, n) if n != 3 else rd.Gamma.calc_theory_moments(mu, al),
              laws.gamma(mu, al, n), "Gamma moment")
    elif kind == "Pa":
        a, k = r("a"), r("k")
        got = rd.Pareto_dist.calc_theory_moments(a, k, n) if n != 3 else rd.Pareto_dist.calc_theory_moments(a, k)
        got = list(got)
        m = 0
        while m < n and a > m + 1:
            m += 1
        close(ctx, got, laws.pareto(a, k, m), "Pareto moment")


def exp_(ctx, x):
    return env.lift(x).exp() if ctx.symbolic else math.exp(x)


def erl_tail(ctx, r, mu, t):
    return sum((mu * t) ** i / math.factorial(i) for i in range(r)) * exp_(ctx, -mu * t)


@contextlib.contextmanager
def gamma_cdf(ctx):
    """closed form of the Gamma cdf at integer shape, in place of scipy's numerical one"""
    if not ctx.symbolic:
        yield
        return
    import scipy.special as sp

    def inc(a, x):
        if x <= 0:
            return 0
        return 1 - erl_tail(ctx, int(a), 1, x)

    class G:
        cdf = staticmethod(lambda x, a, loc=0, scale=1: inc(a, (x - loc) / scale))
        sf = staticmethod(lambda x, a, loc=0, scale=1: 1 - inc(a, (x - loc) / scale))

    class St:
        gamma = G
    saved = {}
    if hasattr(rd, "stats"):
        saved["stats"] = rd.stats
        rd.stats = St
    sv = sp.gammainc
    sp.gammainc = inc
    try:
        yield
    finally:
        sp.gammainc = sv
        for k, v in saved.items():
            setattr(rd, k, v)


def curves(ctx, cfg):
    """cdf, tail and density at a symbolic point"""
    kind = cfg["kind"]
    t = ctx.real("t", -20, 50)
    r = lambda s, lo=0, hi=50: ctx.real(s, lo, hi)
    if kind == "Uniform":
        m, h = r("mean", -50, 50), r("h")
        a, b = m - h, m + h
        ctx.assume(abs(t - a) > 0)
        ctx.assume(abs(t - b) > 0)
        if t < a:
            F, f = 0, 0
            ctx.reach("outside the support")
        elif t > b:
            F, f = 1, 0
        else:
            ctx.reach("inside the support")
            F, f = (t - a) / (2 * h), 1 / (2 * h)
        D = rd.Uniform_dist
        got = (D.get_pdf(m, h, t), D.get_cdf(m, h, t), D.get_tail(m, h, t))
    elif kind == "H":
        p = [r("y1", 0, 1), r("m1"), r("m2")]
        D = rd.H2_dist
        ctx.assume(abs(t) > 0)
        if t < 0:
            F, f = 0, 0
        else:
            e1, e2 = exp_(ctx, -p[1] * t), exp_(ctx, -p[2] * t)
            F = 1 - p[0] * e1 - (1 - p[0]) * e2
            f = p[0] * p[1] * e1 + (1 - p[0]) * p[2] * e2
        got = (D.get_pdf(p, t), D.get_cdf(p, t), D.get_tail(p, t))
    elif kind == "E":
        p = [cfg["r"], r("mu")]
        D = rd.Erlang_dist
        ctx.assume(abs(t) > 0)
        F, f = (0, None) if t < 0 else (1 - erl_tail(ctx, p[0], p[1], t), None)
        got = (None, D.get_cdf(p, t), D.get_tail(p, t))
    elif kind == "Pa":
        a = cfg["a"]
        k = r("k")
        D = rd.Pareto_dist
        ctx.assume(abs(t - k) > 0)
        ctx.assume(abs(t) > 0)
        if t < k:
            F, f = 0, 0
        else:
            T = (k / t) ** a
            F, f = 1 - T, a * T / t
        got = (D.get_pdf(t, a, k), D.get_cdf([a, k], t), D.get_tail([a, k], t))
    else:
        mu, al = r("mu"), cfg["alpha"]
        ctx.assume(mu * t > 1e-6)
        D = rd.Gamma
        F = 1 - erl_tail(ctx, al, mu, t)
        f = mu * (mu * t) ** (al - 1) * exp_(ctx, -mu * t) / math.factorial(al - 1)
        with gamma_cdf(ctx):
            got = (D.get_pdf(mu, al, t), D.get_cdf(mu, al, t), None)
        ctx.check_eq(D.get_f(mu, al, t), f, "Gamma density")
        g = [r("g%d" % i, -5, 5) for i in range(3)]
        ctx.check_eq(D.get_f_corrective(mu, al, g, t), f * (g[0] + g[1] * t + g[2] * t * t), "density with correction polynomial")
        ctx.check_eq(D.get_pls(mu, al, t), (mu / (mu + t)) ** al, "Laplace transform of the density")
    if got[0] is not None:
        ctx.check_eq(got[0], f, kind + " density")
    ctx.check_eq(got[1], F, kind + " distribution function")
    if got[2] is not None:
        ctx.check_eq(got[2], 1 - F, kind + " tail")


def mrows(tier):
    N = [1, 2, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5, 6]
    o = [dict(kind=k, n=n) for k in ("Uniform", "H", "M", "Gamma", "Pa") for n in N] + [dict(kind="C", n=3)]
    o += [dict(kind="E", r=r, n=n) for r in ([1, 2, 3] if tier == "quick" else [1, 2, 3, 4, 5, 8]) for n in N]
    return o


def crows(tier):
    o = [dict(kind="Uniform"), dict(kind="H")]
    o += [dict(kind="E", r=r) for r in ([1, 2, 3] if tier == "quick" else range(1, 8))]
    o += [dict(kind="Pa", a=a) for a in ([1, 2, 3, 0.5, 1.5] if tier == "quick" else [0.5, 1, 1.5, 2, 2.5, 3, 4, 5])]
    o += [dict(kind="Gamma", alpha=a) for a in ([1, 2, 3] if tier == "quick" else range(1, 7))]
    return o


HARNESSES = [
    Harness("moments", moments, quick=mrows("quick"), thorough=mrows("thorough"),
            bounds="first 1..4 (thorough 6) moments, all real parameters up to 50 (H2, Cox weights in (-2,3)), Erlang order 1-3 (thorough 8)"),
    Harness("curves", curves, quick=crows("quick"), thorough=crows("thorough"),
            bounds="all real points t in (-20,50) off the edges of the support, all real scale parameters; integer shapes for Erlang/Gamma, "
                   "listed exponents for Pareto; Gamma at mu*t>1e-6"),
]
