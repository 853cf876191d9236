import contextlib
import math

from vlib import env, laws
from vlib.runner import Harness
rd = env.mq("rand_distribution")
ASSUMPTIONS = ["Gamma.gamma_approx is the Gamma function at 1 and 2"]
WITNESSES = ["complex parameters", "real parameters", "bisection finished", "third moment too small for H2", "nearest order", "degenerate moments fitted"]


def same(ctx, got, want, label):
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.check_eq(a, b, "%s: moment %d" % (label, i + 1))


def positive(ctx, *xs):
    for x in xs:
        ctx.check(x > 0, "parameter is positive")


def two(ctx):
    """first two moments of any law with positive variance"""
    f1 = ctx.real("f1", 0, 20)
    var = ctx.real("var", 0, 100)
    return f1, var, [f1, f1 * f1 + var]


def simple(ctx, cfg):
    kind = cfg["kind"]
    if kind == "Uniform":
        f1, var, f = two(ctx)
        p = rd.Uniform_dist.get_params(f)
        same(ctx, laws.uniform(p[0], p[1], 2), f, "uniform fit")
        positive(ctx, p[1])
    elif kind == "Uniform coev":
        f1, c = ctx.real("f1", 0, 20), ctx.real("coev", 0, 5)
        p = rd.Uniform_dist.get_params_by_mean_and_coev(f1, c)
        same(ctx, laws.uniform(p[0], p[1], 2), [f1, f1 * f1 * (1 + c * c)], "uniform fit by coefficient of variation")
        positive(ctx, p[1])
    elif kind in ("Pa", "Pa get_a_k"):
        f1, var, f = two(ctx)
        a, k = rd.Pareto_dist.get_params(f) if kind == "Pa" else rd.Pareto_dist.get_a_k(f)
        ctx.check(a > 2, "second moment exists")
        positive(ctx, k)
        same(ctx, laws.pareto(a, k, 2), f, "Pareto fit")
    elif kind == "Pa coev":
        f1, c = ctx.real("f1", 0, 20), ctx.real("coev", 0, 5)
        a, k = rd.Pareto_dist.get_a_k_by_mean_and_coev(f1, c)
        ctx.check(a > 2, "second moment exists")
        positive(ctx, k)
        same(ctx, laws.pareto(a, k, 2), [f1, f1 * f1 * (1 + c * c)], "Pareto fit by coefficient of variation")
    elif kind == "Gamma":
        f1, var, f = two(ctx)
        mu, al = rd.Gamma.get_mu_alpha(f)
        positive(ctx, mu, al)
        same(ctx, laws.gamma(mu, al, 2), f, "Gamma fit")
        mu, al = rd.Gamma.get_params(f)
        same(ctx, laws.gamma(mu, al, 2), f, "Gamma fit (get_params)")
    elif kind == "Gamma coev":
        f1, c = ctx.real("f1", 0, 20), ctx.real("coev", 0, 5)
        mu, al = rd.Gamma.get_mu_alpha_by_mean_and_coev(f1, c)
        positive(ctx, mu, al)
        same(ctx, laws.gamma(mu, al, 2), [f1, f1 * f1 * (1 + c * c)], "Gamma fit by coefficient of variation")
    elif kind in ("E", "E coev"):
        f1 = ctx.real("f1", 0, 20)
        c = ctx.real("coev", 0.35, 1.1)
        f = [f1, f1 * f1 * (1 + c * c)]
        r, mu = rd.Erlang_dist.get_params(f) if kind == "E" else rd.Erlang_dist.get_params_by_mean_and_coev(f1, c)
        ctx.check(int(r) == r and r >= 1, "whole number of phases")
        ctx.check_eq(laws.erlang(int(r), mu, 1)[0], f1, "Erlang fit: mean")
        ctx.check(abs(r - 1 / (c * c)) <= 0.5 + 1e-6, "order nearest to the squared inverse coefficient of variation")
        ctx.reach("nearest order")
    elif kind == "M":
        f1, var, f = two(ctx)
        mu = rd.Exp_dist.get_params(f)
        ctx.check_eq(mu * f1, 1, "exponential fit: mean")


def clx(ctx, cfg):
    """three-moment H2 / Cox fits with possibly complex parameters"""
    f1 = ctx.real("f1", 0, 20)
    if cfg.get("by") == "coev":
        c = ctx.real("coev", 0, 5)
        f = [f1, f1 * f1 * (1 + c * c), f1 ** 3 * (1 + c * c) * (1 + 2 * c * c)]
        m2 = f[1]
    else:
        m2, m3 = ctx.real("f2", 0, 1000), ctx.real("f3", 0, 100000)
        f = [f1, m2, m3]
    a, b, d = f[0], f[1] / 2, f[2] / 6
    # away from the laws at which the two-phase representation degenerates
    ctx.assume(abs(f[1] - f1 * f1) > 0)
    ctx.assume(abs(b - a * a) > 0.01 * a * a)
    disc = (a * b - d) ** 2 - 4 * (b - a * a) * (a * d - b * b)
    ctx.assume(abs(disc) > 0)
    ctx.assume(abs(a * d - b * b) > 0)
    if cfg["fit"]:
        ctx.assume(f[1] > f1 * f1)
        ctx.assume(abs(f[1] - f1 * f1 - f1 * f1) > 0.05 * f1 * f1)       # |coev-1| > .02
        ctx.assume(abs(f[1] - 1.5 * f1 * f1) > 0.05 * f1 * f1)
        if cfg["kind"] == "C":
            ctx.assume(abs(f[1] - 0.75 * f1 * f1) > 0.05 * f1 * f1)
    ctx.reach("complex parameters" if disc < 0 else "real parameters")
    kw = dict(verbose=False, is_fitting=cfg["fit"])
    if cfg["kind"] == "H":
        if cfg.get("by"):
            p = rd.H2_dist.get_params_by_mean_and_coev(f1, c, is_clx=True)
        else:
            p = rd.H2_dist.get_params_clx(f, **kw)
        same(ctx, laws.h2(*p, 3), f, "H2 fit")
    else:
        p = rd.Cox_dist.get_params_by_mean_and_coev(f1, c) if cfg.get("by") else rd.Cox_dist.get_params(f, **kw)
        same(ctx, laws.cox(*p, 3), f, "Cox fit")


def degenerate(ctx, cfg):
    """moments of a law at which the two-phase representation degenerates (exponential, Erlang of two
    phases, nearly such): the fit is perturbed, but keeps the mean"""
    f1 = ctx.real("f1", 0, 20)
    c = env.lift if ctx.symbolic else float
    f = {"M": [f1, 2 * f1 * f1, 6 * f1 ** 3], "E2": [f1, f1 * f1 * 3 / 2, 3 * f1 ** 3],
         "nearM": [f1, f1 * f1 * c(2.001), c(6.01) * f1 ** 3],
         "nearE2": [f1, f1 * f1 * c(1.4995), c(3.001) * f1 ** 3]}[cfg["law"]]
    D, law = (rd.H2_dist, laws.h2) if cfg["kind"] == "H" else (rd.Cox_dist, laws.cox)
    p = D.get_params_clx(f, verbose=False) if cfg["kind"] == "H" else D.get_params(f, verbose=False)
    ctx.reach("degenerate moments fitted")
    m = law(*p, 1)[0]
    ctx.check_eq(m, f1, "two-phase fit near a degenerate law: mean")


def bisect(ctx, cfg):
    """real H2 fit: the search is followed for a bounded number of halvings"""
    f1 = cfg["f1"]
    f2 = ctx.real("f2", 0, 40 * f1 * f1)
    f3 = ctx.real("f3", 0, 2000 * f1 ** 3)
    ctx.assume(f2 > 2.01 * f1 * f1)
    f = [f1, f2, f3]
    if 2 * f1 * f3 < 3 * f2 * f2:
        # infeasible for H2: mean and variance are still to be met
        ctx.reach("third moment too small for H2")
        p = rd.H2_dist.get_params(f)
        m = laws.h2(*p, 2)
        ctx.check(abs(m[0] - f1) <= 1e-4 * f1, "H2 fit: mean")
        ctx.check(abs(m[1] - f2) <= 1e-4 * f2, "H2 fit: second moment")
        return
    ctx.assume(2 * f1 * f3 > 3 * f2 * f2)
    ctx.limit(cfg["n"])
    p = rd.H2_dist.get_params(f)
    ctx.unlimit()
    ctx.reach("bisection finished")
    ctx.check(p[0] > 0, "weight")
    ctx.check(p[0] < 1, "weight")
    m = laws.h2(*p, 3)
    ctx.check_eq(m[0], f1, "H2 fit: mean")
    ctx.check_eq(m[1], f2, "H2 fit: second moment")
    ctx.check(abs(m[2] - f3) <= 1e-6, "H2 fit: third moment")


@contextlib.contextmanager
def exact_gamma(ctx):
    if not ctx.symbolic:
        yield
        return
    o = rd.Gamma.__dict__["gamma_approx"]
    f = rd.Gamma.gamma_approx

    def g(x):
        x = env.lift(x)
        if x.is_const() and x.const() in (1, 2):
            return 1
        return f(x)
    rd.Gamma.gamma_approx = staticmethod(g)
    try:
        yield
    finally:
        rd.Gamma.gamma_approx = o


def corrective(ctx, cfg):
    """Gamma density with a correction polynomial matches all given moments"""
    al, n = cfg["alpha"], cfg["n"]
    mu = ctx.real("mu", 0, 20)
    b = laws.gamma(mu, al, 2) + [ctx.real("b%d" % i, 0, 1000) for i in range(3, n + 1)]
    with exact_gamma(ctx):
        m, a, g = rd.Gamma.get_params(b)
    ctx.check_eq(m, mu, "scale")
    ctx.check_eq(a, al, "shape")
    ctx.check(len(g) == n + 1, "one coefficient per matched moment")
    full = [1] + laws.gamma(mu, al, 2 * n)
    for i in range(n + 1):
        ctx.check_eq(sum(full[i + j] * g[j] for j in range(n + 1)), ([1] + b)[i], "corrected density: moment %d" % i)


def gamma_fn(ctx, cfg):
    """functional equation of the Gamma function over the whole reduction, base interval opaque"""
    x = ctx.real("x", *cfg["x"])
    seen = {}
    o = rd.Gamma.__dict__["gamma_approx"]

    def g(z):
        z = env.lift(z)
        if z.is_const():
            return {1: 1, 2: 1}.get(z.const()) or o.__func__(z)
        ctx.check(z >= 1, "approximation used from 1")
        ctx.check(z <= 2, "approximation used to 2")
        k = repr(z)
        if k not in seen:
            seen[k] = ctx.real("gamma(%s)" % k, 0.5, 1.5)
        return seen[k]
    if ctx.symbolic:
        rd.Gamma.gamma_approx = staticmethod(g)
    try:
        ctx.check_eq(rd.Gamma.get_gamma(x + 1), x * rd.Gamma.get_gamma(x), "Gamma(x+1) = x Gamma(x)")
    finally:
        rd.Gamma.gamma_approx = o


HARNESSES = [
    Harness("simple", simple, quick=[dict(kind=k) for k in ("Uniform", "Uniform coev", "Pa", "Pa get_a_k", "Pa coev", "Gamma",
                                                             "Gamma coev", "E", "E coev", "M")],
            bounds="every mean up to 20 and variance up to 100 (coefficient of variation 0.35-1.1 for Erlang, i.e. orders 1..8)"),
    Harness("clx", clx, quick=[dict(kind=k, fit=f) for k in "HC" for f in (False, True)] +
            [dict(kind=k, fit=True, by="coev") for k in "HC"],
            bounds="all three moments (feasible or not), outside the stated neighbourhoods of exponential and Erlang-2 laws", tol=1e-4),
    Harness("degenerate", degenerate, quick=[dict(kind=k, law=w) for k in "CH" for w in ("M", "E2", "nearM", "nearE2")],
            bounds="every mean up to 20, moments of the exponential and two-phase Erlang laws and two laws near them"),
    Harness("bisect", bisect, quick=[dict(f1=1, n=12), dict(f1=2.5, n=12)], thorough=[dict(f1=f, n=20) for f in (1, 2.5, 0.3)],
            bounds="all second and third moments reached by the search within the stated number of halvings; listed means", validate=False),
    Harness("corrective", corrective, quick=[dict(alpha=1, n=3), dict(alpha=2, n=3), dict(alpha=2, n=4), dict(alpha=3, n=4)],
            thorough=[dict(alpha=a, n=n) for a in (1, 2, 3, 4) for n in (3, 4, 5)],
            bounds="shapes 1-3 (thorough 4), 3-4 (5) moments, all scales and all further moments", tol=1e-4),
    Harness("gamma_fn", gamma_fn, quick=[dict(x=[0, 1]), dict(x=[1, 2]), dict(x=[2, 5])],
            bounds="all arguments in (0,1), (1,2), (2,5)", validate=False),
]
