import itertools

from vlib import env, gens
from vlib.gens import log, one_of
from vlib.runner import Harness
rd = env.mq("rand_distribution")
du = env.mq("sim.utils.distribution_utils")
ASSUMPTIONS = ["numpy's primitive draws have their documented laws (uniform, standard normal, gamma)"]
WITNESSES = ["first branch of a mixture", "second branch of a mixture", "second phase"]

KINDS = {"M": rd.Exp_dist, "H": rd.H2_dist, "E": rd.Erlang_dist, "Gamma": rd.Gamma, "C": rd.Cox_dist,
         "Pa": rd.Pareto_dist, "Uniform": rd.Uniform_dist, "Norm": rd.Normal_dist, "D": rd.Det_dist}


def params(ctx, kind, cfg):
    r = lambda n, lo=0, hi=50: ctx.real(n, lo, hi)
    if kind in ("M", "D"):
        return r("mu")
    if kind in ("H", "C"):
        return [r("y1", 0, 1), r("m1"), r("m2")]
    if kind == "E":
        return [cfg["r"], r("mu")]
    if kind == "Gamma":
        return [r("mu"), r("alpha")]
    if kind == "Pa":
        return [cfg["a"], r("k")]
    return [r("mean", -50, 50) if kind == "Norm" else r("mean", 10, 50), r("h", 0, 10)]


def law(ctx, kind, p, x, g):
    """x is a value of the law `kind`(p) built from the primitive draws recorded in g"""
    us = list(g.us)
    if kind == "M":
        exps(ctx, x, p, us, 1)
    elif kind == "E":
        exps(ctx, x, p[1], us, p[0])
    elif kind == "H":
        ctx.check(len(us) == 2, "two primitive draws for a mixture", str(len(us)))

        def val(r, u):
            if r < p[0]:
                ctx.reach("first branch of a mixture")
                return -log(u) / p[1]
            ctx.reach("second branch of a mixture")
            return -log(u) / p[2]
        a, b = us

        one_of(ctx, x, [lambda: val(a, b), lambda: val(b, a), lambda: val(1 - a, b), lambda: val(1 - b, a)],
               "mixture of two exponentials")
    elif kind == "C":
        one_of(ctx, x, cox_cands(ctx, p, us), "two exponential phases, the second with its probability")
    elif kind == "Pa":
        a, k = p
        ctx.check(len(us) == 1, "one primitive draw")
        q = (a * 2)
        assert q == int(q)
        # x^a * u == k^a, compared in squares when a is a half integer
        lhs = env.lift(x) ** int(q) if ctx.symbolic else x ** int(q)
        rhs = env.lift(k) ** int(q) if ctx.symbolic else k ** int(q)
        ctx.check(x > 0, "positive")
        one_of(ctx, lhs * us[0] ** 2, [rhs, lambda: lhs * us[0] ** 2 - lhs * (1 - us[0]) ** 2 + rhs],
               "inverse transform of the Pareto law")
    elif kind == "Uniform":
        one_of(ctx, x, [p[0] - p[1] + 2 * p[1] * us[0], p[0] + p[1] - 2 * p[1] * us[0]] if us else [],
               "uniform over mean +- half interval")
        ctx.check(len(us) == 1, "one primitive draw")
    elif kind == "Norm":
        ctx.check(len(g.zs) == 1, "one normal draw")
        ctx.check_eq(x, p[0] + p[1] * g.zs[0][2], "normal with the given mean and deviation")
    elif kind == "Gamma":
        ctx.check(len(g.gs) == 1, "one gamma draw")
        ctx.check_eq(g.gs[0][0], p[1], "shape parameter")
        ctx.check_eq(x * p[0], g.gs[0][2], "scale is the reciprocal of the rate")
    else:
        ctx.check_eq(x, p, "constant")
        ctx.check(g.used() == 0, "no draw for a constant")


def exps(ctx, x, mu, us, r):
    ctx.check(len(us) == r, "one primitive draw per phase", "%d draws for %d phases" % (len(us), r))

    def tot(flip):
        t = 0
        for u in us:
            t = t - log(1 - u if flip else u)
        return t
    one_of(ctx, mu * x, [lambda: tot(False), lambda: tot(True)], "sum of %d exponentials" % r)


def cox_cands(ctx, p, us):
    y1, m1, m2 = p

    def val(r, a, b):
        if r < y1:
            ctx.reach("second phase")
            if b is None:
                ctx.check(False, "a job with a second phase draws it")
            return -log(a) / m1 - log(b) / m2
        return -log(a) / m1
    out = []
    n = len(us)
    for r, a in itertools.permutations(range(n), 2):
        rest = [i for i in range(n) if i not in (r, a)]
        b = us[rest[0]] if rest else None
        out.append(lambda r=r, a=a, b=b: val(us[r], us[a], b))
    return out


def sample(ctx, cfg):
    kind = cfg["kind"]
    p = params(ctx, kind, cfg)
    how = cfg["how"]
    g, other = gens.Gen(ctx, "g"), gens.Gen(ctx, "o")
    own = "generator" in how
    with gens.global_random(other if own else g):
        cls = KINDS[kind]
        if how.startswith("factory"):
            d = du.create_distribution(p, kind, g if own else None)
            x = d.generate()
        elif how.startswith("object"):
            d = cls(p, g) if own else cls(p)
            x = d.generate()
        else:
            a = p if isinstance(p, list) else [p]
            x = cls.generate_static(*a, g) if own or kind == "C" and own else \
                (cls.generate_static(*a, None) if kind == "C" else cls.generate_static(*a))
        law(ctx, kind, p, x, g)
        if own:
            ctx.check(other.used() == 0, "every draw comes from the supplied generator")
        if how.startswith("object") and kind not in ("D",):
            # a second value uses fresh draws only
            k = g.used()
            d.generate()
            ctx.check(g.used() > k, "each value uses fresh draws")


def rows():
    o = []
    for kind in KINDS:
        for how in ("factory", "factory generator", "object", "object generator", "static", "static generator"):
            if kind == "D" and how in ("object generator", "static generator"):
                continue
            if kind == "E":
                for r in (1, 2, 4):
                    o.append(dict(kind=kind, how=how, r=r))
            elif kind == "Pa":
                for a in (2, 1.5, 4, 0.5):
                    o.append(dict(kind=kind, how=how, a=a))
            else:
                o.append(dict(kind=kind, how=how))
    return o


HARNESSES = [Harness("sample", sample, quick=rows(), opts={},
                     bounds="all nine laws, real parameters (Erlang order 1,2,4; Pareto exponent 1/2,3/2,2,4), all uniform draws in (0,1)")]
