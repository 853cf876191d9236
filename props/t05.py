import math

from vlib import env, girefs, laws
from vlib.runner import Harness
gm = env.mq("theory.gi_m_1_calc")
ASSUMPTIONS = ["fit of the interarrival law and the Gamma functions are stubbed by what they stand for (fits: D03)",
               "the fixed-point iteration is followed for a bounded number of steps"]
WITNESSES = ["root found", "iteration finished", "waiting time", "states"]


def root(ctx, cfg):
    girefs.root(ctx, cfg, gm, lambda a, mu, e, d: gm.get_w_param(a, mu, e, d), 1)


def formulas(ctx, cfg):
    num = cfg["num"]
    w, mu, a1 = ctx.real("w", 0, 1), ctx.real("mu", 0, 20), ctx.real("a1", 0, 20)
    ctx.assume(a1 * mu > 1)
    a = [a1, 2 * a1 * a1, 6 * a1 ** 3]
    seen = []

    def stub(a_, mu_, e=1e-10, approx_distr="Gamma"):
        seen.append((e, approx_distr))
        ctx.check_eq(mu_, mu, "service rate handed on")
        for x, y in zip(a_, a):
            ctx.check_eq(x, y, "moments handed on")
        return w
    kw = dict(approx_distr=cfg.get("law", "Gamma"))
    with env.patched(gm, get_w_param=stub):
        pi = gm.get_pi(a, mu, num, 1e-9, **kw)
        p = gm.get_p(a, mu, num, 1e-9, **kw)
        v = gm.get_v(a, mu, cfg.get("m", 3), 1e-9, **kw)
        wt = gm.get_w(a, mu, cfg.get("m", 3), 1e-9, **kw)
    for e, d in seen:
        ctx.check(e == 1e-9 and d == kw["approx_distr"], "tolerance and law handed on")
    ctx.check(len(pi) == num and len(p) == num, "number of probabilities")
    rho = 1 / (a1 * mu)
    ctx.check_eq(p[0], 1 - rho, "empty system")
    for i in range(num):
        ctx.check_eq(pi[i], (1 - w) * w ** i, "arrival finds %d jobs" % i)
        if i:
            # rate up = rate down:  pi[i-1] / a = mu p[i]
            ctx.check_eq(p[i] * mu, (1 - w) * w ** (i - 1) / a1, "%d jobs at any time" % i)
    ctx.reach("states")
    # geometric number of exponential times
    for k in range(cfg.get("m", 3)):
        ctx.check_eq(v[k], math.factorial(k + 1) / (mu * (1 - w)) ** (k + 1), "sojourn moment %d" % (k + 1))
        if k < 3:       # differences are made for three moments at most
            ctx.check_eq(wt[k], w * math.factorial(k + 1) / (mu * (1 - w)) ** (k + 1), "waiting moment %d" % (k + 1))
    ctx.reach("waiting time")


R = [dict(law="Gamma", phases=1, e=0.01, lim=3), dict(law="Gamma", phases=2, q=[0.5], e=0.05, lim=4, v=1), dict(law="Gamma", phases=2, q=[0], alpha=2, e=0.05, lim=4, v=1),
     dict(law="Gamma", phases=3, q=[0.5, 0.25], e=0.05, lim=3, v=1), dict(law="Pareto", a=3, e=0.01, lim=2), dict(law="Pareto", a=3, e=0.01, lim=3, K=1)]
HARNESSES = [
    Harness("root", root, quick=R, thorough=R + [dict(law="Pareto", a=4, e=0.001, lim=4, K=1), dict(law="Gamma", phases=2, q=[0.5], e=0.02, lim=5, v=2)],
            bounds="interarrival: mixtures of up to 3 Erlang laws written as corrected Gamma (rates free or fixed), Pareto of shape 3, 4; few iterations, tolerance 0.01-0.05; start at the load"),
    Harness("formulas", formulas, quick=[dict(num=5), dict(num=4, m=4, law="Pa"), dict(num=3, m=2)], thorough=[dict(num=20), dict(num=8, m=4, law="Pa"), dict(num=3, m=1), dict(num=3, m=2)],
            bounds="all roots, service rates and mean gaps with load below one; 3-5 (thorough 20) states, 2-4 moments"),
]
