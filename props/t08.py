from vlib import env
from vlib.runner import Harness
im = env.mq("theory.impatience_calc")
ASSUMPTIONS = ["the sums are followed for a bounded number of terms; parameter values that need more are not covered"]
WITNESSES = ["empty-system probability", "growing terms", "means"]


def weights(l, mu, g, n):
    w = [1]
    for i in range(1, n + 1):
        w.append(w[-1] * l / (mu + (i - 1) * g))
    return w


def rates(ctx, cfg=None):
    l = ctx.real("l", 0, 10) if "l" not in (cfg or {}) else cfg["l"]
    mu = ctx.real("mu", 0, 10) if "mu" not in (cfg or {}) else cfg["mu"]
    g = ctx.real("gamma", 0, 10) if "g" not in (cfg or {}) else cfg["g"]
    return l, mu, g


def p0(ctx, cfg):
    """the neglected terms of the normalising sum are below the tolerance"""
    L, tol = 3 * cfg["lim"], cfg["tol"]
    l, mu, g = rates(ctx, cfg)
    ctx.limit(cfg["lim"])
    x = im.get_p0(l, mu, g, tol)
    ctx.unlimit()
    w = weights(l, mu, g, L + 1)
    s = 1 / x
    if w[2] > w[1]:
        ctx.reach("growing terms")
    # s is one of the partial sums; everything after it is small
    n = None
    part = 0
    for i in range(L + 1):
        part = part + w[i]
        if lst_same(ctx, part, s):
            n = i
            break
    if n is None:
        ctx.check(False, "normalising constant is a partial sum of the series")
        return
    # the ratios l / (mu + i gamma) fall: once the terms fall they stay below the first of them
    ctx.check(w[n + 1] <= tol, "the first neglected term is below the tolerance")
    ctx.check(l <= mu + (n + 1) * g, "the neglected terms fall")
    ctx.reach("empty-system probability")


def lst_same(ctx, a, b):
    if ctx.symbolic:
        d = env.lift(a) - env.lift(b)
        return d.is_const() and d.const() == 0
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def states(ctx, cfg):
    tol = cfg["tol"]
    l, mu, g = rates(ctx, cfg)
    z = ctx.real("p0", 0, 1)
    with env.patched(im, get_p0=lambda *a, **k: z):
        ctx.limit(cfg["lim"])
        ps = im.get_p(l, mu, g, tol)
        ctx.unlimit()
        w = weights(l, mu, g, len(ps))
        ctx.check_eq(ps[0], z, "probability of the empty system")
        for i in range(1, len(ps)):
            ctx.check_eq(ps[i], z * w[i], "probability of %d jobs" % i)
        i = len(ps)
        ctx.check(w[i] * z <= tol, "the first omitted probability is below the tolerance")
        ctx.check(l <= mu + i * g, "the omitted probabilities fall")
        if cfg.get("cap"):
            q = im.get_p(l, mu, g, 0, cfg["cap"])
            ctx.check(len(q) == cfg["cap"], "number of probabilities asked for")


def means(ctx, cfg):
    n = cfg["n"]
    l, mu, g = rates(ctx)
    p = [ctx.real("p%d" % i, 0, 1) for i in range(n)]
    with env.patched(im, get_p=lambda *a, **k: list(p)):
        N = sum(i * x for i, x in enumerate(p))
        Q = sum((i - 1) * x for i, x in enumerate(p) if i)
        ctx.check_eq(im.get_N(l, mu, g), N, "mean number in the system")
        ctx.check_eq(im.get_Q(l, mu, g), Q, "mean queue length")
        ctx.check_eq(im.get_v1(l, mu, g) * l, N, "mean sojourn time (Little, all arrivals)")
        ctx.check_eq(im.get_w1(l, mu, g) * l, Q, "mean waiting time (Little, all arrivals)")
    ctx.reach("means")


Q = [dict(tol=0.05, lim=16, mu=1, g=1, cap=4), dict(tol=0.05, lim=10, mu=1, l=3), dict(tol=0.05, lim=5, mu=1), dict(tol=0.05, lim=10, g=0.5, l=2, cap=6)]
TH = [dict(tol=0.05, lim=6, g=1), dict(tol=0.05, lim=12, mu=1, l=4)]


HARNESSES = [
    Harness("p0", p0, quick=Q, thorough=Q + TH,
            bounds="one or two of the three rates free (the others fixed), sums that end within about 5-16 (thorough 16) terms, tolerances 0.05-0.001"),
    Harness("states", states, quick=Q[1:], thorough=Q[1:] + TH,
            bounds="any p0, one or two of the three rates free, lists that end within about 5-16 (thorough 16) states, tolerances 0.05-0.001"),
    Harness("means", means, quick=[dict(n=n) for n in (1, 4)], bounds="4 states"),
]
