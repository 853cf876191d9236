from vlib import env
from vlib.runner import Harness
bm = env.mq("theory.batch_mm1")
ASSUMPTIONS = ["load below one"]
WITNESSES = ["probabilities", "cut by the tolerance"]


def setup(ctx, n, zero=()):
    lam, mu = ctx.real("lam", 0, 10), ctx.real("mu", 0, 10)
    pr = [ctx.real("p%d" % i, 0, 1, strict=i not in zero) for i in range(n - 1)]
    last = 1 - sum(pr)
    ctx.assume(last >= 0)
    pr.append(last)
    mean = sum((i + 1) * p for i, p in enumerate(pr))
    ctx.assume(lam * mean < mu)
    return lam, mu, pr, mean


def batch(ctx, cfg):
    n, num = cfg["n"], cfg["num"]
    lam, mu, pr, mean = setup(ctx, n)
    tol = cfg.get("tol", 0)
    m = bm.BatchMM1(lam, mu, pr, p_num=num, tol=tol)
    ps = m.get_p()
    ctx.check(len(ps) <= num, "number of probabilities")
    if len(ps) < num:
        ctx.check(tol > 0, "list ends early only because of the tolerance")
        ctx.reach("cut by the tolerance")
        ctx.check(ps[-1] <= tol, "last probability is below the tolerance")
    ctx.check_eq(ps[0], 1 - lam * mean / mu, "probability of the empty system")
    for i in range(len(ps) - 1):
        # flow up across the cut i | i+1 equals flow down
        up = 0
        for j in range(i + 1):
            up = up + lam * ps[j] * sum(pr[k] for k in range(n) if j + k + 1 > i)
        ctx.check_eq(up, mu * ps[i + 1], "balance over the cut %d|%d" % (i, i + 1))
    ctx.reach("probabilities")


def means(ctx, cfg):
    """Q and N against the mean-value argument: N = (lam E X(X+1)/2)/(mu - lam E X)"""
    n = cfg["n"]
    lam, mu, pr, mean = setup(ctx, n)
    m = bm.BatchMM1(lam, mu, pr)
    x2 = sum((i + 1) ** 2 * p for i, p in enumerate(pr))
    ctx.check_eq(sum(m.calc_l_moments()), mean + x2, "batch moments")
    # generating function: P(z) = mu (1-rho)(1-z) / (mu (1-z) - lam z (1 - X(z))); mean at z = 1
    rho = lam * mean / mu
    N = lam * (mean + x2) / 2 / (mu - lam * mean)
    ctx.check_eq(m.get_N(), N, "mean number in the system")
    ctx.check_eq(m.get_Q(), N - rho, "mean queue length")
    ctx.check_eq(m.get_v1() * lam * mean, N, "mean sojourn time (Little)")
    ctx.check_eq(m.get_w1() * lam * mean, N - rho, "mean waiting time (Little)")
    t = m.calc_L()
    for i in range(n + 1):
        ctx.check_eq(t[i], sum(pr[i:]) if i < n else 0, "probability of a batch larger than %d" % i)


HARNESSES = [
    Harness("batch", batch, quick=[dict(n=n, num=6) for n in (1, 2, 3)] + [dict(n=2, num=5, tol=0.01)],
            thorough=[dict(n=n, num=8) for n in (1, 2, 3, 4, 5)] + [dict(n=n, num=7, tol=t) for n in (1, 2, 3) for t in (0.1, 0.001)],
            bounds="batches up to 3 (thorough 5), first 6 (8) states, all rates and batch laws with load below one"),
    Harness("means", means, quick=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in range(1, 9)],
            bounds="batches up to 4 (thorough 8)"),
]
