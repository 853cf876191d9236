from vlib import env, laws, lst
from vlib.runner import Harness
en = env.mq("theory.engset_model")
ASSUMPTIONS = ["the transform of the waiting time is differentiated numerically (formulas: D05); the size of that error is not judged"]
WITNESSES = ["model evaluated"]


def engset(ctx, cfg):
    m = cfg["m"]
    lam, mu = ctx.real("lam", 0, 10), ctx.real("mu", 0, 10)
    e = en.Engset(lam, mu, m)
    p = e.get_p()
    ctx.check(len(p) == m + 1, "number of probabilities")
    for i in range(m):
        ctx.check_eq((m - i) * lam * p[i], mu * p[i + 1], "balance between %d and %d" % (i, i + 1))
    ctx.check_eq(sum(p), 1, "probabilities sum to one")
    N = sum(i * x for i, x in enumerate(p))
    Q = sum((i - 1) * x for i, x in enumerate(p) if i)
    thr = mu * (1 - p[0])
    ctx.check_eq(e.get_N(), N, "mean number in the system")
    ctx.check_eq(e.get_Q(), Q, "mean queue length")
    ctx.check_eq(e.get_lamD(), thr, "throughput")
    ctx.check_eq(e.get_kg() * m, m - N, "share of time a source is ready")
    ctx.check_eq(e.get_w1() * thr, Q, "mean waiting time (Little)")
    ctx.check_eq(e.get_v1() * thr, N, "mean sojourn time (Little)")
    # an arriving job finds i jobs with probability proportional to (m-i) p_i and waits for i completions
    pi = [(m - i) * p[i] / (m - N) for i in range(m)]

    def w(s):
        return sum(x * (mu / (mu + s)) ** i for i, x in enumerate(pi))
    exact = []
    for k in range(1, 4):
        t = 0
        for i in range(1, m):
            t = t + pi[i] * laws.erlang(i, mu, k)[k - 1]
        exact.append(t)
    with lst.captured(ctx, en) as cap:
        gw = e.get_w()
        lst.check(ctx, cap, 0, gw, w, exact, "waiting time")
        gv = e.get_v()
        src = [x if k == 1 else -x for k, x in enumerate(cap.calls[1][2])] if len(cap.calls) > 1 else gw
        for k, x in enumerate(laws.conv(src, laws.expo(mu, 3))):
            ctx.check_eq(gv[k], x, "sojourn moment %d is waiting plus service" % (k + 1))
    ctx.reach("model evaluated")


HARNESSES = [Harness("engset", engset, quick=[dict(m=m) for m in (1, 2, 3, 5)], thorough=[dict(m=m) for m in range(1, 10)],
                     bounds="1-5 (thorough 9) sources, all rates")]
