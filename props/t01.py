from math import factorial

from vlib import env, laws
from vlib.runner import Harness
mm = env.mq("theory.mmnr_calc")
WITNESSES = ["waiting", "pure loss", "load one"]


def mmnr(ctx, cfg):
    n, r = cfg["n"], cfg["r"]
    M = mm.MMnr_calc
    l, mu = ctx.real("l", 0, 100), ctx.real("mu", 0, 100)
    if cfg.get("crit"):
        l = n * mu          # load exactly one
        ctx.reach("load one")
    p = M.get_p(l, mu, n, r)
    ctx.check(len(p) == n + r + 1, "number of probabilities")
    # birth-death balance and normalisation determine the law
    for i in range(n + r):
        ctx.check_eq(l * p[i], min(i + 1, n) * mu * p[i + 1], "balance between %d and %d" % (i, i + 1))
    ctx.check_eq(sum(p), 1, "probabilities sum to one")
    # independent weights
    wts = [1]
    for i in range(n + r):
        wts.append(wts[-1] * l / (min(i + 1, n) * mu))
    tot = sum(wts)
    q = [x / tot for x in wts]
    ctx.check_eq(M.getPI(l, mu, n, r), q[n + r], "blocking probability")
    ctx.check_eq(M.getQ(l, mu, n, r), sum(i * q[n + i] for i in range(r + 1)), "mean queue length")
    qs = M.get_qs(l, mu, n, r, 3)
    ctx.check(len(qs) == 3, "number of factorial moments")
    for k, v in enumerate(qs):
        want = 0
        for i in range(r + 1):
            f = 1
            for j in range(k + 1):
                f *= i - j
            want = want + f * q[n + i]
        ctx.check_eq(v, want, "factorial moment %d of the queue length" % (k + 1))
    # waiting: an admitted arrival finding n+i jobs waits for i+1 completions at rate n mu
    num = cfg.get("num", 3)
    ex = []
    for k in range(1, max(num, 3) + 1):
        s = 0
        for i in range(r):
            e = laws.erlang(i + 1, n * mu, k)[k - 1]
            s = s + q[n + i] * e
        ex.append(s / (1 - q[n + r]))
    w = M.get_w(l, mu, n, r, num) if num != 3 else M.get_w(l, mu, n, r)
    ctx.check(len(w) == num, "number of moments")
    for k in range(num):
        ctx.check_eq(w[k], ex[k], "waiting time moment %d" % (k + 1))
    v = M.get_v(l, mu, n, r)
    for k, x in enumerate(laws.conv(ex[:3], laws.expo(mu, 3))):
        ctx.check_eq(v[k], x, "sojourn time moment %d" % (k + 1))
    ctx.reach("waiting" if r else "pure loss")


HARNESSES = [
    Harness("mmnr", mmnr, quick=[dict(n=n, r=r, num=3) for n, r in ((1, 0), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1), (3, 4), (1, 6))] +
            [dict(n=n, r=r, num=k, crit=True) for n, r, k in ((1, 2, 3), (3, 3, 2))],
            thorough=[dict(n=n, r=r, num=k, crit=c) for n in (1, 2, 3, 4, 5) for r in (0, 1, 2, 4, 8) for k in (2, 3, 4) for c in (False, True)],
            bounds="1-3 (thorough 5) servers, waiting rooms 0-6 (thorough 8), all rates including load one and overload"),
]
