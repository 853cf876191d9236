import math
from math import comb

import numpy as np

from vlib import env, girefs, laws, lst
from vlib.runner import Harness
gm = env.mq("theory.gi_m_n_calc")
ASSUMPTIONS = ["fit of the interarrival law and the Gamma functions are stubbed by what they stand for (fits: D03)",
               "the fixed-point iteration is followed for a bounded number of steps",
               "the transform of the waiting time is differentiated numerically (formulas: D05); the size of that error is not judged"]
WITNESSES = ["root found", "iteration finished", "embedded chain solved", "any time", "waiting time"]


def root(ctx, cfg):
    n = cfg["n"]
    girefs.root(ctx, cfg, gm, lambda a, mu, e, d: gm.get_w_param(a, mu, n, e, d), n)


def trans(ctx, cfg):
    girefs.b0(ctx, cfg, gm)


def chain(ctx, cfg):
    """embedded chain at arrivals, root w and transform values B_j arbitrary"""
    n, num = cfg["n"], cfg["n"] + 4
    w, mu, a1 = ctx.real("w", 0, 1), ctx.real("mu", 0, 20), ctx.real("a1", 0, 20)
    B = [1] + [ctx.real("B%d" % j, 0, 1) for j in range(1, n + 1)]
    for m in range(1, n):
        ctx.assume(abs(n * (1 - w) - m) > 0.01)
    ctx.assume(a1 * mu * n > 1)
    a = [a1, 2 * a1 * a1, 6 * a1 ** 3]
    law = cfg.get("law", "Gamma")

    def wstub(a_, mu_, n_, e=1e-10, approx_distr="Gamma"):
        ctx.check(n_ == n and e == 1e-9 and approx_distr == law, "servers, tolerance and law handed on")
        ctx.check_eq(mu_, mu, "service rate handed on")
        return w

    def bstub(a_, j, mu_, approx_distr="Gamma"):
        ctx.check(approx_distr == law, "law handed on")
        ctx.check_eq(mu_, mu, "service rate handed on")
        return B[j]
    with env.patched(gm, get_w_param=wstub, get_b0=bstub):
        try:
            pi = gm.get_pi(a, mu, n, num, 1e-9, law)
        except np.linalg.LinAlgError:       # no law has these values of the transform
            ctx.assume(False)
            return
    ctx.check(len(pi) == num, "number of probabilities")
    # from j + 1 <= n busy servers to k during one gap
    def down(j, k):
        return sum((-1) ** i * comb(j + 1, k) * comb(j + 1 - k, i) * B[k + i] for i in range(j + 2 - k))

    def tail(k):        # sum over j >= n of w^(j-n) P(j -> k)
        return n * sum((-1) ** i * comb(n, k) * comb(n - k, i) * (B[k + i] - w) / (n * (1 - w) - (k + i))
                       for i in range(n - k + 1))
    for k in range(1, n + 1):
        ctx.check_eq(pi[k], sum(pi[j] * down(j, k) for j in range(k - 1, n)) + pi[n] * tail(k), "balance at arrivals, state %d" % k)
    ctx.check_eq(sum(pi[:n]) + pi[n] / (1 - w), 1, "probabilities sum to one")
    for k in range(n + 1, num):
        ctx.check_eq(pi[k], pi[n] * w ** (k - n), "geometric tail %d" % k)
    ctx.reach("embedded chain solved")


def times(ctx, cfg):
    """state at any time and waiting time from given arrival probabilities"""
    n, num = cfg["n"], cfg["n"] + 4
    w, mu, a1 = ctx.real("w", 0, 1), ctx.real("mu", 0, 20), ctx.real("a1", 0, 20)
    ctx.assume(a1 * mu * n > 1)
    pi = [ctx.real("pi%d" % i, 0, 1) for i in range(n + 1)]
    for k in range(n + 1, num):
        pi.append(pi[n] * w ** (k - n))
    a = [a1, 2 * a1 * a1, 6 * a1 ** 3]
    law = cfg.get("law", "Gamma")
    with env.patched(gm, get_w_param=lambda *x, **k: w, get_pi=lambda *x, **k: list(pi)):
        p = gm.get_p(a, mu, n, num, 1e-9, law)
        ctx.check(len(p) == num, "number of probabilities")
        for i in range(1, num):
            ctx.check_eq(p[i] * min(i, n) * mu, pi[i - 1] / a1, "rate into and out of %d jobs" % i)
        # mean number of busy servers is the load; the tail holds n servers
        busy = sum(i * p[i] for i in range(1, n))
        ctx.check_eq(busy + n * (1 - sum(p[:n])), 1 / (mu * a1), "mean number of busy servers")
        ctx.reach("any time")
        b = laws.expo(mu, 3)
        with lst.captured(ctx, gm) as cap:
            wt = gm.get_w(a, mu, n, num, 1e-9, law)
            # n + i jobs found: i + 1 completions of all servers
            x = pi[n] / (1 - w)
            exact = [x * math.factorial(k) / (n * mu * (1 - w)) ** k for k in (1, 2, 3)]
            lst.check(ctx, cap, 0, wt, lambda s: pi[n] * n * mu / (n * mu * (1 - w) + s), exact, "waiting time")
            v = gm.get_v(a, mu, n, num, 1e-9, law)
            src = [y if k == 1 else -y for k, y in enumerate(cap.calls[1][2])] if len(cap.calls) > 1 else wt
            for k, y in enumerate(laws.conv(src, b)):
                ctx.check_eq(v[k], y, "sojourn moment %d is waiting plus service" % (k + 1))
    ctx.reach("waiting time")


R = [dict(n=1, law="Gamma", phases=1, e=0.01, lim=3), dict(n=2, law="Gamma", phases=2, q=[0.5], e=0.05, lim=4, v=1),
     dict(n=3, law="Gamma", phases=3, q=[0.5, 0.25], e=0.05, lim=3, v=1), dict(n=2, law="Pareto", a=3, e=0.01, lim=2), dict(n=4, law="Pareto", a=3, e=0.01, lim=3, K=1)]
T = [dict(law="Gamma", phases=3, j=1), dict(law="Gamma", phases=2, q=[0], alpha=2, j=3), dict(law="Pareto", a=3, j=2)]
HARNESSES = [
    Harness("root", root, quick=R, thorough=R + [dict(n=2, law="Gamma", phases=2, q=[0], alpha=2, e=0.05, lim=4, v=1), dict(n=3, law="Pareto", a=4, e=0.001, lim=4, K=1)],
            bounds="interarrival: mixtures of up to 3 Erlang laws written as corrected Gamma (rates free or fixed), Pareto of shape 3, 4; few iterations, tolerance 0.01-0.05; start at the load"),
    Harness("trans", trans, quick=T, thorough=T + [dict(law="Gamma", phases=4, j=j) for j in (1, 2, 5)], bounds="mixtures of up to 3 (thorough 4) Erlang laws, Pareto of shape 3"),
    Harness("chain", chain, quick=[dict(n=1), dict(n=2, law="Pa"), dict(n=3)], thorough=[dict(n=n) for n in (1, 2, 3, 4)], bounds="1-3 (thorough 4) servers, any root and transform values"),
    Harness("times", times, quick=[dict(n=1), dict(n=2, law="Pa"), dict(n=3)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 6)], bounds="1-3 (thorough 6) servers, any arrival probabilities"),
]
