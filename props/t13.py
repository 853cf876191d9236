"""M/H2/n (general service by two complex phases): level matrices, iteration, waiting and sojourn times"""
import contextlib
import math

from vlib import env, laws, ttref
from vlib.runner import Harness
tt = env.mq("theory.mgn_tt")
ASSUMPTIONS = ["the two-phase fit of the service law is stubbed by arbitrary rates (fit: D03)",
               "convergence of the iteration is not judged: a sweep is shown to keep the exact solution (limited room; one common rate), "
               "or to solve the balance equations of every level but the last given its neighbours (no limit)",
               "with a limited room only the mean waiting time is judged"]
WITNESSES = ["matrices", "full system", "geometric tail", "a sweep", "waiting"]


@contextlib.contextmanager
def fitted(ctx, y, mu, b=None):
    old = tt.H2_dist.__dict__["get_params_clx"]

    def fit(m, *a, **k):
        if b is not None:
            for u, v in zip(m, b):
                ctx.check_eq(u, v, "moments fitted")
        return [y, mu[0], mu[1]]
    tt.H2_dist.get_params_clx = staticmethod(fit)
    try:
        yield
    finally:
        tt.H2_dist.get_params_clx = old


def make(ctx, cfg, acc=None):
    n, room = cfg["n"], cfg.get("room")
    l, y, m1, m2 = ttref.params(ctx, cfg, ["l", "y", "m1", "m2"])
    if cfg.get("one"):
        m2 = m1
    b = [ctx.real("b%d" % i, 0.1, 100) for i in range(3)]
    kw = {}
    if room is not None:
        kw["buffer"] = room
    N = cfg.get("N", (n + room + 1) if room is not None else 150)
    kw["N"] = N
    if acc is not None:
        kw["accuracy"] = acc
    with fitted(ctx, y, [m1, m2], b):
        m = tt.MGnCalc(n, l, b, **kw)
    return m, ttref.mhn(ctx, n, l, y, [m1, m2], room), n, l, b, N


def matrices(ctx, cfg):
    m, ch, n, l, b, N = make(ctx, cfg)
    ttref.blocks(ctx, ch, m.A, m.B, m.C, m.D, N if cfg.get("room") is not None else N - 1)
    ctx.reach("matrices")


def start(ctx, m, P):
    tot = [sum(p[1:], p[0]) for p in P]
    for i, p in enumerate(P):
        m.t[i] = ttref.row(ctx, [x / tot[i] for x in p])
        if i + 1 < len(P):
            m.x[i] = tot[i + 1] / tot[i]
    return tot


def check_p(ctx, p, tot, N):
    s = sum(tot)
    for i in range(len(p)):
        if i < N:
            ctx.check_eq(p[i] * s, tot[i], "probability of %d" % i)
        else:
            ctx.check_eq(p[i], 0, "probability of %d" % i)


def full(ctx, cfg):
    """limited room: from the exact solution one sweep returns the exact probabilities"""
    m, ch, n, l, b, N = make(ctx, cfg, 1e-9)
    tot = start(ctx, m, ch.stationary(N))
    m.run()
    p = m.get_p()
    check_p(ctx, p, tot, N)
    w, v = m.get_w(), m.get_v()
    q = sum((i - n) * tot[i] for i in range(n, N))
    ctx.check_eq(w[0] * l * (sum(tot) - tot[N - 1]), q, "mean waiting time of accepted jobs (Little)")
    ctx.check_eq(v[0], w[0] + b[0], "mean sojourn time")
    ctx.reach("full system")


def geometric(ctx, cfg):
    """no limit, both phases with one rate: binomial phases, geometric tail"""
    cfg = dict(cfg, one=True)
    m, ch, n, l, b, N = make(ctx, cfg, 1e-9)
    y, mu = m.y, m.mu[0]
    ctx.assume(l < n * mu)
    w = 1
    P = []
    for i in range(N):
        k = min(i, n)
        P.append([w * math.comb(k, j) * y[0] ** (k - j) * y[1] ** j for j in range(k + 1)])
        w = w * l / (min(i + 1, n) * mu)
    tot = start(ctx, m, P)
    m.run()
    check_p(ctx, m.get_p(), tot, N)
    ctx.reach("geometric tail")


def sweep(ctx, cfg):
    """no limit: one sweep from arbitrary phase probabilities"""
    N = cfg["N"]
    m, ch, n, l, b, N = make(ctx, cfg, 1000)
    ctx.assume(l * (m.y[0] / m.mu[0] + m.y[1] / m.mu[1]) < n)
    T = []
    for i in range(N):
        k = len(ch.states(i))
        if str(i) in cfg["t"]:
            r = [ttref.lift(ctx, env.Fraction(x)) for x in cfg["t"][str(i)].split()]
        else:
            r = [ctx.real("t%d_%d" % (i, j), 0, 1) for j in range(k - 1)]
            r.append(1 - sum(r))
            ctx.assume(r[-1] > 0)
        T.append(r)
        m.t[i] = ttref.row(ctx, r)
    m.x[0] = ttref.lift(ctx, 1000)
    m.run()
    for j in range(1, N - 1):
        new = [m.t[j][0, k] for k in range(len(T[j]))]
        prev = [m.t[j - 1][0, k] for k in range(len(T[j - 1]))] if j > 1 else T[0]
        A, B, (C, out) = ch.block(j - 1, j)[0], ch.block(j + 1, j)[0], ch.block(j, j)
        up = [sum(prev[a] * A[a][k] for a in range(len(prev))) for k in range(len(new))]
        dn = [sum(T[j + 1][a] * B[a][k] for a in range(len(T[j + 1]))) for k in range(len(new))]
        z, x = m.z[j], m.x[j]
        for k in range(len(new)):
            ctx.check_eq(new[k] * out[k], z * up[k] + x * dn[k], "balance of state %d of level %d" % (k, j))
        ctx.check_eq(sum(new), 1, "phase probabilities of level %d sum to one" % j)
        B = ch.block(j, j - 1)[0]
        ctx.check_eq(sum(new[a] * sum(B[a]) for a in range(len(new))), z * sum(up), "flow between levels %d and %d" % (j - 1, j))
    ctx.check_eq(m.x[0] * m.z[1], 1, "ratio of the first two levels")
    ctx.check_eq(m.t[0][0, 0], 1, "phase probabilities of level 0")
    w = 1
    for j in range(N - 1):
        ctx.check_eq(m.p[j + 1], m.p[j] * m.x[j], "probability of %d from the level ratio" % (j + 1))
    ctx.check_eq(sum(m.p), 1, "probabilities sum to one")
    ctx.reach("a sweep")


def waiting(ctx, cfg):
    m, ch, n, l, b, N = make(ctx, cfg)
    p = [ctx.real("p%d" % i, 0, 1) for i in range(N)]
    m.p = list(p)
    w, v = m.get_w(), m.get_v()
    for k in range(3):
        ctx.check_eq(w[k] * l ** (k + 1), sum(math.perm(i - n, k + 1) * p[i] for i in range(n, N)), "waiting moment %d (queue seen through Poisson arrivals)" % (k + 1))
    s = laws.conv(w, b)
    for k in range(3):
        ctx.check_eq(v[k], s[k], "sojourn moment %d" % (k + 1))
    ctx.reach("waiting")


F = dict
H2 = {"y": "1/4", "m1": "1/2", "m2": "2"}
HARNESSES = [
    Harness("matrices", matrices, quick=[dict(n=n, N=n + 3) for n in (1, 2, 3)] + [dict(n=2, room=r) for r in (0, 1, 2)] + [dict(n=1, room=0), dict(n=3, room=1)],
            thorough=[dict(n=n, N=n + 4) for n in (4, 5)] + [dict(n=n, room=3) for n in (1, 2, 4)], bounds="1-3 (thorough 5) servers, every level up to n+2 (then equal), all rates and weights"),
    Harness("full", full, quick=[dict(n=1, room=0), dict(n=1, room=1, fix={"m1": "1"}), dict(n=2, room=0, fix={"m1": "1", "m2": "3"}), dict(n=2, room=0, fix={"y": "1/4", "m1": "1"}),
                                 dict(n=1, room=2, fix=H2), dict(n=2, room=1, fix=H2), dict(n=2, room=1, fix={"l": "3", "m1": "1/2", "m2": "2"}), dict(n=1, room=2, fix={"l": "2", "y": "1/3", "m1": "1"})],
            thorough=[dict(n=2, room=2, fix=H2), dict(n=3, room=1, fix=H2), dict(n=1, room=4, fix=H2), dict(n=3, room=0, fix=H2)],
            bounds="1-2 (thorough 3) servers, rooms 0-2 (4), one to four of the rates free", tol=1e-5),
    Harness("geometric", geometric, quick=[dict(n=1, N=4), dict(n=2, N=5, fix={"l": "1"}), dict(n=2, N=4), dict(n=3, N=6, fix={"l": "2", "m1": "1"}), dict(n=3, N=5, fix={"y": "1/4", "m1": "1"})],
            thorough=[dict(n=3, N=6, fix={"m1": "1"}), dict(n=2, N=8, fix={"m1": "1"})], bounds="1-3 servers, 4-6 (thorough 8) levels", tol=1e-5),
    Harness("sweep", sweep, quick=[dict(n=1, N=4, fix=dict(H2, l="1"), t={"0": "1"}), dict(n=1, N=4, fix=dict(H2), t={"0": "1", "1": "1/3 2/3", "2": "1/4 3/4", "3": "3/5 2/5"}),
                                   dict(n=2, N=5, fix=dict(H2, l="1"), t={"0": "1", "1": "1/3 2/3", "2": "1/4 1/4 1/2", "4": "1/5 2/5 2/5"}),
                                   dict(n=2, N=5, fix=dict(H2), t={"0": "1", "1": "1/3 2/3", "2": "1/4 1/4 1/2", "3": "1/3 1/3 1/3", "4": "1/5 2/5 2/5"})],
            thorough=[dict(n=3, N=6, fix=dict(H2), t={"0": "1", "1": "1/3 2/3", "2": "1/4 1/4 1/2", "3": "1/8 1/8 1/4 1/2", "4": "1/5 2/5 1/5 1/5", "5": "1/2 1/6 1/6 1/6"})],
            bounds="1-2 (thorough 3) servers, 4-6 levels, arrival rate or phase probabilities free", tol=1e-5),
    Harness("waiting", waiting, quick=[dict(n=1, N=5), dict(n=3, N=7)], bounds="5-7 levels, any probabilities"),
]
