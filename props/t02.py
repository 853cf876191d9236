import math
from math import comb, factorial

from vlib import env, laws
from vlib.runner import Harness
mg = env.mq("theory.mg1_calc")
qp = env.mq("theory.utils.q_poisson_arrival_calc")
rd = env.mq("rand_distribution")
ASSUMPTIONS = ["values of the incomplete Gamma function that start the Pareto recursion are arbitrary (stubbed)",
               "load below one"]
WITNESSES = ["waiting", "states", "counts Gamma", "counts uniform", "counts Pareto"]


def exp_(ctx, x):
    return env.lift(x).exp() if ctx.symbolic else math.exp(x)


def pow_(ctx, x, a):
    return env.MATH.pow(x, a) if ctx.symbolic else math.pow(x, a)


def moments(ctx, cfg):
    """Pollaczek-Khinchine through the series of (1-rho)/(1-rho R(s)), R the residual law"""
    num, lb = cfg["num"], cfg["lb"]
    l = ctx.real("l", 0, 10)
    b = [ctx.real("b%d" % (i + 1), 0, 1000) for i in range(lb)]
    rho = l * b[0]
    ctx.assume(rho < 1)
    n = min(num, lb - 1)
    r = [1] + [b[k] / ((k + 1) * b[0]) for k in range(1, n + 1)]       # moments of R
    w = [1]
    for k in range(1, n + 1):
        # W = (1-rho) + rho R*W  =>  w_k (1 - rho) = rho sum_{i>=1} C(k,i) r_i w_{k-i}
        w.append(rho / (1 - rho) * sum(comb(k, i) * r[i] * w[k - i] for i in range(1, k + 1)))
    got = mg.get_w(l, b, num) if num != 3 else mg.get_w(l, b)
    ctx.check(len(got) == n, "number of waiting moments")
    for i in range(n):
        ctx.check_eq(got[i], w[i + 1], "waiting time moment %d" % (i + 1))
    got = mg.get_v(l, b, num) if num != 3 else mg.get_v(l, b)
    ctx.check(len(got) == n, "number of sojourn moments")
    for i, x in enumerate(laws.conv(w[1:], b[:n])):
        ctx.check_eq(got[i], x, "sojourn time moment %d" % (i + 1))
    ctx.reach("waiting")


def states(ctx, cfg):
    """embedded chain: state i after a departure"""
    num, kind = cfg["num"], cfg["kind"]
    l = ctx.real("l", 0, 10)
    b1 = ctx.real("b1", 0, 10)
    var = ctx.real("var", 0, 100)
    ctx.assume(l * b1 < 1)
    b = [b1, b1 * b1 + var, 0]
    q = [ctx.real("q%d" % i, 0, 1) for i in range(num)]
    asked = []

    def stub(lam, p1, p2, n=100):
        asked.append((lam, p1, p2, n))
        return list(q[:n])
    fn = {"Gamma": "get_q_Gamma", "Uniform": "get_q_uniform", "Pa": "get_q_Pareto"}[kind]
    with env.patched(mg, **{fn: stub}):
        p = mg.get_p(l, b, num, kind) if kind != "Gamma" else mg.get_p(l, b, num)
    ctx.check(len(asked) == 1 and asked[0][3] >= num - 1, "counts asked for once, enough of them")
    ctx.check_eq(asked[0][0], l, "arrival rate of the counts")
    law = {"Gamma": laws.gamma, "Uniform": laws.uniform, "Pa": laws.pareto}[kind]
    m = law(asked[0][1], asked[0][2], 2)
    ctx.check_eq(m[0], b[0], "fitted mean service time")
    ctx.check_eq(m[1], b[1], "fitted second moment")
    ctx.check(len(p) == num, "number of probabilities")
    ctx.check_eq(p[0], 1 - l * b1, "probability of the empty system")
    for i in range(num - 1):
        ctx.check_eq(p[i], p[0] * q[i] + sum(p[j] * q[i - j + 1] for j in range(1, i + 2)), "balance of state %d" % i)
    ctx.reach("states")


def counts(ctx, cfg):
    """q_j = probability of j Poisson arrivals during one service"""
    num, kind = cfg["num"], cfg["kind"]
    l = ctx.real("l", 0, 10)
    if kind == "Gamma":
        mu, al = ctx.real("mu", 0, 10), ctx.real("alpha", 0, 20)
        q = qp.get_q_Gamma(l, mu, al, num)
        z = pow_(ctx, mu / (mu + l), al)
        c = 1
        for j in range(num):
            ctx.check_eq(q[j], c * z, "probability of %d arrivals" % j)
            c = c * (al + j) / (j + 1) * l / (l + mu)
    elif kind == "Uniform":
        m, h = ctx.real("mean", 0, 10), ctx.real("h", 0, 10)
        ctx.assume(h < m)
        q = qp.get_q_uniform(l, m, h, num)
        # int (l t)^j/j! exp(-lt) dt = -1/l exp(-lt) sum_{i<=j} (lt)^i/i!
        prim = lambda t, j: sum((l * t) ** i / factorial(i) for i in range(j + 1)) * exp_(ctx, -l * t) / -l
        for j in range(num):
            ctx.check_eq(q[j], (prim(m + h, j) - prim(m - h, j)) / (2 * h), "probability of %d arrivals" % j)
    else:
        a, k = ctx.real("a", 1, 20), ctx.real("k", 0, 10)
        gm, gs = ctx.real("gm", -10, 10), ctx.real("gs", -10, 10)
        args = []
        z = l * k

        def minus(x):
            args.append(("m", x))
            return gm

        def small(x, y, e=None):
            args.append(("s", x, y))
            return gs
        with env.patched(rd.Gamma, get_minus_gamma=staticmethod(minus), get_gamma_small=staticmethod(small)):
            q = qp.get_q_Pareto(l, a, k, num)
        ctx.check_eq(args[0][1], a, "Gamma(-alpha)")
        ctx.check_eq(args[1][1], -a, "lower incomplete Gamma: order")
        ctx.check_eq(args[1][2], z, "lower incomplete Gamma: argument")
        g = gm - gs                     # Gamma(-a, z)
        for j in range(num):
            # int_k^oo (lt)^j/j! e^{-lt} a k^a t^{-a-1} dt = a z^a Gamma(j-a, z)/j!
            ctx.check_eq(q[j], a * pow_(ctx, z, a) * g / factorial(j), "probability of %d arrivals" % j)
            # Gamma(s+1, z) = s Gamma(s, z) + z^s e^-z
            g = (j - a) * g + pow_(ctx, z, j - a) * exp_(ctx, -z)
    ctx.reach("counts " + (kind if kind != "Uniform" else "uniform") if kind != "Pa" else "counts Pareto")


HARNESSES = [
    Harness("moments", moments, quick=[dict(num=n, lb=b) for n, b in ((3, 4), (1, 2), (2, 3), (4, 5), (3, 3), (2, 6))],
            thorough=[dict(num=n, lb=b) for n in range(1, 7) for b in range(2, 8)],
            bounds="all rates and moments with load below one, 1-4 (thorough 6) moments asked, 2-6 (7) given"),
    Harness("states", states, quick=[dict(num=5, kind=k) for k in ("Gamma", "Uniform", "Pa")],
            thorough=[dict(num=n, kind=k) for n in (1, 2, 7) for k in ("Gamma", "Uniform", "Pa")],
            bounds="first 5 (thorough 7) states, all counts q_j, all service moments with load below one"),
    Harness("counts", counts, quick=[dict(num=4, kind=k) for k in ("Gamma", "Uniform", "Pa")],
            thorough=[dict(num=7, kind=k) for k in ("Gamma", "Uniform", "Pa")],
            bounds="up to 3 (thorough 6) arrivals, all parameters"),
]
