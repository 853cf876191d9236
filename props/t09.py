import cmath
import math

from vlib import env
from vlib.runner import Harness
md = env.mq("theory.m_d_n_calc")
ek = env.mq("theory.ek_d_n_calc")
ASSUMPTIONS = ["real arithmetic: the growth of rounding errors in the recursion is not judged",
               "the linear system has one solution (found by least squares)", "the iteration for the roots is followed for a bounded number of steps"]
WITNESSES = ["recursion followed", "stopped at a negative value", "system solved", "roots found"]


def make(ctx, cfg, lb=None):
    """(object, load per period in phases, phases per arrival)"""
    n, k, num = cfg["n"], cfg.get("k", 1), cfg.get("num", 100)
    l, b = (ctx.real("l", 0, 10), ctx.real("b", 0, 10)) if "l" not in cfg else (cfg["l"], cfg["b"])
    kw = dict(p_num=num)
    if "e" in cfg:
        kw["e"] = cfg["e"]
    o = md.M_D_n(l, b, n, **kw) if cfg["m"] == "md" else ek.Ek_D_n(l, k, b, n, **kw)
    return o, l * b, k, n, num


def recursion(ctx, cfg):
    """states from the first n (times k): one period maps the law of the state to itself"""
    o, a, k, n, num = make(ctx, cfg)
    first = [ctx.real("p%d" % i, 0, 1) for i in range(n * k)]
    name = "calc_p_up_to_n" if cfg["m"] == "md" else "calc_w_up_to_nk"
    setattr(o, name, lambda: list(first))
    w = list(o.calc_p() if cfg["m"] == "md" else o.calc_w())
    x = env.lift(-a).exp() if ctx.symbolic else math.exp(-a)
    q = [x * a ** i / math.factorial(i) for i in range(num)]
    for i in range(n * k):
        ctx.check_eq(w[i], first[i], "state %d taken over" % i)
    # r arrivals' phases after a period: at most n jobs leave
    top = num if cfg["m"] == "md" else n * k + num
    for r in range(0, top - n * k):
        if r >= k:
            # a negative value ends the recursion, everything after it is zero
            v = (w[r] - rhs(w, q, r, n, k, skip=True)) / q[0]
            if v < 0:
                for s in range(n * k + r, top):
                    ctx.check_eq(w[s], 0, "states after a negative value")
                ctx.reach("stopped at a negative value")
                break
        ctx.check_eq(w[r], rhs(w, q, r, n, k), "one period later: %d" % r)
    ctx.reach("recursion followed")
    if cfg["m"] == "ek":
        pass


def rhs(w, q, r, n, k, skip=False):
    t = 0
    for i in range(min(r + 1, k)):
        t = t + q[r - i] * sum(w[j * k + i] for j in range(n + 1) if not (skip and j * k + i == n * k + r))
    for s in range((n + 1) * k, n * k + r + (0 if skip else 1)):
        t = t + w[s] * q[r - (s - n * k)]
    return t


def sums(ctx, cfg):
    """number of jobs = groups of k phases"""
    o, a, k, n, num = make(ctx, cfg)
    w = [ctx.real("w%d" % i, 0, 1) for i in range(2 * num)]
    o.calc_w = lambda: list(w)
    p = o.calc_p()
    ctx.check(len(p) == num, "number of probabilities")
    for j in range(num):
        t = sum(w[m] for m in range(j * k, (j + 1) * k)) if (j + 1) * k <= len(w) else None
        if t is None or t > 1 or t < 1e-12:
            break
        ctx.check_eq(p[j], t, "probability of %d jobs" % j)


def system(ctx, cfg):
    """first n (times k) probabilities: the generating function has no poles inside the unit disk"""
    o, a, k, n, num = make(ctx, cfg)
    N = n * k
    z = []
    for m in range(N // 2):
        x = ctx.real("re%d" % m, -1, 1)
        y = ctx.real("im%d" % m, 0, 1) if 2 * (m + 1) != N else 0
        ctx.assume(x * x + y * y < 1)
        if ctx.symbolic:
            z.append(env.SymC(env.lift(x), env.lift(y)))
        else:
            z.append(complex(x, y))
    o.get_z = lambda: setattr(o, "z_", list(z))
    sol = [ctx.real("x%d" % i, -1, 1) for i in range(N)]

    def solution(A, b):
        for i in range(len(b)):
            r = env.SymC.of(sum(A[i][j] * sol[j] for j in range(N)) - b[i])
            ctx.assume(r.re == 0)
            ctx.assume(r.im == 0)
        return [env.SymC(env.lift(x), env.lift(0)) for x in sol]
    with env.lstsq_as(solution):
        got = o.calc_p_up_to_n() if cfg["m"] == "md" else o.calc_w_up_to_nk()
    ctx.check(len(got) == N, "number of probabilities")
    ctx.check_eq(sum((n - j) * got[j * k + i] for j in range(n) for i in range(k)), n - a / k, "mean number of idle servers")
    for m in range(N // 2):
        s = sum(got[j * k + i] * (z[m] ** (j * k + i) - z[m] ** (N + i)) for j in range(n) for i in range(k))
        ctx.check_eq(s.real, 0, "root %d, real part" % (m + 1))
        ctx.check_eq(s.imag, 0, "root %d, imaginary part" % (m + 1))
    ctx.reach("system solved")


def roots(ctx, cfg):
    """each root is an iterate of z = exp(2 pi i m / N - a (1 - z) / N), one branch per root"""
    o, a, k, n, num = make(ctx, cfg)
    N = n * k
    mod = md if cfg["m"] == "md" else ek
    log = []

    class C:
        def __getattr__(self, nm):
            return getattr(env.CMATH if ctx.symbolic else cmath, nm)

        def exp(self, x):
            if ctx.symbolic:
                i = len(log)
                r = env.SymC(ctx.real("er%d" % i, -1, 1), ctx.real("ei%d" % i, -1, 1))
            else:
                r = cmath.exp(x)
            log.append((x, r))
            return r
    with env.patched(mod, cmath=C()):
        ctx.limit(cfg["lim"])
        o.get_z()
        ctx.unlimit()
    ctx.check(len(o.z_) == N // 2, "number of roots")
    for m, z in enumerate(o.z_):
        # the call that made this root and its argument
        i = [j for j, (x, r) in enumerate(log) if r is z or (not ctx.symbolic and r == z)]
        if not i:
            ctx.check(False, "root %d is an iterate" % (m + 1))
            continue
        x = log[i[0]][0]
        # argument = 2 pi i m / N - a (1 - z') / N  with z' close to the root in its real part
        d = (2 * (m + 1) * math.pi * 1j / N - x) * N      # a (1 - z')
        ctx.check(abs(d.real - a * (1 - z.real)) <= a * cfg["e"], "root %d solves its equation, real part" % (m + 1))
        prev = log[i[0] - 1][1] if i[0] else 0
        if isinstance(prev, int):
            ctx.check(False, "root %d is an iterate" % (m + 1))
            continue
        old = prev
        if len(log) and i[0] and not same(ctx, d.imag, -a * prev.imag):
            old = 0.5 * prev        # the first iterate starts at half a root of unity
        ctx.check_eq(d.imag, -a * old.imag, "root %d, imaginary part" % (m + 1))
        ctx.check_eq(d.real, a * (1 - old.real), "root %d, real part" % (m + 1))
    ctx.reach("roots found")


def same(ctx, a, b):
    if ctx.symbolic:
        d = env.lift(a) - env.lift(b)
        return d.is_const() and abs(d.const()) < 1e-9
    return abs(a - b) <= 1e-9


def grid(*ms):
    return [dict(m="md", n=n) if k is None else dict(m="ek", n=n, k=k) for n, k in ms]


HARNESSES = [
    Harness("recursion", recursion, quick=[dict(m="md", n=1, num=5), dict(m="md", n=2, num=6), dict(m="ek", n=1, k=1, num=4), dict(m="ek", n=1, k=2, num=4), dict(m="ek", n=2, k=2, num=5)],
            thorough=[dict(m="md", n=1, num=7), dict(m="md", n=3, num=8), dict(m="ek", n=1, k=3, num=6), dict(m="ek", n=2, k=2, num=6)],
            bounds="1-2 (thorough 3) servers, 1-2 (thorough 3) phases, 4-6 (thorough 8) states, any load and any first states"),
    Harness("sums", sums, quick=[dict(m="ek", n=1, k=1, num=3), dict(m="ek", n=1, k=2, num=3)], thorough=[dict(m="ek", n=1, k=3, num=4)], bounds="3-4 states"),
    Harness("system", system, quick=grid((1, None), (2, None), (3, None), (1, 1), (1, 2), (2, 2), (1, 3)), thorough=grid((4, None), (5, None), (2, 3), (3, 2), (1, 5)),
            bounds="any roots in the unit disk; up to 4 (thorough 6) unknowns"),
    Harness("roots", roots, quick=[dict(m="md", n=2, e=0.1, lim=4), dict(m="md", n=3, e=0.1, lim=4), dict(m="ek", n=1, k=2, e=0.1, lim=4), dict(m="ek", n=2, k=2, e=0.1, lim=6)],
            thorough=[dict(m="md", n=5, e=0.1, lim=8), dict(m="ek", n=1, k=3, e=0.1, lim=6), dict(m="ek", n=2, k=3, e=0.1, lim=8)],
            bounds="up to 3 roots, tolerance 0.1, few iterations; complex exponential arbitrary"),
]
