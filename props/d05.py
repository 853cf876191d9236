from math import comb, factorial

from vlib import env, laws
from vlib.runner import Harness
cv = env.mq("general_utils.conv")
d5 = env.mq("theory.utils.diff5dots")
bp = env.mq("theory.utils.binom_probs")
WITNESSES = ["moments of a sum", "moments of a difference", "derivatives", "binomial"]


def syms(ctx, s, n):
    return [ctx.real("%s%d" % (s, i + 1), -100, 100) for i in range(n)]


def conv(ctx, cfg):
    n, ln = cfg["n"], cfg["len"]
    a, b = syms(ctx, "a", ln), syms(ctx, "b", ln)
    k = min(n, 3)

    def eq(got, want, label):
        got = list(got)
        ctx.check(len(got) == len(want), label + ": number of moments")
        for i, (x, y) in enumerate(zip(got, want)):
            ctx.check_eq(x, y, "%s: moment %d" % (label, i + 1))
    s = laws.conv(a, b)[:k]
    eq(cv.get_moments(a, b, n) if n != 3 else cv.get_moments(a, b), s, "sum of independent variables")
    ctx.reach("moments of a sum")
    # a variable x + b has the moments s: the moments of x are to come back
    full = laws.conv(a, b)
    eq(cv.get_moments_minus(full, b, n) if n != 3 else cv.get_moments_minus(full, b), a[:k], "difference: the other summand")
    ctx.reach("moments of a difference")
    for t in range(1, cfg.get("times", 3) + 1):
        w = a
        for _ in range(t - 1):
            w = laws.conv(w, a)
        eq(cv.get_self_conv_moments(a, t, n) if n != 3 else cv.get_self_conv_moments(a, t), w[:k], "sum of %d equal variables" % t)


def diff(ctx, cfg):
    n, deg = cfg["n"], cfg["n"] - 1
    c = syms(ctx, "c", deg + 1)
    h = ctx.real("h", 0, 10)
    x0 = ctx.real("x0", -10, 10)
    f = [sum(ci * (x0 + i * h) ** j for j, ci in enumerate(c)) for i in range(n)]
    r = d5.diff5dots(f, h)
    ctx.check(len(r) == 3, "three derivatives")
    for k in range(1, min(3, deg) + 1):
        want = sum(ci * (factorial(j) // factorial(j - k)) * x0 ** (j - k) for j, ci in enumerate(c) if j >= k)
        # the formulas take the derivative at the first point; it is exact for polynomials of degree n - 1
        ctx.check_eq(r[k - 1], want, "derivative %d from %d points" % (k, n))
    ctx.reach("derivatives")


def binom(ctx, cfg):
    n = cfg["n"]
    y = ctx.real("y", 0, 1)
    p = bp.calc_binom_probs(n, y)
    ctx.check(len(p) == n, "number of probabilities")
    for i in range(n):
        ctx.check_eq(p[i], comb(n - 1, i) * (1 - y) ** i * y ** (n - 1 - i), "probability of %d" % i)
    ctx.check_eq(sum(p), 1, "probabilities sum to one")
    ctx.reach("binomial")


HARNESSES = [
    Harness("conv", conv, quick=[dict(n=3, len=3), dict(n=2, len=2), dict(n=1, len=1), dict(n=2, len=3), dict(n=4, len=4)],
            thorough=[dict(n=n, len=l, times=6) for n, l in ((3, 3), (2, 2), (1, 1), (2, 3), (1, 3), (4, 4))],
            bounds="all real moments, 1-3 moments, up to 3 (thorough 6) equal summands"),
    Harness("diff", diff, quick=[dict(n=n) for n in (3, 4, 5)], bounds="3-5 points, all polynomials of degree below the number of points, all steps"),
    Harness("binom", binom, quick=[dict(n=n) for n in (1, 2, 3, 4, 6)], thorough=[dict(n=n) for n in range(1, 13)],
            bounds="sizes to 6 (thorough 12), every success probability"),
]
