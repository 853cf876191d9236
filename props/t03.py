import math

from vlib import env, laws, lst
from vlib.runner import Harness
wm = env.mq("theory.mg1_warm_calc")
ASSUMPTIONS = ["service and warm-up laws are the Gamma laws with the given first two moments (the method's own reading)",
               "the transform is differentiated numerically (formulas: D05); the size of that error is not judged"]
WITNESSES = ["differentiated or exact"]


def warm(ctx, cfg):
    l = ctx.real("l", 0, 10)
    b1, c1 = ctx.real("b1", 0, 10), ctx.real("c1", 0, 10)
    ctx.assume(l * b1 < 1)
    # whole shape parameters: rational transforms
    vb, vc = b1 * b1 / cfg["int"][0], c1 * c1 / cfg["int"][1]
    b, c = [b1, b1 * b1 + vb, 0], [c1, c1 * c1 + vc, 0]
    pw = (lambda x, a: env.MATH.pow(env.lift(x), env.lift(a))) if ctx.symbolic else math.pow

    def gam(m, s):
        mu = m[0] / (m[1] - m[0] * m[0])
        return pw(mu / (mu + s), mu * m[0])
    with lst.captured(ctx, wm) as cap:
        got = wm.get_v(l, b, c)
    # departure epochs of the M/G/1 queue whose first job of a busy period has its own service law
    p0 = (1 - l * b1) / (1 - l * b1 + l * c1)

    def v(s):
        if same0(s):
            return 1
        return p0 * ((1 - s / l) * gam(c, s) - gam(b, s)) / (1 - s / l - gam(b, s))
    # exact moments by series: numerator and denominator divided by s
    gb = laws.gamma(b1 / (b[1] - b1 * b1), b1 * b1 / (b[1] - b1 * b1), 4)
    gc = laws.gamma(c1 / (c[1] - c1 * c1), c1 * c1 / (c[1] - c1 * c1), 4)
    sb = [1] + [(-1) ** k * gb[k - 1] / math.factorial(k) for k in range(1, 5)]
    sc = [1] + [(-1) ** k * gc[k - 1] / math.factorial(k) for k in range(1, 5)]
    num = [p0 * (sc[k] - sc[k - 1] / l - sb[k]) for k in range(1, 5)]
    den = [(-1 / l if k == 1 else 0) - sb[k] for k in range(1, 5)]
    q = []
    for k in range(4):
        q.append((num[k] - sum(q[j] * den[k - j] for j in range(k))) / den[0])
    exact = [(-1) ** k * math.factorial(k) * q[k] for k in range(1, 4)]
    ctx.check_eq(q[0], 1, "transform at zero (oracle)")
    lst.check(ctx, cap, 0, got, v, exact, "sojourn time")
    ctx.reach("differentiated or exact")


def same0(s):
    return not isinstance(s, env.Sym) and s == 0


HARNESSES = [Harness("warm", warm, quick=[dict(int=[1, 2]), dict(int=[2, 1])], thorough=[dict(int=[1, 1]), dict(int=[2, 3]), dict(int=[4, 1]), dict(int=[3, 4]), dict(int=[6, 2])],
                     bounds="all rates and means with load below one, service and warm-up of whole Gamma shapes (Erlang) 1-2 (thorough 1-6)")]
