import contextlib
import math

from vlib import env, laws, lst
from vlib.runner import Harness
pc = env.mq("theory.priority_calc")
ASSUMPTIONS = ["transforms of waiting times with relative priority use Gamma laws with two moments (the method's own reading) and are differentiated numerically (formulas: D05)",
               "the ratio method is judged as the stated ratio, not for its accuracy",
               "M/G/1, M/G/n results inside the ratio method are stubbed (T02, T13)"]
WITNESSES = ["busy periods", "absolute priority", "relative priority", "ratio method", "no priority", "mean waiting times"]


# power series, coefficients of s^0.. ; moments m_k = (-1)^k k! c_k
def series(m, n):
    return [1] + [(-1) ** k * m[k - 1] / math.factorial(k) for k in range(1, n + 1)]


def mom(c):
    return [(-1) ** k * math.factorial(k) * c[k] for k in range(1, len(c))]


def mul(a, b, n):
    return [sum(a[i] * b[k - i] for i in range(k + 1)) for k in range(n + 1)]


def compose(f, g, n):
    """f(g(s)) with g(0) = 0"""
    out = [0] * (n + 1)
    p = [1] + [0] * n
    for k in range(n + 1):
        out = [x + f[k] * y for x, y in zip(out, p)]
        p = mul(p, g, n)
    return out


def opened(l, pnz, n):
    """s + l - l B(s)"""
    B = series(pnz, n)
    return [0] + [(1 if k == 1 else 0) - l * B[k] for k in range(1, n + 1)]


def busy(l, b, n):
    """moments of the busy period solved from B(s) = b(s + l - l B(s)), order by order"""
    out = [b[0] / (1 - l * b[0])]
    for k in range(2, n + 1):
        # B_k appears on the right only as l b1 B_k
        g = opened(l, out + [0], k)
        r = compose(series(b, k), g, k)[k]
        c = r / (1 - l * b[0])
        out.append((-1) ** k * math.factorial(k) * c)
    return out


def wait(l, rho, b2, b3, b4=None):
    """work found by a Poisson arrival (Pollaczek-Khinchine), sums over the classes that count"""
    u1 = b2 / (2 * (1 - rho))
    u2 = b3 / (3 * (1 - rho)) + 2 * u1 * b2 / (2 * (1 - rho))
    u = [u1, u2]
    if b4 is not None:
        # U (1 - rho) = lambda sum C(3,j) b_{j+1}/(j+1) U_{3-j}
        u.append((3 * b2 / 2 * u2 + 3 * b3 / 3 * u1 + b4 / 4) / (1 - rho))
    return u


def data(ctx, cfg):
    K, m = cfg["K"], cfg["m"]
    l, b = [], []
    for k in range(K):
        l.append(ctx.real("l%d" % k, 0, 5) if str(k) not in cfg.get("fix", {}) else cfg["fix"][str(k)][0])
        b.append([ctx.real("b%d_%d" % (k, j), 0, 100) for j in range(m)] if str(k) not in cfg.get("fix", {})
                 else [math.factorial(j + 1) * cfg["fix"][str(k)][1] ** (j + 1) for j in range(m)])
    if ctx.symbolic:        # constants take part in exact arithmetic
        l, b = [env.lift(x) for x in l], [[env.lift(x) for x in y] for y in b]
    ctx.assume(sum(x * y[0] for x, y in zip(l, b)) < 1)
    return K, l, b


def periods(ctx, cfg):
    n, m = cfg["n"], cfg["m"]
    l = ctx.real("l", 0, 5)
    b = [ctx.real("b%d" % j, 0, 100) for j in range(m)]
    f = [ctx.real("f%d" % j, 0, 100) for j in range(m)]
    ctx.assume(l * b[0] < 1)
    k = min(n, m)
    got = pc.ppnz_calc(l, b, n) if n != 5 else pc.ppnz_calc(l, b)
    ctx.check(len(got) == k, "number of moments")
    want = busy(l, b, k)
    for i in range(k):
        ctx.check_eq(got[i], want[i], "busy period, moment %d" % (i + 1))
    p = [ctx.real("p%d" % j, 0, 100) for j in range(k)]
    got = pc.ppnz_calc_warm_up(l, f[:k], p, n) if n != 5 else pc.ppnz_calc_warm_up(l, f[:k], p)
    want = mom(compose(series(f, k), opened(l, p, k), k))
    ctx.check(len(got) == k, "number of moments")
    for i in range(k):
        ctx.check_eq(got[i], want[i], "busy period with warm-up, moment %d" % (i + 1))
    ctx.reach("busy periods")


def absolute(ctx, cfg):
    K, l, b = data(ctx, cfg)
    num = cfg.get("num", 3)
    r = pc.calc_pr1(l, b, num) if num != 3 else pc.calc_pr1(l, b)
    for j in range(K):
        L = sum(l[:j])
        R = sum(l[i] * b[i][0] for i in range(j + 1))
        s = lambda m, n: sum(l[i] * b[i][m] for i in range(n))
        U = wait(None, R, s(1, j + 1), s(2, j + 1), s(3, j + 1) if num > 2 else None)
        if j == 0:
            g = [0, 1, 0, 0]
        else:
            mix = [s(m, j) / L for m in range(num)]
            pi = busy(L, mix, num)
            for i in range(num):
                ctx.check_eq(r["pnz"][j - 1][i], pi[i], "busy period of classes 0..%d, moment %d" % (j - 1, i + 1))
            g = opened(L, pi, num)
        w = mom(compose(series(U, num), g[:num + 1], num))
        h = mom(compose(series(b[j], num), g[:num + 1], num))
        for i in range(num):
            ctx.check_eq(r["h"][j][i], h[i], "class %d: time in service with interruptions, moment %d" % (j, i + 1))
            ctx.check_eq(r["w"][j][i], w[i], "class %d: waiting for the first service, moment %d" % (j, i + 1))
        v = laws.conv(w, h)
        for i in range(num):
            ctx.check_eq(r["v"][j][i], v[i], "class %d: sojourn time, moment %d" % (j, i + 1))
        x = laws.conv(r["w_with_pr"][j][:num], b[j][:num])
        for i in range(num):
            ctx.check_eq(x[i], v[i], "class %d: waiting with interruptions plus service, moment %d" % (j, i + 1))
    ctx.reach("absolute priority")


def means(ctx, cfg):
    K, l, b = data(ctx, dict(cfg, m=3))
    a, n, c = pc.get_w1_pr(l, b), pc.get_w1_np(l, b), pc.climov_w_pr_calc(l, b)
    for j in range(K):
        R0 = sum(l[i] * b[i][0] for i in range(j))
        R = R0 + l[j] * b[j][0]
        s = lambda m, q: sum(l[i] * b[i][m] for i in range(q))
        U = wait(None, R, s(1, j + 1), s(2, j + 1))
        z = 1 / (1 - R0)
        # lambda pi_2 of the classes before j
        p2 = s(1, j) * z ** 3
        ctx.check_eq(a[j], U[0] * z + b[j][0] * z - b[j][0], "class %d: mean waiting time, absolute priority" % j)
        ctx.check_eq(n[j] * (1 - R) * (1 - R0), s(1, K) / 2, "class %d: mean waiting time, relative priority" % j)
        ctx.check_eq(c[j][0], U[0] * z, "class %d: mean waiting for the first service" % j)
        ctx.check_eq(c[j][1], U[1] * z * z + U[0] * p2, "class %d: waiting for the first service, second moment" % j)
    ctx.reach("mean waiting times")


class Pls:
    """Gamma.get_pls: in symbolic runs a value of the transform is an unknown between its tangent and one"""

    def __init__(self, ctx):
        self.ctx, self.tab = ctx, []

    def val(self, mu, al, s):
        if not self.ctx.symbolic:
            return math.pow(mu / (mu + s), al)
        for a, b, c, v in self.tab:
            if lst.same(self.ctx, a, mu) and lst.same(self.ctx, b, al) and lst.same(self.ctx, c, s):
                return v
        v = self.ctx.real("pls%d" % len(self.tab), 0, 1)
        self.ctx.assume(v * mu > mu - s * al)
        self.tab.append((mu, al, s, v))
        return v

    def __enter__(self):
        self.old = pc.Gamma.get_pls
        pc.Gamma.get_pls = staticmethod(self.val)
        return self

    def __exit__(self, *a):
        pc.Gamma.get_pls = staticmethod(self.old)


def relative(ctx, cfg):
    K, l, b = data(ctx, dict(cfg, m=3))
    for x in b:
        ctx.assume(x[1] > x[0] * x[0])
    rho = sum(x * y[0] for x, y in zip(l, b))
    ga = lambda m: (m[0] / (m[1] - m[0] * m[0]), m[0] * m[0] / (m[1] - m[0] * m[0]))
    with Pls(ctx) as P, lst.captured(ctx, pc) as cap:
        w = pc.get_w_np(l, b)
        ctx.check(len(w) == K, "one list of moments per class")
        calls = list(cap.calls)
        per = len(calls) // K
        for j in range(K):
            la, lb = sum(l[:j]), sum(l[j + 1:])
            f, h, d = calls[(j + 1) * per - 1]      # the last table made for this class
            ctx.check(len(f) >= 3, "class %d: number of points" % j)
            for c, x in enumerate(f, 1):
                s = h * c
                sg = s
                if j:
                    pi = busy(la, [sum(l[i] * b[i][m] for i in range(j)) / la for m in range(2)], 2)
                    sg = s + la - la * P.val(*ga(pi), s)
                top = (1 - rho) * sg
                if j < K - 1:
                    bb = [sum(l[i] * b[i][m] for i in range(j + 1, K)) / lb for m in range(2)]
                    top = top + lb * (1 - P.val(*ga(bb), sg))
                ctx.check_eq(x * (l[j] * P.val(*ga(b[j]), sg) - l[j] + s), top, "class %d: transform at point %d" % (j, c))
            for k in range(3):
                ctx.check_eq(w[j][k], d[k] if k == 1 else -d[k], "class %d: moment %d from the derivatives" % (j, k + 1))
    ctx.reach("relative priority")


def ratio(ctx, cfg):
    """the ratio method and its parts"""
    K, n, N, num, kind = cfg["K"], cfg["n"], 5, cfg.get("num", 3), cfg["kind"]
    l = [ctx.real("l%d" % k, 0, 5) for k in range(K)]
    b = [[ctx.real("b%d_%d" % (k, j), 0, 100) for j in range(4)] for k in range(K)]
    w1 = [[ctx.real("w%d_%d" % (k, j), 0, 100) for j in range(num)] for k in range(K)]
    p1 = [ctx.real("p1_%d" % i, 0, 1) for i in range(N)]
    pn = [ctx.real("pn_%d" % i, 0, 1) for i in range(N + n + 3)]
    mean = [sum(l[k] * b[k][j] for k in range(K)) / sum(l) for j in range(4)]

    def eq(x, y, label):
        ctx.check(len(x) == len(y), label + ": length")
        for i, (u, v) in enumerate(zip(x, y)):
            ctx.check_eq(u, v, label + " %d" % (i + 1))

    def cls(l_, b_, num=3):
        eq(l_, l, "rates of the one-server queue")
        for k in range(K):
            eq(b_[k], [b[k][j] / n ** (j + 1) for j in range(4)], "class %d: service of the fast server, moment" % k)
        ctx.check(num == len(w1[0]), "number of moments handed on")
        return [list(x) for x in w1]

    def wnp(l_, b_, num=3):
        ctx.check(kind == "NP", "discipline")
        return cls(l_, b_, num)

    def wpr(l_, b_, num=3):
        ctx.check(kind == "PR", "discipline")
        return {"w_with_pr": cls(l_, b_, num), "w": None, "h": None, "v": None, "pnz": None}

    def gp(l_, b_, num=100):
        ctx.check_eq(l_, sum(l), "rate of the one-server queue without priorities")
        eq(b_, [mean[j] / n ** (j + 1) for j in range(4)], "service of an arbitrary job on the fast server, moment")
        ctx.check(num == N, "number of probabilities")
        return list(p1)

    class TT:
        def __init__(self, n_, l_, b_, *a, **k):
            ctx.check(n_ == n, "number of servers")
            ctx.check_eq(l_, sum(l), "rate of the queue without priorities")
            eq(b_, mean, "service of an arbitrary job, moment")
            self.done = False

        def run(self):
            self.done = True

        def get_p(self):
            ctx.check(self.done, "solved before it is read")
            return list(pn)

        def get_w(self, *a):
            ctx.check(self.done, "solved before it is read")
            return [x for x in wmg]
    wmg = [ctx.real("wmg%d" % j, 0, 100) for j in range(3)]
    with env.patched(pc, get_w_np=wnp, calc_pr1=wpr, get_p=gp, MGnCalc=TT):
        w = pc.get_w_prty_invar(l, b, n, kind, N, num)
    q1 = sum((i - 1) * p1[i] for i in range(2, N))
    qn = sum((i - n) * pn[i] for i in range(n + 1, N))
    for k in range(K):
        for j in range(num):
            ctx.check_eq(w[k][j] * q1, w1[k][j] * qn, "class %d: waiting moment %d" % (k, j + 1))
    with env.patched(pc, get_w_prty_invar=lambda l_, b_, n_, t='NP', N=150, num=3: [list(x) for x in w1] if n_ == n and t == kind else None):
        v = pc.get_v_prty_invar(l, b, n, kind, num) if num != 3 else pc.get_v_prty_invar(l, b, n, kind)
    for k in range(K):
        eq(list(v[k]), laws.conv(w1[k], b[k][:num]), "class %d: sojourn moment" % k)
    ctx.reach("ratio method")
    # one queue for all classes
    with env.patched(pc, MGnCalc=TT):
        a = pc.get_w_MxGn_no_pr(l, b, n)
        v = pc.get_v_MxGn_no_pr(l, b, n)
    for k in range(K):
        eq(a[k], wmg, "class %d: waiting moment without priorities" % k)
        eq(v[k], laws.conv(wmg, b[k][:3]), "class %d: sojourn moment without priorities" % k)

    def gw(l_, b_):
        ctx.check_eq(l_, sum(l), "rate of the one-server queue without priorities")
        eq(b_, mean, "service of an arbitrary job, moment")
        return list(wmg)
    with env.patched(pc, get_w=gw):
        a = pc.get_w_mg1_bp(l, b)
        v = pc.get_v_mg1_bp(l, b)
    for k in range(K):
        eq(a[k], wmg, "class %d: waiting moment without priorities" % k)
        eq(v[k], laws.conv(wmg, b[k][:3]), "class %d: sojourn moment without priorities" % k)
    with env.patched(pc, get_w_np=lambda l_, b_, num=3: [list(x) for x in w1]):
        v = pc.get_v_np(l, b, num) if num != 3 else pc.get_v_np(l, b)
    for k in range(K):
        eq(v[k], laws.conv(w1[k], b[k][:num]), "class %d: sojourn moment, relative priority" % k)
    ctx.reach("no priority")


HARNESSES = [
    Harness("periods", periods, quick=[dict(n=5, m=5), dict(n=5, m=3), dict(n=3, m=4), dict(n=2, m=2), dict(n=1, m=3)],
            bounds="one to five moments, any values with load below one"),
    Harness("absolute", absolute, quick=[dict(K=1, m=4), dict(K=2, m=4), dict(K=2, m=3, num=2), dict(K=3, m=4, fix={"1": [0.25, 1], "2": [0.5, 0.5]})],
            thorough=[dict(K=2, m=5), dict(K=3, m=4, fix={"0": [0.25, 1]}), dict(K=3, m=3, num=2), dict(K=3, m=5, fix={"0": [0.25, 1], "2": [0.5, 0.5]}), dict(K=4, m=4, fix={"0": [0.25, 1], "1": [0.125, 1], "2": [0.125, 0.5]})],
            bounds="1-3 (thorough 4) classes, any rates and moments (in larger cases some classes fixed)"),
    Harness("means", means, quick=[dict(K=1), dict(K=2), dict(K=3)], thorough=[dict(K=4)], bounds="1-3 (thorough 4) classes"),
    Harness("relative", relative, quick=[dict(K=1), dict(K=2, fix={"1": [0.25, 1]}), dict(K=2, fix={"0": [0.25, 1]})],
            thorough=[dict(K=2), dict(K=3, fix={"0": [0.25, 1], "2": [0.125, 2]}), dict(K=3, fix={"0": [0.25, 1], "1": [0.125, 2]})], bounds="1-2 (thorough 3) classes"),
    Harness("ratio", ratio, quick=[dict(K=2, n=2, kind="NP"), dict(K=3, n=3, kind="PR"), dict(K=2, n=1, kind="PR", num=2)],
            thorough=[dict(K=4, n=2, kind="NP"), dict(K=3, n=4, kind="PR"), dict(K=3, n=2, kind="NP", num=2)], bounds="2-3 (thorough 4) classes, 1-4 servers"),
]
