"""harnesses for the level-structured calculations with warm-up, cooling and delay"""
import contextlib
import math

from . import env, laws, lst, ttref

LAWS = ["serv", "warm", "cold", "delay"]


class Model:
    """mod: module; make(l, moments, n, **kw) builds the calculation; parts: names among LAWS fitted by H2"""

    def __init__(self, mod, make, parts, expo=False, first=False):
        self.mod, self.make, self.parts, self.expo, self.first = mod, make, parts, expo, first


NAMES = {"serv": ["y", "m1", "m2"], "warm": ["yw", "w1", "w2"], "cold": ["yc", "c1", "c2"], "delay": ["yd", "d1", "d2"]}


@contextlib.contextmanager
def fits(ctx, mod, table):
    """the H2 fit returns the phases chosen for the moments it gets"""
    H = mod.H2_dist
    old = {k: H.__dict__[k] for k in ("get_params", "get_params_clx")}

    def fit(m, *a, **k):
        for b, ph in table:
            if all(lst.same(ctx, u, v) for u, v in zip(m, b)):
                return [ph[0][0], ph[0][1], ph[1][1]]
        ctx.check(False, "moments fitted are those of a given law")
    for k in old:
        setattr(H, k, staticmethod(fit))
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(H, k, v)


@contextlib.contextmanager
def quick_bisection(mod):
    """the search for p0 (every value gives the same law after normalisation) ends after one step"""
    real = mod.math
    st = {"on": False}

    class M:
        def __getattr__(self, name):
            return getattr(real, name)

        @staticmethod
        def fabs(x):
            if st["on"]:
                st["on"] = False
                return 0.0
            if isinstance(x, float) and x == 1.0:
                st["on"] = True
            return real.fabs(x)
    with env.patched(mod, math=M()):
        yield


class Case:
    def __init__(self, ctx, cfg, M, acc=None, free=False):
        self.ctx, self.M = ctx, M
        self.n, self.room = cfg["n"], cfg.get("room")
        n, room = self.n, self.room
        self.l = ttref.params(ctx, cfg, ["l"])[0]
        self.ph, self.mom = {}, {}
        table = []
        if M.expo:
            mu = ttref.params(ctx, cfg, ["mu"])[0]
            self.ph["serv"] = [(1, mu)]
            self.mom["serv"] = mu
        for p in M.parts:
            y, a, b = ttref.params(ctx, cfg, NAMES[p])
            self.ph[p] = [(y, a), (1 - y, b)]
            k = 1 + len(table)
            self.mom[p] = ([ctx.real("%s_b%d" % (p, i), 2 * k, 2 * k + 1 if not i else 1000) for i in range(4)] if free else
                           [ttref.lift(ctx, v) for v in (2 * k, 5 * k * k, 20 * k ** 3, 120 * k ** 4)])
            table.append((self.mom[p], self.ph[p]))
        self.N = cfg.get("N", n + room + 1 if room is not None else 150)
        kw = {"N": cfg.get("N", 150) if room is None else 150}
        if room is not None:
            kw["buffer"] = room
        if acc is not None:
            kw["accuracy"] = acc
        if cfg.get("dtype"):
            kw["dtype"] = cfg["dtype"]
        if not M.expo:
            b = self.mom["serv"]
            ctx.assume(b[1] > b[0] * b[0])
        with fits(ctx, M.mod, table):
            self.m = M.make(self.l, self.mom, n, **kw)
        self.model = dict(serv=self.ph["serv"], warm=self.ph.get("warm"), cold=self.ph.get("cold"), delay=self.ph.get("delay"), first=M.first)
        self.ch = ttref.vac(ctx, n, self.l, room=room, **self.model)

    def setY(self, Y):
        import numpy as np
        self.m.Y = [ttref.row(self.ctx, r) for r in Y]


def matrices(M):
    def f(ctx, cfg):
        c = Case(ctx, cfg, M)
        m = c.m
        for i in range(c.N):
            ctx.check(tuple(m.t[i].shape) == (1, len(c.ch.states(i))), "number of micro states of level %d" % i)
        ttref.blocks(ctx, c.ch, m.A, m.B, m.C, m.D, c.N if c.room is not None else c.N - 1)
        ctx.reach("matrices")
    return f


def full(M):
    def f(ctx, cfg):
        """limited room: from the exact solution one sweep returns the exact probabilities"""
        c = Case(ctx, cfg, M, 1e-9)
        P = c.ch.stationary(c.N)
        tot = [sum(p[1:], p[0]) for p in P]
        for i, p in enumerate(P):
            c.m.t[i] = ttref.row(ctx, [x / tot[i] for x in p])
            if i + 1 < len(P):
                c.m.x[i] = tot[i + 1] / tot[i]
        with quick_bisection(M.mod):
            c.m.run()
        p = c.m.get_p()
        s = sum(tot)
        for i in range(len(p)):
            ctx.check_eq(p[i] * s, tot[i] if i < c.N else 0, "probability of %d" % i)
        for nm, get, tag in (("cold", "get_cold_prob", "c"), ("warm", "get_warmup_prob", "w"), ("delay", "get_cold_delay_prob", "d")):
            if hasattr(c.m, get) and not M.first:
                ctx.check_eq(getattr(c.m, get)() * s, share(c, P, tag), "probability of the phase %s" % nm)
        ctx.reach("full system")
    return f


def share(c, P, tag):
    return sum(x for i, r in enumerate(P) for st, x in zip(c.ch.states(i), r) if isinstance(st, tuple) and st[0] == tag)


def sweep(M):
    def f(ctx, cfg):
        """no limit: one sweep from arbitrary phase probabilities"""
        c = Case(ctx, cfg, M, 1000)
        m, ch, N = c.m, c.ch, c.N
        T = []
        free = cfg.get("free", [])
        for i in range(N):
            k = len(ch.states(i))
            if i in free:
                r = [ctx.real("t%d_%d" % (i, j), 0.05, 1) for j in range(k - 1)]
                r.append(1 - sum(r))
                ctx.assume(r[-1] > 0.04)
            else:
                d = sum(1 + (3 * j + i) % 5 for j in range(k))
                r = [ttref.lift(ctx, env.Fraction(1 + (3 * j + i) % 5, d)) for j in range(k)]
            T.append(r)
            m.t[i] = ttref.row(ctx, r)
        m.x[0] = ttref.lift(ctx, 1000)
        with quick_bisection(M.mod):
            m.run()
        for j in range(1, N - 1):
            new = [m.t[j][0, k] for k in range(len(T[j]))]
            prev = [m.t[j - 1][0, k] for k in range(len(T[j - 1]))] if j > 1 else T[0]
            A, B, (C, out) = ch.block(j - 1, j)[0], ch.block(j + 1, j)[0], ch.block(j, j)
            up = [sum(prev[a] * A[a][k] for a in range(len(prev))) for k in range(len(new))]
            dn = [sum(T[j + 1][a] * B[a][k] for a in range(len(T[j + 1]))) for k in range(len(new))]
            within = [sum(new[a] * C[a][k] for a in range(len(new))) for k in range(len(new))]
            z, x = m.z[j], m.x[j]
            for k in range(len(new)):
                ctx.check_eq(new[k] * out[k], within[k] + z * up[k] + x * dn[k], "balance of state %d of level %d" % (k, j))
            ctx.check_eq(sum(new), 1, "phase probabilities of level %d sum to one" % j)
            B = ch.block(j, j - 1)[0]
            ctx.check_eq(sum(new[a] * sum(B[a]) for a in range(len(new))), z * sum(up), "flow between levels %d and %d" % (j - 1, j))
        ctx.check_eq(m.x[0] * m.z[1], 1, "ratio of the first two levels")
        B, (C, out) = ch.block(1, 0)[0], ch.block(0, 0)
        t0, t1 = [m.t[0][0, k] for k in range(len(T[0]))], [m.t[1][0, k] for k in range(len(T[1]))]
        for k in range(len(t0)):
            ctx.check_eq(t0[k] * out[k], sum(t0[a] * C[a][k] for a in range(len(t0))) + m.x[0] * sum(t1[a] * B[a][k] for a in range(len(t1))), "balance of state %d of level 0" % k)
        for j in range(N - 1):
            ctx.check_eq(m.p[j + 1], m.p[j] * m.x[j], "probability of %d from the level ratio" % (j + 1))
        ctx.check_eq(sum(m.p), 1, "probabilities sum to one")
        for j in range(N):
            for k in range(len(ch.states(j))):
                ctx.check_eq(m.Y[j][0, k], m.p[j] * m.t[j][0, k], "probability of micro state %d of level %d" % (k, j))
        ctx.reach("a sweep")
    return f


def randY(ctx, c, cfg):
    Y = []
    for i in range(c.N):
        Y.append([ctx.real("Y%d_%d" % (i, j), 0, 1) if i in cfg.get("levels", range(c.N)) else 0 for j in range(len(c.ch.states(i)))])
    return Y


def transform(M):
    def f(ctx, cfg):
        c = Case(ctx, cfg, M)
        Y = randY(ctx, c, cfg)
        if c.room is not None:
            c.m.p = [ttref.lift(ctx, 0) + sum(r) for r in Y] + [ttref.lift(ctx, 0)] * (len(c.m.p) - len(Y))
            full = sum(Y[-1])
            ctx.assume(full < 1)
        c.setY(Y)
        s = ctx.real("s", 0, 10)
        with env.patched(M.mod, derivative=None):
            got = c.m.calc_w_pls(s) - c.m.calc_w_pls(ttref.lift(ctx, 0))
        W = lambda s: ttref.wait_lst(ctx, c.n, c.l, Y if c.room is None else Y[:-1], s, **c.model)
        want = W(s) - W(ttref.lift(ctx, 0))
        if c.room is not None:
            got = got * (1 - full)
        ctx.check_eq(got, want, "transform of the waiting time (up to the part that does not wait)")
        ctx.reach("transform")
    return f


def moments(M):
    def f(ctx, cfg):
        c = Case(ctx, cfg, M, free=True)
        Y = randY(ctx, c, cfg)
        c.setY(Y)
        if M.first:
            p = [ttref.lift(ctx, 0) + sum(r) for r in Y] + [ttref.lift(ctx, 0)] * (len(c.m.p) - len(Y))
            c.m.p = list(p)
            acc = 1 if c.room is None else 1 - p[c.N - 1]
            if c.room is not None:
                ctx.assume(acc > 0)
            w = c.m.get_w()
            for k in range(3 if c.room is None else 1):
                ctx.check_eq(w[k] * (c.l * acc) ** (k + 1), sum(math.perm(i - c.n, k + 1) * p[i] for i in range(c.n, c.N)), "waiting moment %d" % (k + 1))
        else:
            calls, d = [], {}

            def derivative(f, x0, dx=1.0, n=1, args=(), order=3):
                calls.append((f, x0, dx, n, order))
                if n not in d:
                    d[n] = ctx.real("deriv%d" % n, -1000, 1000)
                return d[n]
            with env.patched(M.mod, derivative=derivative):
                w = c.m.get_w()
            s = ctx.real("s", 0, 10)
            ref = c.m.calc_w_pls(s)
            for fn, x0, dx, k, order in calls:
                ctx.check_eq(x0, 0, "point of differentiation")
                ctx.check(order % 2 == 1 and order > k, "points used")
                ctx.check(dx > 0, "step is positive")
                ctx.check_eq(fn(s), ref, "function differentiated is the transform")
            for k in (1, 2, 3):
                ctx.check(k in d, "derivative %d is taken" % k)
                ctx.check_eq(w[k - 1], d[k] * (-1) ** k, "waiting moment %d" % k)
            with env.patched(M.mod, derivative=derivative):
                w = c.m.get_w()
        with env.patched(M.mod, derivative=None if M.first else derivative):
            v = c.m.get_v()
        ctx.check(len(w) == 3 and len(v) == 3, "number of moments")
        b = laws.expo(c.mom["serv"], 3) if M.expo else c.mom["serv"]
        s = laws.conv(w, b)
        for k in range(3):
            want = s[k]
            if M.first:
                a = c.mom["warm"][k] - b[k]
                want = want + p[0] / acc * a
            ctx.check_eq(v[k], want, "sojourn moment %d" % (k + 1))
        if not M.first:
            for get, tag in (("get_cold_prob", "c"), ("get_warmup_prob", "w"), ("get_cold_delay_prob", "d"), ("get_idle_prob", "e")):
                if hasattr(c.m, get):
                    want = share(c, Y, tag) if tag != "e" else Y[0][0]
                    ctx.check_eq(getattr(c.m, get)(), want, get)
        ctx.reach("moments")
    return f


def normal(M):
    def f(ctx, cfg):
        """the search for the probability of the idle level ends and the law is normalised"""
        c = Case(ctx, cfg, M)
        m, N = c.m, c.N
        x = [ttref.lift(ctx, env.Fraction(v)) for v in cfg["x"].split()]
        x[0] = ctx.real("x0", 0.5, 0.500001)
        for i in range(N - 1):
            m.x[i] = x[i]
        m.calculate_p()
        w, tot = 1, 1
        for i in range(N - 1):
            w = w * x[i]
            tot = tot + w
        w = 1
        for i in range(N):
            ctx.check_eq(m.p[i] * tot, w, "probability of %d" % i)
            if i + 1 < N:
                w = w * x[i]
        ctx.reach("normalised")
    return f
