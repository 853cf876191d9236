"""GI/M/n: fixed point of the interarrival transform, shared by T05 and T06"""
import math

from . import env


class Law:
    """interarrival law with a closed transform; stands for Gamma.get_params / Pareto_dist.get_a_k"""

    def __init__(self, ctx, cfg, gm):
        self.ctx, self.gm, self.kind = ctx, gm, cfg["law"]
        self.calls = []         # arguments of the incomplete Gamma function
        self.vals = []
        if self.kind == "Gamma":
            r = cfg["phases"]   # mixture of Erlang laws 1..r
            self.v = ctx.real("v", 0, 20) if "v" not in cfg else cfg["v"]
            q = [ctx.real("q%d" % i, 0, 1) for i in range(1, r)] if "q" not in cfg else list(cfg["q"])
            q.append(1 - sum(q))
            ctx.assume(q[-1] >= 0)
            self.q = q
            al = cfg.get("alpha", 1)        # written with another leading shape
            self.alpha = al
            # density sum q_i v^i t^(i-1) e^(-vt) / (i-1)!  =  f_Gamma(v, alpha) * sum g_j t^j
            self.g = [0] * (r - al + 1)
            for i, x in enumerate(q, 1):
                if i >= al:
                    self.g[i - al] = x * self.v ** (i - al) * math.factorial(al - 1) / math.factorial(i - 1)
            for i in range(1, al):
                if not (isinstance(q[i - 1], (int, float)) and q[i - 1] == 0):
                    raise ValueError("no mass below the leading shape")
            self.mean = sum(i * x for i, x in enumerate(q, 1)) / self.v
        else:
            self.alpha = cfg["a"]
            self.k = ctx.real("K", 0, 20) if "K" not in cfg else cfg["K"]
            self.mean = self.alpha * self.k / (self.alpha - 1)

    def __enter__(self):
        G, P = self.gm.Gamma, self.gm.Pareto_dist
        self.old = (G.get_params, G.get_gamma, G.get_gamma_incomplete, P.get_a_k)
        if self.kind == "Gamma":
            G.get_params = staticmethod(lambda a: (self.v, self.alpha, list(self.g)))
            G.get_gamma = staticmethod(lambda x: math.factorial(int(x) - 1))
        else:
            P.get_a_k = staticmethod(lambda a: (self.alpha, self.k))

            def inc(x, z, *a, **k):
                self.ctx.check_eq(x, -self.alpha, "order of the incomplete Gamma function")
                y = self.ctx.real("G%d" % len(self.calls), 0, 100)
                self.calls.append(z)
                self.vals.append(y)
                return y
            G.get_gamma_incomplete = staticmethod(inc)
        return self

    def __exit__(self, *a):
        G, P = self.gm.Gamma, self.gm.Pareto_dist
        for o, n, f in ((G, "get_params", self.old[0]), (G, "get_gamma", self.old[1]),
                        (G, "get_gamma_incomplete", self.old[2]), (P, "get_a_k", self.old[3])):
            setattr(o, n, staticmethod(f))

    def lst(self, s):
        """transform of the mixture of Erlang laws"""
        return sum(x * (self.v / (self.v + s)) ** i for i, x in enumerate(self.q, 1))


def root(ctx, cfg, gm, solve, n):
    """the root returned solves w = A(n mu (1 - w)) within the tolerance asked for"""
    e = cfg["e"]
    mu = ctx.real("mu", 0, 20)
    with Law(ctx, cfg, gm) as L:
        m = L.mean
        ctx.assume(m * mu * n > 1)
        ctx.limit(cfg["lim"])
        a = [m, 2 * m * m, 6 * m * m * m]
        w = solve(a, mu, e, {"Gamma": "Gamma", "Pareto": "Pa"}[L.kind])
        ctx.unlimit()
        if L.kind == "Gamma":
            ctx.check(w > 0, "root is positive")
            ctx.check(w < 1, "root is below one")
            r = L.lst(n * mu * (1 - w)) - w
            # slope of the transform in w is at most 1 / load
            tol = e * m * mu * n
            ctx.check(r <= tol, "root of the functional equation")
            ctx.check(-r <= tol, "root of the functional equation")
            ctx.reach("root found")
        else:
            z = L.calls[-1]
            ctx.check_eq(w, L.alpha * z ** L.alpha * L.vals[-1], "last iterate is the transform")
            for i, z in enumerate(L.calls):
                old = 1 - z / (L.k * mu * n)
                if i:
                    y = L.calls[i - 1]
                    ctx.check_eq(old, L.alpha * y ** L.alpha * L.vals[i - 1], "iterate %d" % i)
            d = w - old
            ctx.check(d <= e, "last step within the tolerance")
            ctx.check(-d <= e, "last step within the tolerance")
            ctx.reach("iteration finished")


def b0(ctx, cfg, gm):
    """transform of the interarrival law at whole multiples of the service rate"""
    mu, j = ctx.real("mu", 0, 20), cfg["j"]
    with Law(ctx, cfg, gm) as L:
        a = [L.mean, 2 * L.mean ** 2, 6 * L.mean ** 3]
        x = gm.get_b0(a, j, mu, {"Gamma": "Gamma", "Pareto": "Pa"}[L.kind])
        if L.kind == "Gamma":
            ctx.check_eq(x, L.lst(mu * j), "transform")
        else:
            ctx.check_eq(L.calls[0], L.k * mu * j, "argument of the incomplete Gamma function")
            ctx.check_eq(x, L.alpha * L.calls[0] ** L.alpha * L.vals[0], "transform")
