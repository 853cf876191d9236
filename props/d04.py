import itertools

from vlib import env, laws
from vlib.runner import Harness
du = env.mq("sim.utils.distribution_utils")
qs = env.mq("sim.qs_sim")
ps = env.mq("sim.priority_queue_sim")
bs = env.mq("sim.batch_sim")
WITNESSES = ["load computed"]
KINDS = ["M", "H", "E", "Gamma", "C", "Pa", "Uniform", "Norm", "D"]


def law(ctx, kind, s):
    """-> parameters and mean"""
    r = lambda n, lo=0, hi=50: ctx.real(s + n, lo, hi)
    if kind == "M":
        m = r("mu")
        return m, 1 / m
    if kind == "D":
        m = r("b")
        return m, m
    if kind in ("H", "C"):
        p = [r("y1", 0, 1), r("m1"), r("m2")]
        return p, (laws.h2 if kind == "H" else laws.cox)(*p, 1)[0]
    if kind == "E":
        m = r("mu")
        return [3, m], 3 / m
    if kind == "Gamma":
        p = [r("mu"), r("alpha")]
        return p, p[1] / p[0]
    if kind == "Pa":
        p = [r("a", 1, 20), r("k")]
        return p, p[0] * p[1] / (p[0] - 1)
    p = [r("mean"), r("h", 0, 1)]
    return p, p[0]


def single(ctx, cfg):
    a, ma = law(ctx, cfg["src"], "a")
    b, mb = law(ctx, cfg["srv"], "b")
    n = cfg["n"]
    ctx.check_eq(du.calc_qs_load(cfg["src"], a, cfg["srv"], b, n), mb / ma / n, "load")
    ctx.reach("load computed")
    if cfg.get("sim"):
        env_load(ctx, cfg, a, ma, b, mb, n)


def fill(ctx, s, a, ta, b, tb):
    """set the laws through the public interface; the samples drawn meanwhile are irrelevant"""
    d = env.Draws(ctx)
    with env.scripted_sampling(d, {}, default=type(s).__name__):
        s.set_sources(a, ta) if ta is not None else s.set_sources(a)
        s.set_servers(b, tb) if tb is not None else s.set_servers(b)


def env_load(ctx, cfg, a, ma, b, mb, n):
    s = qs.QueueingSystemSimulator(n, verbose=False)
    fill(ctx, s, a, cfg["src"], b, cfg["srv"])
    ctx.check_eq(s.calc_load(), mb / ma / n, "simulator's load")
    pr = [ctx.real("p%d" % i, 0, 1) for i in range(2)]
    pr.append(1 - pr[0] - pr[1])
    ctx.assume(pr[2] > 0)
    s = bs.QueueingSystemBatchSim(n, pr, verbose=False)
    fill(ctx, s, a, cfg["src"], b, cfg["srv"])
    ctx.check_eq(s.calc_load(), mb / ma / n * (pr[0] + 2 * pr[1] + 3 * pr[2]), "batch simulator's load")


def prio(ctx, cfg):
    n, pairs = cfg["n"], cfg["pairs"]
    s = ps.PriorityQueueSimulator(n, len(pairs), "NP")
    src, srv, want = [], [], 0
    for i, (x, y) in enumerate(pairs):
        a, ma = law(ctx, x, "a%d" % i)
        b, mb = law(ctx, y, "b%d" % i)
        src.append({"type": x, "params": a})
        srv.append({"type": y, "params": b})
        want = want + mb / ma / n
    fill(ctx, s, src, None, srv, None)
    ctx.check_eq(s.calc_load(), want, "load over classes")


def srows():
    o = [dict(src=k, srv="M", n=2, sim=(k in "MH")) for k in KINDS] + [dict(src="M", srv=k, n=3) for k in KINDS]
    return o


HARNESSES = [
    Harness("single", single, quick=srows(), thorough=[dict(src=a, srv=b, n=n) for a in KINDS for b in KINDS for n in (1, 3)],
            bounds="all nine laws for arrivals and service, all real parameters with finite mean"),
    Harness("prio", prio, quick=[dict(n=2, pairs=[(k, "M"), ("M", k)]) for k in KINDS] + [dict(n=1, pairs=[("M", "M")] * 3)],
            bounds="2-3 classes, every law in both roles, all real parameters"),
]
