from vlib import env, prio
from vlib.prio import cfgs, ASSUMPTIONS
from vlib.runner import Harness
env.mq("sim.priority_queue_sim")
WITNESSES = ["preempted", "dropped"]
ALL = ["No", "NP", "PR", "RS", "RW"]


def conserve(ctx, cfg):
    prio.run(ctx, cfg, prio.counts, None)


def run_stop(ctx, cfg):
    from vlib import refs
    dr = env.Draws(ctx)
    with env.scripted_sampling(dr, prio.labels(cfg["K"])):
        sim = prio.make(cfg)
        ref = refs.RefPrio(dr, cfg["n"], cfg["K"], cfg["kind"], cfg.get("buffer"))
        n = 0
        while sum(ref.served) < cfg["served"]:
            ref.step()
            n += 1
            ctx.assume(n <= cfg["max_events"])
        sim.run(cfg["served"])
        prio.counts(ctx, sim, ref, cfg, "run")


HARNESSES = [
    Harness("conserve", conserve,
            quick=cfgs(ALL, [1], [2], [None, 0, 1, 2], ["*" * 6]) + cfgs(ALL, [2], [2], [None, 1], ["**" + "*" * 4]) +
            cfgs(ALL, [2], [3], [None, 1], ["210" + "**"]),
            thorough=cfgs(ALL, [1], [2], [None, 0, 1, 2], ["*" * 8]) + cfgs(ALL, [2], [2], [None, 0, 1], ["*" * 7]) +
            cfgs(ALL, [2, 3], [3], [None, 1], ["210" + "****", "2100" + "***"]),
            bounds="n<=2 (3 thorough), 2-3 classes, buffer none/0/1/2, 6 (8 thorough) events, every interleaving"),
    Harness("run_stop", run_stop, quick=[dict(kind=k, n=1, K=2, buffer=None, served=2, max_events=5) for k in ALL],
            bounds="run(2)"),
]
for h in HARNESSES:
    h.opts = {"no_ties": True}
