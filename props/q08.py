from vlib import env, prio
from vlib.prio import cfgs, ASSUMPTIONS
from vlib.runner import Harness
env.mq("sim.priority_queue_sim")
WITNESSES = ["lowest class served", "preempted"]
ALL = ["No", "NP", "PR", "RS", "RW"]


def stats(ctx, cfg):
    def fin(c, sim, ref, cf):
        prio.stats(c, sim, ref, cf)
        prio.probs(c, sim, ref, cf)
    prio.run(ctx, cfg, None, fin)


Q = cfgs(ALL, [1], [2], [None, 1], ["*" * 6]) + cfgs(ALL, [2], [2], [None], ["10" + "***"]) + \
    cfgs(ALL, [1], [3], [None], ["2110" + "sss*", "2101s0ssss"]) + cfgs(["PR", "RS", "RW"], [2], [3], [None], ["2210ssss"])
T = cfgs(ALL, [1], [2], [None, 0, 1, 2], ["*" * 8]) + cfgs(ALL, [2], [2], [None, 1], ["10" + "*" * 5]) + \
    cfgs(ALL, [1], [3], [None], ["2110" + "sss***", "2101s0ssss*"]) + cfgs(["PR", "RS", "RW"], [2], [3], [None], ["2210ssss**"])
HARNESSES = [
    Harness("stats", stats, quick=Q, thorough=T, opts={"no_ties": True},
            bounds="n<=2, 2-3 classes, 6 (quick) / 8 (thorough) events, every interleaving, plus forced prefixes"),
]
