from vlib import env, prio
from vlib.prio import cfgs, ASSUMPTIONS
from vlib.runner import Harness
env.mq("sim.priority_queue_sim")
WITNESSES = ["preempted", "preempted twice"]
ALL = ["No", "NP", "PR", "RS", "RW"]


def order(ctx, cfg):
    prio.run(ctx, cfg, prio.in_service, None)


HARNESSES = [
    Harness("order", order,
            quick=cfgs(ALL, [1], [2], [None, 1], ["*" * 7]) + cfgs(ALL, [1], [3], [None], ["2" + "*" * 4, "2211" + "***"]) +
            cfgs(ALL, [2], [3], [None], ["2100" + "**", "220" + "***"]) +
            cfgs(ALL, [1], [3], [None], ["2222111000ssssss", "21020102sssss"]) +
            cfgs(["PR", "RS", "RW"], [1], [2], [None], ["10s0s0s0s**"]) +
            cfgs(["PR", "RS", "RW"], [2, 3], [3], [None], ["22210011ssss*"]),
            thorough=cfgs(ALL, [1], [2], [None, 1], ["*" * 9]) + cfgs(ALL, [1], [3], [None], ["2" + "*" * 6, "2211" + "****"]) +
            cfgs(ALL, [2], [3], [None], ["2100" + "****", "220" + "*****"]) +
            cfgs(ALL, [1], [3], [None], ["2222111000ssssss", "21020102sssss"]) +
            cfgs(["PR", "RS", "RW"], [1], [2], [None], ["10s0s0s0s***"]) +
            cfgs(["PR", "RS", "RW"], [2, 3], [3], [None], ["22210011ssss**"]),
            bounds="n<=3, 2-3 classes, up to 8 (quick) free events after forced prefixes of up to 16 events"),
]
for h in HARNESSES:
    h.opts = {"no_ties": True}
