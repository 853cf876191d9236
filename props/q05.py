from vlib import qsprops
from props.q02 import cfgs, long, ASSUMPTIONS
from vlib import qsprops, simh
from vlib.runner import Harness
WITNESSES = ["warm completed", "cold completed", "delay completed", "warm-up after cooling"]


def phases(ctx, cfg):
    def each(c, sim, ref, i, kind):
        qsprops.clock(c, sim, ref, i, kind)
        simh.check_counts(c, sim, ref, i, kind)
    qsprops.run(ctx, cfg, each, qsprops.phases)


PH = ["w", "c", "wc", "cd", "wcd"]
Q = cfgs([1, 2], [None], ["*" * 8], PH) + cfgs([1, 2], [1], ["*" * 7], PH) + \
    cfgs([2, 3], [None, 2], ["AAAAPsssss" + "*" * 3], ["w"]) + \
    cfgs([1, 2, 3], [None], ["AsAAAP**", "AsPAAAPP**", "AsPAAPAAPs**"], ["wc", "wcd", "cd", "c"])
T = cfgs([1, 2], [None, 1], ["*" * 10], PH) + cfgs([3], [None], ["*" * 8], PH) + Q
HARNESSES = [
    Harness("phases", phases, quick=Q, thorough=T,
            bounds="n<=3, buffer none/1/2, warm-up / cooling / delay subsets, 8 (quick) / 10 (thorough) events, "
                   "plus forced prefixes up to 13 events"),
    Harness("phases_long", phases, quick=lambda s: long(s, 1, ("wc", "wcd")), thorough=lambda s: long(s, 8, PH),
            bounds="32-event runs, partly fixed"),
    Harness("mix", phases, quick=lambda s: qsprops.mix(), thorough=lambda s: qsprops.mix(True),
            bounds="n<=3, rooms none/0/1/2/3 with every listed set of warm-up, cooling and delayed cooling, list and deque "
                   "queues: 6 (7) free events from the empty system; after a burst of n+2 arrivals or an emptied busy period 3 (4)"),
]
for h in HARNESSES:
    h.opts = {"no_ties": True}
