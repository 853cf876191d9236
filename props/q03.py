from vlib import qsprops
from props.q02 import cfgs, long, Q, T, ASSUMPTIONS
from vlib import qsprops
from vlib.runner import Harness
WITNESSES = ["three states visited"]


def probs(ctx, cfg):
    qsprops.run(ctx, cfg, qsprops.clock, qsprops.probs)


HARNESSES = [
    Harness("probs", probs, quick=Q, thorough=T,
            bounds="n<=3, buffer none/0/1/2, 8 (quick) / 11 (thorough) events, every interleaving"),
    Harness("probs_long", probs, quick=lambda s: long(s), thorough=lambda s: long(s, 12),
            bounds="32-event runs, partly fixed"),
    Harness("mix", probs, quick=lambda s: qsprops.mix(), thorough=lambda s: qsprops.mix(True),
            bounds="n<=3, rooms none/0/1/2/3 with every listed set of warm-up, cooling and delayed cooling, list and deque "
                   "queues: 6 (7) free events from the empty system; after a burst of n+2 arrivals or an emptied busy period 3 (4)"),
]
for h in HARNESSES:
    h.opts = {"no_ties": True}
