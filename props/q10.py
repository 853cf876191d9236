from vlib import env, variants
from vlib.variants import ASSUMPTIONS, cfgs
from vlib.runner import Harness
env.mq("sim.queue_finite_source_sim")
WITNESSES = ["waited", "blocked", "busy period completed"]


def rows(k):
    return (cfgs("finite", [1], [None, 0, 1], ["*" * k], m=2) + cfgs("finite", [1], [None, 1], ["*" * k], m=3) +
            cfgs("finite", [2], [None, 0], ["*" * k], m=3) + cfgs("finite", [2], [None], ["AA" + "*" * (k - 1)], m=2) +
            cfgs("finite", [1], [0], ["*" * k], m=1) + cfgs("finite", [2], [1], ["aaaa" + "*" * (k - 3)], m=4) +
            cfgs("finite", [3], [None], ["aaaa" + "*" * (k - 4)], m=5))


HARNESSES = [Harness("finite_source", variants.run, quick=rows(6), thorough=rows(8), opts={"no_ties": True},
                     bounds="1-3 servers, 1-5 sources, buffer none/0/1, 6-7 (thorough 8-9) events")]
