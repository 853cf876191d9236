from vlib import env, variants
from vlib.variants import ASSUMPTIONS, cfgs
from vlib.runner import Harness
env.mq("sim.impatient_queue_sim")
WITNESSES = ["waited", "blocked", "abandoned", "busy period completed"]


def rows(k):
    return (cfgs("impatient", [1], [None, 0, 1], ["*" * k]) + cfgs("impatient", [2], [None, 1], ["*" * k]) +
            cfgs("impatient", [1], [None, 2], ["AAAL" + "*" * (k - 3), "AAALL" + "*" * (k - 3)]) +
            cfgs("impatient", [2], [None], ["AAAA" + "*" * (k - 3)]))


HARNESSES = [Harness("impatience", variants.run, quick=rows(6), thorough=rows(8), opts={"no_ties": True},
                     bounds="1-2 servers, buffer none/0/1/2, 6-8 (thorough 8-10) events")]
