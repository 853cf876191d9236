from vlib import env, variants
from vlib.variants import ASSUMPTIONS, cfgs
from vlib.runner import Harness
env.mq("sim.batch_sim")
WITNESSES = ["waited", "blocked", "busy period completed", "a batch of several"]


def rows(k):
    return (cfgs("batch", [1, 2], [None, 0, 1], ["*" * k], sizes=2) + cfgs("batch", [1, 2], [None, 2], ["*" * (k - 1)], sizes=3) +
            cfgs("batch", [3], [None, 1], ["AA" + "*" * (k - 4)], sizes=3) + cfgs("batch", [1], [None], ["*" * k], sizes=1))


HARNESSES = [Harness("batches", variants.run, quick=rows(6), thorough=rows(8), opts={"no_ties": True},
                     bounds="1-3 servers, batch sizes 1..3 with symbolic probabilities, buffer none/0/1/2, 4-6 (thorough 6-8) events")]
