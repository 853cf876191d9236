from vlib import qsprops
from vlib.runner import Harness
from vlib import env
env.mq("sim.qs_sim")
ASSUMPTIONS = ["no two events of one run happen at the same instant",
               "sampled durations are arbitrary reals in (0, 1000)"]
WITNESSES = ["waited", "served two"]


def times(ctx, cfg):
    qsprops.run(ctx, cfg, None, qsprops.times)


def cfgs(ns, bufs, events, phases=("",), queues=("list",)):
    return [{"n": n, "buffer": b, "events": e, "phases": p, "queue": q}
            for n in ns for b in bufs for e in events for p in phases for q in queues]


def long(seed, count=2, phases=("",), events=32):
    """long runs in which a few durations are symbolic, the others fixed"""
    out = []
    for i in range(count):
        for n in (1, 2, 3):
            for b, q in ((None, "list"), (3, "deque")):
                for ph in phases:
                    r = qsprops.lcg(seed * 100 + i * 10 + n)
                    out.append({"n": n, "buffer": b, "queue": q, "seed": seed * 10 + i, "phases": ph,
                                "load": "6/5" if i % 2 else "9/10",
                                "free": {"a": [2 + r() % 12], "s": [1 + r() % 10]} if not ph else
                                {"a": [2 + r() % 8], ph[i % len(ph)]: [i % 2]},
                                "events": "*" * events})
    return out


Q = (cfgs([1, 2], [None, 1], ["*" * 8]) + cfgs([1, 2], [0, 2], ["*" * 7]) + cfgs([3], [None, 1], ["AAAA" + "*" * 3]) +
     cfgs([1, 2], [None, 2], ["A" * 5 + "s" * 3 + "**"], queues=("list", "deque")) +
     cfgs([1, 2], [None], ["*" * 7], ["w", "wcd"]))
T = (cfgs([1], [None, 0, 1, 2], ["*" * 11]) + cfgs([2], [None, 0, 1, 2], ["*" * 10]) +
     cfgs([3], [None, 0, 1], ["AAAA" + "*" * 5]) + cfgs([1, 2], [None, 1], ["*" * 9], ["w", "c", "wc", "cd", "wcd"]) +
     cfgs([1, 2], [None, 2], ["A" * 6 + "s" * 4 + "**"], queues=("list", "deque")))
HARNESSES = [
    Harness("times", times, quick=Q, thorough=T,
            bounds="n<=3, buffer none/0/1/2, 8 (quick) / 11 (thorough) events from the empty system, every interleaving"),
    Harness("times_long", times, quick=lambda s: long(s), thorough=lambda s: long(s, 12),
            bounds="32-event runs in which one interarrival and one service time are symbolic (0,4), the others fixed (seeded)"),
    Harness("mix", times, quick=lambda s: qsprops.mix(), thorough=lambda s: qsprops.mix(True),
            bounds="n<=3, rooms none/0/1/2/3 with every listed set of warm-up, cooling and delayed cooling, list and deque "
                   "queues: 6 (7) free events from the empty system; after a burst of n+2 arrivals or an emptied busy period 3 (4)"),
]
for h in HARNESSES:
    h.opts = {"no_ties": True}
