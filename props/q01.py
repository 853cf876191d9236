from vlib import qsprops
from vlib import env, refs, simh
from vlib.runner import Harness

env.mq("sim.qs_sim")
ASSUMPTIONS = ["no two events of one run happen at the same instant",
               "sampled durations are arbitrary reals in (0, 1000)"]
WITNESSES = ["drop", "queued", "phase"]


def conserve(ctx, cfg):
    dr = env.Draws(ctx)
    ph = cfg.get("phases", "")
    with env.scripted_sampling(dr, simh.LABELS):
        sim = simh.make_qs(cfg)
        ref = refs.RefQS(dr, cfg["n"], cfg.get("buffer"), "w" in ph, "c" in ph, "d" in ph)

        def each(i, kind):
            simh.check_counts(ctx, sim, ref, i, kind)
            if kind == "P":
                ctx.reach("phase")

        simh.drive(ctx, sim, ref, cfg["events"], each)
        if ref.dropped:
            ctx.reach("drop")
        if ref.queue:
            ctx.reach("queued")
        ctx.check_eq(sim.ttek, ref.t, "current time")


def run_stop(ctx, cfg):
    """run(N) ends exactly when the N-th job has been served"""
    dr = env.Draws(ctx)
    with env.scripted_sampling(dr, simh.LABELS):
        sim = simh.make_qs(cfg)
        ref = refs.RefQS(dr, cfg["n"], cfg.get("buffer"))
        n = 0
        while ref.served < cfg["served"]:
            ref.step()
            n += 1
            ctx.assume(n <= cfg["max_events"])
        sim.run(cfg["served"])
        simh.check_counts(ctx, sim, ref, n, "run")
        ctx.check_eq(sim.ttek, ref.t, "current time")
        sim2 = simh.make_qs(cfg)


def cfgs(ns, bufs, events, phases=("",), queues=("list",)):
    return [{"n": n, "buffer": b, "events": e, "phases": p, "queue": q}
            for n in ns for b in bufs for e in events for p in phases for q in queues]


HARNESSES = [
    Harness("conserve", conserve,
            quick=cfgs([1, 2], [None, 0, 1, 2], ["*" * 8]) +
            cfgs([3], [None, 1], ["AAAA" + "*" * 3]) +
            cfgs([1, 2], [None, 1], ["*" * 7], ["w", "c", "wc", "cd", "wcd"]) +
            cfgs([1], [None, 3], ["A" * 8 + "s" * 4 + "**"], [""], ["list", "deque"]),
            bounds="n<=3 servers, buffer none/0/1/2(/3), 8 events from the empty system, all interleavings; "
                   "with warm-up/cooling/delay 7 events"),
    Harness("run_stop", run_stop,
            quick=[{"n": 1, "served": 3, "max_events": 7}, {"n": 2, "buffer": 1, "served": 3, "max_events": 8}],
            bounds="run(3)"),
    Harness("mix", conserve, quick=lambda s: qsprops.mix(), thorough=lambda s: qsprops.mix(True),
            bounds="n<=3, rooms none/0/1/2/3 with every listed set of warm-up, cooling and delayed cooling, list and deque "
                   "queues: 6 (7) free events from the empty system; after a burst of n+2 arrivals or an emptied busy period 3 (4)"),
]
for h in HARNESSES:
    h.opts = {"no_ties": True}
