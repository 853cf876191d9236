from vlib import env, fjref, qsprops, refs, simh
from vlib.runner import Harness
fj = env.mq("sim.fj_sim")
ASSUMPTIONS = ["no two events of one run happen at the same instant",
               "sampled durations are arbitrary reals in (0, 1000)"]
WITNESSES = ["finished two", "subtasks queued", "purged"]


def run(ctx, cfg):
    dr = env.Draws(ctx)
    n, k = cfg["n"], cfg["k"]
    with env.scripted_sampling(dr, simh.LABELS):
        sim = fj.ForkJoinSim(n, k, cfg["sj"], cfg["purge"])
        simh.shrink(sim)
        sim.set_sources(simh.SRC, "Uniform")
        sim.set_servers(simh.SRV, "Uniform")
        for c in range(n):
            sim.servers[c].dist._stream = "s%d" % c
        ref = fjref.FJ(dr, n, k, cfg["sj"], cfg["purge"])
        for i, want in enumerate(cfg["events"]):
            simh.force(ctx, ref, want)
            kind = ref.step()
            sim.run_one_step()
            tag = "after event %d (%s)" % (i + 1, kind)
            ctx.check_eq(sim.ttek, ref.t, "clock", tag)
            ctx.check(sim.arrived == len(ref.jobs), "arrived", tag)
            ctx.check(sim.served == len(ref.soj), "served", tag)
            ctx.check(sim.in_sys == ref.in_sys(), "jobs in system", tag)
            ctx.check(sim.sub_task_in_sys == ref.subtasks(), "subtasks in system", tag)
            busy = sum(1 for s in sim.servers if not s.is_free)
            ctx.check(busy == sum(1 for s in ref.srv if s), "busy servers", tag)
            ctx.check(sim.free_channels == n - busy, "free channel counter", tag)
            if any(ref.q) or ref.waiting:
                ctx.reach("subtasks queued")
        m = refs.moments(ref.soj)
        for j in range(3):
            ctx.check_eq(sim.v[j], m[j], "sojourn-time moment %d" % (j + 1))
        qsprops.probs(ctx, sim, ref)
        if len(ref.soj) >= 2:
            ctx.reach("finished two")
        if ref.purged:
            ctx.reach("purged")


def C(n, k, sj, purge, ev):
    return dict(n=n, k=k, sj=sj, purge=purge, events=ev)


def rows(t):
    o = []
    for sj, purge in ((False, False), (False, True), (True, False)):
        o.append(C(2, 2, sj, purge, "*" * (7 + t)))
        if not sj:
            o.append(C(2, 1, sj, purge, "*" * (7 + t)))
            o.append(C(3, 2, sj, purge, "A" + "*" * (5 + t)))
            o.append(C(3, 1, sj, purge, "AA" + "*" * (3 + t)))
            o.append(C(2, 1, sj, purge, "AAA" + "S" * (3 if purge else 4 + t)))
        else:
            o.append(C(3, 3, sj, purge, "AA" + "S" * (5 + t)))
        o.append(C(1, 1, sj, purge, "*" * (7 + t)))
    return o


HARNESSES = [Harness("fork_join", run, quick=rows(0), thorough=rows(2), opts={"no_ties": True},
                     bounds="fork-join (n,k) with n<=3, k<=n, with and without purging, split-join n<=3, 5-7 (thorough 7-9) events")]
