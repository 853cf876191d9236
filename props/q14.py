from vlib import env, fjref, qsprops, refs, simh
from vlib.runner import Harness
fd = env.mq("sim.fj_delta_sim")
rd = env.mq("rand_distribution")
ASSUMPTIONS = ["no two events of one run happen at the same instant",
               "sampled durations are arbitrary reals in (0, 1000)"]
WITNESSES = ["finished two", "parts queued", "part after a completion"]


def run(ctx, cfg):
    dr = env.Draws(ctx)
    n, k = cfg["n"], cfg["k"]
    dlt = ctx.real("delta", 0, 100)
    rnd = cfg["random"]
    d1, d2 = 0.25, 0.125          # moments of one delay (random mode)
    asked = []

    def delay(i):
        return ref_delay() if rnd else dlt * i
    cnt = [0]

    def ref_delay():
        cnt[0] += 1
        return dr.get("d", cnt[0] - 1)

    def fit(b):
        return ("fit", b[0], b[1])

    def gen(*p):
        asked.append(p)
        return dr.next("d")
    with env.scripted_sampling(dr, simh.LABELS), env.patched(rd.Gamma, get_mu_alpha=staticmethod(fit),
                                                             generate_static=staticmethod(gen)):
        sim = fd.ForkJoinSimDelta(n, k, [d1, d2, 0.1] if rnd else dlt, cfg["sj"])
        simh.shrink(sim)
        sim.set_sources(simh.SRC, "Uniform")
        sim.set_servers(simh.SRV, "Uniform")
        ref = fjref.Delta(dr, n, k, delay, cfg["sj"])
        for i, want in enumerate(cfg["events"]):
            simh.force(ctx, ref, want)
            kind = ref.step()
            sim.run_one_step()
            tag = "after event %d (%s)" % (i + 1, kind)
            ctx.check_eq(sim.ttek, ref.t, "clock", tag)
            ctx.check(sim.arrived == len(ref.jobs), "arrived", tag)
            ctx.check(sim.served == len(ref.soj), "served", tag)
            ctx.check(sim.in_sys == ref.in_sys(), "jobs in system", tag)
            ctx.check(sim.sub_task_in_sys == len(ref.busy) + len(ref.queue), "parts in system", tag)
            ctx.check(sim.queue.size() == len(ref.queue), "waiting parts", tag)
            busy = sum(1 for s in sim.servers if not s.is_free)
            ctx.check(busy == len(ref.busy), "busy servers", tag)
            ctx.check(sim.free_channels == n - busy, "free channel counter", tag)
            if ref.queue:
                ctx.reach("parts queued")
            if kind == "F" and ref.soj:
                ctx.reach("part after a completion")
        m = refs.moments(ref.soj)
        for j in range(3):
            ctx.check_eq(sim.v[j], m[j], "sojourn-time moment %d" % (j + 1))
        qsprops.probs(ctx, sim, ref)
        for j, p in enumerate(asked):
            i = j % (k - 1) + 1
            ctx.check_eq(p[1], i * d1, "mean delay of part")
            ctx.check_eq(p[2], i * (d2 - d1 * d1) + i * i * d1 * d1, "second moment of the delay of a part")
        if len(ref.soj) >= 2:
            ctx.reach("finished two")


def C(n, k, sj, rnd, ev):
    return dict(n=n, k=k, sj=sj, random=rnd, events=ev)


def rows(t):
    o = []
    for sj in (False, True):
        o.append(C(2, 2, sj, False, "*" * (6 + t)))
        o.append(C(2, 2, sj, False, "AFASSFSS" + "*" * t))
        o.append(C(2, 2, sj, True, "*" * (5 + t)))
        o.append(C(3, 3, sj, True, "A" + "*" * (3 + t)))
        o.append(C(2, 3, sj, False, "A" + "*" * (5 + t)))
        o.append(C(3, 4, sj, True, "A" + "*" * (1 + t)))
        o.append(C(3, 2, sj, False, "AA" + "*" * (4 + t)))
        o.append(C(1, 2, sj, False, "*" * (6 + t)))
        o.append(C(2, 2, sj, False, "AAA" + "*" * (4 + t)))
    return o


HARNESSES = [Harness("delayed", run, quick=rows(0), thorough=rows(2), opts={"no_ties": True},
                     bounds="n<=3 servers, 2-4 parts, constant or random delays, fork-join and split-join, 4-8 (thorough 6-10) events")]
