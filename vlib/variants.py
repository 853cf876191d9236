"""harness of the simulators derived from the GI/G/n/r one: finite source, batches, impatience"""
from vlib import env, qsprops, refs, simh

ASSUMPTIONS = ["no two events of one run happen at the same instant",
               "sampled durations are arbitrary reals in (0, 1000)"]


def make(ctx, cfg, dr):
    """-> sim, ref, uniform source (or None)"""
    v, n, buf = cfg["variant"], cfg["n"], cfg.get("buffer")
    kw = {} if buf is None else {"buffer": buf}
    us = None
    if v == "finite":
        sim = env.mq("sim.queue_finite_source_sim").QueueingFiniteSourceSim(n, cfg["m"], **kw)
        sim.set_sources(simh.SRC, "Uniform")
        ref = refs.RefFinite(dr, n, cfg["m"], buf)
    elif v == "impatient":
        sim = env.mq("sim.impatient_queue_sim").ImpatientQueueSim(n, **kw)
        sim.set_sources(simh.SRC, "Uniform")
        sim.set_impatiens(simh.IMP, "Uniform")
        ref = refs.RefImpatient(dr, n, buf)
    else:
        pr = []
        for i in range(cfg["sizes"] - 1):
            pr.append(ctx.real("p_%d" % (i + 1), 0, 1, strict=False))
        rest = 1
        for x in pr:
            rest = rest - x
        ctx.assume(rest >= 0)
        pr.append(rest)
        cum = []
        for x in pr:
            cum.append(x if not cum else cum[-1] + x)
        sim = env.mq("sim.batch_sim").QueueingSystemBatchSim(n, list(pr), **kw)
        sim.set_sources(simh.SRC, "Uniform")
        pool = []

        def u(i):
            while i >= len(pool):
                pool.append(ctx.real("u_%d" % len(pool), 0, 1))
            return pool[i]

        def size(i):
            x = u(i)
            for k, c in enumerate(cum):
                if k == len(cum) - 1 or x < c:
                    return k + 1
        ref = refs.RefBatch(dr, n, size, buf)
        cnt = [0]

        def sim_u():
            cnt[0] += 1
            return u(cnt[0] - 1)
        us = sim_u
    simh.shrink(sim)
    sim.set_servers(simh.SRV, "Uniform")
    return sim, ref, us


def run(ctx, cfg):
    if cfg.get("free"):
        dr = qsprops.SemiDraws(ctx, qsprops.fixed_history(cfg), 0, 4)
    else:
        dr = env.Draws(ctx)
    with env.scripted_sampling(dr, simh.LABELS):
        sim, ref, us = make(ctx, cfg, dr)
        if us is None:
            body(ctx, cfg, sim, ref)
        else:
            with env.scripted_uniform(us):
                body(ctx, cfg, sim, ref)


def counts(ctx, sim, ref, i, kind):
    tag = "after event %d (%s)" % (i + 1, kind)
    ctx.check(sim.arrived == len(ref.jobs), "arrived count", tag)
    ctx.check(sim.served == ref.served, "served count", tag)
    ctx.check(sim.dropped == ref.dropped, "dropped count", tag)
    ctx.check(sim.in_sys == ref.in_sys(), "jobs in system", tag)
    ctx.check(sim.queue.size() == len(ref.queue), "queue length", tag)
    busy = sum(1 for s in sim.servers if not s.is_free)
    ctx.check(busy == len(ref.busy), "busy servers", tag)
    ctx.check(sim.free_channels == sim.n - busy, "free channel counter", tag)
    ctx.check_eq(sim.ttek, ref.t, "clock", tag)


def body(ctx, cfg, sim, ref):
    for i, want in enumerate(cfg["events"]):
        simh.force(ctx, ref, want)
        kind = ref.step()
        sim.run_one_step()
        counts(ctx, sim, ref, i, kind)
        if kind == "L":
            ctx.reach("abandoned")
    w, v = refs.moments(ref.waits), refs.moments(ref.sojourns)
    for k in range(3):
        ctx.check_eq(sim.v[k], v[k], "sojourn-time moment %d" % (k + 1))
        ctx.check_eq(sim.w[k], w[k], "waiting-time moment %d" % (k + 1))
    qsprops.probs(ctx, sim, ref)
    if cfg.get("busy", True):
        qsprops.busy(ctx, sim, ref)
    if any(j.dropped for j in ref.jobs):
        ctx.reach("blocked")
    if any(j.start is not None and j.start is not j.arr for j in ref.jobs):
        ctx.reach("waited")
    if getattr(ref, "batches", 0) >= 2 and len(ref.jobs) > ref.batches:
        ctx.reach("a batch of several")


def cfgs(variant, ns, bufs, events, **kw):
    return [dict(variant=variant, n=n, buffer=b, events=e, **kw) for n in ns for b in bufs for e in events]
