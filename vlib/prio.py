"""harness bodies of the priority simulator"""
from vlib import env, refs, simh

ASSUMPTIONS = ["no two events of one run happen at the same instant",
               "sampled durations are arbitrary reals in (0, 1000)"]


def labels(K):
    d = {}
    for k in range(K):
        d[(110 + k, 1)] = "a%d" % k
        d[(220 + k, 1)] = "s%d" % k
    return d


def make(cfg):
    m = env.mq("sim.priority_queue_sim")
    K = cfg["K"]
    kw = {}
    if cfg.get("buffer") is not None:
        kw["buffer"] = cfg["buffer"]
    sim = m.PriorityQueueSimulator(cfg["n"], K, cfg["kind"], **kw)
    for k in range(K):
        del sim.p[k][20:]
    sim.num_of_states = 20
    sim.set_sources([{"type": "Uniform", "params": [110 + k, 1]} for k in range(K)])
    sim.set_servers([{"type": "Uniform", "params": [220 + k, 1]} for k in range(K)])
    return sim


def force(ctx, ref, want):
    """digit: arrival of that class; S: some service end; s: the one started first; *: anything"""
    if want == "*":
        return
    cands = ref.candidates()
    if want.isdigit():
        sel = [c for c in cands if c[1] == ("A", int(want))]
    else:
        sel = [c for c in cands if c[1][0] == "S"]
        if want == "s":
            sel = sel[:1]
    if not sel:
        ctx.assume(False)
    m = sel[0]
    for c in sel[1:]:
        if c[0] < m[0]:
            m = c
    for c in cands:
        if c not in sel:
            ctx.assume(m[0] < c[0])


def queue_len(sim, kind):
    return len(sim.queue) if kind == "No" else sum(len(q) for q in sim.queue)


def counts(ctx, sim, ref, cfg, tag):
    for k in range(ref.K):
        ctx.check(sim.arrived[k] == ref.arrived[k], "arrived of class", tag)
        ctx.check(sim.served[k] == ref.served[k], "served of class", tag)
        ctx.check(sim.dropped[k] == ref.dropped[k], "dropped of class", tag)
        ctx.check(sim.in_sys[k] == ref.in_sys(k), "jobs of class in system", tag)
    busy = sum(1 for s in sim.servers if not s.is_free)
    ctx.check(busy == ref.n - ref.free(), "busy servers", tag)
    ctx.check(sim.free_channels == sim.n - busy, "free channel counter", tag)
    ctx.check(sim.total == sum(ref.served), "total served", tag)
    ctx.check(queue_len(sim, cfg["kind"]) == len(ref.queue), "queue length", tag)
    ctx.check(sum(sim.arrived) == sum(sim.served) + sum(sim.dropped) + busy + queue_len(sim, cfg["kind"]),
              "conservation", tag)
    ctx.check_eq(sim.ttek, ref.t, "clock", tag)


def in_service(ctx, sim, ref, cfg, tag):
    """who is in service: multiset of (class, completion instant)"""
    a = sorted([s.tsk_on_service.k for s in sim.servers if not s.is_free])
    b = sorted([j.cls for j in ref.servers if j])
    ctx.check(a == b, "classes in service", "%s %s vs %s" % (tag, a, b))
    if cfg["kind"] in ("PR", "RS", "RW"):
        waiting = [j.cls for j in ref.queue]
        if waiting and a:
            ctx.check(queue_len(sim, cfg["kind"]) == len(waiting), "queue length", tag)
            ctx.check(min(k for k in range(ref.K) if len(sim.queue[k])) >= max(a),
                      "a waiting job has priority over one in service", tag)
    for s, e, j in zip(sim.servers, ref.ends, ref.servers):
        if not s.is_free and j:
            ctx.check(s.tsk_on_service.k == j.cls, "class at server", tag)
            ctx.check_eq(s.tsk_on_service.arr_time, j.arr, "job at server", tag)
            ctx.check_eq(s.time_to_end_service, e, "completion instant", tag)


def stats(ctx, sim, ref, cfg):
    for k in range(ref.K):
        v, w = refs.moments(ref.soj[k]), refs.moments(ref.wait[k])
        for i in range(3):
            ctx.check_eq(sim.v[k][i], v[i], "class sojourn moment %d" % (i + 1))
            ctx.check_eq(sim.w[k][i], w[i], "class waiting moment %d" % (i + 1))
        if ref.soj[k] and k == ref.K - 1:
            ctx.reach("lowest class served")


def probs(ctx, sim, ref, cfg):
    p = sim.get_p()
    for k in range(ref.K):
        tot = 0
        for j in range(len(p[k])):
            e = 0
            for x in ref.state_time[k].get(j, []):
                e = e + x
            ctx.check_eq(p[k][j] * ref.t, e, "class state time share")
            tot = tot + p[k][j]
        ctx.check_eq(tot * ref.t, ref.last[k], "class state time total")


def run(ctx, cfg, each, final):
    dr = env.Draws(ctx)
    with env.scripted_sampling(dr, labels(cfg["K"])):
        sim = make(cfg)
        ref = refs.RefPrio(dr, cfg["n"], cfg["K"], cfg["kind"], cfg.get("buffer"))
        for i, want in enumerate(cfg["events"]):
            force(ctx, ref, want)
            kind = ref.step()
            sim.run_one_step()
            if each:
                each(ctx, sim, ref, cfg, "after event %d (%s)" % (i + 1, kind))
        if ref.preemptions:
            ctx.reach("preempted")
        if ref.preemptions > 1:
            ctx.reach("preempted twice")
        if sum(ref.dropped):
            ctx.reach("dropped")
        if final:
            final(ctx, sim, ref, cfg)


def cfgs(kinds, ns, Ks, bufs, events):
    return [{"kind": k, "n": n, "K": K, "buffer": b, "events": e}
            for k in kinds for n in ns for K in Ks for b in bufs for e in events]
