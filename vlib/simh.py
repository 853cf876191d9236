"""shared pieces of the simulator harnesses"""
from fractions import Fraction

from vlib import env

SRC, SRV, WRM, CLD, DLY, IMP = [101, 1], [202, 1], [303, 1], [404, 1], [505, 1], [606, 1]
LABELS = {(101, 1): "a", (202, 1): "s", (303, 1): "w", (404, 1): "c", (505, 1): "d", (606, 1): "i"}


def shrink(sim, m=24):
    """the state-probability vector has 100000 entries; keep the first m"""
    try:
        if isinstance(sim.p, list) and len(sim.p) > m:
            del sim.p[m:]
            sim.num_of_states = m
    except AttributeError:
        pass


def make_qs(cfg):
    qs = env.mq("sim.qs_sim")
    kw = {}
    if cfg.get("buffer") is not None:
        kw["buffer"] = cfg["buffer"]
    if cfg.get("queue"):
        kw["buffer_type"] = cfg["queue"]
    sim = qs.QueueingSystemSimulator(cfg["n"], **kw)
    shrink(sim)
    sim.set_sources(SRC, "Uniform")
    sim.set_servers(SRV, "Uniform")
    ph = cfg.get("phases", "")
    if "w" in ph:
        sim.set_warm(WRM, "Uniform")
    if "c" in ph:
        sim.set_cold(CLD, "Uniform")
    if "d" in ph:
        sim.set_cold_delay(DLY, "Uniform")
    return sim


def force(ctx, ref, want):
    """assume that the reference's next event is of kind `want`
    A arrival, S any service end, s end of the service started first,
    l end of the service started last, P end of a warm-up/cooling/delay phase, * anything"""
    if want == "*":
        return
    cands = ref.candidates()
    if want in "Aa":        # a: the first source (of several) that is able to
        sel = [c for c in cands if c[1][0] == "A"]
        if want == "a":
            sel = sel[:1]
    elif want in "Ssl":
        sel = [c for c in cands if c[1][0] == "S"]
        if want == "s":
            sel = sel[:1]
        elif want == "l":
            sel = sel[-1:]
    else:
        sel = [c for c in cands if c[1][0] == want]
    if not sel:
        ctx.assume(False)
    if len(sel) == 1:
        for c in cands:
            if c is not sel[0]:
                ctx.assume(sel[0][0] < c[0])
    else:
        m = sel[0]
        for c in sel[1:]:
            if c[0] < m[0]:
                m = c
        for c in cands:
            if c not in sel:
                ctx.assume(m[0] < c[0])


def drive(ctx, sim, ref, pattern, each=None):
    for i, want in enumerate(pattern):
        force(ctx, ref, want)
        kind = ref.step()
        sim.run_one_step()
        if each:
            each(i, kind)


def check_counts(ctx, sim, ref, i, kind, served=None):
    tag = "after event %d (%s)" % (i + 1, kind)
    ctx.check(sim.arrived == len(ref.jobs), "arrived count", tag)
    ctx.check(sim.served == ref.served, "served count", tag)
    ctx.check(sim.dropped == ref.dropped, "dropped count", tag)
    ctx.check(sim.in_sys == ref.in_sys(), "jobs in system", tag)
    ctx.check(sim.queue.size() == len(ref.queue), "queue length", tag)
    busy = sum(1 for s in sim.servers if not s.is_free)
    ctx.check(busy == len(ref.busy), "busy servers", tag)
    ctx.check(sim.free_channels == sim.n - busy, "free channel counter", tag)
    ctx.check(sim.arrived == sim.served + sim.dropped + busy + sim.queue.size(), "conservation", tag)


def pats(n_events, prefixes):
    """prefixes of forced events padded with free ones"""
    return [(p + "*" * n_events)[:max(len(p), n_events)] for p in prefixes]
