"""harness bodies shared by the properties of the GI/G/n/r simulator"""
from fractions import Fraction

from vlib import env, refs, simh


class SemiDraws(env.Draws):
    """draws fixed to given rationals except the listed symbolic ones: a long concrete
    history with a symbolic part.  fixed(stem, i) -> Fraction or None (symbolic)"""

    def __init__(self, ctx, fixed, lo=0, hi=1000):
        env.Draws.__init__(self, ctx, lo, hi)
        self.fixed = fixed

    def get(self, stem, i):
        v = self.fixed(stem, i)
        if v is None:
            return env.Draws.get(self, stem, i)
        k = (stem, i)
        r = self.pool.get(k)
        if r is None:
            r = env.lift(v) if self.ctx.symbolic else float(v)
            self.pool[k] = r
        return r


def lcg(seed):
    x = (seed * 2654435761 + 12345) % (1 << 32)

    def nxt():
        nonlocal x
        x = (x * 1664525 + 1013904223) % (1 << 32)
        return x >> 8
    return nxt


def fixed_history(cfg):
    """pseudo-random fixed durations (from cfg['seed']) for every draw except cfg['free'][stem];
    service about cfg['load'] times the arrival spacing"""
    table = {}

    def fixed(stem, i):
        if i in cfg["free"].get(stem, ()):
            return None
        k = (stem, i)
        if k not in table:
            r = lcg(cfg["seed"] * 1000003 + i * 7919 + sum(map(ord, stem)) * 104729)
            r()
            base = Fraction(1 + r() % 97, 32)
            scale = {"s": Fraction(cfg.get("load", "9/10")) * cfg["n"]}.get(stem, Fraction(1))
            # a stream-specific tiny offset keeps event instants distinct
            table[k] = base * scale + Fraction(1 + r() % 1000, 65537)
        return table[k]
    return fixed


def build(ctx, cfg):
    if cfg.get("free"):
        dr = SemiDraws(ctx, fixed_history(cfg), 0, 4)
    else:
        dr = env.Draws(ctx)
    ph = cfg.get("phases", "")
    return dr, ph


def run(ctx, cfg, each=None, final=None):
    dr, ph = build(ctx, cfg)
    with env.scripted_sampling(dr, simh.LABELS):
        sim = simh.make_qs(cfg)
        ref = refs.RefQS(dr, cfg["n"], cfg.get("buffer"), "w" in ph, "c" in ph, "d" in ph)
        simh.drive(ctx, sim, ref, cfg["events"], (lambda i, k: each(ctx, sim, ref, i, k)) if each else None)
        final(ctx, sim, ref)


def times(ctx, sim, ref):
    w, v = refs.moments(ref.waits), refs.moments(ref.sojourns)
    ctx.check(sim.taked == len(ref.waits), "jobs taken into service")
    ctx.check(sim.served == len(ref.sojourns), "jobs served")
    for k in range(3):
        ctx.check_eq(sim.w[k], w[k], "waiting-time moment %d" % (k + 1))
    for k in range(3):
        ctx.check_eq(sim.v[k], v[k], "sojourn-time moment %d" % (k + 1))
    if any(j.start is not None and j.start is not j.arr for j in ref.jobs):
        ctx.reach("waited")
    if len(ref.sojourns) >= 2:
        ctx.reach("served two")


def probs(ctx, sim, ref):
    p = sim.get_p()
    tot = 0
    for j in range(len(p)):
        tot = tot + p[j]
        ts = ref.time_in_state.get(j, [])
        e = 0
        for x in ts:
            e = e + x
        ctx.check_eq(p[j] * ref.t, e, "time share of state %d" % j)
    ctx.check_eq(tot, 1, "state probabilities sum to one")
    for j in range(len(p)):
        if j in ref.time_in_state:
            ctx.check(p[j] >= 0, "state probability non-negative")
    if len(ref.time_in_state) >= 3:
        ctx.reach("three states visited")


def clock(ctx, sim, ref, i, kind):
    ctx.check_eq(sim.ttek, ref.t, "clock after event %d" % (i + 1))


def busy(ctx, sim, ref):
    m = refs.moments(ref.busy_periods)
    ctx.check(sim.ppnz_moments == len(ref.busy_periods), "number of busy periods",
              "%s vs %s" % (sim.ppnz_moments, len(ref.busy_periods)))
    for k in range(3):
        ctx.check_eq(sim.ppnz[k], m[k], "busy-period moment %d" % (k + 1))
    if ref.busy_periods:
        ctx.reach("busy period completed")
    if len(ref.busy_periods) >= 2:
        ctx.reach("two busy periods")


def phases(ctx, sim, ref):
    for nm, ph, get in (("warm", sim.warm_phase, sim.get_warmup_prob), ("cold", sim.cold_phase, sim.get_cold_prob),
                        ("delay", sim.cold_delay_phase, sim.get_cold_delay_prob)):
        tot = 0
        for x in ref.phase_time[nm]:
            tot = tot + x
        ctx.check_eq(get() * ref.t, tot, "share of time in completed %s periods" % nm)
        ctx.check(ph.starts_times == ref.phase_starts[nm], "number of %s periods started" % nm)
        if ref.phase_time[nm]:
            ctx.reach(nm + " completed")
    ctx.check(sim.warm_after_cold_starts == ref.warm_after_cold, "warm-ups started by the end of cooling")
    ctx.check(sim.zero_wait_arrivals_num == ref.zero_wait, "arrivals that did not wait")
    for s, (a, b) in enumerate(zip(sim.w, refs.moments(ref.waits))):
        if s == 0:
            ctx.check_eq(a, b, "mean wait")
    if ref.warm_after_cold:
        ctx.reach("warm-up after cooling")


def mix(deep=False):
    """limited rooms together with warm-up, cooling and delayed cooling, on both queue containers"""
    out = []
    k = 0
    for n in (1, 2, 3):
        for b in (0, 1, 2, 3, None):
            for ph in ("", "w", "c", "wc", "wcd"):
                free = (7 if deep else 6) - (n == 3)
                evs = ["*" * free]
                if b != 0:
                    evs.append("A" * (n + 2) + ("P" if "w" in ph else "") + "s" * min(n, 2) + "*" * (4 if deep else 3))
                if "c" in ph:
                    evs.append("A" + ("P" if "w" in ph else "") + "s" + "A" * 2 + "*" * (4 if deep else 3))
                for e in evs:
                    k += 1
                    out.append({"n": n, "buffer": b, "events": e, "phases": ph, "queue": ("list", "deque")[k % 2]})
    return out
