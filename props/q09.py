from fractions import Fraction

import numpy as np

from vlib import env, netref, refs
from vlib.runner import Harness
net = env.mq("sim.priority_network")
ASSUMPTIONS = ["no two events of one run happen at the same instant",
               "sampled durations are arbitrary reals in (0, 1000); routing draws arbitrary in (0, 1)"]
WITNESSES = ["left the network", "moved between nodes", "preempted"]


def labels(M, K):
    d = {}
    for k in range(K):
        d[1000 + k] = "a%d" % k
        for m in range(M):
            d[(220 + 10 * m + k, 1)] = "s%d%d" % (m, k)
    return d


def mats(ctx, cfg, M, K):
    """routing matrices of exact rationals; 'x' entries are symbolic probabilities"""
    R = []
    for k in range(K):
        rows = []
        for i, row in enumerate(cfg["R"][k]):
            out, rest, sym = [], env.lift(1), None
            for j, v in enumerate(row):
                if v == "x":
                    x = ctx.real("r%d_%d_%d" % (k, i, j), 0, 1)
                    out.append(x)
                    rest = rest - x
                elif v == "rest":
                    sym = j
                    out.append(None)
                else:
                    f = env.lift(Fraction(v)) if ctx.symbolic else float(Fraction(v))
                    out.append(f)
                    rest = rest - f
            if sym is not None:
                ctx.assume(rest >= 0)
                out[sym] = rest if ctx.symbolic else float(rest)
            rows.append(out)
        R.append(np.array(rows, dtype=object))
    return R


def build(ctx, cfg):
    M, K = len(cfg["n"]), cfg["K"]
    dr = env.Draws(ctx)
    R = mats(ctx, cfg, M, K)
    us = []

    def u():
        us.append(ctx.real("u_%d" % len(us), 0, 1))
        return us[-1]

    def route(k, node):
        i = route.i
        route.i += 1
        x = us[i] if i < len(us) else u()
        cum = 0
        last = 0
        for j in range(M + 1):
            p = R[k][node + 1, j]
            if isinstance(p, float) and p == 0.0:
                continue
            cum = cum + p
            last = j
            if x < cum:
                return j
        return last
    route.i = 0

    sim_i = [0]

    def sim_u():
        i = sim_i[0]
        sim_i[0] += 1
        if i < len(us):
            return us[i]
        return u()
    return dr, R, route, sim_u


def make(cfg, R):
    M, K = len(cfg["n"]), cfg["K"]
    serv = [[{"type": "Uniform", "params": [220 + 10 * m + k, 1]} for k in range(K)] for m in range(M)]
    sim = net.PriorityNetwork(K, [1000 + k for k in range(K)], R, cfg["n"], cfg["kind"], serv, cfg["order"])
    for s in sim.smos:
        for k in range(K):
            del s.p[k][20:]
        s.num_of_states = 20
    return sim


def force(ctx, ref, want):
    if want == "*":
        return
    cands = ref.candidates()
    if want.isdigit():
        sel = [c for c in cands if c[1] == ("A", int(want))]
    else:
        sel = [c for c in cands if c[1][0] == "S"]
    if not sel:
        ctx.assume(False)
    m = sel[0]
    for c in sel[1:]:
        if c[0] < m[0]:
            m = c
    for c in cands:
        if c not in sel:
            ctx.assume(m[0] < c[0])


def journey(ctx, cfg):
    M, K = len(cfg["n"]), cfg["K"]
    dr, R, route, sim_u = build(ctx, cfg)
    with env.scripted_sampling(dr, labels(M, K)), env.scripted_uniform(sim_u):
        sim = make(cfg, R)
        ref = netref.RefNet(dr, R, cfg["n"], cfg["kind"], cfg["order"], K, route)
        for i, want in enumerate(cfg["events"]):
            force(ctx, ref, want)
            ref.step()
            sim.run_one_step()
            tag = "after event %d" % (i + 1)
            ctx.check_eq(sim.ttek, ref.t, "network clock", tag)
            for k in range(K):
                ctx.check(sim.arrived[k] == ref.arrived[k], "arrived in network", tag)
                ctx.check(sim.served[k] == ref.served[k], "left the network", tag)
                ctx.check(sim.in_sys[k] == ref.in_sys(k), "jobs of class in network", tag)
                inside = 0
                for m in range(M):
                    lk = cfg["order"][m][k]
                    ctx.check(sim.smos[m].in_sys[lk] == ref.nodes[m].in_sys(lk), "jobs of class at node", tag)
                    ctx.check(sim.smos[m].arrived[lk] == ref.nodes[m].arrived[lk], "arrivals of class at node", tag)
                    inside += sim.smos[m].in_sys[lk]
                ctx.check(inside == sim.arrived[k] - sim.served[k], "conservation in network", tag)
        for k in range(K):
            v, w = refs.moments(ref.soj[k]), refs.moments(ref.wait[k])
            for i in range(3):
                ctx.check_eq(sim.v_network[k][i], v[i], "network sojourn moment %d" % (i + 1))
                ctx.check_eq(sim.w_network[k][i], w[i], "network waiting moment %d" % (i + 1))
            for m in range(M):
                lk = cfg["order"][m][k]
                nv = refs.moments(ref.nodes[m].soj[lk])
                for i in range(3):
                    ctx.check_eq(sim.smos[m].v[lk][i], nv[i], "node sojourn moment %d" % (i + 1))
        if sum(ref.served):
            ctx.reach("left the network")
        if ref.moves:
            ctx.reach("moved between nodes")
        if any(n.preemptions for n in ref.nodes):
            ctx.reach("preempted")


TANDEM = [["1", "0", "0"], ["0", "1", "0"], ["0", "0", "1"]]
LOOP = [["1/4", "3/4", "0"], ["0", "1/2", "1/2"], ["1/3", "0", "2/3"]]
SPLIT = [["x", "rest", "0"], ["0", "x", "rest"], ["x", "0", "rest"]]
ONE = [["1", "0"], ["1/2", "1/2"]]


def C(kind, n, R, order, events, K=2):
    return dict(kind=kind, n=n, K=K, R=R, order=order, events=events)


def cfgs(th):
    o = []
    for kd in ("NP", "PR", "No", "RS", "RW"):
        o.append(C([kd] * 2, [1, 1], [TANDEM, TANDEM], [[0, 1], [1, 0]], "01" + "*" * (5 if th else 3)))
        o.append(C([kd], [1], [ONE, ONE], [[1, 0]], "*" * (6 if th else 5)))
    for a, b in (("NP", "PR"), ("PR", "NP")):
        o.append(C([a, b], [1, 2], [LOOP, TANDEM], [[1, 0], [0, 1]], "0" + "*" * (5 if th else 3)))
    o.append(C(["NP", "PR"], [1, 1], [SPLIT, LOOP], [[0, 1], [0, 1]], "*" * (5 if th else 4)))
    for kd in ("NP", "PR"):
        o.append(C([kd] * 2, [1, 1], [TANDEM] * 3, [[1, 2, 0], [2, 0, 1]], "012SSSSSSSS" if th else "012SSSSS", K=3))
        o.append(C([kd] * 2, [1, 1], [TANDEM] * 3, [[2, 0, 1], [0, 1, 2]], "201SSSSSSSS" if th else "201SSSSS", K=3))
    return o


HARNESSES = [Harness("journey", journey, quick=cfgs(False), thorough=cfgs(True), opts={"no_ties": True},
                     bounds="1-2 nodes with 1-2 servers, 2-3 classes, all disciplines, priority permutations incl. 3-cycles, "
                            "4-8 events (thorough 6-11), routing draws and (one configuration) routing probabilities symbolic")]
