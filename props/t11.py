"""networks: traffic equations, classes per node, sojourn time of the network"""
from fractions import Fraction

import numpy as np

from vlib import env, lst
from vlib.runner import Harness
nc = env.mq("theory.network_calc")
ASSUMPTIONS = ["nodes are priority queues treated apart (the sojourn moments of a node are those of T10, stubbed here with arbitrary values)",
               "every class that enters the network can leave it from every node it visits",
               "transform values of the node sojourn times are arbitrary numbers in (0, 1); the network transform is differentiated numerically (formulas: D05)"]
WITNESSES = ["a node some class never visits", "classes reordered in a node", "no relation between the orders of two nodes"]


def matrix(ctx, rows):
    if ctx.symbolic:
        out = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                out[i, j] = env.lift(x)
        return out
    return np.array([[float(x) for x in r] for r in rows])


def routing(ctx, tag, nodes, zero):
    """zero: set of "ij" entries that are zero; the other entries are unknown, rows sum to one"""
    R = []
    for i in range(nodes + 1):
        row, tot = [], 0
        for j in range(nodes):
            if "%d%d" % (i, j) in zero:
                row.append(0)
            else:
                x = ctx.real("R%s_%d%d" % (tag, i, j), 0, 1)
                ctx.assume(x > 0.01)
                row.append(x)
                tot = tot + x
        ctx.assume(tot <= (1 if i == 0 else 0.95) + (0 if ctx.symbolic else 1e-9))
        row.append(1 - tot)
        R.append(row)
    return R


def traffic(ctx, cfg):
    nodes, zero = cfg["nodes"], cfg.get("zero", "").split()
    L = ctx.real("L", 0, 50)
    R = routing(ctx, "", nodes, zero)
    if cfg.get("from") is not None:      # arrivals enter the network surely
        last = R[0].pop()
        R[0].append(0)
        i = int(cfg["from"])
        R[0][i] = R[0][i] + last
    got = nc.balance_equation(L, matrix(ctx, R))
    ctx.check(len(got) == nodes, "one rate per node")
    for j in range(nodes):
        ctx.check_eq(got[j], L * R[0][j] + sum(got[i] * R[i + 1][j] for i in range(nodes)), "node %d: arrivals are those from outside and from the nodes" % j)
    if any(all("%d%d" % (i, j) in zero for i in range(nodes + 1)) for j in range(nodes)):
        ctx.reach("a node some class never visits")


def solve(A, y):
    """Gaussian elimination without pivoting"""
    n = len(y)
    A = [list(r) + [v] for r, v in zip(A, y)]
    for k in range(n):
        for i in range(k + 1, n):
            f = A[i][k] / A[k][k]
            A[i] = [a - f * c for a, c in zip(A[i], A[k])]
    x = [0] * n
    for k in reversed(range(n)):
        x[k] = (A[k][n] - sum(A[k][j] * x[j] for j in range(k + 1, n))) / A[k][k]
    return x


ROUTES = {      # rows: source, node 0, node 1, ...; columns: node 0, ..., exit
    "tandem": ["1 0 0", "0 1 0", "0 0 1"],
    "loop": ["3/4 1/4 0", "1/4 1/2 1/4", "1/8 1/8 3/4"],
    "split": ["1/3 2/3 0", "0 0 1", "1/2 0 1/2"],
    "only1": ["0 1 0", "0 0 1", "0 1/4 3/4"],
    "three": ["1/2 1/4 1/4 0", "1/8 1/4 1/8 1/2", "0 1/2 0 1/2", "1/4 0 1/4 1/2"],
    "three2": ["1 0 0 0", "0 1/2 1/2 0", "1/4 0 0 3/4", "0 1/3 1/3 1/3"],
    "skip": ["1/2 0 1/2 0", "0 0 3/4 1/4", "0 0 0 1", "1/4 0 0 3/4"],
    "one": ["1 0", "1/3 2/3"],
}


def network(ctx, cfg):
    routes = cfg["routes"]
    K = len(routes)
    Rf = [[[Fraction(x) for x in r.split()] for r in ROUTES[k]] for k in routes]
    M = len(Rf[0]) - 1
    L = [ctx.real("L%d" % k, 0, 10) for k in range(K)]
    b = [[[ctx.real("b%d_%d_%d" % (k, m, j), 0, 50) for j in range(4)] for m in range(M)] for k in range(K)]
    v = [[[ctx.real("v%d_%d_%d" % (m, k, j), 0, 50) for j in range(4)] for k in range(K)] for m in range(M)]
    n = [m + 1 for m in range(M)]
    prty = ["PR" if m % 2 else "NP" for m in range(M)]
    order = cfg["order"]        # order[m][k]: rank of class k in node m
    for m in range(M):
        for k in range(K):
            ctx.assume(v[m][k][1] > v[m][k][0] ** 2)
    lam = []
    for k in range(K):
        A = [[(1 if i == j else 0) - Rf[k][j + 1][i] for j in range(M)] for i in range(M)]
        c = solve(A, [Rf[k][0][i] for i in range(M)])
        lam.append([L[k] * (env.lift(x) if ctx.symbolic else float(x)) for x in c])
    node = []

    def stub(l_, b_, n_, t='NP', num=3):
        m = len(node)
        node.append(m)
        tag = "node %d: " % m
        ctx.check(n_ == n[m], tag + "servers")
        ctx.check(t == prty[m], tag + "kind of priority")
        ctx.check(len(l_) == K, tag + "one rate per class")
        for k in range(K):
            r = order[m][k]
            ctx.check_eq(l_[r], lam[k][m], tag + "rate of class %d at its rank" % k)
            for j in range(min(4, len(b_[r]))):
                ctx.check_eq(b_[r][j], b[k][m][j], tag + "service of class %d at its rank" % k)
        return [list(v[m][order[m].index(r)]) for r in range(K)]

    tab = []

    def pls(mu, al, s):
        for a, c, d, x in tab:
            if lst.same(ctx, a, mu) and lst.same(ctx, c, al) and lst.same(ctx, d, s):
                return x
        x = ctx.real("pls%d" % len(tab), 0, 1)
        tab.append((mu, al, s, x))
        return x

    keep = nc.Gamma.get_pls
    nc.Gamma.get_pls = staticmethod(pls)
    try:
        with env.patched(nc, get_v_prty_invar=stub), lst.captured(ctx, nc) as cap:
            R = [matrix(ctx, [[x for x in r] for r in Rk]) for Rk in Rf]
            res = nc.network_prty_calc(R, b, n, L, prty, order)
    finally:
        nc.Gamma.get_pls = staticmethod(keep)
    ctx.check(len(node) == M, "every node calculated once")
    for m in range(M):
        ctx.check_eq(res["loads"][m] * n[m], sum(lam[k][m] * b[k][m][0] for k in range(K)), "load of node %d" % m)
        for k in range(K):
            for j in range(3):
                ctx.check_eq(res["v_node"][m][k][j], v[m][k][j], "sojourn of class %d in node %d" % (k, m))
    ctx.check(len(cap.calls) == K, "one transform per class")
    for k in range(K):
        f, h, d = cap.calls[k]
        ctx.check(len(f) in (4, 5), "class %d: number of points" % k)
        ctx.check(0 < h <= 0.01, "class %d: step" % k)
        for c, x in enumerate(f, 1):
            s = h * c
            N = []
            for m in range(M):
                v1, v2 = v[m][k][0], v[m][k][1]
                D = v2 - v1 * v1
                N.append(pls(v1 / D, v1 * v1 / D, s))
            # time left when node i is entered: x_i = N_i (T_i + sum Q_ij x_j)
            A = [[(1 if i == j else 0) - N[i] * lift(ctx, Rf[k][i + 1][j]) for j in range(M)] for i in range(M)]
            X = solve(A, [N[i] * lift(ctx, Rf[k][i + 1][M]) for i in range(M)])
            ctx.check_eq(x, sum(lift(ctx, Rf[k][0][i]) * X[i] for i in range(M)), "class %d: transform at point %d" % (k, c))
        ctx.check(len(res["v"][k]) >= 3, "class %d: moments" % k)
        for j in range(3):
            ctx.check_eq(res["v"][k][j], d[j] if j == 1 else -d[j], "class %d: moment %d from the derivatives" % (k, j + 1))
    if any(o != sorted(o) for o in order):
        ctx.reach("classes reordered in a node")
    if any([o.index(i) for i in range(K)] != o for o in order):
        ctx.reach("no relation between the orders of two nodes")


def lift(ctx, x):
    return env.lift(x) if ctx.symbolic else float(x)


HARNESSES = [
    Harness("traffic", traffic,
            quick=[dict(nodes=1), dict(nodes=2), dict(nodes=2, zero="00 10 20"), dict(nodes=2, zero="01 11 21"), dict(nodes=3, zero="11 22 33"),
                   dict(nodes=3, zero="01 11 21 31 12"), dict(nodes=3, zero="00 10 20 30 02 12 22 32"), dict(nodes=4, zero="01 02 10 11 13 20 22 30 32 33 40 42 43"),
                   {"nodes": 2, "from": "0"}, {"nodes": 3, "zero": "01 02 11 31 33", "from": "0"}],
            thorough=[dict(nodes=3), dict(nodes=3, zero="01 11 21 31"),
                      dict(nodes=4, zero="01 11 21 31 41 03 13 23 33 43"), dict(nodes=5, zero="01 02 03 10 11 13 14 20 22 24 30 31 33 40 41 42 44 50 51 53")],
            bounds="1-4 (thorough 5) nodes, every routing with the listed zero entries, the others above 0.01"),
    Harness("network", network,
            quick=[dict(routes=["one", "one"], order=[[1, 0]]), dict(routes=["loop", "tandem"], order=[[0, 1], [1, 0]]),
                   dict(routes=["split", "only1", "loop"], order=[[1, 2, 0], [2, 1, 0]]), dict(routes=["three", "skip"], order=[[1, 0], [0, 1], [1, 0]]),
                   dict(routes=["tandem", "loop", "split"], order=[[2, 0, 1], [1, 2, 0]])],
            thorough=[dict(routes=["three", "three2", "skip"], order=[[1, 2, 0], [2, 0, 1], [0, 2, 1]]),
                      dict(routes=["three2", "three", "three2", "skip"], order=[[1, 2, 3, 0], [2, 0, 1, 3], [3, 1, 0, 2]])],
            bounds="1-3 nodes, 2-3 (thorough 4) classes, listed routings and orders of the classes; any rates, services, sojourn moments"),
]
