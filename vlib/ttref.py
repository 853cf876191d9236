"""level-structured Markov chains: reference rates, exact stationary laws"""
from fractions import Fraction

from . import env


def lift(ctx, x):
    if not ctx.symbolic:
        return complex(x) if isinstance(x, complex) else float(x)
    return env.lift(x) if not isinstance(x, (env.Sym, env.SymC)) else x


class Chain:
    """states(level) -> list of micro states; rates(level, state) -> [(level', state', rate)]"""

    def __init__(self, states, rates):
        self.states, self.rates = states, rates

    def block(self, i, k):
        """rates between different states of level i and level k, and total outflow of level i"""
        S, T = self.states(i), self.states(k)
        M = [[0] * len(T) for _ in S]
        out = [0] * len(S)
        for a, s in enumerate(S):
            for lv, t, r in self.rates(i, s):
                if lv == i and t == s:
                    continue
                out[a] = out[a] + r
                if lv == k:
                    M[a][T.index(t)] = M[a][T.index(t)] + r
        return M, out

    def stationary(self, levels, zero=None):
        """exact solution of the balance equations of levels 0..levels-1 (rates to higher levels are absent)"""
        ix = [(i, s) for i in range(levels) for s in self.states(i)]
        pos = {x: k for k, x in enumerate(ix)}
        n = len(ix)
        A = [[0] * n for _ in range(n)]
        for k, (i, s) in enumerate(ix):
            for lv, t, r in self.rates(i, s):
                if (lv, t) == (i, s):
                    continue
                A[pos[(lv, t)]][k] = A[pos[(lv, t)]][k] + r
                A[k][k] = A[k][k] - r
        # state 0 has weight one; eliminate from the last state down (no pivoting: weakly dominant columns)
        for k in range(n - 1, 0, -1):
            for i in range(k):
                if isinstance(A[i][k], int) and A[i][k] == 0:
                    continue
                f = A[i][k] / A[k][k]
                for j in range(k):
                    if not (isinstance(A[k][j], int) and A[k][j] == 0):
                        A[i][j] = A[i][j] - f * A[k][j]
        x = [1] + [0] * (n - 1)
        for k in range(1, n):
            x[k] = -sum((A[k][j] * x[j] for j in range(k) if not (isinstance(A[k][j], int) and A[k][j] == 0)), 0) / A[k][k]
        return [[x[pos[(i, s)]] for s in self.states(i)] for i in range(levels)]


def same_matrix(ctx, got, want, label):
    ctx.check(tuple(got.shape) == (len(want), len(want[0])), label + ": size")
    for i, r in enumerate(want):
        for j, x in enumerate(r):
            ctx.check_eq(got[i, j], x, "%s: entry %d,%d" % (label, i, j))


def params(ctx, cfg, names, lo=0, hi=10):
    """named positive parameters: fixed to cfg['fix'][name] or unknown"""
    out = []
    for nm in names:
        f = cfg.get("fix", {}).get(nm)
        out.append(lift(ctx, Fraction(f)) if f is not None else ctx.real(nm, lo, 1 if nm[0] == "y" else hi))
    return out


def blocks(ctx, chain, A, B, C, D, levels, label="", last=None):
    """level blocks of a calculation against the chain: A up, B down, C within, D outflow"""
    for i in range(levels):
        S = len(chain.states(i))
        M, out = chain.block(i, i)
        same_matrix(ctx, C[i], M, "%srates within level %d" % (label, i))
        if i + 1 < levels:
            same_matrix(ctx, A[i], chain.block(i, i + 1)[0], "%srates up from level %d" % (label, i))
        if i:
            same_matrix(ctx, B[i], chain.block(i, i - 1)[0], "%srates down from level %d" % (label, i))
        same_matrix(ctx, D[i], [[out[a] if a == b else 0 for b in range(S)] for a in range(S)], "%soutflow of level %d" % (label, i))


def row(ctx, xs):
    import numpy as np
    if ctx.symbolic:
        a = np.empty((1, len(xs)), dtype=object)
        for i, x in enumerate(xs):
            a[0, i] = lift(ctx, x)
        return a
    return np.array([xs], dtype=complex)


def mhn(ctx, n, l, y, mu, room=None, lim=None):
    """M/H2/n(/n+room): micro state = number of busy servers in the second phase"""
    y = [y, 1 - y]

    def states(i):
        return list(range(min(i, n) + 1))

    def rates(i, j):
        r = []
        if room is None or i < n + room:
            if i < n:
                r += [(i + 1, j, l * y[0]), (i + 1, j + 1, l * y[1])]
            else:
                r.append((i + 1, j, l))
        a = min(i, n) - j
        if i <= n:
            if a:
                r.append((i - 1, j, a * mu[0]))
            if j:
                r.append((i - 1, j - 1, j * mu[1]))
        else:
            if a:
                r += [(i - 1, j, a * mu[0] * y[0]), (i - 1, j + 1, a * mu[0] * y[1])]
            if j:
                r += [(i - 1, j, j * mu[1] * y[1]), (i - 1, j - 1, j * mu[1] * y[0])]
        return r
    return Chain(states, rates)


def vac(ctx, n, l, serv, warm=None, cold=None, delay=None, room=None, first=False):
    """M/G/n whose idle system warms up for the first job (or serves it by another law: first=True), cools down
    after the last one, and starts to cool only after a delay.  Every law is a list of (weight, rate) phases.
    Micro states: number of busy servers in the second phase, ('w',k), ('c',k), ('d',k), ('f',k,j), 'e' (idle)."""
    two = len(serv) > 1

    def normal(b):
        return list(range(b + 1)) if two else [0]

    def states(i):
        if i == 0:
            return ["e"] + [("d", k) for k in range(len(delay or []))] + [("c", k) for k in range(len(cold or []))]
        b = min(i, n)
        if first:
            return [("f", k, j) for k in range(len(warm)) for j in normal(b - 1)] + normal(b)
        return [("w", k) for k in range(len(warm))] + normal(b) + [("c", k) for k in range(len(cold or []))]

    def begin(i, j, mk=lambda j: j):
        """a service begins (law of its phase), j in phase 2 already"""
        if not two:
            return [(i, mk(0), 1)]
        return [(i, mk(j), serv[0][0]), (i, mk(j + 1), serv[1][0])]

    def last():
        if delay:
            return [(0, ("d", k), w) for k, (w, _) in enumerate(delay)]
        if cold:
            return [(0, ("c", k), w) for k, (w, _) in enumerate(cold)]
        return [(0, "e", 1)]

    def serving(i, b, j, mk=lambda j: j):
        """departures of b jobs in normal service, j of them in phase 2; i jobs in all, waiting ones take over"""
        r = []
        for left, jj, rate in ([(b - j, j, serv[0][1]), (j, j - 1, serv[1][1])] if two else [(b, 0, serv[0][1])]):
            if not left:
                continue
            if i > n:
                nxt = begin(i - 1, jj, mk)
            elif i == 1:
                nxt = last()
            else:
                nxt = [(i - 1, mk(jj), 1)]
            r += [(lv, s, p * (left * rate)) for lv, s, p in nxt]
        return r

    def rates(i, s):
        import math
        r = []
        up = room is None or i < n + room
        tag = s if isinstance(s, str) else s[0] if isinstance(s, tuple) else "n"
        if tag == "e":
            if up:
                r += [(1, ("f", k, 0) if first else ("w", k), l * w) for k, (w, _) in enumerate(warm)]
        elif tag == "d":
            if up:
                r += [(lv, t, p * l) for lv, t, p in begin(1, 0)]
            r += [(0, ("c", k), delay[s[1]][1] * w) for k, (w, _) in enumerate(cold)]
        elif tag == "c":
            if up:
                r.append((i + 1, s, l))
            m = cold[s[1]][1]
            r += [(0, "e", m)] if i == 0 else [(i, ("w", k), m * w) for k, (w, _) in enumerate(warm)]
        elif tag == "w":
            if up:
                r.append((i + 1, s, l))
            m = warm[s[1]][1]
            b = min(i, n)
            if two:
                r += [(i, j, m * (math.comb(b, j) * serv[0][0] ** (b - j) * serv[1][0] ** j)) for j in range(b + 1)]
            else:
                r.append((i, 0, m))
        elif tag == "f":
            k, j = s[1:]
            mk = lambda j: ("f", k, j)
            if up:
                r += [(lv, t, p * l) for lv, t, p in begin(i + 1, j, mk)] if i < n else [(i + 1, s, l)]
            m = warm[k][1]
            if i == 1:
                r += [(lv, t, p * m) for lv, t, p in last()]
            elif i <= n:
                r.append((i - 1, j, m))
            else:
                r += [(lv, t, p * m) for lv, t, p in begin(i - 1, j)]
            r += serving(i, min(i, n) - 1, j, mk)
        else:
            if up:
                r += [(lv, t, p * l) for lv, t, p in begin(i + 1, s)] if i < n else [(i + 1, s, l)]
            r += serving(i, min(i, n), s)
        return r
    ch = Chain(states, rates)
    ch.n = n
    return ch


def wait_lst(ctx, n, l, Y, s, **model):
    """transform at s of the waiting time of a job that arrives to the law Y (levels of micro state
    probabilities; states of vac) and goes behind all present: first passage without later arrivals"""
    ch = vac(ctx, n, l, **dict(model, room=None))
    dead = vac(ctx, n, 0, **dict(model, room=-n))       # no arrivals
    memo = {}

    def h(i, st):
        if isinstance(st, int) and i <= n:
            return 1
        if (i, st) not in memo:
            tot, acc = s, 0
            for lv, t, r in dead.rates(i, st):
                if (lv, t) == (i, st):
                    acc = acc + r * 0
                    raise AssertionError("self loop")
                tot = tot + r
                acc = acc + r * h(lv, t)
            memo[i, st] = acc / tot
        return memo[i, st]
    w = 0
    for i, row_ in enumerate(Y):
        for st, y in zip(ch.states(i), row_):
            if isinstance(y, int) and y == 0:
                continue
            for lv, t, r in ch.rates(i, st):
                if lv == i + 1:
                    w = w + y * (r / l) * h(lv, t)
    return w
