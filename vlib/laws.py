"""raw moments of the laws, written independently of the library (all functions return [E x, E x^2, ...])"""
from math import comb, factorial


def expo(mu, n):
    return [factorial(k) / mu ** k for k in range(1, n + 1)]


def mix(ws, ms):
    return [sum(w * m[k] for w, m in zip(ws, ms)) for k in range(len(ms[0]))]


def conv(a, b):
    """moments of the sum of independent variables"""
    n = len(a)
    A, B = [1] + list(a), [1] + list(b)
    return [sum(comb(k, i) * A[i] * B[k - i] for i in range(k + 1)) for k in range(1, n + 1)]


def h2(y, m1, m2, n):
    return mix([y, 1 - y], [expo(m1, n), expo(m2, n)])


def cox(y, m1, m2, n):
    return mix([y, 1 - y], [conv(expo(m1, n), expo(m2, n)), expo(m1, n)])


def erlang(r, mu, n):
    m = expo(mu, n)
    t = m
    for _ in range(r - 1):
        t = conv(t, m)
    return t


def gamma(mu, alpha, n):
    out, t = [], 1
    for k in range(n):
        t = t * (alpha + k) / mu
        out.append(t)
    return out


def uniform(mean, h, n):
    # E (mean + h U)^k with U uniform on (-1, 1): E U^j = 1/(j+1) for even j
    return [sum(comb(k, j) * mean ** (k - j) * h ** j / (j + 1) for j in range(0, k + 1, 2)) for k in range(1, n + 1)]


def pareto(a, k, n):
    return [a * k ** j / (a - j) for j in range(1, n + 1)]


def det(b, n):
    return [b ** k for k in range(1, n + 1)]


def residual(m):
    """moments of the forward recurrence time: one less than given"""
    return [m[k + 1] / ((k + 2) * m[0]) for k in range(len(m) - 1)]
