"""capture of the numerical differentiation of a Laplace transform"""
import contextlib

from . import env


class Capture:
    def __init__(self):
        self.calls = []         # (points, step, returned derivatives)


@contextlib.contextmanager
def captured(ctx, *mods):
    """diff5dots in the given modules records its arguments and returns three arbitrary values"""
    cap = Capture()

    def stub(f, h):
        i = len(cap.calls)
        d = [ctx.real("deriv%d_%d" % (i, j), -1000, 1000) for j in range(3)]
        cap.calls.append((list(f), h, d))
        return list(d)
    with contextlib.ExitStack() as st:
        for m in mods:
            if hasattr(m, "diff5dots"):
                st.enter_context(env.patched(m, diff5dots=stub))
        yield cap


def check(ctx, cap, i, got, transform, exact, label, npts=(3, 4, 5), maxstep=0.05):
    """got = moments made from call i: the transform was tabulated at 3-5 equidistant points starting
    at zero or one step from it, and got = (-f', f'', -f''').  If nothing was differentiated the
    moments must be exact."""
    if i >= len(cap.calls):
        for k in range(min(len(exact), len(got))):
            ctx.check_eq(got[k], exact[k], "%s moment %d" % (label, k + 1))
        return
    f, h, d = cap.calls[i]
    ctx.check(len(f) in npts, label + ": number of points")
    h_ = float(h) if not ctx.symbolic else h
    ctx.check(h_ > 0, label + ": step")
    ctx.check(h_ <= maxstep, label + ": step")
    # which grid?  the first difference decides between s = 0 and s = h (constants do not matter)
    first = 0
    if not same(ctx, f[1] - f[0], transform(h) - transform(0)):
        first = 1
    t0 = transform(first * h)
    for j in range(1, len(f)):
        ctx.check_eq(f[j] - f[0], transform((j + first) * h) - t0, "%s: transform at point %d" % (label, j))
    for k in range(3):
        ctx.check_eq(got[k], d[k] if k == 1 else -d[k], "%s moment %d from the derivatives" % (label, k + 1))


def same(ctx, a, b):
    if ctx.symbolic:
        d = env.lift(a) - env.lift(b)
        return d.is_const() and d.const() == 0
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
