"""setup: the interpreter, the solver and the code under test are there"""
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3                                    # noqa: E402
from vlib import env, symx                   # noqa: E402
s = z3.Solver()
x = z3.Real("x")
s.add(x * x == 2, x > 1)
assert s.check() == z3.sat
env.mq("sim.qs_sim")


def f(ctx):
    a = ctx.real("a", 0, 10)
    b = ctx.real("b", 0, 10)
    m = a if a > b else b
    ctx.check(m >= a, "max")
    ctx.check_eq((a + b) * (a + b), a * a + 2 * a * b + b * b, "square")


r = symx.explore(f)
assert r.status == "held", r.status


def g(ctx):
    a = ctx.real("a", 0, 10)
    ctx.check(a * a < 99, "bound")


r = symx.explore(g)
assert r.violation is not None
for d in ("evidence", "out"):
    os.makedirs(os.path.join(ROOT, d), exist_ok=True)
print("ok")
