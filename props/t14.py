"""M/H2/n with warm-up, or with another service law of the job that finds the system empty"""
from vlib import env
from vlib.runner import Harness
from vlib import ttvac
mod = env.mq("theory.m_h2_h2warm")
ASSUMPTIONS = ["the two-phase fits are stubbed by arbitrary phases (fit: D03)",
               "convergence of the iteration is not judged: a sweep is shown to keep the exact solution (limited room) or to solve the balance equations of every level but the last given its neighbours (no limit)",
               "numerical differentiation of the transform is stubbed: the transform itself is compared with the first passage times of the chain"]
WITNESSES = ["matrices", "full system", "a sweep", "transform", "moments", "normalised"]


def mk(first):
    def make(l, mom, n, **kw):
        return mod.Mh2h2Warm(l, mom["serv"], mom["warm"], n, is_only_first=first, **kw)
    return ttvac.Model(mod, make, ["serv", "warm"], first=first)


W, F = mk(False), mk(True)
S = {"y": "1/4", "m1": "1/2", "m2": "2"}
WU = {"yw": "1/3", "w1": "1", "w2": "3"}
ALL = dict(S, **WU)


def no(*ks):
    return {k: v for k, v in dict(ALL, l="1").items() if k not in ks}


HARNESSES = [
    Harness("matrices", ttvac.matrices(W), quick=[dict(n=1, N=4), dict(n=2, N=5), dict(n=3, N=6), dict(n=2, N=5, dtype="f8"), dict(n=2, room=1), dict(n=1, room=0)],
            thorough=[dict(n=4, N=7), dict(n=5, N=8), dict(n=2, room=3), dict(n=3, room=0)], bounds="1-3 (thorough 5) servers, all rates and weights"),
    Harness("matrices_first", ttvac.matrices(F), quick=[dict(n=1, N=4), dict(n=2, N=5), dict(n=3, N=6), dict(n=2, room=1), dict(n=1, room=0)],
            thorough=[dict(n=4, N=7), dict(n=5, N=8), dict(n=3, room=0)], bounds="1-3 (thorough 5) servers, all rates and weights"),
    Harness("full", ttvac.full(W), quick=[dict(n=1, room=0, fix=no("l")), dict(n=1, room=1, fix=no("w1")), dict(n=2, room=0, fix=no("m1"))],
            thorough=[dict(n=2, room=1, fix=no("l")), dict(n=1, room=2, fix=no("yw"))], bounds="1-2 servers, rooms 0-1 (thorough 2), one rate free", tol=1e-5),
    Harness("full_first", ttvac.full(F), quick=[dict(n=1, room=0, fix=no("l")), dict(n=1, room=1, fix=no("w1")), dict(n=2, room=0, fix=no("m1"))],
            thorough=[dict(n=2, room=1, fix=no("l"))], bounds="1-2 servers, rooms 0-1, one rate free", tol=1e-5),
    Harness("sweep", ttvac.sweep(W), quick=[dict(n=1, N=4, fix=no("l")), dict(n=2, N=5, fix=no("l")), dict(n=1, N=4, fix=no(), free=[1, 2])],
            thorough=[dict(n=3, N=6, fix=no()), dict(n=2, N=5, fix=no("w1"))], bounds="1-2 (thorough 3) servers, 4-6 levels, one rate or the probabilities of a level free", tol=1e-5),
    Harness("sweep_first", ttvac.sweep(F), quick=[dict(n=1, N=4, fix=no("l")), dict(n=2, N=5, fix=no("l"))],
            thorough=[dict(n=2, N=5, fix=no("w1"))], bounds="1-2 servers, 4-5 levels, one rate free", tol=1e-5),
    Harness("transform", ttvac.transform(W), quick=[dict(n=1, N=4, fix=no("l", "m1", "m2", "y")), dict(n=1, N=3, fix=no("l", "w1", "w2", "yw")), dict(n=2, N=5, fix=no("l")), dict(n=3, N=5, fix=no("l")), dict(n=2, N=4, fix=no("y")), dict(n=2, room=1, fix=no())],
            thorough=[dict(n=2, N=7, fix=no("l")), dict(n=2, N=4, fix=no("m1"))], bounds="1-3 servers, 3-5 (thorough 7) levels, any probabilities, any s; rates partly free", tol=1e-6),
    Harness("moments", ttvac.moments(W), quick=[dict(n=1, N=4, fix=no()), dict(n=2, N=5, fix=no())], bounds="any probabilities, derivatives and service moments", tol=1e-6),
    Harness("moments_first", ttvac.moments(F), quick=[dict(n=1, N=5, fix=no()), dict(n=3, N=7, fix=no()), dict(n=2, room=1, fix=no())], bounds="any probabilities and service moments", tol=1e-6),
    Harness("normal", ttvac.normal(W), quick=[dict(n=1, N=4, x="1/2 1/3 3", fix=no()), dict(n=1, N=5, x="1/2 2 4/5 1/7", fix=no())], bounds="4-5 levels, fixed ratios but the first (within 1e-6)", tol=1e-5),
]
