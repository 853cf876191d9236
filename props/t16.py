"""M/H2/n with warm-up, cooling and delayed start of cooling"""
from vlib import env
from vlib.runner import Harness
from vlib import ttvac
mod = env.mq("theory.mgn_with_h2_delay_cold_warm")
ASSUMPTIONS = ["the two-phase fits are stubbed by arbitrary phases (fit: D03)",
               "convergence of the iteration is not judged: a sweep is shown to keep the exact solution (limited room) or to solve the balance equations of every level but the last given its neighbours (no limit)",
               "numerical differentiation of the transform is stubbed: the transform itself is compared with the first passage times of the chain"]
WITNESSES = ["matrices", "full system", "a sweep", "transform", "moments", "normalised"]
M = ttvac.Model(mod, lambda l, mom, n, **kw: mod.MGnH2ServingColdWarmDelay(l, mom["serv"], mom["warm"], mom["cold"], mom["delay"], n, **kw), ["serv", "warm", "cold", "delay"])
ALL = {"l": "1", "y": "1/4", "m1": "1", "m2": "2", "yd": "3/7", "d1": "2", "d2": "5", "yw": "1/3", "w1": "1", "w2": "3", "yc": "2/5", "c1": "1/2", "c2": "4"}


def no(*ks):
    return {k: v for k, v in ALL.items() if k not in ks}


HARNESSES = [
    Harness("matrices", ttvac.matrices(M), quick=[dict(n=1, N=4), dict(n=2, N=5), dict(n=3, N=6), dict(n=2, N=5, dtype="f8"), dict(n=2, room=1), dict(n=1, room=0)],
            thorough=[dict(n=4, N=7), dict(n=6, N=9), dict(n=2, room=3), dict(n=3, room=0)], bounds="1-3 (thorough 6) servers, all rates and weights"),
    Harness("full", ttvac.full(M), quick=[dict(n=1, room=0, fix=no("l")), dict(n=1, room=1, fix=no("w1")), dict(n=2, room=0, fix=no("c1"))],
            thorough=[dict(n=2, room=1, fix=no("w1")), dict(n=2, room=1, fix=no("d2")), dict(n=3, room=0, fix=no("w1")), dict(n=1, room=2, fix=no("yw")), dict(n=3, room=1, fix=no())], bounds="1-2 (thorough 3) servers, rooms 0-1 (2), one rate free", tol=1e-5),
    Harness("sweep", ttvac.sweep(M), quick=[dict(n=1, N=4, fix=no("l")), dict(n=2, N=5, fix=no("c1")), dict(n=2, N=5, fix=no("m2")), dict(n=2, N=5, fix=no("w1")), dict(n=1, N=4, fix=no(), free=[1, 2])],
            thorough=[dict(n=3, N=6, fix=no("w1")), dict(n=2, N=6, fix=no("d1"))], bounds="1-2 (thorough 3) servers, 4-6 levels, one rate or the probabilities of two levels free", tol=1e-5),
    Harness("transform", ttvac.transform(M), quick=[dict(n=1, N=4, fix=no("l", "m1")), dict(n=1, N=3, fix=no("w1", "w2", "yw")), dict(n=1, N=3, fix=no("c1", "yc")), dict(n=2, N=5, fix=no("l")), dict(n=3, N=5, fix=no("l")), dict(n=2, room=1, fix=no())],
            thorough=[dict(n=2, N=7, fix=no("l")), dict(n=2, N=4, fix=no("c1"))], bounds="1-3 servers, 3-5 (thorough 7) levels, any probabilities, any s; rates partly free", tol=1e-6),
    Harness("moments", ttvac.moments(M), quick=[dict(n=1, N=4, fix=no()), dict(n=2, N=5, fix=no())], bounds="any probabilities, derivatives and service moments", tol=1e-6),
    Harness("normal", ttvac.normal(M), quick=[dict(n=1, N=4, x="1/2 1/3 3", fix=no()), dict(n=1, N=5, x="1/2 2 4/5 1/7", fix=no())], bounds="4-5 levels, fixed ratios but the first (within 1e-6)", tol=1e-5),
]
