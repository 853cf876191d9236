ID = "d03a-erlang-phases"
PROPERTY = "D03"
EDITS = [("most_queue/rand_distribution.py", [("        r = int(math.floor(f[0] * f[0] / (f[1] - f[0] * f[0]) + 0.5))\n        mu = r / f[0]", "        ratio = f[0] * f[0] / (f[1] - f[0] * f[0])\n        r = int(math.floor(ratio + 0.5))\n        mu = ratio / f[0]")])]
NEEDS = "a squared variation coefficient whose inverse is not a whole number"
BREAKS = "the fitted Erlang law does not have the given mean"
TESTS = ["ek_d_n", "gi_m_1_calc"]
DEMO = '''
from script import *
from most_queue.rand_distribution import Erlang_dist
r, mu = Erlang_dist.get_params_by_mean_and_coev(2.0, 0.6)
expect(near(Erlang_dist.calc_theory_moments(r, mu)[0], 2.0), "mean %s" % Erlang_dist.calc_theory_moments(r, mu)[0])
'''
