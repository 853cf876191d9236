ID = "d02a-h2-residual"
PROPERTY = "D02"
EDITS = [("most_queue/rand_distribution.py", [("        res.append(y1 * mu2 / (y1 * mu2 + y2 * mu1))\n        res.append(mu1)\n        res.append(mu2)", "        res.append(y1 * mu1 / (y1 * mu1 + y2 * mu2))\n        res.append(mu1)\n        res.append(mu2)")])]
NEEDS = "a hyperexponential law with two different rates"
BREAKS = "the branch weights of the residual law use the rates instead of the means"
TESTS = ["m_ph_n_prty", "mmn_prty_pnz_approx", "mgn_tt", "mmn3_pnz_cox_approx"]
DEMO = '''
from script import *
from most_queue.rand_distribution import H2_dist
b = H2_dist.calc_theory_moments(0.25, 1.0, 4.0, 4)
r = H2_dist.calc_theory_moments(*H2_dist.get_residual_params([0.25, 1.0, 4.0]))
expect(all(near(r[i], b[i + 1] / (i + 2) / b[0]) for i in range(3)), "residual moments %s" % r)
'''
