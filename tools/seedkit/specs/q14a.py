ID = "q14a-delay-convolution"
PROPERTY = "Q14"
EDITS = [("most_queue/sim/fj_delta_sim.py", [("                    b_delta = get_self_conv_moments(self.delta, i)", "                    b_delta = get_self_conv_moments(\n                        self.delta, min(i, len(self.delta) - 1))")])]
NEEDS = "random delays given by three moments and jobs of four or more parts"
BREAKS = "the fourth part has the delay law of the third"
TESTS = ["fj_delta"]
DEMO = '''
from script import *
import most_queue.sim.fj_delta_sim as m
seen = []
m.Gamma.generate_static = staticmethod(lambda mu, alpha, generator=None: (seen.append((mu, alpha)), alpha / mu)[1])
script({0.5: [1, 100], 0.25: [10, 10, 10]})
with quiet():
    s = m.ForkJoinSimDelta(3, 4, [2.0, 6.0, 30.0], False)
    s.set_sources(0.5, "M")
    s.set_servers(0.25, "M")
    s.run_one_step()
means = [a / mu for mu, a in seen]
expect(len(means) == 3 and all(near(x, 2 * i + 2) for i, x in enumerate(means)), "mean delays %s" % means)
'''
