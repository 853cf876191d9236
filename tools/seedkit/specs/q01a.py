ID = "q01a-zero-room"
PROPERTY = "Q01"
EDITS = [("most_queue/sim/qs_sim.py", [("        if self.buffer is None:  # queue length is not specified", "        if not self.buffer:  # queue length is not specified")])]
NEEDS = "a pure loss system, i.e. a waiting room of size zero"
BREAKS = "a waiting room of zero is taken for an unlimited one, so nobody is ever blocked"
TESTS = ["qs_sim_test", "mg1_calc"]
DEMO = '''
from script import *
from most_queue.sim.qs_sim import QueueingSystemSimulator
script({0.5: [1, 1, 1], 0.25: [10, 10]})
with quiet():
    s = QueueingSystemSimulator(1, buffer=0)
    s.set_sources(0.5, "M")
    s.set_servers(0.25, "M")
    for _ in range(2):
        s.run_one_step()
expect(s.dropped == 1 and s.queue.size() == 0, "blocked %s, waiting %s" % (s.dropped, s.queue.size()))
'''
