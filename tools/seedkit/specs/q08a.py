ID = "q08a-second-preemption"
PROPERTY = "Q08"
EDITS = [("most_queue/sim/priority_queue_sim.py", [("                            dropped_tsk.start_waiting_time = self.ttek\n                            dropped_tsk.is_pr = True\n", """                            if not dropped_tsk.is_pr:
                                dropped_tsk.start_waiting_time = self.ttek
                                dropped_tsk.is_pr = True
""")])]
NEEDS = "a job displaced twice"
BREAKS = "the second stay in the queue is counted from the first displacement"
TESTS = ["qs_sim_prty", "m_ph_n_prty", "mmn3_pnz_cox_approx", "mmn_prty_pnz_approx", "network_im_prty"]
DEMO = '''
from script import *
from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
script({0.5: [2, 3], 0.25: [1], 0.125: [1, 1], 0.0625: [10]})
with quiet():
    s = PriorityQueueSimulator(1, 2, "PR")
    s.set_sources([{"type": "M", "params": 0.5}, {"type": "M", "params": 0.25}])
    s.set_servers([{"type": "M", "params": 0.125}, {"type": "M", "params": 0.0625}])
    # class 2 arrives at 1; class 1 at 2 and 5, one unit of service each: displaced during [2,3] and [5,6]
    while s.served[1] == 0:
        s.run_one_step()
expect(near(s.ttek, 13), "time %s" % s.ttek)
expect(near(s.w[1][0], 2), "mean waiting time 2, reported %s" % s.w[1][0])
'''
