ID = "q02a-buffered-wait"
PROPERTY = "Q02"
EDITS = [("most_queue/sim/qs_sim.py", [("""            if self.queue.size() < self.buffer:
                new_tsk = Task(self.ttek)
                new_tsk.start_waiting_time = self.ttek
                self.queue.append(new_tsk)
            else:
                self.dropped += 1
                self.in_sys -= 1

    def arrival(self):""", """            if self.queue.size() < self.buffer:
                new_tsk = Task(self.ttek)
                if self.queue.size() == 0 or self.free_channels == 0:
                    new_tsk.start_waiting_time = self.ttek
                self.queue.append(new_tsk)
            else:
                self.dropped += 1
                self.in_sys -= 1

    def arrival(self):""")])]
NEEDS = "a limited waiting room together with a warm-up (or cooling), and a second job queued while servers are free but not ready"
BREAKS = "the waiting time of that job is counted from time zero instead of from its arrival"
TESTS = ["qs_sim_test", "mmn_h2cold_h2warm"]
DEMO = '''
from script import *
from most_queue.sim.qs_sim import QueueingSystemSimulator
script({0.5: [1, 1], 0.25: [1, 1], 0.125: [5]})
with quiet():
    s = QueueingSystemSimulator(2, buffer=3)
    s.set_warm(0.125, "M")
    s.set_sources(0.5, "M")
    s.set_servers(0.25, "M")
    # arrivals at 1 and 2, warm-up until 6
    for _ in range(3):
        s.run_one_step()
expect(near(s.ttek, 6), "time %s" % s.ttek)
expect(near(s.w[0], 4.5), "mean waiting time (5+4)/2, reported %s" % s.w[0])
'''
