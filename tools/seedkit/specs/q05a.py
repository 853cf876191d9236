ID = "q05a-cooling-fill"
PROPERTY = "Q05"
EDITS = [("most_queue/sim/qs_sim.py", [("""            # Send n jobs from the queue to the channels
            for i in range(self.n):
                if self.queue.size() != 0:
                    self.send_head_of_queue_to_channel(i)

    def on_end_cold_delay""", """            # Send n jobs from the queue to the channels
            for i in range(self.n):
                if self.queue.size() > i:
                    self.send_head_of_queue_to_channel(i)

    def on_end_cold_delay""")])]
NEEDS = "cooling without warm-up, at least two servers, and at least two jobs arriving while the system cools"
BREAKS = "only about half of the jobs waiting at the end of cooling are started; the others wait although servers are free"
TESTS = ["qs_sim_test", "mmn_h2cold_h2warm", "mgn_with_h2_delay_cold_warm"]
DEMO = '''
from script import *
from most_queue.sim.qs_sim import QueueingSystemSimulator
script({0.5: [1, 2, 0.5], 0.25: [1, 10, 10, 10], 0.125: [5]})
with quiet():
    s = QueueingSystemSimulator(2)
    s.set_cold(0.125, "M")
    s.set_sources(0.5, "M")
    s.set_servers(0.25, "M")
    # arrival at 1, served until 2, cooling until 7, arrivals at 3 and 3.5
    for _ in range(5):
        s.run_one_step()
expect(near(s.ttek, 7), "time %s" % s.ttek)
expect(s.free_channels == 0, "both servers take the two waiting jobs when cooling ends, %d left free" % s.free_channels)
'''
