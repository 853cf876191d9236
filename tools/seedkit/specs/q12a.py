ID = "q12a-fast-removal"
PROPERTY = "Q12"
EDITS = [("most_queue/sim/impatient_queue_sim.py", [("""        new_queue = []
        for i, tsk in enumerate(self.queue.queue):
            if i != num_of_task_in_queue:
                new_queue.append(tsk)
            else:
                end_ts = self.queue.queue[i]

        self.queue.queue = new_queue
""", """        waiting = self.queue.queue
        end_ts = waiting[num_of_task_in_queue]
        waiting[num_of_task_in_queue] = waiting[-1]
        waiting.pop()
""")])]
NEEDS = "a job leaving from a place of the queue with at least two jobs behind it"
BREAKS = "the last waiting job jumps to the place of the one that left"
TESTS = ["impatience"]
DEMO = '''
from script import *
from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
script({0.5: [1, 1, 1, 1, 100], 0.25: [10, 10, 10], 0.125: [50, 4, 40, 40]})
with quiet():
    s = ImpatientQueueSim(1)
    s.set_sources(0.5, "M")
    s.set_servers(0.25, "M")
    s.set_impatiens(0.125, "M")
    # arrivals at 1..4; the job of moment 2 leaves at 6; service ends at 11 and the job of moment 3 starts
    while s.served < 2:
        s.run_one_step()
expect(near(s.ttek, 11), "time %s" % s.ttek)
expect(near(s.servers[0].tsk_on_service.arr_time, 3), "job of moment %s started" % s.servers[0].tsk_on_service.arr_time)
'''
