ID = "q07a-repeat-after-wait"
PROPERTY = "Q07"
EDITS = [("most_queue/sim/priority_queue_sim.py", [("                                dropped_tsk.time_to_end_service = total_time\n",
"                                dropped_tsk.time_to_end_service = time_to_end - dropped_tsk.arr_time\n")])]
NEEDS = "repeat without resampling, and a displaced job that had waited before its service started"
BREAKS = "the job is repeated with its sojourn so far added to the service length"
TESTS = ["qs_sim_prty", "m_ph_n_prty", "mmn3_pnz_cox_approx", "mmn_prty_pnz_approx", "network_im_prty"]
DEMO = '''
from script import *
from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
script({0.5: [1, 3], 0.25: [2], 0.125: [2, 1], 0.0625: [10]})
with quiet():
    s = PriorityQueueSimulator(1, 2, "RW")
    s.set_sources([{"type": "M", "params": 0.5}, {"type": "M", "params": 0.25}])
    s.set_servers([{"type": "M", "params": 0.125}, {"type": "M", "params": 0.0625}])
    # class 2 starts at 3, is displaced during [4, 5], then needs its 10 again
    while s.served[1] == 0:
        s.run_one_step()
expect(near(s.ttek, 15), "class 2 leaves at 15, not %s" % s.ttek)
'''
