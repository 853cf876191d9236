ID = "q09a-network-wait"
PROPERTY = "Q09"
T = """                        self.servers[c].start_service(
                            que_ts, self.ttek, is_network=True)
                    else:
                        self.servers[c].start_service(que_ts, self.ttek)

                    self.free_channels -= 1
                    break"""
EDITS = [("most_queue/sim/priority_queue_sim.py", [("                        que_ts.wait_network += self.ttek - que_ts.start_waiting_time\n" + T,
     "                        que_ts.wait_network += que_ts.wait_time\n" + T)])]
NEEDS = "a job that waits in the queue of one node more than once during one visit, i.e. is displaced after having waited"
BREAKS = "its earlier waiting in the node is added a second time to the network waiting time"
TESTS = ["network_im_prty"]
DEMO = '''
from script import *
from most_queue.sim.priority_network import PriorityNetwork
script({0.5: [1, 3], 0.25: [2], 0.125: [2, 1], 0.0625: [10]})
R = np.array([[1.0, 0], [0, 1.0]])
with quiet():
    s = PriorityNetwork(2, [0.5, 0.25], [R, R], [1], ["PR"],
                        [[{"type": "M", "params": 0.125}, {"type": "M", "params": 0.0625}]], [[0, 1]])
    # class 2 waits from 2 to 3 and, displaced, from 4 to 5
    while s.served[1] == 0:
        s.run_one_step()
expect(near(s.ttek, 14), "time %s" % s.ttek)
expect(near(s.w_network[1][0], 2), "network waiting time 2, reported %s" % s.w_network[1][0])
'''
