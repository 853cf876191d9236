"""open multi-class network of priority nodes, from its definition"""
from vlib import refs
from vlib.refs import Job, RefPrio, first_min


class Node(RefPrio):
    """a node; local class = position in the node's priority order"""

    def __init__(self, net, idx, n, K, kind):
        RefPrio.__init__(self, net.dr, n, K, kind, None, external=True)
        self.net, self.idx = net, idx
        self.cnt = net.cnt
        self.real = {}
        for c in range(K):
            self.real[net.order[idx][c]] = c

    def draw(self, stem):
        # only service draws happen inside a node: "s<local class>"
        return self.net.draw("s%d%d" % (self.idx, self.real[int(stem[1:])]))

    def enter(self, cls, owner, t):
        k = self.net.order[self.idx][cls]
        self.tick(k, t)
        j = Job(len(self.jobs), t, k)
        j.owner = owner
        self.arrive(j)


class NJob(Job):
    __slots__ = ("owner",)


Job = NJob


class RefNet:
    def __init__(self, draws, R, n, kinds, order, K, route):
        self.dr, self.R, self.order, self.K = draws, R, order, K
        self.cnt = {}
        self.route = route
        self.nodes = [Node(self, i, n[i], K, kinds[i]) for i in range(len(n))]
        self.next_arr = [self.draw("a%d" % k) for k in range(K)]
        self.t = 0
        self.arrived = [0] * K
        self.served = [0] * K
        self.soj = [[] for _ in range(K)]
        self.wait = [[] for _ in range(K)]
        self.done = 0
        self.moves = 0

    def draw(self, stem):
        i = self.cnt.get(stem, 0)
        self.cnt[stem] = i + 1
        return self.dr.get(stem, i)

    def candidates(self):
        c = [(a, ("A", k)) for k, a in enumerate(self.next_arr)]
        for i, nd in enumerate(self.nodes):
            for s in range(nd.n):
                if nd.servers[s]:
                    c.append((nd.ends[s], ("S", i, s)))
        return c

    def in_sys(self, k):
        return self.arrived[k] - self.served[k]

    def step(self):
        t, tag = first_min(self.candidates())
        self.t = t
        for nd in self.nodes:
            nd.t = t
        if tag[0] == "A":
            k = tag[1]
            self.arrived[k] += 1
            self.next_arr[k] = t + self.draw("a%d" % k)
            owner = {"cls": k, "arr": t, "wait": 0}
            dst = self.route(k, -1)
        else:
            nd = self.nodes[tag[1]]
            j = nd.depart(tag[2], t)
            owner = j.owner
            owner["wait"] = owner["wait"] + j.extra["wait"]
            k = owner["cls"]
            dst = self.route(k, tag[1])
        if dst == len(self.nodes):
            self.served[k] += 1
            self.soj[k].append(t - owner["arr"])
            self.wait[k].append(owner["wait"])
        else:
            if tag[0] == "S":
                self.moves += 1
            self.nodes[dst].enter(k, owner, t)
        return tag[0]
