"""
Reference models written from the definition of the queueing systems (not from
the implementation).  They keep job histories and derive every statistic from
those histories at the end.  Times may be symbolic or floats.
"""


class Job:
    __slots__ = ("id", "arr", "start", "end", "cls", "server", "extra", "dropped")

    def __init__(self, i, arr, cls=0):
        self.id = i
        self.arr = arr
        self.cls = cls
        self.start = None
        self.end = None
        self.server = None
        self.dropped = False
        self.extra = None


def first_min(cands):
    """cands: list of (time, tag); returns the entry with the smallest time"""
    best = cands[0]
    for c in cands[1:]:
        if c[0] < best[0]:
            best = c
    return best


def moments(xs, num=3):
    n = len(xs)
    if n == 0:
        return [0] * num
    out = []
    for k in range(1, num + 1):
        s = 0
        for x in xs:
            t = x
            for _ in range(k - 1):
                t = t * x
            s = s + t
        out.append(s / n)
    return out


class RefQS:
    """GI/G/n/r, FIFO, optional warm-up / cooling / delay before cooling.
    Batches, impatience: see subclasses."""

    def __init__(self, draws, n, buffer=None, warm=False, cold=False, delay=False,
                 A="a", S="s", W="w", C="c", D="d"):
        self.dr = draws
        self.n = n
        self.buffer = buffer
        self.warm, self.cold, self.delay = warm, cold, delay
        self.A, self.S, self.W, self.C, self.D = A, S, W, C, D
        self.cnt = {}
        self.t = 0
        self.jobs = []
        self.queue = []
        self.busy = {}          # job -> end time, in order of start
        self.next_arr = self.draw(A)
        self.phase = None       # None | 'warm' | 'cold' | 'delay'
        self.phase_end = None
        self.phase_start = None
        self.phase_time = {"warm": [], "cold": [], "delay": []}
        self.phase_starts = {"warm": 0, "cold": 0, "delay": 0}
        self.warm_after_cold = 0
        self.dropped = 0
        self.served = 0
        self.time_in_state = {}
        self.busy_start = None
        self.busy_periods = []
        self.zero_wait = 0
        self.waits = []
        self.sojourns = []
        self.log = []

    def draw(self, stem):
        i = self.cnt.get(stem, 0)
        self.cnt[stem] = i + 1
        return self.dr.get(stem, i)

    # -- views
    def in_sys(self):
        return len(self.queue) + len(self.busy)

    def free(self):
        return self.n - len(self.busy)

    # -- dynamics
    def candidates(self):
        c = [(self.next_arr, ("A",))]
        for j, e in self.busy.items():
            c.append((e, ("S", j)))
        if self.phase:
            c.append((self.phase_end, ("P", self.phase)))
        return c

    def peek(self):
        return first_min(self.candidates())

    def advance(self, t):
        k = self.in_sys()
        self.time_in_state.setdefault(k, []).append(t - self.t)
        self.t = t

    def start(self, job):
        job.start = self.t
        self.waits.append(self.t - job.arr)
        self.busy[job] = self.t + self.draw(self.S)
        if len(self.busy) == self.n:
            if self.busy_start is None:
                self.busy_start = self.t

    def start_queue(self):
        while self.queue and len(self.busy) < self.n:
            self.start(self.queue.pop(0))

    def enqueue(self, job):
        if self.buffer is None or len(self.queue) < self.buffer:
            self.queue.append(job)
            return True
        job.dropped = True
        self.dropped += 1
        return False

    def begin_phase(self, ph, stem):
        self.phase = ph
        self.phase_start = self.t
        self.phase_starts[ph] += 1
        self.phase_end = self.t + self.draw(stem)

    def end_phase(self):
        self.phase_time[self.phase].append(self.t - self.phase_start)
        self.phase = None
        self.phase_end = None

    def step(self):
        t, tag = self.peek()
        self.advance(t)
        self.log.append(tag[0])
        if tag[0] == "A":
            self.on_arrival()
        elif tag[0] == "S":
            self.on_service(tag[1])
        else:
            self.on_phase_end(tag[1])
        return tag[0]

    def on_arrival(self):
        self.next_arr = self.t + self.draw(self.A)
        job = Job(len(self.jobs), self.t)
        self.jobs.append(job)
        self.admit(job)

    def admit(self, job):
        if self.free() == 0 or self.phase in ("cold", "warm"):
            self.enqueue(job)
            return
        if self.phase == "delay":
            self.end_phase()        # still warm: cooling is called off
            self.direct(job)
            return
        if self.warm and self.free() == self.n:
            self.begin_phase("warm", self.W)
            self.enqueue(job)
            return
        self.direct(job)

    def direct(self, job):
        self.zero_wait += 1
        self.start(job)

    def on_service(self, job):
        del self.busy[job]
        job.end = self.t
        self.served += 1
        self.sojourns.append(self.t - job.arr)
        if self.queue:
            self.start(self.queue.pop(0))
        if len(self.busy) < self.n and self.busy_start is not None:
            self.busy_periods.append(self.t - self.busy_start)
            self.busy_start = None
        if not self.busy and not self.queue and self.cold:
            if self.delay:
                self.begin_phase("delay", self.D)
            else:
                self.begin_phase("cold", self.C)

    def on_phase_end(self, ph):
        self.end_phase()
        if ph == "delay":
            self.begin_phase("cold", self.C)
        elif ph == "cold":
            if self.queue:
                if self.warm:
                    self.warm_after_cold += 1
                    self.begin_phase("warm", self.W)
                else:
                    self.start_queue()
        elif ph == "warm":
            self.start_queue()


class RefPrio:
    """multi-class GI/G/n/r with priorities (class 0 is the highest).
    kind: No | NP | PR | RS | RW"""

    def __init__(self, draws, n, K, kind, buffer=None, external=False):
        self.dr = draws
        self.n, self.K, self.kind, self.buffer = n, K, kind, buffer
        self.cnt = {}
        self.t = 0
        self.servers = [None] * n           # job
        self.ends = [None] * n
        self.queue = []                     # all waiting jobs
        self.jobs = []
        self.arrived = [0] * K
        self.dropped = [0] * K
        self.served = [0] * K
        self.soj = [[] for _ in range(K)]
        self.wait = [[] for _ in range(K)]
        self.state_time = [dict() for _ in range(K)]
        self.last = [0] * K
        self.preemptions = 0
        self.order = 0
        self.done = []
        if not external:
            self.next_arr = [self.draw("a%d" % k) for k in range(K)]
        else:
            self.next_arr = []

    def draw(self, stem):
        i = self.cnt.get(stem, 0)
        self.cnt[stem] = i + 1
        return self.dr.get(stem, i)

    def in_sys(self, k):
        return sum(1 for j in self.queue if j.cls == k) + sum(1 for j in self.servers if j and j.cls == k)

    def free(self):
        return sum(1 for j in self.servers if j is None)

    def candidates(self):
        c = [(a, ("A", k)) for k, a in enumerate(self.next_arr)]
        busy = [i for i in range(self.n) if self.servers[i]]
        busy.sort(key=lambda i: self.servers[i].extra["order"])
        return c + [(self.ends[i], ("S", i)) for i in busy]

    def peek(self):
        return first_min(self.candidates())

    def tick(self, k, t):
        m = self.in_sys(k)
        self.state_time[k].setdefault(m, []).append(t - self.last[k])
        self.last[k] = t
        self.t = t

    def put(self, job, c, length):
        """start or resume job on server c for `length`"""
        self.order += 1
        job.extra["order"] = self.order
        job.extra["began"] = self.t
        job.extra["len"] = length
        job.extra["wait"] = job.extra["wait"] + (self.t - job.extra["since"])
        self.servers[c] = job
        self.ends[c] = self.t + length

    def step(self):
        t, tag = self.peek()
        if tag[0] == "A":
            k = tag[1]
            self.tick(k, t)
            self.next_arr[k] = t + self.draw("a%d" % k)
            job = Job(len(self.jobs), t, k)
            self.arrive(job)
        else:
            self.depart(tag[1], t)
        return tag[0] if tag[0] == "S" else "A%d" % tag[1]

    def arrive(self, job):
        k = job.cls
        job.extra = {"order": -1, "wait": 0, "since": self.t, "rem": None}
        job.arr = self.t
        self.jobs.append(job)
        self.arrived[k] += 1
        for c in range(self.n):
            if self.servers[c] is None:
                self.put(job, c, self.draw("s%d" % k))
                return
        if self.kind in ("PR", "RS", "RW"):
            worst = max(j.cls for j in self.servers)
            if worst > k:
                c = [i for i in range(self.n) if self.servers[i].cls == worst][0]
                v = self.servers[c]
                if self.kind == "PR":
                    v.extra["rem"] = self.ends[c] - self.t
                elif self.kind == "RW":
                    v.extra["rem"] = v.extra["len"]
                else:
                    v.extra["rem"] = self.draw("s%d" % v.cls)
                v.extra["since"] = self.t
                self.preemptions += 1
                self.queue.append(v)
                self.put(job, c, self.draw("s%d" % k))
                return
        if self.buffer is None or len(self.queue) < self.buffer:
            self.queue.append(job)
        else:
            job.dropped = True
            self.dropped[k] += 1

    def depart(self, c, t):
        job = self.servers[c]
        k = job.cls
        self.tick(k, t)
        self.servers[c] = None
        job.end = t
        self.served[k] += 1
        self.soj[k].append(t - job.arr)
        self.wait[k].append(job.extra["wait"])
        self.done.append(job)
        if self.queue:
            if self.kind == "No":
                nxt = min(self.queue, key=lambda j: j.extra.get("seq", j.id))
            else:
                nxt = min(self.queue, key=lambda j: (j.cls, j.extra.get("seq", j.id)))
            self.queue.remove(nxt)
            ln = nxt.extra["rem"]
            if ln is None:
                ln = self.draw("s%d" % nxt.cls)
            self.put(nxt, c, ln)
        return job


class RefFinite(RefQS):
    """m sources; a source thinks, sends one job, and thinks again when that job leaves
    (served or blocked)"""

    def __init__(self, draws, n, m, buffer=None):
        RefQS.__init__(self, draws, n, buffer)
        # RefQS drew one arrival: it is source 0's first interval
        self.src = [self.next_arr] + [self.draw("a") for _ in range(m - 1)]
        self.next_arr = None

    def candidates(self):
        c = [(x, ("A", i)) for i, x in enumerate(self.src) if x is not None]
        return c + [(e, ("S", j)) for j, e in self.busy.items()]

    def step(self):
        t, tag = self.peek()
        self.advance(t)
        if tag[0] == "A":
            self.src[tag[1]] = None
            job = Job(len(self.jobs), t)
            self.jobs.append(job)
            self.admit(job)
            if job.dropped:
                self.src[tag[1]] = t + self.draw("a")
        else:
            self.src[self.src.index(None)] = t + self.draw("a")
            self.on_service(tag[1])
        return tag[0]

    def on_service(self, job):
        RefQS.on_service(self, job)


class RefBatch(RefQS):
    """every arrival brings a batch; size(i) is the size of the i-th batch"""

    def __init__(self, draws, n, size, buffer=None):
        RefQS.__init__(self, draws, n, buffer)
        self.size = size
        self.batches = 0

    def on_arrival(self):
        self.next_arr = self.t + self.draw(self.A)
        k = self.size(self.batches)
        self.batches += 1
        for _ in range(k):
            job = Job(len(self.jobs), self.t)
            self.jobs.append(job)
            self.admit(job)


class RefImpatient(RefQS):
    """a waiting job leaves the queue when its patience runs out"""

    def __init__(self, draws, n, buffer=None):
        RefQS.__init__(self, draws, n, buffer)
        self.gone = 0

    def on_arrival(self):
        self.next_arr = self.t + self.draw(self.A)
        job = Job(len(self.jobs), self.t)
        job.extra = self.t + self.draw("i")
        self.jobs.append(job)
        self.admit(job)

    def candidates(self):
        return RefQS.candidates(self) + [(j.extra, ("L", j)) for j in self.queue]

    def on_phase_end(self, job):     # patience
        self.queue.remove(job)
        job.end = self.t
        self.gone += 1
        self.dropped += 1
        self.served += 1
        self.waits.append(self.t - job.arr)
        self.sojourns.append(self.t - job.arr)
