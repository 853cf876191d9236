"""fork-join / split-join systems from their definition"""
from vlib.refs import first_min


class FJ:
    """each job forks into n subtasks, one per server; it is done when k of them are done
    (k = n for split-join, where a job starts only when the previous one is done)"""

    def __init__(self, dr, n, k, sj=False, purge=False):
        self.dr, self.n, self.k, self.sj, self.purge = dr, n, k, sj, purge
        self.cnt = {}
        self.t = 0
        self.srv = [None] * n       # (job, end)
        self.q = [[] for _ in range(n)]
        self.waiting = []           # split-join: whole jobs
        self.jobs = []
        self.soj = []
        self.time_in_state = {}
        self.next_arr = self.draw("a")
        self.purged = 0

    def draw(self, stem):
        i = self.cnt.get(stem, 0)
        self.cnt[stem] = i + 1
        return self.dr.get(stem, i)

    def in_sys(self):
        return sum(1 for j in self.jobs if j["end"] is None)

    def subtasks(self):
        return (sum(1 for s in self.srv if s) + sum(len(q) for q in self.q) + self.n * len(self.waiting))

    def candidates(self):
        return [(self.next_arr, ("A",))] + [(s[1], ("S", i)) for i, s in enumerate(self.srv) if s]

    def start(self, i, job):
        self.srv[i] = (job, self.t + self.draw("s%d" % i))

    def step(self):
        t, tag = first_min(self.candidates())
        self.time_in_state.setdefault(self.in_sys(), []).append(t - self.t)
        self.t = t
        if tag[0] == "A":
            self.next_arr = t + self.draw("a")
            job = {"arr": t, "done": 0, "end": None}
            self.jobs.append(job)
            if self.sj:
                if any(self.srv):
                    self.waiting.append(job)
                else:
                    for i in range(self.n):
                        self.start(i, job)
            else:
                for i in range(self.n):
                    if self.srv[i]:
                        self.q[i].append(job)
                    else:
                        self.start(i, job)
        else:
            c = tag[1]
            job = self.srv[c][0]
            self.srv[c] = None
            job["done"] += 1
            fin = job["done"] == (self.n if self.sj else self.k)
            if fin:
                job["end"] = t
                self.soj.append(t - job["arr"])
            if self.sj:
                if fin and self.waiting:
                    j = self.waiting.pop(0)
                    for i in range(self.n):
                        self.start(i, j)
            else:
                if fin and self.purge:
                    for i in range(self.n):
                        a = len(self.q[i])
                        self.q[i] = [j for j in self.q[i] if j is not job]
                        self.purged += a - len(self.q[i])
                        if self.srv[i] and self.srv[i][0] is job:
                            self.srv[i] = None
                            self.purged += 1
                for i in range(self.n):
                    if not self.srv[i] and self.q[i]:
                        self.start(i, self.q[i].pop(0))
        return tag[0]


class Delta:
    """a job's k parts become available one after another; fork-join: any free server takes the
    parts first come first served; split-join: only parts of one job are served at a time"""

    def __init__(self, dr, n, k, delay, sj=False):
        self.dr, self.n, self.k, self.sj = dr, n, k, sj
        self.delay = delay          # delay(i) -> after how long part i comes
        self.cnt = {}
        self.t = 0
        self.busy = []              # [job, end]
        self.queue = []             # jobs (one entry per part)
        self.future = []            # (time, job)
        self.jobs = []
        self.soj = []
        self.active = None
        self.time_in_state = {}
        self.next_arr = self.draw("a")

    draw = FJ.draw
    in_sys = FJ.in_sys

    def candidates(self):
        return ([(self.next_arr, ("A",))] + [(b[1], ("S", b)) for b in self.busy] +
                [(f[0], ("F", f)) for f in self.future])

    def start(self, job):
        self.busy.append([job, self.t + self.draw("s")])

    def part(self, job):
        if len(self.busy) < self.n and (not self.sj or self.active in (None, job)):
            self.active = job
            self.start(job)
        else:
            self.queue.append(job)

    def step(self):
        t, tag = first_min(self.candidates())
        self.time_in_state.setdefault(self.in_sys(), []).append(t - self.t)
        self.t = t
        if tag[0] == "A":
            self.next_arr = t + self.draw("a")
            job = {"arr": t, "done": 0, "end": None}
            self.jobs.append(job)
            self.part(job)
            for i in range(1, self.k):
                self.future.append((t + self.delay(i), job))
        elif tag[0] == "F":
            self.future.remove(tag[1])
            self.part(tag[1][1])
        else:
            b = tag[1]
            self.busy.remove(b)
            job = b[0]
            job["done"] += 1
            if job["done"] == self.k:
                job["end"] = t
                self.soj.append(t - job["arr"])
                if self.sj:
                    self.active = self.queue[0] if self.queue else None
            rest = []
            for j in self.queue:
                if len(self.busy) < self.n and (not self.sj or j is self.active):
                    self.start(j)
                else:
                    rest.append(j)
            self.queue = rest
        return tag[0]
