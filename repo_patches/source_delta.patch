From 10a3b75107a367e8ccb6daaa83fbd14d97fd62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:23 +0000
Subject: [PATCH 01/38] fix: keep the start of the busy period when a queued
 job takes over the released channel

---
 most_queue/sim/qs_sim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index 12e3f1c..7badb06 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -324,15 +324,17 @@ class QueueingSystemSimulator:
                     self.cold_phase.start(self.ttek)
 
         if self.queue.size() != 0:
-            self.send_head_of_queue_to_channel(c)
+            self.send_head_of_queue_to_channel(c, is_busy_period_continues=True)
 
-    def send_head_of_queue_to_channel(self, channel_num):
+    def send_head_of_queue_to_channel(self, channel_num, is_busy_period_continues=False):
         """
         Send first Task (head of queue) to Channel
+        is_busy_period_continues - the channel has just been released by another job,
+        so the busy period goes on, it does not start now
         """
         que_ts = self.queue.pop()
 
-        if self.free_channels == 1:
+        if self.free_channels == 1 and not is_busy_period_continues:
             self.start_ppnz = self.ttek
 
         self.taked += 1
-- 
2.43.0


From cb4a03ad6b91afb58c50dce81453de1c78073376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 02/38] fix: FIFO (no priority) discipline of the priority
 simulator crashed on the first departure

---
 most_queue/sim/priority_queue_sim.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 3ded2e1..077f57d 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -441,7 +441,9 @@ class PriorityQueueSimulator:
         self.refresh_w_stat(k, end_ts.wait_time)
         self.in_sys[k] -= 1
 
-        if len(self.queue[k]) == 0 and self.free_channels == 1:
+        class_queue = self.queue if self.prty_type == "No" else self.queue[k]
+
+        if len(class_queue) == 0 and self.free_channels == 1:
             if self.in_sys[k] == self.n - 1 and self.class_ppnz_started != -1:
                 # Конец ПНЗ
                 self.ppnz_moments[k] += 1
@@ -479,14 +481,20 @@ class PriorityQueueSimulator:
             if len(self.queue) != 0:
 
                 que_ts = self.queue.pop(0)
+                kk = que_ts.in_node_class_num if is_network else que_ts.k
 
-                if self.free_channels == 1 and k != end_ts.k:
-                    self.start_ppnz[k] = self.ttek
-                    self.class_ppnz_started = k
+                if self.free_channels == 1 and kk != k:
+                    self.start_ppnz = self.ttek
+                    self.class_ppnz_started = kk
 
-                self.taked[k] += 1
+                self.taked[kk] += 1
                 que_ts.wait_time += self.ttek - que_ts.start_waiting_time
-                self.servers[c].start_service(que_ts, self.ttek)
+                if is_network:
+                    que_ts.wait_network += self.ttek - que_ts.start_waiting_time
+                    self.servers[c].start_service(
+                        que_ts, self.ttek, is_network=True)
+                else:
+                    self.servers[c].start_service(que_ts, self.ttek)
                 self.free_channels -= 1
         if is_network:
             return end_ts
-- 
2.43.0


From 9f151f2bf5a7acaf8af21fcf70aad75f1d582b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 03/38] fix: preemptive repeat with resampling draws from the
 preempted job's own class

---
 most_queue/sim/priority_queue_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 077f57d..48c3af8 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -353,7 +353,7 @@ class PriorityQueueSimulator:
                             if self.prty_type == 'PR':
                                 dropped_tsk.time_to_end_service = time_to_end - self.ttek
                             elif self.prty_type == "RS":
-                                dropped_tsk.time_to_end_service = c.dist[k].generate(
+                                dropped_tsk.time_to_end_service = c.dist[class_on_service].generate(
                                 )
                             elif self.prty_type == "RW":
                                 dropped_tsk.time_to_end_service = total_time
-- 
2.43.0


From 0640135ea26de39835a173fda405ed0c2e8fcfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 04/38] fix: repeat without resampling keeps the service length
 across repeated preemptions

---
 most_queue/sim/priority_queue_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 48c3af8..f25d310 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -764,7 +764,8 @@ class Server:
             self.tsk_on_service.time_to_end_service = self.time_to_end_service
         else:
             if ts.is_pr:
-                self.time_to_end_service = ttek + ts.time_to_end_service
+                self.total_time_to_serve = ts.time_to_end_service
+                self.time_to_end_service = ttek + self.total_time_to_serve
                 self.tsk_on_service.time_to_end_service = self.time_to_end_service
             else:
                 self.total_time_to_serve = self.dist[self.class_on_service].generate(
-- 
2.43.0


From 848fd70892f6e78707b86eeabbb27261fb78902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:59 +0000
Subject: [PATCH 05/38] fix: the priority simulator honours the buffer limit,
 zero included, under every discipline

---
 most_queue/sim/priority_queue_sim.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index f25d310..78252ac 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -310,7 +310,7 @@ class PriorityQueueSimulator:
 
             if self.prty_type == 'No':
 
-                if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
@@ -370,7 +370,7 @@ class PriorityQueueSimulator:
 
                             break
                     if not is_found_weekier:
-                        if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                        if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                             new_tsk.start_waiting_time = self.ttek
                             self.queue[k].append(new_tsk)
                         else:
@@ -387,8 +387,16 @@ class PriorityQueueSimulator:
 
             elif self.prty_type == "NP":
                 if self.free_channels == 0:
-                    new_tsk.start_waiting_time = self.ttek
-                    self.queue[k].append(new_tsk)
+                    total_queue_length = 0
+                    for q in self.queue:
+                        total_queue_length += len(q)
+
+                    if self.buffer is None or total_queue_length < self.buffer:
+                        new_tsk.start_waiting_time = self.ttek
+                        self.queue[k].append(new_tsk)
+                    else:
+                        self.dropped[k] += 1
+                        self.in_sys[k] -= 1
 
         else:  # there are free channels:
             if self.free_channels == self.n and self.is_warm_up_set == True:
-- 
2.43.0


From ca7eb8e225ecc6a4fa9e11d5bea8594d479912c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:59 +0000
Subject: [PATCH 06/38] fix: a preempting arrival interrupts the job of the
 lowest class in service

---
 most_queue/sim/priority_queue_sim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 78252ac..49a4561 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -326,14 +326,16 @@ class PriorityQueueSimulator:
 
                 if self.free_channels == 0:
                     # смотрим, есть ли на обслуживании заявки младшего класса
+                    # прерывается заявка самого младшего класса
                     is_found_weekier = False
+                    weakest_class = max(s.class_on_service for s in self.servers)
                     for c in self.servers:
                         if moment:
                             class_on_service = c.tsk_on_service.in_node_class_num
                         else:
                             class_on_service = c.tsk_on_service.k
 
-                        if class_on_service > k:
+                        if class_on_service > k and class_on_service == weakest_class:
                             time_to_end = c.time_to_end_service
                             total_time = c.total_time_to_serve
 
-- 
2.43.0


From 045fdfaafe209c28f2f006a5b85e147e0289e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:59 +0000
Subject: [PATCH 07/38] fix: a preempted job keeps its first-come-first-served
 place within its class

---
 most_queue/sim/priority_queue_sim.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 49a4561..31401af 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -361,13 +361,17 @@ class PriorityQueueSimulator:
                                 dropped_tsk.time_to_end_service = total_time
 
                             is_found_weekier = True
+                            # прерванная заявка возвращается на свое место в очереди класса
+                            class_queue = self.queue[class_on_service]
+                            place = 0
+                            while place < len(class_queue) and \
+                                    class_queue[place].arr_time < dropped_tsk.arr_time:
+                                place += 1
+                            class_queue.insert(place, dropped_tsk)
                             if moment:
-                                self.queue[dropped_tsk.in_node_class_num].append(
-                                    dropped_tsk)
                                 c.start_service(
                                     new_tsk, self.ttek, is_network=True)
                             else:
-                                self.queue[dropped_tsk.k].append(dropped_tsk)
                                 c.start_service(new_tsk, self.ttek)
 
                             break
-- 
2.43.0


From e04fe9cec6cc9fe4f242b30e691b15c5ce4add15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 08/38] fix: a network node serves each class with the
 parameters given for that class under any priority permutation

---
 most_queue/sim/priority_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 891cace..572bd3b 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -36,10 +36,10 @@ class PriorityNetwork:
 
         for m in range(self.n_num):
             self.smos.append(PriorityQueueSimulator(n[m], k_num, prty[m]))
-            param_serv_reset = []  # из-за смены порядка приоритетов в узле
+            param_serv_reset = [None] * k_num  # из-за смены порядка приоритетов в узле
             # для расчета необходимо преобразовать список с параметрами вр обслуживания в узле
             for k in range(k_num):
-                param_serv_reset.append(serv_params[m][nodes_prty[m][k]])
+                param_serv_reset[nodes_prty[m][k]] = serv_params[m][k]
 
             self.smos[m].set_servers(param_serv_reset)
             time.sleep(0.1)
-- 
2.43.0


From d78ac3b9740e859aeeee7b2b72e808a660199917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 09/38] fix: finite-source simulator: crash on any queue,
 sources lost on blocking, mis-weighted waiting moments, busy-period start

---
 most_queue/sim/queue_finite_source_sim.py | 36 +++++++----------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 5fa2e16..38fbc4a 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -77,32 +77,26 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
                 new_tsk.start_waiting_time = self.ttek
                 self.queue.append(new_tsk)
             else:
-                if len(self.queue) < self.buffer:
+                if self.queue.size() < self.buffer:
                     new_tsk = Task(self.ttek)
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
+                    # заявка потеряна, источник начинает новый интервал
                     self.dropped += 1
                     self.in_sys -= 1
+                    self.sources_left += 1
+                    self.arrival_times[self.arrived_num] = self.ttek + \
+                        self.source.generate()
 
         else:  # there are free channels:
 
             # check if its a warm phase:
             is_warm_start = False
-            if len(self.queue) == 0 and self.free_channels == self.n and self.warm_phase.is_set:
+            if self.queue.size() == 0 and self.free_channels == self.n and self.warm_phase.is_set:
                 is_warm_start = True
 
-            for s in self.servers:
-                if s.is_free:
-                    self.taked += 1
-                    s.start_service(Task(self.ttek), self.ttek, is_warm_start)
-                    self.free_channels -= 1
-
-                    # Проверям, не наступил ли ПНЗ:
-                    if self.free_channels == 0:
-                        if self.in_sys == self.n:
-                            self.start_ppnz = self.ttek
-                    break
+            self.send_task_to_channel(is_warm_start)
 
     def serving(self, c):
         """
@@ -128,26 +122,16 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.total += 1
         self.free_channels += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
-        self.refresh_w_stat(end_ts.wait_time)
         self.in_sys -= 1
 
-        if len(self.queue) == 0 and self.free_channels == 1:
+        if self.queue.size() == 0 and self.free_channels == 1:
             if self.in_sys == self.n - 1:
                 # Конец ПНЗ
                 self.ppnz_moments += 1
                 self.refresh_ppnz_stat(self.ttek - self.start_ppnz)
 
-        if len(self.queue) != 0:
-
-            que_ts = self.queue.pop()
-
-            if self.free_channels == 1:
-                self.start_ppnz = self.ttek
-
-            self.taked += 1
-            que_ts.wait_time += self.ttek - que_ts.start_waiting_time
-            self.servers[c].start_service(que_ts, self.ttek)
-            self.free_channels -= 1
+        if self.queue.size() != 0:
+            self.send_head_of_queue_to_channel(c, is_busy_period_continues=True)
 
     def calc_next_event_time(self):
 
-- 
2.43.0


From 50407e4d9d1eb0fe995dacb83af45eedfe766f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 10/38] fix: batch simulator: state probabilities, buffered
 crash and waiting moments of jobs served at once

---
 most_queue/sim/batch_sim.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index ff7ceb4..8848361 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -47,6 +47,8 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 batch_size = i + 1
                 break
 
+        self.p[self.in_sys] += self.arrival_time - self.t_old
+
         self.ttek = self.arrival_time
         self.t_old = self.ttek
 
@@ -54,8 +56,6 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
 
         for tsk in range(batch_size):
             self.arrived += 1
-            self.p[self.in_sys] += self.arrival_time - self.t_old
-
             self.in_sys += 1
 
             if self.free_channels == 0:
@@ -64,7 +64,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
-                    if len(self.queue) < self.buffer:
+                    if self.queue.size() < self.buffer:
                         new_tsk = Task(self.ttek)
                         new_tsk.start_waiting_time = self.ttek
                         self.queue.append(new_tsk)
@@ -79,15 +79,4 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 if self.queue.size() == 0 and self.free_channels == self.n and self.warm_phase.is_set:
                     is_warm_start = True
 
-                for s in self.servers:
-                    if s.is_free:
-                        self.taked += 1
-                        s.start_service(Task(self.ttek),
-                                        self.ttek, is_warm_start)
-                        self.free_channels -= 1
-
-                        # Проверям, не наступил ли ПНЗ:
-                        if self.free_channels == 0:
-                            if self.in_sys == self.n:
-                                self.start_ppnz = self.ttek
-                        break
+                self.send_task_to_channel(is_warm_start)
-- 
2.43.0


From ebdcd5e434fc11560036b0aee1676d2dca6037da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 11/38] fix: impatient simulator: state probabilities at
 abandonments and weights of the waiting moments

---
 most_queue/sim/impatient_queue_sim.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index a92bc61..940fd71 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -1,5 +1,6 @@
 from most_queue.sim.utils.distribution_utils import create_distribution
 from most_queue.sim.qs_sim import QueueingSystemSimulator, Task
+from most_queue.sim.utils.stats_update import refresh_moments_stat
 
 
 class ImpatientTask(Task):
@@ -20,6 +21,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
         
         self.impatience = None
         self.is_set_impatience_params = False
+        self.abandoned = 0  # number of jobs that left the queue without service
 
     def set_impatiens(self, params, types):
         """
@@ -80,6 +82,8 @@ class ImpatientQueueSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
+                    self.zero_wait_arrivals_num += 1
                     s.start_service(ImpatientTask(
                         self.ttek, moment_to_leave), self.ttek, is_warm_start)
                     self.free_channels -= 1
@@ -91,7 +95,9 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                     break
 
     def drop_task(self, num_of_task_in_queue, moment_to_leave_earlier):
+        self.p[self.in_sys] += moment_to_leave_earlier - self.t_old
         self.ttek = moment_to_leave_earlier
+        self.t_old = self.ttek
         new_queue = []
         for i, tsk in enumerate(self.queue.queue):
             if i != num_of_task_in_queue:
@@ -103,10 +109,17 @@ class ImpatientQueueSim(QueueingSystemSimulator):
         self.in_sys -= 1
         self.dropped += 1
         self.served += 1
+        self.abandoned += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
         end_ts.wait_time = self.ttek - end_ts.arr_time
         self.refresh_w_stat(end_ts.wait_time)
 
+    def refresh_w_stat(self, new_a):
+        """
+        Waiting times of the jobs taken to service and of those that left the queue
+        """
+        self.w = refresh_moments_stat(self.w, new_a, self.taked + self.abandoned)
+
     def run_one_step(self):
 
         num_of_server_earlier = -1
-- 
2.43.0


From eeff348e3766508c6fc222c4b8416f53579ed0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:28 +0000
Subject: [PATCH 12/38] fix: fork-join purge removes the remaining subtasks of
 a finished job instead of crashing

---
 most_queue/sim/fj_sim.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index c6b372f..12fdd3a 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -117,12 +117,21 @@ class ForkJoinSim(QueueingSystemSimulator):
                     # найти все остальные подзадачи в СМО и выкинуть
                     task_id = end_ts.task_id
                     for i in range(self.n):
-                        if self.servers[i].tsk_on_service.task_id == task_id:
-                            self.servers[c].end_service()
-                    for i in range(self.n):
-                        for j in range(len(self.queues[i])):
-                            if self.queues[i][j].task_id == task_id:
-                                self.queues[i].pop(j)
+                        in_queue = len(self.queues[i])
+                        self.queues[i] = [
+                            q for q in self.queues[i] if q.task_id != task_id]
+                        self.sub_task_in_sys -= in_queue - len(self.queues[i])
+
+                        tsk = self.servers[i].tsk_on_service
+                        if tsk is not None and tsk.task_id == task_id:
+                            self.servers[i].end_service()
+                            self.free_channels += 1
+                            self.sub_task_in_sys -= 1
+                            if len(self.queues[i]) != 0:
+                                que_ts = self.queues[i].pop(0)
+                                self.servers[i].start_service(
+                                    que_ts, self.ttek)
+                                self.free_channels -= 1
 
                 self.served += 1
                 self.refresh_v_stat(self.ttek - end_ts.arr_time)
-- 
2.43.0


From 8959cbf9d87f518d016ef0851b0f5774f14eec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:28 +0000
Subject: [PATCH 13/38] fix: delayed fork-join/split-join: missing start time,
 parts lost or started out of turn, subtask count, buffer passed as purge

---
 most_queue/sim/fj_delta_sim.py | 50 +++++++++++++---------------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 14c114c..498b0fa 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -18,7 +18,7 @@ class ForkJoinSimDelta(ForkJoinSim):
         buffer - максимальная длина очереди
         """
         ForkJoinSim.__init__(self, num_of_channels,
-                             num_of_parts, is_SJ, buffer)
+                             num_of_parts, is_SJ, buffer=buffer)
         self.delta = delta
         self.subtask_arr_queue = []
         self.serv_task_id = -1
@@ -67,7 +67,7 @@ class ForkJoinSimDelta(ForkJoinSim):
 
             else:  # Split-Join discipline
 
-                if self.free_channels < self.k:
+                if self.serv_task_id != -1:  # обслуживается другая заявка
                     self.queue.append(t.subtasks[0])
                 else:
                     self.servers[0].start_service(t.subtasks[0], self.ttek)
@@ -106,7 +106,7 @@ class ForkJoinSimDelta(ForkJoinSim):
                 else:  # there are free channels:
                     for s in self.servers:
                         if s.is_free:
-                            s.start_service(subtsk)
+                            s.start_service(subtsk, self.ttek)
                             self.free_channels -= 1
                             break
 
@@ -129,12 +129,12 @@ class ForkJoinSimDelta(ForkJoinSim):
         time_to_end = self.servers[c].time_to_end_service
         self.p[self.in_sys] += time_to_end - self.t_old
         end_ts = self.servers[c].end_service()
-        self.serv_task_id = end_ts.task_id
         self.ttek = time_to_end
         self.t_old = self.ttek
         self.served_subtask_in_task[end_ts.task_id] += 1
         self.total += 1
         self.free_channels += 1
+        self.sub_task_in_sys -= 1
 
         if not self.is_SJ:
 
@@ -156,34 +156,22 @@ class ForkJoinSimDelta(ForkJoinSim):
                 self.refresh_v_stat(self.ttek - end_ts.arr_time)
                 self.in_sys -= 1
 
+                self.serv_task_id = -1
                 if self.queue.size() != 0:
-
-                    new_task_id = self.queue.queue[0].task_id
-
-                    brothers = [q for q in range(
-                        self.queue.size()) if self.queue.queue[q].task_id == new_task_id]
-                    for q in brothers:
-                        que_ts = self.queue.queue[q]
-                        for serv in self.servers:
-                            if serv.is_free:
-                                serv.start_service(que_ts, self.ttek)
-                                self.free_channels -= 1
-                                break
-                    self.queue.queue = [
-                        q for q in self.queue.queue if q.task_id != new_task_id]
-            else:
-                if self.queue.size() != 0:
-                    brothers = [q for q in range(
-                        self.queue.size()) if self.queue.queue[q].task_id == end_ts.task_id]
-                    for q in brothers:
-                        que_ts = self.queue.queue[q]
-                        for serv in self.servers:
-                            if serv.is_free:
-                                serv.start_service(que_ts, self.ttek)
-                                self.free_channels -= 1
-                                break
-                    self.queue.queue = [
-                        q for q in self.queue.queue if q.task_id != end_ts.task_id]
+                    self.serv_task_id = self.queue.queue[0].task_id
+
+            # подзадачи обслуживаемой заявки занимают свободные каналы
+            waiting = []
+            for que_ts in self.queue.queue:
+                if que_ts.task_id == self.serv_task_id and self.free_channels != 0:
+                    for serv in self.servers:
+                        if serv.is_free:
+                            serv.start_service(que_ts, self.ttek)
+                            self.free_channels -= 1
+                            break
+                else:
+                    waiting.append(que_ts)
+            self.queue.queue = waiting
 
     def run_one_step(self):
 
-- 
2.43.0


From abb8e3b8eeb7fb383b2d2bb6f38b646d1085ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 14/38] fix: the exponential law draws from the supplied
 generator

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 47a0ce4..a5c123c 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -720,7 +720,7 @@ class Exp_dist:
     """
 
     def __init__(self, mu, generator=None):
-        self.erl = Erlang_dist([1, mu])
+        self.erl = Erlang_dist([1, mu], generator)
         self.params = mu
         self.type = 'M'
         self.generator = generator
-- 
2.43.0


From f8a228733f2868f20ccbbb9c58b5ac5a1647f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:20 +0000
Subject: [PATCH 15/38] fix: Pareto law below its scale: tail is one and
 density zero

---
 most_queue/rand_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index a5c123c..9192090 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -546,7 +546,7 @@ class Pareto_dist:
         """
         Возвращает значение функции плотности распределения вероятностей СВ
         """
-        if t < 0:
+        if t < k:
             return 0
         return a * math.pow(k, a) / math.pow(t, a + 1)
 
@@ -564,10 +564,10 @@ class Pareto_dist:
         Возвращает значение ДФР
         params = [a, K]
         """
-        if t < 0:
-            return 0
         a = params[0]
         k = params[1]
+        if t < k:
+            return 1.0
         return math.pow(k / t, a)
 
     @staticmethod
-- 
2.43.0


From 1484279a980431ee86a05158e108ccca889f4c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:52 +0000
Subject: [PATCH 16/38] fix: exponential fit has the given mean

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 9192090..5c404e2 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -738,7 +738,7 @@ class Exp_dist:
 
     @staticmethod
     def get_params(moments):
-        return Erlang_dist.get_params(moments)[1]
+        return 1.0 / moments[0]
 
 
 class Gamma:
-- 
2.43.0


From aae87025e011fa5f2f3a661d7c0a07539cfac1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:31 +0000
Subject: [PATCH 17/38] fix: H2 and Cox fits: returned weight belongs to the
 returned rates; infeasible third moment; exponential moments; scale-free
 special cases

---
 most_queue/rand_distribution.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 5c404e2..ba6a134 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -234,13 +234,9 @@ class H2_dist:
         if t_min > moments[2]:
             # one phase distibution
             q_new = q_max
-            mu1 = (1.0 - math.sqrt(q_new * (v * v - 1.0) / (2 * (1.0 - q_new)))) * moments[0]
-            if math.isclose(mu1, 0):
-                mu1 = 1e10
-            else:
-                mu1 = 1.0 / mu1
+            t1 = (1.0 + math.sqrt((1.0 - q_new) * (v * v - 1.0) / (2 * q_new))) * moments[0]
             res[0] = q_max
-            res[1] = mu1
+            res[1] = 1.0 / t1
             res[2] = 1e6
             return res
         else:
@@ -260,7 +256,7 @@ class H2_dist:
                     q_min = q_new
                 else:
                     q_max = q_new
-            res[0] = q_max
+            res[0] = q_new
             res[1] = 1.0 / t1
             res[2] = 1.0 / t2
             return res
@@ -276,15 +272,6 @@ class H2_dist:
         Возвращает список с параметрами [y1, mu1, mu2]
         """
 
-        f = [0.0] * 3
-        for i in range(3):
-            f[i] = complex(moments[i] / math.factorial(i + 1))
-        znam = (f[1] - pow(f[0], 2))
-        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
-        c1 = (f[0] * f[1] - f[2]) / znam
-
-        d = pow(c1 / 2.0, 2.0) - c0
-
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
@@ -315,6 +302,15 @@ class H2_dist:
                 return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                               is_fitting=is_fitting)
 
+        f = [0.0] * 3
+        for i in range(3):
+            f[i] = complex(moments[i] / math.factorial(i + 1))
+        znam = (f[1] - pow(f[0], 2))
+        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
+        c1 = (f[0] * f[1] - f[2]) / znam
+
+        d = pow(c1 / 2.0, 2.0) - c0
+
         res = [0, 0, 0]  # y1, mu1, mu2
         c1 = complex(c1)
         x1 = -c1 / 2 + cmath.sqrt(d)
@@ -444,7 +440,7 @@ class Cox_dist:
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
-            if abs(moments[1] - moments[0] * moments[0]) < ee:
+            if abs(moments[1] / 2.0 - moments[0] * moments[0]) < ee * abs(moments[0]) ** 2:
                 if verbose:
                     print("Cox special 1. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
@@ -458,7 +454,7 @@ class Cox_dist:
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
 
             # проверка на близость распределения к Эрланга 2-го порядка
-            if abs(moments[1] - (3.0 / 4) * moments[0] * moments[0]) < ee:
+            if abs(moments[1] - (3.0 / 4) * moments[0] * moments[0]) < ee * abs(moments[0]) ** 2:
                 if verbose:
                     print("Cox special 2. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
-- 
2.43.0


From a3c25d16cac14e4d1294462239d340923dce626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:55 +0000
Subject: [PATCH 18/38] fix: load factor: classes weighted by their rates, all
 laws in both roles, batch size counted

---
 most_queue/sim/batch_sim.py                |   7 ++
 most_queue/sim/priority_queue_sim.py       | 102 ++-------------------
 most_queue/sim/utils/distribution_utils.py |   4 +-
 3 files changed, 17 insertions(+), 96 deletions(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index 8848361..15ad1ca 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -35,6 +35,13 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
             summ += p
             self.batch_cdf.append(summ)
 
+    def calc_load(self):
+        """
+        Calculates the load factor of the QS
+        """
+        mean_batch = sum((i + 1) * p for i, p in enumerate(self.batch_prob))
+        return super().calc_load() * mean_batch
+
     def arrival(self):
         """
         Actions upon arrival of job to QS
diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 31401af..e1f555d 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -6,7 +6,7 @@ import numpy as np
 from colorama import Fore, Style, init
 from tqdm import tqdm
 
-from most_queue.sim.utils.distribution_utils import create_distribution
+from most_queue.sim.utils.distribution_utils import calc_qs_load, create_distribution
 
 init()
 
@@ -179,102 +179,16 @@ class PriorityQueueSimulator:
         """
         Вычисляет коэффициент загрузки СМО
         """
-        l_sum = 0
-        b1_sr = 0
+        load = 0
 
         for i in range(self.k):
+            class_load = calc_qs_load(self.sources_params[i]['type'], self.sources_params[i]['params'],
+                                      self.servers_params[i]['type'], self.servers_params[i]['params'], self.n)
+            if class_load is None:
+                return None
+            load += class_load
 
-            if self.sources_params[i]['type'] == "M":
-                l_sum += self.sources_params[i]['params']
-            elif self.sources_params[i]['type'] == "H":
-                y1 = self.sources_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['type'][1]
-                mu2 = self.sources_params[i]['type'][2]
-
-                f1 = y1 / mu1 + y2 / mu2
-                l_sum += 1.0 / f1
-
-            elif self.sources_params[i]['type'] == "E":
-                r = self.sources_params[i]['params'][0]
-                mu = self.sources_params[i]['params'][1]
-                l_sum += mu / r
-
-            elif self.sources_params[i]['type'] == "Gamma":
-                mu = self.sources_params[i]['params'][0]
-                alpha = self.sources_params[i]['params'][1]
-                l_sum += mu / alpha
-
-            elif self.sources_params[i]['type'] == "C":
-                y1 = self.sources_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['params'][1]
-                mu2 = self.sources_params[i]['params'][2]
-
-                f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
-                l_sum += 1.0 / f1
-            elif self.sources_params[i]['type'] == "Pa":
-                if self.sources_params[i]['params'][0] < 1:
-                    return None
-                else:
-                    a = self.sources_params[i]['params'][0]
-                    k = self.sources_params[i]['params'][1]
-                    f1 = a * k / (a - 1)
-                    l_sum += 1.0 / f1
-            elif self.sources_params[i]['type'] == "Uniform":
-                f1 = self.sources_params[i]['type'][0]
-                l_sum += 1.0 / f1
-
-            elif self.sources_params[i]['type'] == "D":
-                f1 = self.sources_params[i]['type']
-                l_sum += 1.0 / f1
-
-            if self.servers_params[i]['type'] == "M":
-                mu = self.servers_params[i]['params']
-                b1_sr += 1.0 / mu
-
-            elif self.servers_params[i]['type'] == "H":
-                y1 = self.servers_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.servers_params[i]['params'][1]
-                mu2 = self.servers_params[i]['params'][2]
-
-                b1_sr += y1 / mu1 + y2 / mu2
-
-            elif self.servers_params[i]['type'] == "Gamma":
-                mu = self.servers_params[i]['params'][0]
-                alpha = self.servers_params[i]['params'][1]
-                b1_sr += alpha / mu
-
-            elif self.servers_params[i]['type'] == "E":
-                r = self.servers_params[i]['params'][0]
-                mu = self.servers_params[i]['params'][1]
-                b1_sr += r / mu
-
-            elif self.servers_params[i]['type'] == "Uniform":
-                f1 = self.servers_params[i]['params'][0]
-                b1_sr += 1.0 / f1
-
-            elif self.servers_params[i]['type'] == "D":
-                f1 = self.servers_params[i]['type']
-                b1_sr += 1.0 / f1
-
-            elif self.servers_params[i]['type'] == "C":
-                y1 = self.servers_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.servers_params[i]['params'][1]
-                mu2 = self.servers_params[i]['params'][2]
-
-                b1_sr += y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
-            elif self.servers_params[i]['type'] == "Pa":
-                if self.servers_params[i]['params'][0] < 1:
-                    return math.inf
-                else:
-                    a = self.servers_params[i]['params'][0]
-                    k = self.servers_params[i]['params'][1]
-                    b1_sr += a * k / (a - 1)
-
-        return l_sum * b1_sr / (self.n * self.k)
+        return load
 
     def arrival(self, k, moment=None, ts=None):
         """
diff --git a/most_queue/sim/utils/distribution_utils.py b/most_queue/sim/utils/distribution_utils.py
index 0f86658..ce899bd 100644
--- a/most_queue/sim/utils/distribution_utils.py
+++ b/most_queue/sim/utils/distribution_utils.py
@@ -91,7 +91,7 @@ def calc_qs_load(source_types: str, source_params,
         l = source_params
     elif source_types == "D":
         l = 1.00 / source_params
-    elif source_types == "Uniform":
+    elif source_types in ("Uniform", "Norm"):
         l = 1.00 / source_params[0]
     elif source_types == "H":
         y1 = source_params[0]
@@ -135,7 +135,7 @@ def calc_qs_load(source_types: str, source_params,
         b1 = 1.0 / mu
     elif server_types == "D":
         b1 = server_params
-    elif server_types == "Uniform":
+    elif server_types in ("Uniform", "Norm"):
         b1 = server_params[0]
 
     elif server_types == "H":
-- 
2.43.0


From e4b578eda5c1b9be05df78e53b145456209e7542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 19/38] fix: moments of a difference are those of the other
 summand; sums of fewer than three moments

---
 most_queue/general_utils/conv.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/most_queue/general_utils/conv.py b/most_queue/general_utils/conv.py
index 076ba21..2d05e4d 100644
--- a/most_queue/general_utils/conv.py
+++ b/most_queue/general_utils/conv.py
@@ -1,9 +1,12 @@
 def get_moments(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
-    res[0] = a[0] + b[0]
-    res[1] = a[1] + b[1] + 2 * a[0] * b[0]
-    res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
+    if num > 0:
+        res[0] = a[0] + b[0]
+    if num > 1:
+        res[1] = a[1] + b[1] + 2 * a[0] * b[0]
+    if num > 2:
+        res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
     return res
 
 
@@ -18,7 +21,10 @@ def get_self_conv_moments(b, n_times, num=3):
 def get_moments_minus(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
-    res[0] = a[0] - b[0]
-    res[1] = a[1] - b[1] - 2 * a[0] * b[0]
-    res[2] = a[2] - b[2] - 3 * a[1] * b[0] - 3 * a[0] * b[1]
+    if num > 0:
+        res[0] = a[0] - b[0]
+    if num > 1:
+        res[1] = a[1] - b[1] - 2 * res[0] * b[0]
+    if num > 2:
+        res[2] = a[2] - b[2] - 3 * res[1] * b[0] - 3 * res[0] * b[1]
     return res
-- 
2.43.0


From 5068e1be0f50b7d7def238fc3e0f8e99a8990c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 20/38] fix: M/M/n/r: waiting times of the accepted jobs, load
 equal to one

---
 most_queue/theory/mmnr_calc.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index db2aeb4..f38edba 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -38,10 +38,16 @@ class MMnr_calc:
 
     @staticmethod
     def get_w(l, mu, n, r, num=3):
-        qs = MMnr_calc.get_qs(l, mu, n, r, q_num=num)
+        p = MMnr_calc.get_p(l, mu, n, r)
+        p_accepted = 1.0 - p[n + r]
         w = [0] * num
         for k in range(num):
-            w[k] = qs[k] / pow(l, k + 1)
+            # an accepted job that finds i jobs in the queue waits for i + 1 departures
+            for i in range(r):
+                prod = p[n + i] / p_accepted
+                for j in range(k + 1):
+                    prod *= (i + 1 + j) / (n * mu)
+                w[k] += prod
         return w
 
     @staticmethod
@@ -61,11 +67,12 @@ class MMnr_calc:
         for i in range(n):
             summ1 += pow(ro, i) / math.factorial(i)
 
-        chisl = 1 - pow(ro / n, r + 1)
         coef = pow(ro, n) / math.factorial(n)
-        znam = 1 - (ro / n)
+        summ2 = 0
+        for i in range(r + 1):
+            summ2 += pow(ro / n, i)
 
-        p[0] = 1.0 / (summ1 + coef * chisl / znam)
+        p[0] = 1.0 / (summ1 + coef * summ2)
 
         for i in range(n):
             p[i] = pow(ro, i) * p[0] / math.factorial(i)
-- 
2.43.0


From e4678cd0580933bc1a04b099cea1d20bd45aed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 21/38] fix: uniform service: probabilities of the number of
 arrivals; M/G/1 sojourn moments beyond the third

---
 most_queue/theory/mg1_calc.py                     | 10 +++++-----
 most_queue/theory/utils/q_poisson_arrival_calc.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/mg1_calc.py b/most_queue/theory/mg1_calc.py
index 248451f..21710ca 100755
--- a/most_queue/theory/mg1_calc.py
+++ b/most_queue/theory/mg1_calc.py
@@ -35,11 +35,11 @@ def get_v(l, b, num=3):
 
     w = get_w(l, b, num_of_mom)
     v = []
-    v.append(w[0] + b[0])
-    if num_of_mom > 1:
-        v.append(w[1] + 2 * w[0] * b[0] + b[1])
-    if num_of_mom > 2:
-        v.append(w[2] + 3 * w[1] * b[0] + 3 * b[1] * w[0] + b[2])
+    for k in range(num_of_mom):
+        summ = w[k] + b[k]
+        for j in range(k):
+            summ += math.comb(k + 1, j + 1) * w[j] * b[k - j - 1]
+        v.append(summ)
 
     return v
 
diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index 0cace10..5cdde05 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -30,10 +30,10 @@ def get_q_uniform(l, mean, half_interval, num=100):
     for j in range(num):
         summ1 = 0
         for i in range(j + 1):
-            summ1 += l * pow(mean - half_interval, i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
+            summ1 += pow(l * (mean - half_interval), i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
         summ2 = 0
         for i in range(j + 1):
-            summ2 += l * pow(mean + half_interval, i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
+            summ2 += pow(l * (mean + half_interval), i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
         q[j] = (1.0 / (2 * l * half_interval)) * (summ1 - summ2)
 
     return q
-- 
2.43.0


From 34e023b156e3543686df830432de308986de60fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 22/38] fix: M/M/1 with impatience: the series is not cut while
 its terms still grow

---
 most_queue/theory/impatience_calc.py | 29 +++++++---------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/most_queue/theory/impatience_calc.py b/most_queue/theory/impatience_calc.py
index 545b8dc..828b1e9 100755
--- a/most_queue/theory/impatience_calc.py
+++ b/most_queue/theory/impatience_calc.py
@@ -1,5 +1,3 @@
-import math
-
 """
 Расчет М/M/1 с экспоненциальным нетерпением
 """
@@ -10,20 +8,14 @@ def get_p0(l, mu, gamma, tol=1e-12):
     Вероятность нулевого состояния системы
     """
     summ = 0
-    elem_old = l
-    elem_new = 0
+    elem_old = 0
+    elem_new = 1
 
     i = 1
-    while math.fabs(elem_new - elem_old) > tol:
-        chisl = math.pow(l, i)
-        znam = mu
-        j = 1
-        while j < i:
-            znam *= (mu + j * gamma)
-            j += 1
-
+    # the terms first grow if l > mu + gamma, so being close or small is not enough
+    while elem_new > tol or elem_new >= elem_old:
         elem_old = elem_new
-        elem_new = chisl / znam
+        elem_new = elem_old * l / (mu + (i - 1) * gamma)
         summ += elem_new
 
         i += 1
@@ -40,16 +32,9 @@ def get_p(l, mu, gamma, tol=1e-12, max_num=100000):
     ps.append(p0)
 
     for i in range(1, max_num):
-        chisl = math.pow(l, i)
-        znam = mu
-        j = 1
-        while j < i:
-            znam *= (mu + j * gamma)
-            j += 1
-
-        pi = p0 * chisl / znam
+        pi = ps[-1] * l / (mu + (i - 1) * gamma)
         ps.append(pi)
-        if pi < tol:
+        if pi < tol and pi < ps[-2]:
             break
 
     return ps
-- 
2.43.0


From 7a393a4d10764aa3bddc677296385b6d605cce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 23/38] fix: GI/M/1: probability that an arrival finds the
 system empty is one minus w

---
 most_queue/theory/gi_m_1_calc.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/most_queue/theory/gi_m_1_calc.py b/most_queue/theory/gi_m_1_calc.py
index f4d0566..3d86eae 100755
--- a/most_queue/theory/gi_m_1_calc.py
+++ b/most_queue/theory/gi_m_1_calc.py
@@ -2,7 +2,6 @@ import math
 
 from most_queue.general_utils.conv import get_moments_minus
 from most_queue.rand_distribution import Gamma, Pareto_dist
-from most_queue.theory.utils.q_poisson_arrival_calc import get_q_Gamma
 
 
 def get_pi(a, mu, num=100, e=1e-10, approx_distr="Gamma"):
@@ -13,16 +12,8 @@ def get_pi(a, mu, num=100, e=1e-10, approx_distr="Gamma"):
     num - число вероятностей
     """
     pi = [0.0] * num
-
-    v, alpha = Gamma.get_mu_alpha(a)
-
-    q = get_q_Gamma(mu, v, alpha)
-    summ = 0
     w = get_w_param(a, mu, e, approx_distr)
-    for i in range(len(q)):
-        summ += q[i] * pow(w, i)
-    pi[0] = 1.0 - summ
-    for k in range(1, num):
+    for k in range(num):
         pi[k] = (1.0 - w) * pow(w, k)
     return pi
 
-- 
2.43.0


From cea86b91f02bb0c3ca5d8a5f8bd07c289d7dd297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 24/38] fix: Ek/D/n: state probabilities up to p_num only
 (index error when the tail is not negligible)

---
 most_queue/theory/ek_d_n_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/ek_d_n_calc.py b/most_queue/theory/ek_d_n_calc.py
index 0914680..cdbcb53 100755
--- a/most_queue/theory/ek_d_n_calc.py
+++ b/most_queue/theory/ek_d_n_calc.py
@@ -102,7 +102,7 @@ class Ek_D_n:
     def calc_p(self):
         w = self.calc_w()
         is_zero = False
-        for j in range(len(self.w)):
+        for j in range(min(self.p_num, len(self.w) // self.k)):
             if is_zero:
                 break
             summ = 0
-- 
2.43.0


From 08beec302d63bef1e8e8ffa2ff5b3831c2c2eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 25/38] fix: fifth moments of the busy period and of the busy
 period with warm-up

---
 most_queue/theory/priority_calc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3f9813d..e3a9a28 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -89,7 +89,7 @@ def ppnz_calc(l, b, num=5):
         pnz.append(chisl / (1 - ro))
     if num > 4:
         chisl = b[4] * math.pow(z, 5) + 10 * b[3] * l * pnz[1] * math.pow(z, 3) + \
-                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2 * z * z]) + b[1] * (
+                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) + b[1] * (
                         5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2])
         pnz.append(chisl / (1 - ro))
 
@@ -134,7 +134,7 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
     b: [j], j=1..num, начальные моменты времени обслуживания
     f: [j], нач. моменты распределения времени разогрева
     """
-    num = min(num, len(f))
+    num = min(num, len(f), len(pnz))
 
     pnz_warm_up = []
     z = 1 + l * pnz[0]
@@ -148,8 +148,8 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
                            + 6 * f[2] * l * pnz[1] * z * z + f[3] * math.pow(z, 4))
     if num > 4:
         pnz_warm_up.append(f[0] * l * pnz[4] + f[1] * (5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2]) +
-                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[
-            4] * math.pow(z, 5)))
+                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) +
+                           10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[4] * math.pow(z, 5))
 
     return pnz_warm_up
 
-- 
2.43.0


From 241e16508ee415febb998c9a73f4f73479397427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 26/38] fix: preemptive priority: waiting time of the first
 class, rate of the higher classes in the others

---
 most_queue/theory/priority_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index e3a9a28..6a5e460 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -190,7 +190,7 @@ def calc_pr1(l, b, num=3):
     for i in range(num):
         summ = b[0][i + 1] / (i + 2)
         for s in range(1, i + 1):
-            summ += b[0][i + 1 - s] * w[0][s] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
+            summ += b[0][i + 1 - s] * w[0][s - 1] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
         w[0][i] = summ * l[0] / (1 - l[0] * b[0][0])
 
     v.append([0.0] * num)
@@ -233,7 +233,7 @@ def calc_pr1(l, b, num=3):
             for m in range(i):
                 summ += w[j][m] * h[j][i - m] * math.factorial(i) / (math.factorial(m) * math.factorial(i + 1 - m))
 
-            w[j][i] = (c * L[j] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
+            w[j][i] = (c * L[j - 1] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
         w[j] = w[j][1:]
         v[j][0] = w[j][0] + h[j][0]
         v[j][1] = w[j][1] + 2 * w[j][0] * h[j][0] + h[j][1]
-- 
2.43.0


From 4e66a835319dafe5e02ffb41abe4f291c7b9c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 27/38] fix: second moment of the waiting time with preemptive
 priority (climov_w_pr_calc)

---
 most_queue/theory/priority_calc.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 6a5e460..6135ef1 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -111,15 +111,14 @@ def climov_w_pr_calc(l, b):
         ro_k[k] = 1 - ro_k_j[k][0]
     for k in range(k_num):
         w.append([0.0] * 2)
-        if k != 0:
-            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k - 1] * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + (ro_k_j[k][2]) / (
-                    2 * math.pow(ro_k[k], 2)) + \
-                      (ro_k_j[k][1]) / (2 * ro_k[k])
+        if k == 0:
+            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (
+                    2 * math.pow(ro_k[k], 2))
 
         else:
-            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 3) * ro_k[k]) + (ro_k_j[k][2] * ro_k_j[k - 1][1]) / (
+            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k - 1] * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 2) * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (
                     2 * math.pow(ro_k[k - 1], 2) * math.pow(ro_k[k], 2)) + \
                       (ro_k_j[k][1] * ro_k_j[k - 1][1]) / (2 * math.pow(ro_k[k - 1], 3) * ro_k[k])
 
-- 
2.43.0


From a8b2742621d66fc63bd90c45964e891d23cd3fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 28/38] fix: service time of an arbitrary job: classes weighted
 by their rates

---
 most_queue/theory/priority_calc.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 6135ef1..19e8dc6 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -279,8 +279,8 @@ def get_w_mg1_bp(l, b):
     for i in range(num_of_moment):
         b_sr.append(0)
         for k in range(num_of_classes):
-            b_sr[i] += b[k][i]
-        b_sr[i] /= num_of_classes
+            b_sr[i] += l[k] * b[k][i]
+        b_sr[i] /= l_sum
 
     w_k = get_w(l_sum, b_sr)
 
@@ -466,12 +466,12 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
 
     b_sr = [0.0] * j_num
     l_sum = 0
-    for j in range(j_num):
-        for k in range(k_num):
-            b_sr[j] += b1[k][j]
-        b_sr[j] /= k_num
     for k in range(k_num):
         l_sum += l[k]
+    for j in range(j_num):
+        for k in range(k_num):
+            b_sr[j] += l[k] * b1[k][j]
+        b_sr[j] /= l_sum
 
     p1 = get_p(l_sum, b_sr, N)
     q1 = 0
@@ -482,12 +482,12 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
 
     b_sr = [0.0] * j_num
     l_sum = 0
-    for j in range(j_num):
-        for k in range(k_num):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= k_num
     for k in range(k_num):
         l_sum += l[k]
+    for j in range(j_num):
+        for k in range(k_num):
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt_n = MGnCalc(n, l_sum, b_sr)
     tt_n.run()
@@ -524,8 +524,8 @@ def get_w_MxGn_no_pr(l, b, n):
     for j in range(num_of_mom):
         b_sr.append(0)
         for k in range(len(b)):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= num_of_mom
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt = MGnCalc(n, l_sum, b_sr)
     tt.run()
-- 
2.43.0


From d94827d2ed6d0408b18ca986a9c470955ab35402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 29/38] fix: network with priorities: class numbers in nodes
 with another order of priorities

---
 most_queue/theory/network_calc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index d91ab1d..cbd3838 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -119,12 +119,12 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
     l_order = []
 
     for m in range(nodes):
-        b_order.append([])
-        l_order.append([])
+        b_order.append([0.0] * k_num)
+        l_order.append([0.0] * k_num)
         for k in range(k_num):
             order = nodes_prty[m][k]
-            b_order[m].append(b[order][m])
-            l_order[m].append(intensities[order][m])
+            b_order[m][order] = b[k][m]
+            l_order[m][order] = intensities[k][m]
 
     res['v_node'] = []
     for i in range(nodes):
@@ -140,9 +140,10 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
             b_sr[j] /= k_num
 
         res['loads'][i] = l_sum * b_sr[0] / n[i]
-        res['v_node'].append(get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i]))
+        v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
+        res['v_node'].append([])
         for k in range(k_num):
-            res['v_node'][i][nodes_prty[i][k]] = res['v_node'][i][k]
+            res['v_node'][i].append(v_order[nodes_prty[i][k]])
 
     h = 0.0001
     s = [0.0] * 4
-- 
2.43.0


From 8f6bdd28756835f8e81397befbe081ad91c0ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 30/38] fix: network with priorities: load of a node weights
 the classes by their rates

---
 most_queue/theory/network_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index cbd3838..14496c0 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -136,8 +136,8 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
 
         for j in range(4):
             for k in range(k_num):
-                b_sr[j] += b_order[i][k][j]
-            b_sr[j] /= k_num
+                b_sr[j] += l_order[i][k] * b_order[i][k][j]
+            b_sr[j] /= l_sum
 
         res['loads'][i] = l_sum * b_sr[0] / n[i]
         v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
-- 
2.43.0


From d02680ac604244acb41a35066238db9c43575748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 31/38] fix: two-phase fits near degenerate laws keep the mean

---
 most_queue/rand_distribution.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index ba6a134..83f9654 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -281,7 +281,7 @@ class H2_dist:
                           " e = {1:5.3f}.".format(coev, e))
                 f = []
                 for i in range(len(moments)):
-                    f.append(moments[i] * complex(1, (i + 1) * e))
+                    f.append(moments[i] * complex(1, i * e))
 
                 return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                               is_fitting=is_fitting)
@@ -295,10 +295,7 @@ class H2_dist:
                           " e = {1:5.3f}.".format(coev, e))
                 f = []
                 for i in range(len(moments)):
-                    # if i == 0:
-                    #     f.append(moments[0])
-                    # else:
-                    f.append(moments[i] * complex(1, (i + 1) * e))
+                    f.append(moments[i] * complex(1, i * e))
                 return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                               is_fitting=is_fitting)
 
@@ -446,7 +443,7 @@ class Cox_dist:
                           " e = {1:5.3f}.".format(coev, e))
                 f = []
                 for i in range(len(moments)):
-                    f.append(moments[i] * complex(1, (i + 1) * e))
+                    f.append(moments[i] * complex(1, i * e))
 
                 return Cox_dist.get_params(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                            is_fitting=is_fitting)
@@ -460,10 +457,7 @@ class Cox_dist:
                           " e = {1:5.3f}.".format(coev, e))
                 f = []
                 for i in range(len(moments)):
-                    # if i == 0:
-                    #     f.append(moments[0])
-                    # else:
-                    f.append(moments[i] * complex(1, (i + 1) * e))
+                    f.append(moments[i] * complex(1, i * e))
                 return Cox_dist.get_params(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                            is_fitting=is_fitting)
 
-- 
2.43.0


From e2a71714783ad95f697aee9e3ddbaeb084383e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 32/38] fix: k-th of n branches: Varma formula (sign and
 misplaced parenthesis)

---
 most_queue/theory/fj_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 02f97ec..12134d3 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -243,7 +243,7 @@ def get_v1_varma_nk(l, mu, n, k):
 
     for i in range(k, n + 1):
         summ += get_W(n, k, i) * (get_Hn(i) +
-                                  (get_V(i) - get_Hn(i) * ro)) / (l - mu)
+                                  (get_V(i) - get_Hn(i)) * ro) / (mu - l)
 
     return summ
 
-- 
2.43.0


From d94429534018107f2568da3938b923adec551471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 33/38] fix: fork-join by the ratio of M/G/n queues: both
 queues had the same waiting times

---
 most_queue/theory/fj_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 12134d3..a11d58d 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -351,7 +351,7 @@ def get_v_fj_invar_tt(l, b, n):
 
     v1_fj2 = get_v1_fj2(l, 1.0 / b[0])
 
-    tt2 = MGnCalc(n, l, b2)
+    tt2 = MGnCalc(2, l, b2)
     tt2.run()
     w_tt2 = tt2.get_w()
 
@@ -364,7 +364,7 @@ def get_v_fj_invar_tt(l, b, n):
 
     ttn = MGnCalc(n, l, bn)
     ttn.run()
-    w_ttn = tt2.get_w()
+    w_ttn = ttn.get_w()
 
     for i in range(3):
         v.append(v1_fj2 * w_ttn[i] / w_tt2[i])
-- 
2.43.0


From c8880c5fdf784998bae57f98da6d53497bf40544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 34/38] fix: maximum without delay (delta=0) was returned as
 zeros

---
 most_queue/theory/fj_calc.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index a11d58d..1ad3786 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -106,19 +106,18 @@ def getMaxMomentsDelta(n, b, num=3, delta=0):
          2.82592334960E-5, 4.24931398496E-7, 1.83956482398E-9,
          9.91182721961E-13]
 
-    if delta:
-        params = Gamma.get_mu_alpha(b)
+    params = Gamma.get_mu_alpha(b)
 
-        for j in range(10):
-            p = g[j] * dfr_Gamma_Mult(params, a_big[j],
-                                      n, delta) * math.exp(a_big[j])
-            f[0] += p
-            for i in range(1, num):
-                p = p * a_big[j]
-                f[i] += p
+    for j in range(10):
+        p = g[j] * dfr_Gamma_Mult(params, a_big[j],
+                                  n, delta) * math.exp(a_big[j])
+        f[0] += p
+        for i in range(1, num):
+            p = p * a_big[j]
+            f[i] += p
 
-        for i in range(num - 1):
-            f[i + 1] *= (i + 2)
+    for i in range(num - 1):
+        f[i + 1] *= (i + 2)
 
     return f
 
-- 
2.43.0


From 6e045427766e9c5b71f659ee25737d1c496f111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 35/38] fix: M/H2/n with limited waiting room: arrivals at a
 full system are lost; room zero; load one; wait of accepted jobs

---
 most_queue/theory/mgn_tt.py | 50 ++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 334a872..14a1955 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -22,9 +22,10 @@ class MGnCalc:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = max(N, self.N)
         else:
             self.N = N
             self.R = None  # для проверки задан ли буфер
@@ -95,8 +96,10 @@ class MGnCalc:
         for j in range(3, len(self.p) - self.n):
             w[2] += j * (j - 1) * (j - 2) * self.p[self.n + j]
 
+        # заявки, заставшие систему заполненной, не ждут
+        l = self.l if self.R is None else self.l * (1.0 - self.p[self.R].real)
         for j in range(3):
-            w[j] /= math.pow(self.l, j + 1)
+            w[j] /= math.pow(l, j + 1)
             w[j] = w[j].real
 
         return w
@@ -193,13 +196,10 @@ class MGnCalc:
                 prod1 = np.dot(prod1, self.x[i])
             znam += np.dot((self.n - j), prod1)
 
-        if self.R:
-            prod2 = 1
-            for i in range(0, self.N):
-                prod2 *= self.x[i]
-            znam -= f1 * self.l * prod2
-
-        self.p[0] = (self.n - self.l * f1) / znam
+        if self.R is not None:
+            self.p[0] = 1.0  # нормируется ниже
+        else:
+            self.p[0] = (self.n - self.l * f1) / znam
 
         summ_p = self.p[0]
 
@@ -225,6 +225,9 @@ class MGnCalc:
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
             self.D.append(self.buildD(i))
+        if self.R is not None:
+            # в последнем ярусе заявки теряются и не меняют состояние
+            self.D[self.R] = self.D[self.R] - self.l * np.eye(self.cols[self.R])
 
     def calc_g_matrices(self):
         self.G = []
@@ -239,7 +242,9 @@ class MGnCalc:
     def calc_bg_matrices(self):
         self.BG = [0]
         for j in range(1, self.N):
-            if j != (self.N - 1):
+            if self.R is not None and j == (self.N - 1):
+                self.BG.append(0)
+            elif j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
             else:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
@@ -272,6 +277,16 @@ class MGnCalc:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    # последний ярус: прибывающие заявки теряются
+                    tag = np.dot(self.t[j - 1], self.AG[j])
+                    tag_sum = 0
+                    for t_i in range(tag.shape[1]):
+                        tag_sum += tag[0, t_i]
+                    self.z[j] = 1.0 / tag_sum
+                    self.t[j] = self.z[j] * tag
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -290,19 +305,8 @@ class MGnCalc:
 
                 self.x[j] = (1.0 + 0.0j) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             self.x[0] = (1.0 + 0.0j) / self.z[1]
 
-- 
2.43.0


From 637a50bc8ae2903a3721c7a9065eddd674328bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 36/38] fix: M/H2/n with warm-up: wait of the job that starts
 the warm-up, order of the phases left behind, limited room, sojourn with
 another first service

---
 most_queue/theory/m_h2_h2warm.py | 70 +++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 366db25..68bf3e2 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -27,9 +27,10 @@ class Mh2h2Warm:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = max(N, self.N)
         else:
             self.N = N
             self.R = None  # для проверки задан ли буфер
@@ -113,7 +114,8 @@ class Mh2h2Warm:
         self.build_matrices()
         self.initial_probabilities()
         self.key_numbers = self.get_key_numbers(self.n)  # ключи яруса n, для n=3 [(3,0) (2,1) (1,2) (0,3)]
-        self.down_probs = self.calc_down_probs(self.n + 1)
+        # без мест для ожидания переходов между ярусами с очередью нет
+        self.down_probs = self.calc_down_probs(min(self.n + 1, self.N - 1))
 
     def get_p(self):
         """
@@ -178,13 +180,20 @@ class Mh2h2Warm:
         # вероятности попадания в состояния обслуживания, вычисляются с помощью биноминального распределения
         probs = calc_binom_probs(self.n + 1, self.y[0])
 
+        # Если заявка попала в пустую систему, ей придется подождать окончание разогрева
+        for i in range(2):
+            w += self.Y[0][0, 0] * self.y_w[i] * self.pls(self.mu_w[i], s)
+
         # Если заявка попала в фазу разогрева, хотя каналы свободны,
         # ей придется подождать окончание разогрева
         for k in range(1, self.n):
             for i in range(2):
                 w += self.Y[k][0, i] * self.pls(self.mu_w[i], s)
 
-        for k in range(self.n, self.N):
+        # заявки, заставшие систему заполненной, теряются и не ждут
+        levels = self.N if self.R is None else self.R
+
+        for k in range(self.n, levels):
 
             # Если заявка попала в фазу разогрева и каналы заняты. Также есть k-n заявок в очереди
             # ей придется подождать окончание разогрева + обслуживание всех накопленных заявок
@@ -195,21 +204,22 @@ class Mh2h2Warm:
                  range(self.n + 1)])
 
             P = self.calc_down_probs(k)
-            Pa = np.transpose(self.matrix_pow(P * a, k - self.n))  # n+1 x n+1
-
-            aP_tilda = a * probs
+            # ожидание k-n+1 обслуживаний, начиная с каждого из состояний яруса n
+            aPa = np.dot(self.matrix_pow(a[:, np.newaxis] * P, k - self.n), a)
 
-            pls_service_total = sum(np.dot(aP_tilda, Pa))
+            pls_service_total = np.dot(probs, aPa)
 
             for i in range(2):
                 w += self.Y[k][0, i] * self.pls(self.mu_w[i], s) * pls_service_total
 
             # попала в фазу обслуживания
             Ys = [self.Y[k][0, i + 2] for i in range(len(probs))]
-            aPa = np.dot(a, Pa)
             for i in range(self.n + 1):
                 w += Ys[i] * aPa[i]
 
+        if self.R is not None:
+            w /= 1.0 - self.p[self.R]
+
         return w
 
     def calc_residual_b(self, mom_num):
@@ -231,8 +241,10 @@ class Mh2h2Warm:
             for j in range(3, len(self.p) - self.n):
                 w[2] += j * (j - 1) * (j - 2) * self.p[self.n + j]
 
+            # заявки, заставшие систему заполненной, не ждут
+            l = self.l if self.R is None else self.l * (1.0 - self.p[self.R].real)
             for j in range(3):
-                w[j] /= math.pow(self.l, j + 1)
+                w[j] /= math.pow(l, j + 1)
                 w[j] = w[j].real
 
             return w
@@ -253,6 +265,14 @@ class Mh2h2Warm:
         v[1] = w[1] + 2 * w[0] * b[0] + b[1]
         v[2] = w[2] + 3 * w[1] * b[0] + 3 * w[0] * b[1] + b[2]
 
+        if self.is_only_first:
+            # заявка, заставшая систему пустой, не ждет и обслуживается по закону разогрева
+            p0 = self.p[0].real
+            if self.R is not None:
+                p0 /= 1.0 - self.p[self.R].real
+            for j in range(3):
+                v[j] += p0 * (self.b_warm[j] - b[j])
+
         return v
 
     def print_mrx(self, mrx):
@@ -339,6 +359,9 @@ class Mh2h2Warm:
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
             self.D.append(self.buildD(i))
+        if self.R is not None:
+            # в последнем ярусе заявки теряются и не меняют состояние
+            self.D[self.R] = self.D[self.R] - self.l * np.eye(self.cols[self.R])
 
     def calc_g_matrices(self):
         self.G = []
@@ -353,7 +376,9 @@ class Mh2h2Warm:
     def calc_bg_matrices(self):
         self.BG = [0]
         for j in range(1, self.N):
-            if j != (self.N - 1):
+            if self.R is not None and j == (self.N - 1):
+                self.BG.append(0)
+            elif j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
             else:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
@@ -391,6 +416,16 @@ class Mh2h2Warm:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    # последний ярус: прибывающие заявки теряются
+                    tag = np.dot(self.t[j - 1], self.AG[j])
+                    tag_sum = 0
+                    for t_i in range(tag.shape[1]):
+                        tag_sum += tag[0, t_i]
+                    self.z[j] = 1.0 / tag_sum
+                    self.t[j] = self.z[j] * tag
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -415,19 +450,8 @@ class Mh2h2Warm:
                 else:
                     self.x[j] = (1.0) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
-- 
2.43.0


From 0957774588c80eec84451ab0b5951d0f7f9aa5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 37/38] fix: M/M/n with warm-up and cooling: limited waiting
 room

---
 .../theory/mmn_with_h2_cold_and_h2_warmup.py  | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index 758b12b..1fcdf00 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -26,9 +26,10 @@ class MMn_H2warm_H2cold:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = max(N, self.N)
         else:
             self.N = N
             self.R = None  # для проверки задан ли буфер
@@ -149,7 +150,9 @@ class MMn_H2warm_H2cold:
                         w += self.Y[k][0, 3 + c_phase] * c_to_w[c_phase, w_phase]
 
         pls_service_total = 1.0
-        for k in range(self.n, self.N):
+        # заявки, заставшие систему заполненной, теряются и не ждут
+        levels = self.N if self.R is None else self.R
+        for k in range(self.n, levels):
 
             # попала в фазу обслуживания
             # подождать окончание k+1-n обслуживаний
@@ -167,6 +170,9 @@ class MMn_H2warm_H2cold:
                 for w_phase in range(2):
                     w += self.Y[k][0, 3 + c_phase] * c_to_w[c_phase, w_phase] * pls_service_total
 
+        if self.R is not None:
+            w /= 1.0 - self.p[self.R]
+
         return w
 
     def get_w(self):
@@ -313,6 +319,9 @@ class MMn_H2warm_H2cold:
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
             self.D.append(self.buildD(i))
+        if self.R is not None:
+            # в последнем ярусе заявки теряются и не меняют состояние
+            self.D[self.R] = self.D[self.R] - self.l * np.eye(self.cols[self.R])
 
     def calc_g_matrices(self):
         self.G = []
@@ -327,7 +336,9 @@ class MMn_H2warm_H2cold:
     def calc_bg_matrices(self):
         self.BG = [0]
         for j in range(1, self.N):
-            if j != (self.N - 1):
+            if self.R is not None and j == (self.N - 1):
+                self.BG.append(0)
+            elif j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
             else:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
@@ -365,6 +376,16 @@ class MMn_H2warm_H2cold:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    # последний ярус: прибывающие заявки теряются
+                    tag = np.dot(self.t[j - 1], self.AG[j])
+                    tag_sum = 0
+                    for t_i in range(tag.shape[1]):
+                        tag_sum += tag[0, t_i]
+                    self.z[j] = 1.0 / tag_sum
+                    self.t[j] = self.z[j] * tag
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -389,19 +410,8 @@ class MMn_H2warm_H2cold:
                 else:
                     self.x[j] = 1.0 / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
-- 
2.43.0


From 71aef6cf492b3d485723b2878a82a94a8496329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 38/38] fix: M/H2/n with warm-up, cooling and delay: limited
 waiting room

---
 .../theory/mgn_with_h2_delay_cold_warm.py     | 46 ++++++++++++-------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index af5dc87..5090209 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -30,9 +30,10 @@ class MGnH2ServingColdWarmDelay:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = max(N, self.N)
         else:
             self.N = N
             self.R = None  # для проверки задан ли буфер
@@ -230,7 +231,11 @@ class MGnH2ServingColdWarmDelay:
                     for w_phase in range(2):
                         w += self.Y[k][0, cold_pos + c_phase] * c_to_w[c_phase, w_phase]
 
-        P = self.calc_down_probs(self.n + 1)
+        # заявки, заставшие систему заполненной, теряются и не ждут
+        levels = self.N if self.R is None else self.R
+
+        if self.n + 1 < levels:
+            P = self.calc_down_probs(self.n + 1)
         key_numbers = self.get_key_numbers(self.n)  # ключи яруса n, для n=3 [(3,0) (2,1) (1,2) (0,3)]
         a = np.array(
             [self.pls(key_numbers[j][0] * self.mu[0] + key_numbers[j][1] * self.mu[1], s) for j in
@@ -240,7 +245,7 @@ class MGnH2ServingColdWarmDelay:
         # вероятности попадания в состояния обслуживания, вычисляются с помощью биноминального распределения
         probs = calc_binom_probs(self.n + 1, self.y[0])
 
-        for k in range(self.n, self.N):
+        for k in range(self.n, levels):
 
             # Если заявка попала в фазу разогрева и каналы заняты. Также есть k-n заявок в очереди
             # ей придется подождать окончание разогрева + обслуживание всех накопленных заявок
@@ -293,6 +298,9 @@ class MGnH2ServingColdWarmDelay:
                     for w_phase in range(2):
                         w += self.Y[k][0, cold_pos + c_phase] * c_to_w[c_phase, w_phase] * pls_service_total
 
+        if self.R is not None:
+            w /= 1.0 - self.p[self.R]
+
         return w
 
     def get_idle_prob(self):
@@ -426,6 +434,9 @@ class MGnH2ServingColdWarmDelay:
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
             self.D.append(self.buildD(i))
+        if self.R is not None:
+            # в последнем ярусе заявки теряются и не меняют состояние
+            self.D[self.R] = self.D[self.R] - self.l * np.eye(self.cols[self.R])
 
     def calc_g_matrices(self):
         self.G = []
@@ -440,7 +451,9 @@ class MGnH2ServingColdWarmDelay:
     def calc_bg_matrices(self):
         self.BG = [0]
         for j in range(1, self.N):
-            if j != (self.N - 1):
+            if self.R is not None and j == (self.N - 1):
+                self.BG.append(0)
+            elif j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
             else:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
@@ -478,6 +491,16 @@ class MGnH2ServingColdWarmDelay:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    # последний ярус: прибывающие заявки теряются
+                    tag = np.dot(self.t[j - 1], self.AG[j])
+                    tag_sum = 0
+                    for t_i in range(tag.shape[1]):
+                        tag_sum += tag[0, t_i]
+                    self.z[j] = 1.0 / tag_sum
+                    self.t[j] = self.z[j] * tag
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -502,19 +525,8 @@ class MGnH2ServingColdWarmDelay:
                 else:
                     self.x[j] = (1.0) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
-- 
2.43.0

