From 6c0c1df290096076e83d568f07192ec7076697bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 01/64] fix: wake another consumer when a woken WorkQueue.get
 is cancelled

---
 dask-gateway-server/dask_gateway_server/workqueue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/workqueue.py b/dask-gateway-server/dask_gateway_server/workqueue.py
index a479b47..91b7320 100644
--- a/dask-gateway-server/dask_gateway_server/workqueue.py
+++ b/dask-gateway-server/dask_gateway_server/workqueue.py
@@ -158,6 +158,9 @@ class WorkQueue:
                     self._waiting.remove(waiter)
                 except ValueError:
                     pass
+                if self._queue and not waiter.cancelled():
+                    # We were woken for an item we won't process, pass it on
+                    self._wakeup_next()
                 raise
         return self._get()
 
-- 
2.43.0


From c49577191fde80b02b7edf6ccefa2735b29d0226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 02/64] fix: WorkQueue backoff no longer overflows after many
 failures

---
 dask-gateway-server/dask_gateway_server/workqueue.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/workqueue.py b/dask-gateway-server/dask_gateway_server/workqueue.py
index 91b7320..ed9e0fa 100644
--- a/dask-gateway-server/dask_gateway_server/workqueue.py
+++ b/dask-gateway-server/dask_gateway_server/workqueue.py
@@ -23,8 +23,10 @@ class Backoff:
         """Get the backoff time for an item (in seconds)"""
         exp = self._failures[item]
         self._failures[item] = exp + 1
-        backoff = min(self.base_delay * 2**exp, self.max_delay)
-        return backoff
+        try:
+            return min(self.base_delay * 2**exp, self.max_delay)
+        except OverflowError:
+            return self.max_delay
 
     def failures(self, item):
         """Get the number of failures seen for an item"""
-- 
2.43.0


From 203d44cd768414adcbcf1b5745ffc7b9bc8735b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 03/64] fix: late cluster status checks no longer override a
 changed cluster

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 1e34f59..3ad5469 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1096,7 +1096,10 @@ class DBBackendBase(Backend):
                 updates = [
                     (c, {"target": JobStatus.FAILED})
                     for c, ok in zip(clusters, statuses)
+                    # The cluster may have changed during the check
                     if not ok
+                    and c.status == JobStatus.SUBMITTED
+                    and c.target == JobStatus.RUNNING
                 ]
                 self.db.update_clusters(updates)
                 for c, _ in updates:
-- 
2.43.0


From 84ee69708caeb9fba2edfe039889d2bf6850413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 04/64] fix: a cluster stopped while its start fails ends
 stopped, not failed

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 3ad5469..9ed7c93 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1269,9 +1269,9 @@ class DBBackendBase(Backend):
                 self.log.warning(
                     "Failed to submit cluster %s", cluster.name, exc_info=exc
                 )
-            self.db.update_cluster(
-                cluster, status=JobStatus.SUBMITTED, target=JobStatus.FAILED
-            )
+            # Keep the target if the cluster was stopped in the meantime
+            target = JobStatus.FAILED if cluster.is_active() else cluster.target
+            self.db.update_cluster(cluster, status=JobStatus.SUBMITTED, target=target)
             self.queue.put(cluster)
 
     async def _cluster_to_closing(self, cluster):
-- 
2.43.0


From 53980774da1d271cddbd33d024b40dc14586e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 05/64] fix: late worker status checks no longer stop workers
 that have connected

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 9ed7c93..951b6aa 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1132,7 +1132,10 @@ class DBBackendBase(Backend):
                 updates = [
                     (w, {"target": JobStatus.FAILED})
                     for w, ok in zip(workers, statuses)
+                    # The worker may have changed during the check
                     if not ok
+                    and w.status == JobStatus.SUBMITTED
+                    and w.target == JobStatus.RUNNING
                 ]
                 self.db.update_workers(updates)
                 for w, _ in updates:
-- 
2.43.0


From 1780c0566b4d8cb3f24a94c9d629d8d19849fa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 06/64] fix: a worker connecting before its start call ends
 stays running

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 951b6aa..2ae5ef7 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1360,7 +1360,9 @@ class DBBackendBase(Backend):
                 async for state in self.do_start_worker(worker):
                     self.log.debug("State update for worker %s", worker.name)
                     self.db.update_worker(worker, state=state)
-            self.db.update_worker(worker, status=JobStatus.SUBMITTED)
+            # A heartbeat may already have reported the worker as running
+            if worker.status < JobStatus.SUBMITTED:
+                self.db.update_worker(worker, status=JobStatus.SUBMITTED)
             self.log.info("Worker %s submitted", worker.name)
         except asyncio.CancelledError:
             raise
-- 
2.43.0


From 4196d46e23e51a6396dca36f8f8fb2ab1a67a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 07/64] fix: a worker stopped on purpose while starting never
 counts as a start failure

---
 .../dask_gateway_server/backends/db_base.py            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 2ae5ef7..60db17f 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1373,10 +1373,12 @@ class DBBackendBase(Backend):
                 self.log.warning(
                     "Failed to submit worker %s", worker.name, exc_info=exc
                 )
-            self.db.update_worker(
-                worker, status=JobStatus.SUBMITTED, target=JobStatus.FAILED
-            )
-            worker.cluster.worker_start_failure_count += 1
+            # Keep the target if the worker was stopped in the meantime
+            target = worker.target
+            if target == JobStatus.RUNNING:
+                target = JobStatus.FAILED
+                worker.cluster.worker_start_failure_count += 1
+            self.db.update_worker(worker, status=JobStatus.SUBMITTED, target=target)
             self.queue.put(worker)
 
     async def _worker_to_stopped(self, worker):
-- 
2.43.0


From c54a5e69449ce566353176dd640670e1ad1ed4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 08/64] fix: converge when the count was raised again while
 workers were closing

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 60db17f..78a9c9c 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1234,9 +1234,7 @@ class DBBackendBase(Backend):
             await self._worker_to_stopped(worker)
             if self.is_cluster_ready_to_close(worker.cluster):
                 self.queue.put(worker.cluster)
-            elif (
-                worker.cluster.target == JobStatus.RUNNING and not worker.close_expected
-            ):
+            elif worker.cluster.target == JobStatus.RUNNING:
                 self.queue.put(worker.cluster)
             return
 
-- 
2.43.0


From ca98a720a07ce397f037826a2f4969cc2f45727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:30 +0000
Subject: [PATCH 09/64] fix: workers already being stopped no longer make
 others surplus, so scaling converges

---
 .../dask_gateway_server/backends/db_base.py               | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 78a9c9c..f4cd659 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -981,6 +981,7 @@ class DBBackendBase(Backend):
         if count != cluster.count:
             cluster_update["count"] = count
 
+        n_active = 0
         created_workers = []
         submitted_workers = []
         target_updates = []
@@ -996,12 +997,14 @@ class DBBackendBase(Backend):
             elif worker.name in active_workers:
                 if worker.status < JobStatus.RUNNING:
                     newly_running.append(worker)
+                if worker.is_active():
+                    n_active += 1
             elif worker.name in closed_workers:
                 target = (
                     JobStatus.STOPPED if worker.close_expected else JobStatus.FAILED
                 )
                 target_updates.append((worker, {"target": target}))
-            else:
+            elif worker.is_active():
                 if worker.status == JobStatus.SUBMITTED:
                     submitted_workers.append(worker)
                 else:
@@ -1009,7 +1012,8 @@ class DBBackendBase(Backend):
                     created_workers.append(worker)
 
         n_pending = len(created_workers) + len(submitted_workers)
-        n_to_stop = len(active_workers) + n_pending - count
+        # Workers already being stopped are replaced, so they don't count
+        n_to_stop = n_active + n_pending - count
         if n_to_stop > 0:
             for w in islice(chain(created_workers, submitted_workers), n_to_stop):
                 target_updates.append((w, {"target": JobStatus.STOPPED}))
-- 
2.43.0


From 3bad1f4547440509fc8840374e0c9adf5c2d5f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:13 +0000
Subject: [PATCH 10/64] fix: a worker whose start call fails after it connected
 connects only once

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index f4cd659..d2c6dac 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1380,7 +1380,9 @@ class DBBackendBase(Backend):
             if target == JobStatus.RUNNING:
                 target = JobStatus.FAILED
                 worker.cluster.worker_start_failure_count += 1
-            self.db.update_worker(worker, status=JobStatus.SUBMITTED, target=target)
+            # A heartbeat may already have reported the worker as running
+            status = max(worker.status, JobStatus.SUBMITTED)
+            self.db.update_worker(worker, status=status, target=target)
             self.queue.put(worker)
 
     async def _worker_to_stopped(self, worker):
-- 
2.43.0


From 22bed99d245f16fc78f2c8b3a6a40028ad05f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 11/64] fix: the start timeout no longer fails clusters that
 have already connected

---
 .../dask_gateway_server/backends/db_base.py               | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index d2c6dac..88a5535 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1060,8 +1060,12 @@ class DBBackendBase(Backend):
         worker_updates = []
         for cluster in self.db.active_clusters():
             if cluster.status == JobStatus.SUBMITTED:
-                # Check if submitted clusters have timed out
-                if cluster.start_time < cluster_start_cutoff:
+                # Check if submitted clusters have timed out. Those with a known
+                # address have connected already, and are about to be running.
+                if (
+                    not cluster.scheduler_address
+                    and cluster.start_time < cluster_start_cutoff
+                ):
                     self.log.info("Cluster %s startup timed out", cluster.name)
                     cluster_updates.append((cluster, {"target": JobStatus.FAILED}))
             elif cluster.status == JobStatus.RUNNING:
-- 
2.43.0


From 0873cd0d5ca8e63c5fe4721c8e7fd150e71f1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 12/64] fix: a late status check no longer fails a cluster that
 has already connected

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 88a5535..b265d69 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1108,6 +1108,7 @@ class DBBackendBase(Backend):
                     if not ok
                     and c.status == JobStatus.SUBMITTED
                     and c.target == JobStatus.RUNNING
+                    and not c.scheduler_address
                 ]
                 self.db.update_clusters(updates)
                 for c, _ in updates:
-- 
2.43.0


From 54f266df9e20dd573870cc8b0a4245ddf191f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 13/64] fix: a cluster restored between connecting and running
 no longer stops all timeout checks

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index b265d69..642e1d1 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1324,6 +1324,9 @@ class DBBackendBase(Backend):
     async def _cluster_to_running(self, cluster):
         self.log.info("Cluster %s is running", cluster.name)
         self.db.update_cluster(cluster, status=JobStatus.RUNNING)
+        if cluster.last_heartbeat is None:
+            # Connected before a restart of the gateway
+            cluster.last_heartbeat = timestamp()
         cluster.ready.set()
 
     async def _check_cluster_proxied(self, cluster):
-- 
2.43.0


From 6fa4205c4c815b5eaa8b93698504f567b98591ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:38 +0000
Subject: [PATCH 14/64] fix: a start interrupted by a crash is not repeated
 after the restart

---
 .../dask_gateway_server/backends/db_base.py               | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 642e1d1..59711a3 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -849,12 +849,18 @@ class DBBackendBase(Backend):
         self.task_pool.spawn(self.check_workers_loop())
         self.task_pool.spawn(self.cleanup_db_loop())
 
-        # Load all active clusters/workers into reconcilation queues
+        # Load all active clusters/workers into reconcilation queues. Those whose
+        # start was interrupted half way are not started again, the status and
+        # timeout checks decide what becomes of them.
         for cluster in self.db.name_to_cluster.values():
             if cluster.status < JobStatus.STOPPED:
+                if cluster.status == JobStatus.CREATED and cluster.state:
+                    self.db.update_cluster(cluster, status=JobStatus.SUBMITTED)
                 self.queue.put(cluster)
                 for worker in cluster.workers.values():
                     if worker.status < JobStatus.STOPPED:
+                        if worker.status == JobStatus.CREATED and worker.state:
+                            self.db.update_worker(worker, status=JobStatus.SUBMITTED)
                         self.queue.put(worker)
 
         # Further backend-specific setup
-- 
2.43.0


From 8c752de41266a8b9be51149b281e0477d8996009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:22 +0000
Subject: [PATCH 15/64] fix: memory follows the database only once the
 transaction is committed

---
 .../dask_gateway_server/backends/db_base.py   | 61 ++++++++++---------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 59711a3..29392b1 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -397,13 +397,13 @@ class DataManager:
                     [{"id": i} for i in to_delete],
                 )
 
-                for i in to_delete:
-                    cluster = self.id_to_cluster.pop(i)
-                    self.name_to_cluster.pop(cluster.name, None)
-                    user_clusters = self.username_to_clusters[cluster.username]
-                    user_clusters.pop(cluster.name)
-                    if not user_clusters:
-                        self.username_to_clusters.pop(cluster.username)
+        for i in to_delete:
+            cluster = self.id_to_cluster.pop(i)
+            self.name_to_cluster.pop(cluster.name, None)
+            user_clusters = self.username_to_clusters[cluster.username]
+            user_clusters.pop(cluster.name)
+            if not user_clusters:
+                self.username_to_clusters.pop(cluster.username)
 
         return len(to_delete)
 
@@ -483,17 +483,18 @@ class DataManager:
                     **common,
                 )
             )
-            cluster = Cluster(
-                id=res.inserted_primary_key[0],
-                token=token,
-                tls_cert=tls_cert,
-                tls_key=tls_key,
-                config=FrozenAttrDict(config),
-                **common,
-            )
-            self.id_to_cluster[cluster.id] = cluster
-            self.name_to_cluster[cluster_name] = cluster
-            self.username_to_clusters[username][cluster_name] = cluster
+        # The transaction is committed, now update the memory representation
+        cluster = Cluster(
+            id=res.inserted_primary_key[0],
+            token=token,
+            tls_cert=tls_cert,
+            tls_key=tls_key,
+            config=FrozenAttrDict(config),
+            **common,
+        )
+        self.id_to_cluster[cluster.id] = cluster
+        self.name_to_cluster[cluster_name] = cluster
+        self.username_to_clusters[username][cluster_name] = cluster
 
         return cluster
 
@@ -512,8 +513,8 @@ class DataManager:
 
         with self.db.begin() as conn:
             res = conn.execute(workers.insert().values(cluster_id=cluster.id, **common))
-            worker = Worker(id=res.inserted_primary_key[0], cluster=cluster, **common)
-            cluster.workers[worker.name] = worker
+        worker = Worker(id=res.inserted_primary_key[0], cluster=cluster, **common)
+        cluster.workers[worker.name] = worker
 
         return worker
 
@@ -523,8 +524,8 @@ class DataManager:
             conn.execute(
                 clusters.update().where(clusters.c.id == cluster.id).values(**kwargs)
             )
-            for k, v in kwargs.items():
-                setattr(cluster, k, v)
+        for k, v in kwargs.items():
+            setattr(cluster, k, v)
 
     def update_clusters(self, updates):
         """Update multiple clusters' states"""
@@ -535,9 +536,9 @@ class DataManager:
                 clusters.update().where(clusters.c.id == sa.bindparam("_id")),
                 [{"_id": c.id, **u} for c, u in updates],
             )
-            for c, u in updates:
-                for k, v in u.items():
-                    setattr(c, k, v)
+        for c, u in updates:
+            for k, v in u.items():
+                setattr(c, k, v)
 
     def update_worker(self, worker, **kwargs):
         """Update a worker's state"""
@@ -545,8 +546,8 @@ class DataManager:
             conn.execute(
                 workers.update().where(workers.c.id == worker.id).values(**kwargs)
             )
-            for k, v in kwargs.items():
-                setattr(worker, k, v)
+        for k, v in kwargs.items():
+            setattr(worker, k, v)
 
     def update_workers(self, updates):
         """Update multiple workers' states"""
@@ -557,9 +558,9 @@ class DataManager:
                 workers.update().where(workers.c.id == sa.bindparam("_id")),
                 [{"_id": w.id, **u} for w, u in updates],
             )
-            for w, u in updates:
-                for k, v in u.items():
-                    setattr(w, k, v)
+        for w, u in updates:
+            for k, v in u.items():
+                setattr(w, k, v)
 
 
 class DBBackendBase(Backend):
-- 
2.43.0


From fbd217290749c720af2e810309675f202433f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 16/64] fix: scheduler_api_retries can be configured

---
 dask-gateway-server/dask_gateway_server/backends/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/base.py b/dask-gateway-server/dask_gateway_server/backends/base.py
index 0c42b8e..604ef1d 100644
--- a/dask-gateway-server/dask_gateway_server/backends/base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/base.py
@@ -69,6 +69,7 @@ class Backend(LoggingConfigurable):
         If failures occur after the max number of retries, the dask cluster will
         be marked as failed and will be cleaned up.
         """,
+        config=True,
     )
 
     api_url = Unicode(
-- 
2.43.0


From 60dbfe77197134fc647a4104b3c0b5f1ad3a2fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 17/64] fix: adapt bounds are validated before they reach a
 scheduler

---
 dask-gateway-server/dask_gateway_server/routes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/routes.py b/dask-gateway-server/dask_gateway_server/routes.py
index 5b8d0bf..c4f5355 100644
--- a/dask-gateway-server/dask_gateway_server/routes.py
+++ b/dask-gateway-server/dask_gateway_server/routes.py
@@ -235,6 +235,11 @@ async def adapt_cluster(request):
     minimum = msg.get("minimum", None)
     maximum = msg.get("maximum", None)
     active = msg.get("active", True)
+    for name, value in [("minimum", minimum), ("maximum", maximum)]:
+        if value is not None and (not isinstance(value, int) or value < 0):
+            raise web.HTTPUnprocessableEntity(
+                reason=f"Adapt expects `{name}` to be a non-negative integer, got {value!r}"
+            )
 
     max_workers = cluster.config.get("cluster_max_workers")
     resp_msg = None
-- 
2.43.0


From f22d7e717635e1f2ac9989084a6eb3b0eb333109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 18/64] fix: a malformed Authorization header is refused as
 unauthorized

---
 dask-gateway-server/dask_gateway_server/auth.py   | 15 +++++++++------
 .../dask_gateway_server/proxy/core.py             |  2 +-
 dask-gateway-server/dask_gateway_server/routes.py |  4 ++--
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/auth.py b/dask-gateway-server/dask_gateway_server/auth.py
index 95a4c88..c2eb50d 100644
--- a/dask-gateway-server/dask_gateway_server/auth.py
+++ b/dask-gateway-server/dask_gateway_server/auth.py
@@ -195,12 +195,15 @@ class SimpleAuthenticator(Authenticator):
         if not auth_header:
             raise unauthorized("Basic")
 
-        auth_type, auth_key = auth_header.split(" ", 1)
+        auth_type, _, auth_key = auth_header.partition(" ")
         if auth_type != "Basic":
             raise unauthorized("Basic")
 
-        auth_key = base64.b64decode(auth_key).decode("ascii")
-        user, password = auth_key.split(":", 1)
+        try:
+            auth_key = base64.b64decode(auth_key).decode("ascii")
+            user, password = auth_key.split(":", 1)
+        except ValueError:
+            raise unauthorized("Basic")
 
         if self.password and password != self.password:
             raise unauthorized("Basic")
@@ -237,7 +240,7 @@ class KerberosAuthenticator(Authenticator):
         if not auth_header:
             raise unauthorized("Negotiate")
 
-        auth_type, auth_key = auth_header.split(" ", 1)
+        auth_type, _, auth_key = auth_header.partition(" ")
         if auth_type != "Negotiate":
             raise unauthorized("Negotiate")
 
@@ -408,8 +411,8 @@ class JupyterHubAuthenticator(Authenticator):
     def get_token(self, request):
         auth_header = request.headers.get("Authorization")
         if auth_header:
-            auth_type, auth_key = auth_header.split(" ", 1)
-            if auth_type == "jupyterhub":
+            auth_type, _, auth_key = auth_header.partition(" ")
+            if auth_type == "jupyterhub" and auth_key:
                 return auth_key
         return None
 
diff --git a/dask-gateway-server/dask_gateway_server/proxy/core.py b/dask-gateway-server/dask_gateway_server/proxy/core.py
index 9b4c712..c91cf97 100644
--- a/dask-gateway-server/dask_gateway_server/proxy/core.py
+++ b/dask-gateway-server/dask_gateway_server/proxy/core.py
@@ -372,7 +372,7 @@ class Proxy(LoggingConfigurable):
         if not auth_header:
             raise web.HTTPUnauthorized(headers={"WWW-Authenticate": "token"})
 
-        auth_type, auth_token = auth_header.split(" ", 1)
+        auth_type, _, auth_token = auth_header.partition(" ")
         if auth_type != "token" or auth_token != self.api_token:
             raise web.HTTPUnauthorized(headers={"WWW-Authenticate": "token"})
 
diff --git a/dask-gateway-server/dask_gateway_server/routes.py b/dask-gateway-server/dask_gateway_server/routes.py
index c4f5355..d3df441 100644
--- a/dask-gateway-server/dask_gateway_server/routes.py
+++ b/dask-gateway-server/dask_gateway_server/routes.py
@@ -31,8 +31,8 @@ def _wrap_authenticated(handler, user=False, token=False):
             backend = request.app["backend"]
             auth_header = request.headers.get("Authorization")
             if auth_header:
-                auth_type, auth_token = auth_header.split(" ", 1)
-                if auth_type == "token":
+                auth_type, _, auth_token = auth_header.partition(" ")
+                if auth_type == "token" and auth_token:
                     cluster_name = request.match_info["cluster_name"]
                     cluster = await backend.get_cluster(cluster_name)
                     if cluster is not None and cluster.token == auth_token:
-- 
2.43.0


From fcfd9ef5e228ad1a34e8d71d039f031da5183505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 19/64] fix: an error message with line breaks is answered, not
 a crash

---
 .../dask_gateway_server/routes.py             | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/routes.py b/dask-gateway-server/dask_gateway_server/routes.py
index d3df441..75556e2 100644
--- a/dask-gateway-server/dask_gateway_server/routes.py
+++ b/dask-gateway-server/dask_gateway_server/routes.py
@@ -6,6 +6,11 @@ from . import models
 from .backends.base import PublicException
 
 
+def _one_line(message):
+    """The reason of a response may not contain line breaks"""
+    return " ".join(str(message).splitlines())
+
+
 def _wrap_error_handler(handler):
     @wraps(handler)
     async def inner(request):
@@ -107,7 +112,7 @@ async def list_clusters(request):
         try:
             statuses = [models.ClusterStatus.from_name(k) for k in status.split(",")]
         except Exception as exc:
-            raise web.HTTPUnprocessableEntity(reason=str(exc))
+            raise web.HTTPUnprocessableEntity(reason=_one_line(exc))
     clusters = await backend.list_clusters(username=user.name, statuses=statuses)
     return web.json_response({c.name: c.to_dict() for c in clusters})
 
@@ -127,7 +132,7 @@ async def create_cluster(request):
         request.app["log"].info(
             "Error creating new cluster for user %s: %s", user.name, reason
         )
-        raise web.HTTPUnprocessableEntity(reason=reason)
+        raise web.HTTPUnprocessableEntity(reason=_one_line(reason))
     return web.json_response({"name": cluster_name}, status=201)
 
 
@@ -153,7 +158,7 @@ async def get_cluster(request):
     wait = _parse_query_flag(wait)
     cluster = await backend.get_cluster(cluster_name, wait=wait)
     if cluster is None:
-        raise web.HTTPNotFound(reason=f"Cluster {cluster_name} not found")
+        raise web.HTTPNotFound(reason=_one_line(f"Cluster {cluster_name} not found"))
     if not user.has_permissions(cluster):
         raise web.HTTPForbidden(
             reason=f"User {user.name} lacks permissions to view cluster {cluster_name}"
@@ -185,7 +190,7 @@ async def scale_cluster(request):
     backend = request.app["backend"]
     cluster = await backend.get_cluster(cluster_name)
     if cluster is None:
-        raise web.HTTPNotFound(reason=f"Cluster {cluster_name} not found")
+        raise web.HTTPNotFound(reason=_one_line(f"Cluster {cluster_name} not found"))
     if not user.has_permissions(cluster):
         raise web.HTTPForbidden(
             reason=f"User {user.name} lacks permissions to view cluster {cluster_name}"
@@ -195,7 +200,7 @@ async def scale_cluster(request):
     count = msg.get("count", None)
     if not isinstance(count, int) or count < 0:
         raise web.HTTPUnprocessableEntity(
-            reason=f"Scale expects a non-negative integer, got {count}"
+            reason=f"Scale expects a non-negative integer, got {count!r}"
         )
 
     max_workers = cluster.config.get("cluster_max_workers")
@@ -212,7 +217,7 @@ async def scale_cluster(request):
             cluster, {"op": "scale", "count": count}
         )
     except PublicException as exc:
-        raise web.HTTPConflict(reason=str(exc))
+        raise web.HTTPConflict(reason=_one_line(exc))
 
     return web.json_response({"ok": not resp_msg, "msg": resp_msg})
 
@@ -225,7 +230,7 @@ async def adapt_cluster(request):
     backend = request.app["backend"]
     cluster = await backend.get_cluster(cluster_name)
     if cluster is None:
-        raise web.HTTPNotFound(reason=f"Cluster {cluster_name} not found")
+        raise web.HTTPNotFound(reason=_one_line(f"Cluster {cluster_name} not found"))
     if not user.has_permissions(cluster):
         raise web.HTTPForbidden(
             reason=f"User {user.name} lacks permissions to view cluster {cluster_name}"
@@ -265,7 +270,7 @@ async def adapt_cluster(request):
             {"op": "adapt", "minimum": minimum, "maximum": maximum, "active": active},
         )
     except PublicException as exc:
-        raise web.HTTPConflict(reason=str(exc))
+        raise web.HTTPConflict(reason=_one_line(exc))
 
     return web.json_response({"ok": not resp_msg, "msg": resp_msg})
 
@@ -279,5 +284,5 @@ async def handle_heartbeat(request):
     try:
         await backend.on_cluster_heartbeat(cluster_name, msg)
     except PublicException as exc:
-        raise web.HTTPConflict(reason=str(exc))
+        raise web.HTTPConflict(reason=_one_line(exc))
     return web.Response()
-- 
2.43.0


From 1d52a0c83aa0e433ccc55cd67e597cc63901b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 20/64] fix: NaN does not satisfy the bounds of a number option

---
 dask-gateway-server/dask_gateway_server/options.py | 4 ++--
 dask-gateway/dask_gateway/options.py               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/options.py b/dask-gateway-server/dask_gateway_server/options.py
index 88e6693..a790013 100644
--- a/dask-gateway-server/dask_gateway_server/options.py
+++ b/dask-gateway-server/dask_gateway_server/options.py
@@ -225,9 +225,9 @@ class Number(Field):
         super().__init__(field, default=default, label=label, target=target)
 
     def validate(self, x):
-        if self.min is not None and x < self.min:
+        if self.min is not None and not x >= self.min:
             raise ValueError(f"{self.field} must be >= {self.min:f}, got {x}")
-        if self.max is not None and x > self.max:
+        if self.max is not None and not x <= self.max:
             raise ValueError(f"{self.field} must be <= {self.max:f}, got {x}")
         return x
 
diff --git a/dask-gateway/dask_gateway/options.py b/dask-gateway/dask_gateway/options.py
index 6aebe3b..664b2a7 100644
--- a/dask-gateway/dask_gateway/options.py
+++ b/dask-gateway/dask_gateway/options.py
@@ -235,9 +235,9 @@ class Number(Field):
         super().__init__(field, default, label=label)
 
     def validate(self, x):
-        if self.min is not None and x < self.min:
+        if self.min is not None and not x >= self.min:
             raise ValueError(f"{self.field} must be >= {self.min:f}, got {x}")
-        if self.max is not None and x > self.max:
+        if self.max is not None and not x <= self.max:
             raise ValueError(f"{self.field} must be <= {self.max:f}, got {x}")
         return x
 
-- 
2.43.0


From 8fa2bd7003b736fe7d2ebe1fcc3ff34cffddecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 21/64] fix: the widget of a float option respects a bound of
 zero

---
 dask-gateway/dask_gateway/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dask-gateway/dask_gateway/options.py b/dask-gateway/dask_gateway/options.py
index 664b2a7..433c133 100644
--- a/dask-gateway/dask_gateway/options.py
+++ b/dask-gateway/dask_gateway/options.py
@@ -283,8 +283,8 @@ class Float(Number):
         else:
             return ipywidgets.BoundedFloatText(
                 value=self.value,
-                min=self.min or float("-inf"),
-                max=self.max or float("inf"),
+                min=float("-inf") if self.min is None else self.min,
+                max=float("inf") if self.max is None else self.max,
             )
 
 
-- 
2.43.0


From ead250a480f260a6b5c51ea08d432d60504122af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 22/64] fix: options handlers can't alter the recorded options
 or the choices of a Select

---
 dask-gateway-server/dask_gateway_server/options.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/options.py b/dask-gateway-server/dask_gateway_server/options.py
index a790013..a9b0be9 100644
--- a/dask-gateway-server/dask_gateway_server/options.py
+++ b/dask-gateway-server/dask_gateway_server/options.py
@@ -318,7 +318,8 @@ class Select(Field):
 
     def transform(self, x):
         self.validate(x)
-        return self.options[x]
+        # Handlers may modify what they're given
+        return copy.deepcopy(self.options[x])
 
     def json_type_spec(self):
         return {"type": "select", "options": list(self.options)}
@@ -345,5 +346,9 @@ class Mapping(Field):
     def get_default(self):
         return copy.deepcopy(self.default)
 
+    def transform(self, x):
+        # Handlers may modify what they're given
+        return copy.deepcopy(x)
+
     def json_type_spec(self):
         return {"type": "mapping"}
-- 
2.43.0


From 7b23a6d689c94241cd947ab5a74341fe88ce9136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 23/64] fix: resource limits hold when some values are
 configured and others are options

---
 .../dask_gateway_server/backends/base.py             | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/base.py b/dask-gateway-server/dask_gateway_server/backends/base.py
index 604ef1d..f9f8dc7 100644
--- a/dask-gateway-server/dask_gateway_server/backends/base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/base.py
@@ -391,6 +391,18 @@ class ClusterConfig(Configurable):
         config=True,
     )
 
+    def __init__(self, **kwargs):
+        # The resource limits depend on each other, so they're only validated
+        # once the options are loaded on top of the configuration file.
+        configurable = self.trait_names(config=True)
+        self._options = {k: kwargs.pop(k) for k in configurable if k in kwargs}
+        super().__init__(**kwargs)
+
+    def _find_my_config(self, cfg):
+        config = super()._find_my_config(cfg)
+        config.update(self._options)
+        return config
+
     def _check_scheduler_memory(self, scheduler_memory, cluster_max_memory):
         if cluster_max_memory is not None and scheduler_memory > cluster_max_memory:
             memory = format_bytes(scheduler_memory)
-- 
2.43.0


From 21626fe0fd9d96541402913de13a0053581c7154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 24/64] fix: connections whose ClientHello is large or split
 over records are routed

---
 .../dask-gateway-proxy/pkg/sni/sni.go         | 32 ++++++++-----------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go b/dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go
index c326b03..3d7eb7b 100644
--- a/dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go
+++ b/dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"crypto/tls"
+	"errors"
 	"io"
 	"net"
 )
@@ -44,7 +45,7 @@ func (c *peekedTCPConn) Read(p []byte) (n int, err error) {
 	return c.TCPConn.Read(p)
 }
 
-func wrapPeeked(inConn *net.TCPConn, br *bufio.Reader) TcpConn {
+func wrapPeeked(inConn *net.TCPConn, br *bufio.Reader) *peekedTCPConn {
 	peeked, _ := br.Peek(br.Buffered())
 	return &peekedTCPConn{TCPConn: inConn, peeked: peeked}
 }
@@ -57,6 +58,8 @@ type readonly struct {
 func (c readonly) Read(p []byte) (int, error) { return c.r.Read(p) }
 func (readonly) Write(p []byte) (int, error)  { return 0, io.EOF }
 
+var errHelloRead = errors.New("client hello read")
+
 func ReadSNI(inConn *net.TCPConn) (string, bool, TcpConn, error) {
 	br := bufio.NewReader(inConn)
 	hdr, err := br.Peek(1)
@@ -69,26 +72,19 @@ func ReadSNI(inConn *net.TCPConn) (string, bool, TcpConn, error) {
 		return "", false, wrapPeeked(inConn, br), nil
 	}
 
-	const headerLen = 5
-	hdr, err = br.Peek(headerLen)
-	if err != nil {
-		return "", false, wrapPeeked(inConn, br), nil
-	}
-
-	recLen := int(hdr[3])<<8 | int(hdr[4])
-	helloBytes, err := br.Peek(headerLen + recLen)
-	if err != nil {
-		return "", true, wrapPeeked(inConn, br), nil
-	}
-
+	// The hello may be of any size, and split over several records. Keep all
+	// that is read while looking for its end.
+	var hello bytes.Buffer
 	sni := ""
-	server := tls.Server(readonly{r: bytes.NewReader(helloBytes)}, &tls.Config{
-		GetConfigForClient: func(hello *tls.ClientHelloInfo) (*tls.Config, error) {
-			sni = hello.ServerName
-			return nil, nil
+	server := tls.Server(readonly{r: io.TeeReader(br, &hello)}, &tls.Config{
+		GetConfigForClient: func(info *tls.ClientHelloInfo) (*tls.Config, error) {
+			sni = info.ServerName
+			return nil, errHelloRead
 		},
 	})
 	server.Handshake()
 
-	return sni, true, wrapPeeked(inConn, br), nil
+	conn := wrapPeeked(inConn, br)
+	conn.peeked = append(hello.Bytes(), conn.peeked...)
+	return sni, true, conn, nil
 }
-- 
2.43.0


From e8ce3a44e799035cd896f2aa82f818aab87c6a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 25/64] fix: the TCP proxy closes the finished direction only

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index b6437af..dd7f8a3 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -530,8 +530,9 @@ func (p *Proxy) proxyConnections(wg *sync.WaitGroup, in, out sni.TcpConn) {
 	if _, err := io.Copy(in, out); err != nil {
 		p.logger.Debugf("Error proxying %q -> %q: %s", in.RemoteAddr(), out.RemoteAddr(), err)
 	}
-	in.CloseRead()
-	out.CloseWrite()
+	// Everything from out is sent, what goes the other way may go on
+	in.CloseWrite()
+	out.CloseRead()
 }
 
 func (p *Proxy) runTCP(ln net.Listener, forwarder *Forwarder) {
-- 
2.43.0


From fa227de8b27ad47d2c44e6287c6cc28ab4874780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 26/64] fix: failing to accept a connection doesn't end the
 proxy

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index dd7f8a3..d290bb9 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -539,7 +539,10 @@ func (p *Proxy) runTCP(ln net.Listener, forwarder *Forwarder) {
 	for {
 		c, err := ln.Accept()
 		if err != nil {
+			// Out of file descriptors or the like, don't spin meanwhile
 			p.logger.Debugf("Failed to accept new connection: %s", err)
+			time.Sleep(10 * time.Millisecond)
+			continue
 		}
 
 		go p.handleConnection(c.(*net.TCPConn), forwarder)
-- 
2.43.0


From 5733f0c817abd9d84fd035546db25327b79a0757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 27/64] fix: long messages of routing events are read

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index d290bb9..73876e8 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -8,6 +8,7 @@ import (
 	"flag"
 	"fmt"
 	"io"
+	"math"
 	"net"
 	"net/http"
 	"net/http/httputil"
@@ -266,9 +267,12 @@ type evIter struct {
 }
 
 func NewEvIter(body io.ReadCloser) *evIter {
+	scanner := bufio.NewScanner(body)
+	// A line holds all the events missed, there's no limit to its length
+	scanner.Buffer(nil, math.MaxInt)
 	return &evIter{
 		body:    body,
-		scanner: bufio.NewScanner(body),
+		scanner: scanner,
 	}
 }
 
-- 
2.43.0


From fbfd589c290522c36ca1bf128149efbceea00f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 28/64] fix: the web proxy keeps the encoding of paths

---
 .../cmd/dask-gateway-proxy/main.go            | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index 73876e8..9243234 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -404,7 +404,14 @@ func (p *Proxy) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 		req.URL.Scheme = target.Scheme
 		req.URL.Host = target.Host
 		req.Host = target.Host
-		req.URL.Path = singleJoiningSlash(target.Path, path)
+		if req.URL.RawPath == "" {
+			req.URL.Path = singleJoiningSlash(target.Path, path)
+		} else {
+			// Keep the encoding of what follows the route
+			rest := skipDecoded(req.URL.RawPath, len(req.URL.Path)-len(path))
+			req.URL.RawPath = singleJoiningSlash(target.EscapedPath(), rest)
+			req.URL.Path, _ = url.PathUnescape(req.URL.RawPath)
+		}
 		if targetQuery == "" || req.URL.RawQuery == "" {
 			req.URL.RawQuery = targetQuery + req.URL.RawQuery
 		} else {
@@ -418,6 +425,19 @@ func (p *Proxy) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 	}
 }
 
+// What follows the first n bytes of a path, given the path's encoded form
+func skipDecoded(rawPath string, n int) string {
+	i := 0
+	for ; n > 0 && i < len(rawPath); n-- {
+		if rawPath[i] == '%' {
+			i += 3
+		} else {
+			i++
+		}
+	}
+	return rawPath[i:]
+}
+
 func singleJoiningSlash(a, b string) string {
 	aslash := strings.HasSuffix(a, "/")
 	bslash := strings.HasPrefix(b, "/")
-- 
2.43.0


From c7ea2b0a3c014538a7cca8f13a44e5250e0746bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 29/64] fix: a proxy that outlives its gateway refreshes its
 whole table

---
 .../dask_gateway_server/proxy/core.py                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/proxy/core.py b/dask-gateway-server/dask_gateway_server/proxy/core.py
index c91cf97..73115fb 100644
--- a/dask-gateway-server/dask_gateway_server/proxy/core.py
+++ b/dask-gateway-server/dask_gateway_server/proxy/core.py
@@ -2,6 +2,7 @@ import asyncio
 import json
 import os
 import subprocess
+import time
 import uuid
 
 from aiohttp import web
@@ -276,10 +277,12 @@ class Proxy(LoggingConfigurable):
 
         # Internal state
         self.routes = {}
-        self.offset = 0
+        # Ids start past any that a previous gateway handed out, so that a proxy
+        # which outlived it can't mistake the events of this one for later ones.
+        self.offset = int(time.time() * 1e6)
         self.events = []
         self._watchers = set()
-        self._next_id = 1
+        self._next_id = self.offset + 1
 
         app.on_shutdown.append(self._on_shutdown)
 
@@ -358,11 +361,12 @@ class Proxy(LoggingConfigurable):
 
     def _events_after(self, last_id=0):
         index = last_id - self.offset
-        if index >= 0:
+        if 0 <= index <= len(self.events):
             events = self.events[index:]
             return events
         else:
-            # We've since dropped these events, client needs to reset
+            # We've since dropped these events, or never had them, client needs
+            # to reset
             return None
 
     async def routes_handler(self, request):
-- 
2.43.0


From 9bcc76a45301d7b525a7b8ec5e5fc531a434b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 30/64] fix: a task spawned while its pool is closing is
 stopped too

---
 dask-gateway-server/dask_gateway_server/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/utils.py b/dask-gateway-server/dask_gateway_server/utils.py
index 06b5107..1cbb7b4 100644
--- a/dask-gateway-server/dask_gateway_server/utils.py
+++ b/dask-gateway-server/dask_gateway_server/utils.py
@@ -29,10 +29,13 @@ class TaskPool:
     async def close(self):
         # Stop all tasks
         self.closed = True
-        for task in self.tasks:
-            task.cancel()
-        await asyncio.gather(*self.tasks, return_exceptions=True)
-        self.tasks.clear()
+        # Tasks may spawn further tasks while they are being stopped
+        while self.tasks:
+            tasks = list(self.tasks)
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
+            self.tasks.difference_update(tasks)
 
 
 class CancelGroup:
-- 
2.43.0


From d67c02dc99465e76ee6250e51e4dbb656885cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 31/64] fix: a rate limiter refills fully after a long silence

---
 dask-gateway-server/dask_gateway_server/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/utils.py b/dask-gateway-server/dask_gateway_server/utils.py
index 1cbb7b4..0347166 100644
--- a/dask-gateway-server/dask_gateway_server/utils.py
+++ b/dask-gateway-server/dask_gateway_server/utils.py
@@ -96,7 +96,6 @@ class RateLimiter:
         self.rate = float(rate)
         self.burst = float(burst)
         self._tokens = float(burst)
-        self._max_elapsed = burst / rate
 
         now = time.monotonic()
         self._last = now
@@ -104,7 +103,7 @@ class RateLimiter:
 
     def _delay(self):
         now = time.monotonic()
-        elapsed = min(now - self._last, self._max_elapsed)
+        elapsed = now - self._last
         tokens = min(self._tokens + elapsed * self.rate, self.burst)
 
         tokens -= 1
-- 
2.43.0


From 6283e18500b2ead587dd2ebae1ae0bf1cc53e8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 32/64] fix: putting an existing key makes it the most recently
 used

---
 dask-gateway-server/dask_gateway_server/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dask-gateway-server/dask_gateway_server/utils.py b/dask-gateway-server/dask_gateway_server/utils.py
index 0347166..ec98fef 100644
--- a/dask-gateway-server/dask_gateway_server/utils.py
+++ b/dask-gateway-server/dask_gateway_server/utils.py
@@ -264,6 +264,7 @@ class LRUCache:
     def put(self, key, value):
         """Add an item to the cache"""
         self.cache[key] = value
+        self.cache.move_to_end(key)
         if len(self.cache) > self.max_size:
             self.cache.popitem(False)
 
-- 
2.43.0


From bf7017ea4f04e37bf713e8be42fb262424e2de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 33/64] fix: an informer waits before it retries after a
 failure

---
 .../dask_gateway_server/backends/kubernetes/utils.py       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/utils.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/utils.py
index 80db0be..e905afc 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/utils.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/utils.py
@@ -4,7 +4,7 @@ import json
 from datetime import datetime, timezone
 
 from kubernetes_asyncio import client
-from traitlets import Any, Dict, Int, Unicode
+from traitlets import Any, Dict, Float, Int, Unicode
 from traitlets.config import LoggingConfigurable
 
 from ...traitlets import Callable
@@ -72,6 +72,7 @@ class Informer(LoggingConfigurable):
     method = Unicode()
     method_kwargs = Dict()
     timeout_seconds = Int(10)
+    retry_delay = Float(1)
     on_update = Callable()
     on_delete = Callable()
 
@@ -153,6 +154,7 @@ class Informer(LoggingConfigurable):
                 self.log.error(
                     "Error in %s informer, retrying...", self.name, exc_info=exc
                 )
+                await asyncio.sleep(self.retry_delay)
                 continue
 
             initial = self.client.api_client.sanitize_for_serialization(initial)
@@ -184,9 +186,11 @@ class Informer(LoggingConfigurable):
                                         "Unexpected error in %s informer, relisting: "
                                         "message=%r, code=%d"
                                     ),
+                                    self.name,
                                     obj.get("message"),
                                     code,
                                 )
+                                await asyncio.sleep(self.retry_delay)
                             relist = True
                             break
                         try:
@@ -202,6 +206,7 @@ class Informer(LoggingConfigurable):
                 self.log.error(
                     "Error in %s informer, retrying...", self.name, exc_info=exc
                 )
+                await asyncio.sleep(self.retry_delay)
         self.log.debug("%s informer stopped", self.name)
 
 
-- 
2.43.0


From 432eaa41c7bf5082fdb230b6963a711d559fe6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 34/64] fix: ended clusters' resources are removed even if
 their status lags

---
 .../backends/kubernetes/controller.py         | 41 ++++++++++---------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 72ab030..53dcc97 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -639,7 +639,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
 
         if not active:
             self.log.info("Shutting down %s.%s", namespace, name)
-            await self.cleanup_cluster_resources(status, namespace)
+            await self.cleanup_cluster_resources(status, namespace, name)
             status = status.copy()
             status["phase"] = "Stopped"
             status["completionTime"] = k8s_timestamp()
@@ -708,7 +708,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             self.log.info(
                 "Scheduler for cluster %s.%s terminated, shutting down", namespace, name
             )
-            await self.cleanup_cluster_resources(status, namespace)
+            await self.cleanup_cluster_resources(status, namespace, name)
             status["phase"] = "Failed"
             status["completionTime"] = k8s_timestamp()
 
@@ -735,7 +735,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             self.log.info(
                 "Scheduler for cluster %s.%s terminated, shutting down", namespace, name
             )
-            await self.cleanup_cluster_resources(status, namespace)
+            await self.cleanup_cluster_resources(status, namespace, name)
             status["phase"] = "Failed"
             status["completionTime"] = k8s_timestamp()
 
@@ -890,21 +890,21 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             [{"op": "add", "path": "/status", "value": status}],
         )
 
-    async def cleanup_cluster_resources(self, status, namespace):
-        sched_pod = status.get("schedulerPod")
-        if sched_pod:
-            try:
-                await self.core_client.delete_namespaced_pod(sched_pod, namespace)
-            except ApiException as exc:
-                if exc.status != 404:
-                    raise
-        secret = status.get("credentials")
-        if secret:
-            try:
-                await self.core_client.delete_namespaced_secret(secret, namespace)
-            except ApiException as exc:
-                if exc.status != 404:
-                    raise
+    async def cleanup_cluster_resources(self, status, namespace, name):
+        # The status may lag behind what was created, fallback to the names the
+        # resources are created with.
+        sched_pod = status.get("schedulerPod") or self.make_scheduler_pod_name(name)
+        try:
+            await self.core_client.delete_namespaced_pod(sched_pod, namespace)
+        except ApiException as exc:
+            if exc.status != 404:
+                raise
+        secret = status.get("credentials") or self.make_secret_name(name)
+        try:
+            await self.core_client.delete_namespaced_secret(secret, namespace)
+        except ApiException as exc:
+            if exc.status != 404:
+                raise
 
     async def create_secret_if_not_exists(self, cluster):
         name = cluster["metadata"]["name"]
@@ -1195,10 +1195,13 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         if is_worker:
             pod["metadata"]["generateName"] = f"dask-worker-{cluster_name}-"
         else:
-            pod["metadata"]["name"] = f"dask-scheduler-{cluster_name}"
+            pod["metadata"]["name"] = self.make_scheduler_pod_name(cluster_name)
 
         return pod
 
+    def make_scheduler_pod_name(self, cluster_name):
+        return f"dask-scheduler-{cluster_name}"
+
     def make_secret_name(self, cluster_name):
         return f"dask-credentials-{cluster_name}"
 
-- 
2.43.0


From 42f98a6511773cf1d907397c23f40606c0e9e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 35/64] fix: a pending cluster whose scheduler pod is gone
 fails

---
 .../backends/kubernetes/controller.py         | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 53dcc97..03f6260 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -671,12 +671,16 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         else:
             sched_pod = self.informers["pod"].get(f"{namespace}.{sched_pod_name}")
 
-        if sched_pod is None:
+        if sched_pod is not None:
+            sched_state = get_container_state(sched_pod, "dask-scheduler")
+        elif cluster.get("status", {}).get("schedulerPod") and (
+            await self.pod_is_gone(namespace, sched_pod_name)
+        ):
+            sched_state = "terminated"
+        else:
             # Scheduler pod was created in an earlier run, but hasn't been seen
-            # by the informers. Wait until it shows up to progress further.
-            return status, False
-
-        sched_state = get_container_state(sched_pod, "dask-scheduler")
+            # by the informers. Check again later until it shows up.
+            return status, True
 
         if sched_state == "running":
             service_name = status.get("service")
@@ -797,6 +801,15 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             )
             raise
 
+    async def pod_is_gone(self, namespace, pod_name):
+        try:
+            await self.core_client.read_namespaced_pod(pod_name, namespace)
+        except ApiException as exc:
+            if exc.status == 404:
+                return True
+            raise
+        return False
+
     async def batch_create_pods(self, info, namespace, pod, count):
         """Create pods in exponentially increasing batches.
 
-- 
2.43.0


From 5c1ea7a367d37efe0ae110bc8dd1084d6122cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 36/64] fix: scaling down deletes as many pending workers as
 are surplus

---
 .../dask_gateway_server/backends/kubernetes/controller.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 03f6260..569dd03 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -869,7 +869,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         name = cluster["metadata"]["name"]
 
         if info.pending:
-            pending = list(info.pending)[:delta]
+            pending = list(info.pending)[:-delta]
         else:
             pending = []
 
-- 
2.43.0


From fb0aa482906d8a5ffd5c686005e0c8b9108f49a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 37/64] fix: deleting a pod that is gone already is no error

---
 .../dask_gateway_server/backends/kubernetes/controller.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 569dd03..e2b8a5a 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -794,7 +794,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         except Exception as exc:
             if info is not None:
                 info.deletes -= 1
-            if isinstance(exc, ApiException) and exc.code == 404:
+            if isinstance(exc, ApiException) and exc.status == 404:
                 return
             self.log.warning(
                 "Failed to delete pod %s/%s", namespace, pod_name, exc_info=True
-- 
2.43.0


From 1b7262520769e0f1db7cba3806b6daa9b40b7bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 38/64] fix: worker pods that are unscheduled, rejected or
 restarting are counted

---
 .../backends/kubernetes/controller.py                    | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index e2b8a5a..6693c93 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -518,9 +518,6 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             phase = pod["status"].get("phase", "Unknown")
             if phase == "Unknown":
                 return
-            cs = get_container_status(pod, component)
-            if cs is None:
-                return
 
             info = self.cluster_info[cluster_key]
             trigger = False
@@ -531,11 +528,17 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             elif phase == "Failed":
                 trigger = info.on_worker_failed(pod_name)
             else:
+                cs = get_container_status(pod, component)
+                if cs is None:
+                    return
                 kind = next(iter(cs["state"]))
                 if kind == "terminated" and cs["state"][kind]["exitCode"] == 0:
                     info.on_worker_succeeded(pod_name)
                 elif kind == "running":
                     info.on_worker_running(pod_name)
+                else:
+                    # The container is being restarted
+                    info.on_worker_pending(pod_name)
 
             if (trigger or info.should_trigger()) and not cluster_stopping:
                 self.queue.put(cluster_key)
-- 
2.43.0


From b23ee135e55bdfa682bd40550024b1710dcee898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 39/64] fix: a scheduler pod that failed without container
 statuses has ended

---
 .../dask_gateway_server/backends/kubernetes/controller.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 6693c93..aa67a88 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -58,6 +58,9 @@ def get_container_state(pod, name):
     cs = get_container_status(pod, name)
     if cs is not None:
         return next(iter(cs["state"]))
+    if phase in ("Succeeded", "Failed"):
+        # Stopped without its containers ever being started, or evicted
+        return "terminated"
     return "unknown"
 
 
-- 
2.43.0


From 99e8e68f509bba4d14d988d8d66bb07e75e3b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 40/64] fix: a cluster is checked again when its expected pod
 operations time out

---
 .../backends/kubernetes/controller.py                  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index aa67a88..4b79bc8 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -103,7 +103,11 @@ class ClusterInfo:
 
     def expectations_expired(self):
         """Return true if expected pod operations have timed out"""
-        return time.monotonic() - self.timestamp > 600
+        return self.expires_in() < 0
+
+    def expires_in(self):
+        """Seconds until the expectated pod operations time out"""
+        return 600 - (time.monotonic() - self.timestamp)
 
     def should_trigger(self):
         """Return true if our expectations indicate the cluster should be
@@ -763,6 +767,10 @@ class KubeController(KubeBackendAndControllerMixin, Application):
                     requeue = await self.handle_scale_down(
                         cluster, sched_pod, info, replicas, delta
                     )
+            if not info.should_trigger():
+                # Some operations may never be seen (e.g. a pod that's deleted
+                # while a watch is broken), check again when they time out.
+                self.queue.put_after(cluster_key, info.expires_in() + 1)
         return status, requeue
 
     async def create_pod(self, namespace, pod, info=None):
-- 
2.43.0


From 26a79e28219ff6bd8f8595d3f4e38417d9029b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 41/64] fix: an outdated status never overwrites a newer one

---
 .../backends/kubernetes/controller.py         | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 4b79bc8..c1138c9 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -623,9 +623,8 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         status_update, requeue = await self.handle_cluster(cluster)
 
         if status_update is not None and status_update != cluster.get("status"):
-            namespace = cluster["metadata"]["namespace"]
-            name = cluster["metadata"]["name"]
-            await self.patch_cluster_status(namespace, name, status_update)
+            updated = await self.patch_cluster_status(cluster, status_update)
+            return requeue or not updated
         return requeue
 
     async def handle_cluster(self, cluster):
@@ -907,15 +906,30 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             return any(isinstance(r, Exception) for r in res)
         return False
 
-    async def patch_cluster_status(self, namespace, name, status):
-        await self.custom_client.patch_namespaced_custom_object_status(
-            "gateway.dask.org",
-            self.crd_version,
-            namespace,
-            "daskclusters",
-            name,
-            [{"op": "add", "path": "/status", "value": status}],
-        )
+    async def patch_cluster_status(self, cluster, status):
+        namespace = cluster["metadata"]["namespace"]
+        name = cluster["metadata"]["name"]
+        # The status was decided on a cached version of the cluster, don't
+        # overwrite the status of a newer one.
+        version = cluster["metadata"]["resourceVersion"]
+        try:
+            await self.custom_client.patch_namespaced_custom_object_status(
+                "gateway.dask.org",
+                self.crd_version,
+                namespace,
+                "daskclusters",
+                name,
+                [
+                    {"op": "test", "path": "/metadata/resourceVersion", "value": version},
+                    {"op": "add", "path": "/status", "value": status},
+                ],
+            )
+        except ApiException as exc:
+            if exc.status not in (409, 422):
+                raise
+            self.log.debug("Cluster %s.%s was modified meanwhile", namespace, name)
+            return False
+        return True
 
     async def cleanup_cluster_resources(self, status, namespace, name):
         # The status may lag behind what was created, fallback to the names the
-- 
2.43.0


From d7618d8f14a2b0da04a0383e408dfe3eef6d2793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 42/64] fix: stopping a cluster that was deleted meanwhile is
 no error

---
 .../backends/kubernetes/backend.py            | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/backend.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/backend.py
index 89b3da1..d39182d 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/backend.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/backend.py
@@ -422,14 +422,19 @@ class KubeBackend(KubeBackendAndControllerMixin, Backend):
         self.log.info("Stopping cluster %s", cluster_name)
 
         namespace, name = cluster_name.split(".")
-        await self.custom_client.patch_namespaced_custom_object(
-            "gateway.dask.org",
-            self.crd_version,
-            namespace,
-            "daskclusters",
-            name,
-            [{"op": "add", "path": "/spec/active", "value": False}],
-        )
+        try:
+            await self.custom_client.patch_namespaced_custom_object(
+                "gateway.dask.org",
+                self.crd_version,
+                namespace,
+                "daskclusters",
+                name,
+                [{"op": "add", "path": "/spec/active", "value": False}],
+            )
+        except ApiException as exc:
+            # The cluster may have been deleted meanwhile
+            if exc.status != 404:
+                raise
 
     async def get_cluster(self, cluster_name, wait=False):
         if wait:
-- 
2.43.0


From 7849ae92cecfe4b527db21f17b8bc28315f83ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 43/64] fix: a scale request during a heartbeat is reported
 after it

---
 dask-gateway/dask_gateway/scheduler_preload.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index d7df9d5..ebd7a92 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -22,27 +22,23 @@ logger.parent = scheduler_logger
 
 class Waiter:
     def __init__(self):
-        self.task = None
+        self.interrupted = asyncio.Event()
         self.timer = None
 
     async def wait(self, t):
-        self.triggered = False
-        self.task = asyncio.ensure_future(asyncio.sleep(t))
+        # An interrupt that arrived since the last wait ends this one at once
         try:
-            await self.task
-        except asyncio.CancelledError:
-            if not self.triggered:
-                raise
+            await asyncio.wait_for(self.interrupted.wait(), t)
+        except asyncio.TimeoutError:
+            pass
+        self.interrupted.clear()
         if self.timer is not None:
             self.timer.cancel()
             self.timer = None
         return
 
     async def interrupt(self):
-        if self.task is not None:
-            self.triggered = True
-            await cancel_task(self.task)
-            self.task = None
+        self.interrupted.set()
 
     def interrupt_soon(self):
         if self.timer is not None:
-- 
2.43.0


From ef62a42cfe45fdc157629cb7a6a4e60041652128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 44/64] fix: a failed shutdown of an idle cluster is tried
 again

---
 dask-gateway/dask_gateway/scheduler_preload.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index ebd7a92..450fce5 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -239,7 +239,11 @@ class GatewaySchedulerService:
                     "Cluster has been idle for %.2f seconds, shutting down",
                     self.idle_timeout,
                 )
-                await self.gateway.shutdown()
+                try:
+                    await self.gateway.shutdown()
+                except Exception as exc:
+                    # Try again on the next check
+                    logger.warning("Failed to shut down cluster", exc_info=exc)
 
     async def heartbeat(self):
         if self.count < len(self.active_workers):
-- 
2.43.0


From 311d783ee0a04b7fcb989d58adbd65a6b61a957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 45/64] fix: a cluster with queued tasks is not idle

---
 dask-gateway/dask_gateway/scheduler_preload.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index 450fce5..2ca639c 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -225,7 +225,7 @@ class GatewaySchedulerService:
             await asyncio.sleep(self.idle_timeout / 4)
             if any(ws.processing for ws in self.scheduler.workers.values()):
                 continue
-            if self.scheduler.unrunnable:
+            if self.scheduler.unrunnable or getattr(self.scheduler, "queued", None):
                 continue
 
             last_action = (
-- 
2.43.0


From 3f913300fb86622efade1f87a7d51fa68f32bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 46/64] fix: a malformed authorization header is refused

---
 dask-gateway/dask_gateway/scheduler_preload.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index 2ca639c..91e59aa 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -68,7 +68,7 @@ class BaseHandler(web.RequestHandler):
     def get_current_user(self):
         auth_header = self.request.headers.get("Authorization")
         if auth_header:
-            auth_type, auth_token = auth_header.split(" ", 1)
+            auth_type, _, auth_token = auth_header.partition(" ")
             if auth_type == "token" and auth_token == self.auth_token:
                 return "gateway"
         return None
-- 
2.43.0


From 228d9b96ccac5b4ef33c606ba885964ddc20f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 47/64] fix: adaptive scaling keeps to a lowered maximum

---
 dask-gateway/dask_gateway/scheduler_preload.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index 91e59aa..27eb1bf 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -341,6 +341,9 @@ class GatewaySchedulerService:
                     await self._scale(target)
                 elif target < self.count:
                     max_window = max(window)
+                    if self.maximum is not None:
+                        # The maximum may have been lowered since
+                        max_window = min(self.maximum, max_window)
                     if max_window < self.count:
                         await self._scale(max_window)
             except asyncio.CancelledError:
-- 
2.43.0


From 70d10dd1296bc06c37735095ec5238e029af8c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 48/64] fix: a cluster is stopped at exit even if the gateway's
 address has to be looked up

---
 dask-gateway/dask_gateway/client.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dask-gateway/dask_gateway/client.py b/dask-gateway/dask_gateway/client.py
index e86fd3c..8746cbd 100644
--- a/dask-gateway/dask_gateway/client.py
+++ b/dask-gateway/dask_gateway/client.py
@@ -9,6 +9,7 @@ import tempfile
 import traceback
 import warnings
 import weakref
+from concurrent.futures import Future, ThreadPoolExecutor
 from datetime import datetime
 from urllib.parse import urlparse
 
@@ -752,11 +753,25 @@ _widget_status_template = """
 """
 
 
+class _InlineExecutor(ThreadPoolExecutor):
+    """Runs calls at once, as no new threads are possible at interpreter exit"""
+
+    def submit(self, fn, *args, **kwargs):
+        future = Future()
+        try:
+            future.set_result(fn(*args, **kwargs))
+        except BaseException as exc:
+            future.set_exception(exc)
+        return future
+
+
 @atexit.register
 def cleanup_lingering_clusters():
     for o in list(GatewayCluster._instances):
         try:
             if not o.asynchronous:
+                # Needed to look up the gateway's address
+                o.loop.asyncio_loop.set_default_executor(_InlineExecutor())
                 o.close()
         except Exception as exc:
             lines = ["Exception ignored when closing %r:\n" % o]
-- 
2.43.0


From e4d8fc147a738aecf712cd9af585e12434b66e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 49/64] fix: a cluster being submitted when interrupted is
 stopped

---
 dask-gateway/dask_gateway/client.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/dask-gateway/dask_gateway/client.py b/dask-gateway/dask_gateway/client.py
index 8746cbd..7139bed 100644
--- a/dask-gateway/dask_gateway/client.py
+++ b/dask-gateway/dask_gateway/client.py
@@ -923,6 +923,7 @@ class GatewayCluster:
         self._cluster_options = cluster_options
         self._cluster_kwargs = cluster_kwargs or {}
         self._start_task = None
+        self._submit_task = None
         self._stop_task = None
 
         self.name = name
@@ -960,9 +961,12 @@ class GatewayCluster:
         # Start cluster if not already started
         if self.status == "created":
             self.status = "starting"
-            self.name = await self.gateway._submit(
-                cluster_options=self._cluster_options, **self._cluster_kwargs
+            self._submit_task = asyncio.ensure_future(
+                self.gateway._submit(
+                    cluster_options=self._cluster_options, **self._cluster_kwargs
+                )
             )
+            self.name = await asyncio.shield(self._submit_task)
         # Connect to cluster
         try:
             report = await self.gateway._wait_for_start(self.name)
@@ -993,7 +997,6 @@ class GatewayCluster:
                 await comm.close()
 
     async def _stop_internal(self, shutdown=None):
-        self._instances.discard(self)
         if self._stop_task is None:
             self._stop_task = asyncio.ensure_future(self._stop_async())
         try:
@@ -1016,6 +1019,10 @@ class GatewayCluster:
 
         await self.gateway._cleanup()
 
+        # Only now there's nothing left to wait for at exit
+        self.status = "closed"
+        self._instances.discard(self)
+
     async def _stop_async(self):
         if self._start_task is not None:
             if not self._start_task.done():
@@ -1024,6 +1031,14 @@ class GatewayCluster:
 
         self.status = "closing"
 
+        if self.name is None and self._submit_task is not None:
+            # Interrupted while submitting. The cluster may be created anyway,
+            # learn its name to be able to stop it.
+            try:
+                self.name = await asyncio.wait_for(self._submit_task, 30)
+            except Exception:
+                pass
+
         if self._watch_worker_status_task is not None:
             await cancel_task(self._watch_worker_status_task)
         if self.scheduler_comm is not None:
@@ -1032,8 +1047,6 @@ class GatewayCluster:
             await client._close()
             self._clients.discard(client)
 
-        self.status = "closed"
-
     def __await__(self):
         return self.__aenter__().__await__()
 
-- 
2.43.0


From ed8d73fadf6302b75c2ad3025acd29f856e701e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 50/64] fix: a batch job is cancelled even if its staging
 directory is gone or cannot be removed

---
 .../backends/jobqueue/launcher.py             | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
index 6926ab3..157809a 100644
--- a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
+++ b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
@@ -28,12 +28,12 @@ def run_command(cmd, env, stdin=None):
 
     stdout, stderr = proc.communicate(stdin)
 
-    finish(
-        ok=True,
-        returncode=proc.returncode,
-        stdout=stdout.decode("utf8", "replace"),
-        stderr=stderr.decode("utf8", "replace"),
-    )
+    return {
+        "ok": True,
+        "returncode": proc.returncode,
+        "stdout": stdout.decode("utf8", "replace"),
+        "stderr": stderr.decode("utf8", "replace"),
+    }
 
 
 def start(cmd, env, stdin=None, staging_dir=None, files=None):
@@ -49,22 +49,23 @@ def start(cmd, env, stdin=None, staging_dir=None, files=None):
                 error=f"Error setting up staging directory {staging_dir}: {exc}",
             )
             return
-    run_command(cmd, env, stdin=stdin)
+    finish(**run_command(cmd, env, stdin=stdin))
 
 
 def stop(cmd, env, staging_dir=None):
+    error = None
     if staging_dir:
-        if not os.path.exists(staging_dir):
-            return
         try:
             shutil.rmtree(staging_dir)
+        except FileNotFoundError:
+            pass
         except Exception as exc:
-            finish(
-                ok=False,
-                error=f"Error removing staging directory {staging_dir}: {exc}",
-            )
-            return
-    run_command(cmd, env)
+            error = f"Error removing staging directory {staging_dir}: {exc}"
+    # The job is cancelled whatever became of its files
+    result = run_command(cmd, env)
+    if error is not None and result["returncode"] == 0:
+        result = {"ok": False, "error": error}
+    finish(**result)
 
 
 def main():
-- 
2.43.0


From 03f7aafffe1d1167ad40b92aa9b45358fb865bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 51/64] fix: staged credentials are removed if the job cannot
 be submitted

---
 .../backends/jobqueue/launcher.py              | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
index 157809a..dc8614a 100644
--- a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
+++ b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
@@ -40,16 +40,32 @@ def start(cmd, env, stdin=None, staging_dir=None, files=None):
     if staging_dir:
         try:
             os.makedirs(staging_dir, mode=0o700, exist_ok=False)
+        except Exception as exc:
+            finish(
+                ok=False,
+                error=f"Error setting up staging directory {staging_dir}: {exc}",
+            )
+            return
+        try:
             for name, value in files.items():
                 with open(os.path.join(staging_dir, name), "w") as f:
                     f.write(value)
         except Exception as exc:
+            shutil.rmtree(staging_dir, ignore_errors=True)
             finish(
                 ok=False,
                 error=f"Error setting up staging directory {staging_dir}: {exc}",
             )
             return
-    finish(**run_command(cmd, env, stdin=stdin))
+    try:
+        result = run_command(cmd, env, stdin=stdin)
+    except Exception as exc:
+        result = {"ok": False, "error": f"Error running {cmd[0]}: {exc}"}
+    if staging_dir and (not result["ok"] or result["returncode"] != 0):
+        # There's no job that would need these files, or that could be stopped
+        # later on to remove them
+        shutil.rmtree(staging_dir, ignore_errors=True)
+    finish(**result)
 
 
 def stop(cmd, env, staging_dir=None):
-- 
2.43.0


From 79179df71d86da68631d9c216d44e0c2816a9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 52/64] fix: Slurm job ids are read without the name of the
 cluster

---
 .../dask_gateway_server/backends/jobqueue/slurm.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/jobqueue/slurm.py b/dask-gateway-server/dask_gateway_server/backends/jobqueue/slurm.py
index a6431d7..fb2153b 100644
--- a/dask-gateway-server/dask_gateway_server/backends/jobqueue/slurm.py
+++ b/dask-gateway-server/dask_gateway_server/backends/jobqueue/slurm.py
@@ -117,4 +117,5 @@ class SlurmBackend(JobQueueBackend):
         return states
 
     def parse_job_id(self, stdout):
-        return stdout.strip()
+        # With ``--parsable``, this is ``<job_id>`` or ``<job_id>;<cluster_name>``
+        return stdout.strip().split(";")[0]
-- 
2.43.0


From cf758d95a03bd3ac15081ef892bbad7f411cdbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 53/64] fix: only paths of the working directory have their
 owner changed

---
 dask-gateway-server/dask_gateway_server/backends/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/local.py b/dask-gateway-server/dask_gateway_server/backends/local.py
index d54f800..f4c9f68 100644
--- a/dask-gateway-server/dask_gateway_server/backends/local.py
+++ b/dask-gateway-server/dask_gateway_server/backends/local.py
@@ -176,7 +176,7 @@ class LocalBackend(DBBackendBase):
         for path, data in [(cert_path, cluster.tls_cert), (key_path, cluster.tls_key)]:
             with os.fdopen(os.open(path, flags, 0o600), "wb") as fil:
                 fil.write(data)
-                paths.extend(path)
+                paths.append(path)
 
         self.set_file_permissions(paths, cluster.username)
 
-- 
2.43.0


From 0bb410eadf292a29a90dca0d7d31599e8706f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 54/64] fix: the working directory is removed if it cannot be
 set up

---
 .../dask_gateway_server/backends/local.py     | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/local.py b/dask-gateway-server/dask_gateway_server/backends/local.py
index f4c9f68..4597165 100644
--- a/dask-gateway-server/dask_gateway_server/backends/local.py
+++ b/dask-gateway-server/dask_gateway_server/backends/local.py
@@ -167,18 +167,25 @@ class LocalBackend(DBBackendBase):
         certsdir = self.get_certs_directory(workdir)
         logsdir = self.get_logs_directory(workdir)
 
-        paths = [workdir, certsdir, logsdir]
-        for path in paths:
-            os.makedirs(path, 0o700, exist_ok=True)
-
-        cert_path, key_path = self._get_tls_paths(workdir)
-        flags = os.O_WRONLY | os.O_CREAT | os.O_EXCL
-        for path, data in [(cert_path, cluster.tls_cert), (key_path, cluster.tls_key)]:
-            with os.fdopen(os.open(path, flags, 0o600), "wb") as fil:
-                fil.write(data)
+        try:
+            paths = [workdir, certsdir, logsdir]
+            for path in paths:
+                os.makedirs(path, 0o700, exist_ok=True)
+
+            cert_path, key_path = self._get_tls_paths(workdir)
+            flags = os.O_WRONLY | os.O_CREAT | os.O_EXCL
+            for path, data in [
+                (cert_path, cluster.tls_cert),
+                (key_path, cluster.tls_key),
+            ]:
+                with os.fdopen(os.open(path, flags, 0o600), "wb") as fil:
+                    fil.write(data)
                 paths.append(path)
 
-        self.set_file_permissions(paths, cluster.username)
+            self.set_file_permissions(paths, cluster.username)
+        except Exception:
+            self.cleanup_working_directory(workdir)
+            raise
 
         self.log.debug(
             "Working directory %s for cluster %s created", workdir, cluster.name
-- 
2.43.0


From ca08ae5778ec275c9e260582a63100207c6c8a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 55/64] fix: in-process status checks are no longer inverted

---
 dask-gateway-server/dask_gateway_server/backends/inprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/inprocess.py b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
index 7b4d97b..d95f1a1 100644
--- a/dask-gateway-server/dask_gateway_server/backends/inprocess.py
+++ b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
@@ -30,7 +30,7 @@ class InProcessBackend(UnsafeLocalBackend):
         out = []
         for x in objs:
             x = mapping.get(x.name)
-            ok = x is not None and not x.status != Status.closed
+            ok = x is not None and x.status != Status.closed
             out.append(ok)
         return out
 
@@ -109,4 +109,4 @@ class InProcessBackend(UnsafeLocalBackend):
         worker = self.workers.get(worker_name)
         if worker is None:
             return False
-        return not worker.status != Status.closed
+        return worker.status != Status.closed
-- 
2.43.0


From 300a330d044eab3f265df473dee51bbcbb889327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 56/64] fix: an in-process cluster without scheduler is cleaned
 up

---
 .../dask_gateway_server/backends/inprocess.py             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/inprocess.py b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
index d95f1a1..bf79548 100644
--- a/dask-gateway-server/dask_gateway_server/backends/inprocess.py
+++ b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
@@ -67,10 +67,10 @@ class InProcessBackend(UnsafeLocalBackend):
         yield {"workdir": workdir, "started": True}
 
     async def do_stop_cluster(self, cluster):
-        scheduler = self.schedulers.pop(cluster.name)
-
-        await scheduler.close()
-        scheduler.stop()
+        scheduler = self.schedulers.pop(cluster.name, None)
+        if scheduler is not None:
+            await scheduler.close()
+            scheduler.stop()
 
         workdir = cluster.state.get("workdir")
         if workdir is not None:
-- 
2.43.0


From 0457090d39a90a112e35d142ac61e21abd21f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:55 +0000
Subject: [PATCH 57/64] fix: YARN is not asked for an application's address in
 the event loop

---
 dask-gateway-server/dask_gateway_server/backends/yarn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/yarn.py b/dask-gateway-server/dask_gateway_server/backends/yarn.py
index 6513803..57376d1 100644
--- a/dask-gateway-server/dask_gateway_server/backends/yarn.py
+++ b/dask-gateway-server/dask_gateway_server/backends/yarn.py
@@ -119,7 +119,9 @@ class YarnBackend(DBBackendBase):
             security = self._get_security(cluster)
             if cluster.name not in self.app_address_cache:
                 # Lookup and cache the application address
-                report = self.skein_client.application_report(app_id)
+                report = await self.async_apply(
+                    self.skein_client.application_report, app_id
+                )
                 if report.state != "RUNNING":  # pragma: nocover
                     raise ValueError("Application %s is not running" % app_id)
                 app_address = "%s:%d" % (report.host, report.port)
-- 
2.43.0


From f592def26ddc682c858f228123c2668ae02190be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:55 +0000
Subject: [PATCH 58/64] fix: one YARN application whose status is unknown no
 longer stops the check of the others

---
 .../dask_gateway_server/backends/yarn.py      | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/yarn.py b/dask-gateway-server/dask_gateway_server/backends/yarn.py
index 57376d1..5e2b98e 100644
--- a/dask-gateway-server/dask_gateway_server/backends/yarn.py
+++ b/dask-gateway-server/dask_gateway_server/backends/yarn.py
@@ -230,11 +230,22 @@ class YarnBackend(DBBackendBase):
         for cluster in clusters:
             app_id = cluster.state.get("app_id")
             if app_id is None:
-                return False
-            report = await self.async_apply(
-                self.skein_client.application_report, app_id
-            )
-            ok = str(report.state) not in {"FAILED", "KILLED", "FINISHED"}
+                results.append(False)
+                continue
+            try:
+                report = await self.async_apply(
+                    self.skein_client.application_report, app_id
+                )
+            except Exception as exc:
+                self.log.warning(
+                    "Error getting the status of cluster %s",
+                    cluster.name,
+                    exc_info=exc,
+                )
+                # Not known, leave it for the next check
+                ok = True
+            else:
+                ok = str(report.state) not in {"FAILED", "KILLED", "FINISHED"}
             results.append(ok)
         return results
 
-- 
2.43.0


From 625de168a6af1d29ba815262cbf4d8867af5dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:55 +0000
Subject: [PATCH 59/64] fix: workers are not taken for dead if the YARN
 application can't be asked

---
 dask-gateway-server/dask_gateway_server/backends/yarn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/yarn.py b/dask-gateway-server/dask_gateway_server/backends/yarn.py
index 5e2b98e..0a641d9 100644
--- a/dask-gateway-server/dask_gateway_server/backends/yarn.py
+++ b/dask-gateway-server/dask_gateway_server/backends/yarn.py
@@ -279,8 +279,8 @@ class YarnBackend(DBBackendBase):
 
         results = {}
         for cluster, workers in grouped.items():
-            app = await self._get_app_client(cluster)
             try:
+                app = await self._get_app_client(cluster)
                 containers = await self.async_apply(
                     app.get_containers, services=("dask.worker",)
                 )
@@ -294,6 +294,7 @@ class YarnBackend(DBBackendBase):
                     cluster.name,
                     exc_info=exc,
                 )
-                results.update({w.name: False for w in workers})
+                # Not known, leave them for the next check
+                results.update({w.name: True for w in workers})
 
         return [results[w.name] for w in workers]
-- 
2.43.0


From e24c074b1d6f4cd4218719452c81b51fcd148a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:55 +0000
Subject: [PATCH 60/64] fix: worker statuses of several YARN clusters are not
 mixed up

---
 dask-gateway-server/dask_gateway_server/backends/yarn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/yarn.py b/dask-gateway-server/dask_gateway_server/backends/yarn.py
index 0a641d9..8b6ab98 100644
--- a/dask-gateway-server/dask_gateway_server/backends/yarn.py
+++ b/dask-gateway-server/dask_gateway_server/backends/yarn.py
@@ -278,7 +278,7 @@ class YarnBackend(DBBackendBase):
             grouped[w.cluster].append(w)
 
         results = {}
-        for cluster, workers in grouped.items():
+        for cluster, group in grouped.items():
             try:
                 app = await self._get_app_client(cluster)
                 containers = await self.async_apply(
@@ -286,7 +286,7 @@ class YarnBackend(DBBackendBase):
                 )
                 active = {c.id for c in containers}
                 results.update(
-                    {w.name: w.state.get("container_id") in active for w in workers}
+                    {w.name: w.state.get("container_id") in active for w in group}
                 )
             except Exception as exc:
                 self.log.debug(
@@ -295,6 +295,6 @@ class YarnBackend(DBBackendBase):
                     exc_info=exc,
                 )
                 # Not known, leave them for the next check
-                results.update({w.name: True for w in workers})
+                results.update({w.name: True for w in group})
 
         return [results[w.name] for w in workers]
-- 
2.43.0


From 33f0e39fcd54526e3d3b69c6906c87874b96cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:55 +0000
Subject: [PATCH 61/64] fix: what is submitted to YARN after a timeout is
 killed

---
 .../dask_gateway_server/backends/yarn.py      | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/yarn.py b/dask-gateway-server/dask_gateway_server/backends/yarn.py
index 8b6ab98..5fa7040 100644
--- a/dask-gateway-server/dask_gateway_server/backends/yarn.py
+++ b/dask-gateway-server/dask_gateway_server/backends/yarn.py
@@ -1,3 +1,4 @@
+import asyncio
 from asyncio import get_running_loop
 from collections import defaultdict
 from tempfile import NamedTemporaryFile
@@ -109,6 +110,21 @@ class YarnBackend(DBBackendBase):
     def async_apply(self, f, *args, **kwargs):
         return get_running_loop().run_in_executor(None, lambda: f(*args, **kwargs))
 
+    async def async_submit(self, f, *args, undo, **kwargs):
+        """Run ``f``. If cancelled meanwhile, ``undo`` what it did once it's done."""
+        loop = get_running_loop()
+        fut = self.async_apply(f, *args, **kwargs)
+
+        def on_done(fut):
+            if not fut.cancelled() and fut.exception() is None:
+                loop.run_in_executor(None, undo, fut.result())
+
+        try:
+            return await asyncio.shield(fut)
+        except asyncio.CancelledError:
+            fut.add_done_callback(on_done)
+            raise
+
     def _get_security(self, cluster):
         return skein.Security(cert_bytes=cluster.tls_cert, key_bytes=cluster.tls_key)
 
@@ -211,7 +227,11 @@ class YarnBackend(DBBackendBase):
             key_fil.write(cluster.tls_key)
             key_fil.file.flush()
             spec = self._build_specification(cluster, cert_fil.name, key_fil.name)
-            app_id = await self.async_apply(self.skein_client.submit, spec)
+            app_id = await self.async_submit(
+                self.skein_client.submit,
+                spec,
+                undo=self.skein_client.kill_application,
+            )
 
         yield {"app_id": app_id}
 
@@ -251,9 +271,10 @@ class YarnBackend(DBBackendBase):
 
     async def do_start_worker(self, worker):
         app = await self._get_app_client(worker.cluster)
-        container = await self.async_apply(
+        container = await self.async_submit(
             app.add_container,
             "dask.worker",
+            undo=lambda container: app.kill_container(container.id),
             env={
                 "DASK_GATEWAY_WORKER_NAME": worker.name,
                 "DASK_GATEWAY_SCHEDULER_ADDRESS": worker.cluster.scheduler_address,
-- 
2.43.0


From 579fc3c35284168728fabf7670bc62b12dada25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 62/64] fix: Traefik's image pull policy is its own setting's

---
 resources/helm/dask-gateway/templates/traefik/deployment.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/helm/dask-gateway/templates/traefik/deployment.yaml b/resources/helm/dask-gateway/templates/traefik/deployment.yaml
index 44dafdc..91d1335 100644
--- a/resources/helm/dask-gateway/templates/traefik/deployment.yaml
+++ b/resources/helm/dask-gateway/templates/traefik/deployment.yaml
@@ -32,7 +32,7 @@ spec:
       containers:
         - name: traefik
           image: {{ .Values.traefik.image.name }}:{{ .Values.traefik.image.tag }}
-          imagePullPolicy: {{ .Values.gateway.image.pullPolicy }}
+          imagePullPolicy: {{ .Values.traefik.image.pullPolicy }}
           securityContext:
             runAsUser: 1000
             runAsGroup: 1000
-- 
2.43.0


From dbaf434edca4fb5a27e9825be6ddc53ab66e41e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:27 +0000
Subject: [PATCH 63/64] fix: the client connects to gateways at IPv6 addresses

---
 dask-gateway/dask_gateway/client.py | 5 +++--
 dask-gateway/dask_gateway/comm.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dask-gateway/dask_gateway/client.py b/dask-gateway/dask_gateway/client.py
index 7139bed..774beb3 100644
--- a/dask-gateway/dask_gateway/client.py
+++ b/dask-gateway/dask_gateway/client.py
@@ -18,6 +18,7 @@ import dask
 import yarl
 from dask.utils import format_bytes
 from distributed import Client
+from distributed.comm.addressing import unparse_host_port
 from distributed.core import rpc
 from distributed.security import Security
 from distributed.utils import LoopRunner
@@ -301,12 +302,12 @@ class Gateway:
                     proxy_port = {"http": 80, "https": 443}.get(parsed.scheme, 8786)
                 else:
                     proxy_port = parsed.port
-                proxy_netloc = "%s:%d" % (parsed.hostname, proxy_port)
+                proxy_netloc = unparse_host_port(parsed.hostname, proxy_port)
             else:
                 proxy_netloc = proxy_address
         elif isinstance(proxy_address, int):
             parsed = urlparse(address)
-            proxy_netloc = "%s:%d" % (parsed.hostname, proxy_address)
+            proxy_netloc = unparse_host_port(parsed.hostname, proxy_address)
         elif isinstance(proxy_address, str):
             parsed = urlparse(proxy_address)
             proxy_netloc = parsed.netloc if parsed.netloc else proxy_address
diff --git a/dask-gateway/dask_gateway/comm.py b/dask-gateway/dask_gateway/comm.py
index 90bc7e6..42ea930 100644
--- a/dask-gateway/dask_gateway/comm.py
+++ b/dask-gateway/dask_gateway/comm.py
@@ -2,6 +2,7 @@ import ssl
 from concurrent.futures import ThreadPoolExecutor
 from urllib.parse import urlparse
 
+from distributed.comm.addressing import unparse_host_port
 from distributed.comm.core import Connector
 from distributed.comm.registry import Backend, backends
 from distributed.comm.tcp import (
@@ -78,13 +79,13 @@ class GatewayBackend(Backend):
     def resolve_address(self, loc):
         host, port, path = parse_gateway_address(loc)
         host = ensure_ip(host)
-        return "%s:%d/%s" % (host, port, path)
+        return f"{unparse_host_port(host, port)}/{path}"
 
     def get_local_address_for(self, loc):
         host, port, path = parse_gateway_address(loc)
         host = ensure_ip(host)
         host = get_ip(host)
-        return "%s:%d/%s" % (host, port, path)
+        return f"{unparse_host_port(host, port)}/{path}"
 
 
 backends["gateway"] = GatewayBackend()
-- 
2.43.0


From 907667781ecfa26db80e8daca8f13fc36fbbe323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:27 +0000
Subject: [PATCH 64/64] fix: a proxy port in the client's configuration may be
 a template

---
 dask-gateway/dask_gateway/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway/dask_gateway/client.py b/dask-gateway/dask_gateway/client.py
index 774beb3..d0c8d7f 100644
--- a/dask-gateway/dask_gateway/client.py
+++ b/dask-gateway/dask_gateway/client.py
@@ -295,6 +295,9 @@ class Gateway:
 
         if proxy_address is None:
             proxy_address = format_template(dask.config.get("gateway.proxy-address"))
+            # A template may result in a port
+            if isinstance(proxy_address, str) and proxy_address.isdigit():
+                proxy_address = int(proxy_address)
         if proxy_address is None:
             parsed = urlparse(address)
             if parsed.netloc:
-- 
2.43.0

