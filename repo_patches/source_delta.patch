From 6181e8c8384127d64b4a0e6256a5da79659b21b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 01/70] fix: array returned alone by a user function is never
 taken for a tuple of return values

---
 libensemble/worker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libensemble/worker.py b/libensemble/worker.py
index 3574f74..1eb9b83 100644
--- a/libensemble/worker.py
+++ b/libensemble/worker.py
@@ -290,7 +290,9 @@ class Worker:
                     calc_status = MAN_SIGNAL_FINISH
 
             if out is not None:
-                if not isinstance(out, np.ndarray) and len(out) >= 3:  # Out, persis_info, calc_status
+                if isinstance(out, np.ndarray):  # Out only
+                    return out, Work["persis_info"], calc_status
+                elif len(out) >= 3:  # Out, persis_info, calc_status
                     calc_status = out[2]
                     return out
                 elif len(out) == 2:  # Out, persis_info OR Out, calc_status
-- 
2.43.0


From 429ee1ed435955f79ce5ae9238418d6ff35bdfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:37 +0000
Subject: [PATCH 02/70] fix: new history fields can be added when an existing
 field comes in another shape

---
 libensemble/history.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libensemble/history.py b/libensemble/history.py
index aa16a4d..25942a0 100644
--- a/libensemble/history.py
+++ b/libensemble/history.py
@@ -109,9 +109,10 @@ class History:
         self.last_ended = -1
 
     def _append_new_fields(self, H_f: npt.NDArray) -> None:
-        dtype_new = np.dtype(list(set(self.H.dtype.descr + np.lib.recfunctions.repack_fields(H_f).dtype.descr)))
-        H_new = np.zeros(len(self.H), dtype=dtype_new)
         old_fields = self.H.dtype.names
+        new_descr = [d for d in np.lib.recfunctions.repack_fields(H_f).dtype.descr if d[0] not in old_fields]
+        dtype_new = np.dtype(self.H.dtype.descr + new_descr)
+        H_new = np.zeros(len(self.H), dtype=dtype_new)
         for field in old_fields:
             H_new[field][: len(self.H)] = self.H[field]
         self.H = H_new
-- 
2.43.0


From f327f96c648802c2e2470b98fab79dec6df9ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:37 +0000
Subject: [PATCH 03/70] fix: count and time-stamp as generator-informed only
 evaluated points, each once

---
 libensemble/history.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/libensemble/history.py b/libensemble/history.py
index 25942a0..c4716dc 100644
--- a/libensemble/history.py
+++ b/libensemble/history.py
@@ -187,12 +187,11 @@ class History:
         t = time.time()
 
         if q_inds.size > 0:
-            if np.all(self.H["sim_ended"][q_inds]):
-                self.H["gen_informed"][q_inds] = True
-
-            elif np.any(self.H["sim_ended"][q_inds]):  # sporadic returned points need updating
-                for ind in q_inds[self.H["sim_ended"][q_inds]]:
-                    self.H["gen_informed"][ind] = True
+            # Only points that have been evaluated are given back (e.g., not points still running)
+            ended_inds = np.unique(q_inds[self.H["sim_ended"][q_inds]])
+            self.gen_informed_count += np.sum(~self.H["gen_informed"][ended_inds])
+            self.H["gen_informed"][ended_inds] = True
+            self.H["gen_informed_time"][ended_inds] = t
 
             if self.using_H0 and not self.given_back_warned:
                 logger.manager_warning(
@@ -200,9 +199,6 @@ class History:
                 )
                 self.given_back_warned = True
 
-            self.H["gen_informed_time"][q_inds] = t
-            self.gen_informed_count += len(q_inds)
-
     def update_history_x_in(self, gen_worker: int, D: npt.NDArray, gen_started_time: int) -> None:
         """
         Updates the history (in place) when new points have been returned from a gen
-- 
2.43.0


From 89f0e6213f12155df22d382b269416501a47ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 04/70] fix: never give out a point beyond the history, nor
 stall, when its last points are cancelled

---
 libensemble/alloc_funcs/give_pregenerated_work.py | 3 +++
 libensemble/alloc_funcs/only_one_gen_alloc.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/libensemble/alloc_funcs/give_pregenerated_work.py b/libensemble/alloc_funcs/give_pregenerated_work.py
index d2b1ee7..d238ab2 100644
--- a/libensemble/alloc_funcs/give_pregenerated_work.py
+++ b/libensemble/alloc_funcs/give_pregenerated_work.py
@@ -19,12 +19,15 @@ def give_pregenerated_sim_work(W, H, sim_specs, gen_specs, alloc_specs, persis_i
 
     # Unless already defined, initialize next_to_give to be the first point in H
     persis_info["next_to_give"] = persis_info.get("next_to_give", 0)
+    persis_info = support.skip_canceled_points(H, persis_info)
 
     if persis_info["next_to_give"] >= len(H):
         return Work, persis_info, 1
 
     for i in support.avail_worker_ids(gen_workers=False):
         persis_info = support.skip_canceled_points(H, persis_info)
+        if persis_info["next_to_give"] >= len(H):
+            break
 
         # Give sim work
         try:
diff --git a/libensemble/alloc_funcs/only_one_gen_alloc.py b/libensemble/alloc_funcs/only_one_gen_alloc.py
index 7eb6a91..27311ac 100644
--- a/libensemble/alloc_funcs/only_one_gen_alloc.py
+++ b/libensemble/alloc_funcs/only_one_gen_alloc.py
@@ -21,9 +21,12 @@ def ensure_one_active_gen(W, H, sim_specs, gen_specs, alloc_specs, persis_info,
     gen_flag = True
     gen_in = gen_specs.get("in", [])
 
+    persis_info = support.skip_canceled_points(H, persis_info)
     if persis_info["next_to_give"] < len(H):
         for wid in support.avail_worker_ids(gen_workers=False):
             persis_info = support.skip_canceled_points(H, persis_info)
+            if persis_info["next_to_give"] >= len(H):
+                break
             try:
                 Work[wid] = support.sim_work(wid, H, sim_specs["in"], [persis_info["next_to_give"]], [])
             except InsufficientFreeResources:
-- 
2.43.0


From 9665503c25c11a56904c083443644ab13c3a9d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:15 +0000
Subject: [PATCH 05/70] fix: final_gen_send does not leave a generator waiting
 when there is nothing left to send

---
 libensemble/manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 5c084d3..796d290 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -597,8 +597,9 @@ class Manager:
         if any(self.W["persis_state"]):
             for w in self.W["worker_id"][self.W["persis_state"] > 0]:
                 logger.debug(f"Manager sending PERSIS_STOP to worker {w}")
-                if self.libE_specs.get("final_gen_send", False):
-                    rows_to_send = np.where(self.hist.H["sim_ended"] & ~self.hist.H["gen_informed"])[0]
+                rows_to_send = np.where(self.hist.H["sim_ended"] & ~self.hist.H["gen_informed"])[0]
+                is_gen = self.W[w]["persis_state"] == EVAL_GEN_TAG
+                if self.libE_specs.get("final_gen_send", False) and is_gen and len(rows_to_send):
                     work = {
                         "H_fields": self.gen_specs["persis_in"],
                         "persis_info": persis_info.get(w),
-- 
2.43.0


From 71bb05897778e04d7ea421bcc5c5afdf55975f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:15 +0000
Subject: [PATCH 06/70] fix: worker discards final rows sent to a persistent
 function that has already returned

---
 libensemble/worker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libensemble/worker.py b/libensemble/worker.py
index 1eb9b83..3fc1bfe 100644
--- a/libensemble/worker.py
+++ b/libensemble/worker.py
@@ -403,6 +403,10 @@ class Worker:
                         break
                     elif Work is MAN_SIGNAL_KILL:
                         continue
+                    elif isinstance(Work, dict):  # Final rows for a persistent function that has already returned
+                        if len(Work["libE_info"]["H_rows"]) > 0:
+                            self.comm.recv()
+                        continue
 
                 # Active recv is for persistent worker only - throw away here
                 if isinstance(Work, dict):
-- 
2.43.0


From f744f26b10e817c9ded7ee2a29d8bd0a400352e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 07/70] fix: final_gen_send works with generators in active
 receive mode

---
 libensemble/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 796d290..95f1183 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -606,6 +606,8 @@ class Manager:
                         "tag": PERSIS_STOP,
                         "libE_info": {"persistent": True, "H_rows": rows_to_send},
                     }
+                    if self.W[w]["active_recv"]:
+                        work["libE_info"]["active_recv"] = True
                     self._check_work_order(work, w, force=True)
                     self._send_work_order(work, w)
                     self.hist.update_history_to_gen(rows_to_send)
-- 
2.43.0


From 025248fdc35874c23964ee14dc9bc9b2cf26903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:33 +0000
Subject: [PATCH 08/70] fix: results sent to an active-receive generator that
 has just returned do not start it anew

---
 libensemble/manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 95f1183..6a32376 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -425,7 +425,12 @@ class Manager:
         if self.resources:
             self._set_resources(Work, w)
 
-        self.wcomms[w].send(Work["tag"], Work)
+        if self.W[w]["persis_state"] and Work["libE_info"].get("active_recv", False):
+            # Worker throws this away (rather than starting anew) if its persistent function has returned meanwhile
+            libE_info = {k: v for k, v in Work["libE_info"].items() if k != "persistent"}
+            self.wcomms[w].send(Work["tag"], {**Work, "libE_info": libE_info})
+        else:
+            self.wcomms[w].send(Work["tag"], Work)
 
         if Work["tag"] == EVAL_GEN_TAG:
             self.W[w]["gen_started_time"] = time.time()
-- 
2.43.0


From b4b49f2ee556b1dead432964d855cad8e5a6e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 09/70] fix: send one kill signal to a worker however many of
 its points are canceled together

---
 libensemble/manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 6a32376..3a12b5a 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -581,11 +581,11 @@ class Manager:
             # Note that a return is still expected when running sims are killed
             if np.any(kill_sim):
                 logger.debug(f"Manager sending kill signals to H indices {kill_sim_rows}")
-                kill_ids = self.hist.H["sim_id"][kill_sim_rows]
-                kill_on_workers = self.hist.H["sim_worker"][kill_sim_rows]
+                # One signal per worker, also when several of its points are canceled
+                kill_on_workers = np.unique(self.hist.H["sim_worker"][kill_sim_rows])
                 for w in kill_on_workers:
                     self.wcomms[w].send(STOP_TAG, MAN_SIGNAL_KILL)
-                    self.hist.H["kill_sent"][kill_ids] = True
+                self.hist.H["kill_sent"][kill_sim_rows] = True
 
     # --- Handle termination
 
-- 
2.43.0


From 8eaff467738f7e30160a9765c8a437dc8b1d8ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 10/70] fix: canceled sims are killed also if a point with a
 lower sim_id was given out later

---
 libensemble/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/history.py b/libensemble/history.py
index c4716dc..ab5e846 100644
--- a/libensemble/history.py
+++ b/libensemble/history.py
@@ -179,7 +179,7 @@ class History:
 
         self.sim_started_count += len(q_inds)
         if kill_canceled_sims:
-            self.last_started = np.max(q_inds)
+            self.last_started = max(self.last_started, np.max(q_inds))
 
     def update_history_to_gen(self, q_inds: npt.NDArray):
         """Updates the history (in place) when points are given back to the gen"""
-- 
2.43.0


From 49c3604a79c6a4a23e4278b25b4c063adadc73e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 11/70] fix: points of H0 not yet given back to a generator do
 not count towards gen_max

---
 libensemble/history.py | 1 +
 libensemble/manager.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/libensemble/history.py b/libensemble/history.py
index ab5e846..fc15bd8 100644
--- a/libensemble/history.py
+++ b/libensemble/history.py
@@ -92,6 +92,7 @@ class History:
 
         self.H = H
         self.using_H0 = len(H0) > 0
+        self.offset = len(H0)
         self.index = len(H0)
         self.grow_count = 0
         self.safe_mode = False
diff --git a/libensemble/manager.py b/libensemble/manager.py
index 3a12b5a..5d48fce 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -283,7 +283,7 @@ class Manager:
 
     def term_test_gen_max(self, gen_max: int) -> bool:
         """Checks against max generator calls"""
-        return self.hist.index >= gen_max + self.hist.gen_informed_offset
+        return self.hist.index >= gen_max + self.hist.offset
 
     def term_test_stop_val(self, stop_val: Any) -> bool:
         """Checks against stop value criterion"""
-- 
2.43.0


From c0447ba29b6c74638be8a53a8cd29607bd14af24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:08 +0000
Subject: [PATCH 12/70] fix: requests larger than a group are scheduled when
 groups are smaller than nodes

---
 libensemble/resources/scheduler.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libensemble/resources/scheduler.py b/libensemble/resources/scheduler.py
index 2e75e3c..aed55fc 100644
--- a/libensemble/resources/scheduler.py
+++ b/libensemble/resources/scheduler.py
@@ -95,12 +95,7 @@ class ResourceScheduler:
         self.log_msg = None  # Log resource messages only when find resources
         num_groups = self.resources.num_groups
 
-        max_grpsize = self.resources.rsets_per_node  # assumes even
-        if use_gpus is not None:
-            if use_gpus:
-                max_grpsize = self.resources.gpu_rsets_per_node
-            else:
-                max_grpsize = self.resources.nongpu_rsets_per_node
+        max_grpsize = self.get_max_grpsize(use_gpus)  # assumes even
 
         avail_rsets_by_group = self.get_avail_rsets_by_group()
 
@@ -228,6 +223,12 @@ class ResourceScheduler:
                 upper_bound = nslots
         return cand_team, cand_group
 
+    def get_max_grpsize(self, use_gpus):
+        """Return the size of the largest group (e.g. node) in rsets of the required type"""
+        rsets = self.resources.rsets
+        groups = rsets["group"] if use_gpus is None else rsets["group"][rsets["gpus"] == use_gpus]
+        return max(np.unique(groups, return_counts=True)[1])
+
     def get_avail_rsets_by_group(self):
         """Return a dictionary of resource set IDs for each group (e.g. node)
 
-- 
2.43.0


From 619e80f4f320914e3ab727d27d59f5e9390e2a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:17 +0000
Subject: [PATCH 13/70] fix: slots of a worker match those of the scheduler
 when resource sets are uneven over nodes

---
 libensemble/resources/worker_resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/resources/worker_resources.py b/libensemble/resources/worker_resources.py
index 5033b2a..5ba3569 100644
--- a/libensemble/resources/worker_resources.py
+++ b/libensemble/resources/worker_resources.py
@@ -376,7 +376,7 @@ class WorkerResources(RSetResources):
                     slots[node].append(0)
             else:
                 mynode = split_list[index][0]
-                pos_in_node = index % rsets_per_node
+                pos_in_node = split_list[:index].count(mynodes)
                 slots[mynode].append(pos_in_node)
 
         return local_nodelist, slots
-- 
2.43.0


From e3da7c25d96adf449387321ff9f4181fcf256289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:36 +0000
Subject: [PATCH 14/70] fix: a worker given no resource sets does not keep the
 slots of its previous team

---
 libensemble/resources/worker_resources.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libensemble/resources/worker_resources.py b/libensemble/resources/worker_resources.py
index 5ba3569..ed3d06c 100644
--- a/libensemble/resources/worker_resources.py
+++ b/libensemble/resources/worker_resources.py
@@ -348,6 +348,11 @@ class WorkerResources(RSetResources):
             self.matching_slots = True if all_match else False
             self.slots_on_node = first_node_slots if self.matching_slots else None
             self.slot_count = first_len if self.even_slots else None
+        else:
+            self.even_slots = True
+            self.matching_slots = True
+            self.slots_on_node = None
+            self.slot_count = None
 
     @staticmethod
     def get_local_nodelist(
-- 
2.43.0


From 6f470ae2a4ca652f8e858a398510fb9e552c7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:20 +0000
Subject: [PATCH 15/70] fix: a platform's GPU option is used also with MPI
 runners that have no default GPU option

---
 libensemble/executors/mpi_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/executors/mpi_runner.py b/libensemble/executors/mpi_runner.py
index 48953cc..5dd22e6 100644
--- a/libensemble/executors/mpi_runner.py
+++ b/libensemble/executors/mpi_runner.py
@@ -217,7 +217,7 @@ class MPIRunner:
 
         elif gpu_setting_type in ["option_gpus_per_node", "option_gpus_per_task"]:
             gpu_value = gpus_per_node // ppn if gpu_setting_type == "option_gpus_per_task" else gpus_per_node
-            gpu_setting_name = self.platform_info.get("gpu_setting_name", self._get_default_arg(gpu_setting_type))
+            gpu_setting_name = self.platform_info.get("gpu_setting_name") or self._get_default_arg(gpu_setting_type)
             extra_args = self._set_gpu_cli_option(wresources, extra_args, gpu_setting_name, gpu_value)
 
         else:  # gpu_setting_type == "env":
-- 
2.43.0


From 0f1394381e188970564608e9df51f811f8a0fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:55 +0000
Subject: [PATCH 16/70] fix: processes given in extra_args are not rounded up,
 which left the run line inconsistent

---
 libensemble/executors/mpi_runner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libensemble/executors/mpi_runner.py b/libensemble/executors/mpi_runner.py
index 5dd22e6..382d71f 100644
--- a/libensemble/executors/mpi_runner.py
+++ b/libensemble/executors/mpi_runner.py
@@ -317,7 +317,9 @@ class MPIRunner:
             jassert(no_config_set, "match_procs_to_gpus is mutually exclusive with either of nprocs/ppn")
 
         nnodes = self._get_min_nodes(nprocs, ppn, nnodes, ngpus, resources)
-        nprocs, ngpus = self._adjust_procs(nprocs, ppn, nnodes, ngpus, resources)
+        adj_nprocs, ngpus = self._adjust_procs(nprocs, ppn, nnodes, ngpus, resources)
+        if p_args is None or p_args.num_procs is None:
+            nprocs = adj_nprocs  # A value in extra_args goes to the run line as it is
 
         if auto_assign_gpus or ngpus is not None:
             # if no_config_set, make match_procs_to_gpus default.
-- 
2.43.0


From 7a2976dfe35b6e490b15d4f79f6baac00d6b7b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:03 +0000
Subject: [PATCH 17/70] fix: core counts are read from LSB_MCPU_HOSTS if LSF
 left LSB_HOSTS empty

---
 libensemble/resources/node_resources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libensemble/resources/node_resources.py b/libensemble/resources/node_resources.py
index 1c35b33..0cd45da 100644
--- a/libensemble/resources/node_resources.py
+++ b/libensemble/resources/node_resources.py
@@ -56,12 +56,12 @@ def _get_cpu_resources_from_env(env_resources=None) -> tuple[int, int] | None:
         return None
 
     found_count = False
-    if env_resources.nodelists["LSF"] in os.environ:
+    if os.environ.get(env_resources.nodelists["LSF"]):
         full_list = os.environ.get(env_resources.nodelists["LSF"]).split()
         nodes = [n for n in full_list if "batch" not in n]
         counter = list(collections.Counter(nodes).values())
         found_count = True
-    elif env_resources.nodelists["LSF_shortform"] in os.environ:
+    elif os.environ.get(env_resources.nodelists["LSF_shortform"]):
         full_list = os.environ.get(env_resources.nodelists["LSF_shortform"]).split()
         iter_list = iter(full_list)
         zipped_list = list(zip(iter_list, iter_list))
-- 
2.43.0


From 5defe111e5ca3f0972eaa30cd16c13bec8664feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:01 +0000
Subject: [PATCH 18/70] fix: values a persistent simulator returns on exit are
 not counted as further simulations

---
 libensemble/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 5d48fce..0808bc7 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -499,7 +499,9 @@ class Manager:
                     self._ensure_sim_id_in_persis_in(final_data)
                     self.hist.update_history_x_in(w, final_data, self.W[w]["gen_started_time"])
                 elif calc_status is FINISHED_PERSISTENT_SIM_TAG and self.libE_specs.get("use_persis_return_sim", False):
+                    already_ended = np.sum(self.hist.H["sim_ended"][D_recv["libE_info"]["H_rows"]])
                     self.hist.update_history_f(D_recv, self.kill_canceled_sims)
+                    self.hist.sim_ended_count -= already_ended  # Count each simulation once
                 else:
                     logger.info(_PERSIS_RETURN_WARNING)
             self.W[w]["persis_state"] = 0
-- 
2.43.0


From 89f1bfd2ccecf452bc9d6dda45f503e0abca3e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:01 +0000
Subject: [PATCH 19/70] fix: workers are stopped also if an error occurs while
 the run is winding down

---
 libensemble/manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 0808bc7..4781ca0 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -739,7 +739,11 @@ class Manager:
             raise LoggedException(e.args) from None
         finally:
             # Return persis_info, exit_flag, elapsed time
-            result = self._final_receive_and_kill(persis_info)
+            try:
+                result = self._final_receive_and_kill(persis_info)
+            except Exception:
+                self._kill_workers()  # Or they would wait for messages forever
+                raise
             self.wcomms = None
             sys.stdout.flush()
             sys.stderr.flush()
-- 
2.43.0


From 32763fa349b0333bcde5e9a6083e62c027a5eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:57 +0000
Subject: [PATCH 20/70] fix: worker stops on a finish signal received by a user
 function that returns its own status

---
 libensemble/worker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libensemble/worker.py b/libensemble/worker.py
index 3fc1bfe..571349a 100644
--- a/libensemble/worker.py
+++ b/libensemble/worker.py
@@ -286,6 +286,8 @@ class Worker:
             # Check for buffered receive
             if self.comm.recv_buffer:
                 tag, message = self.comm.recv()
+                # Keep signal for the worker loop, as user function may return another status
+                self.comm.push_to_buffer(tag, message)
                 if tag in [STOP_TAG, PERSIS_STOP] and message is MAN_SIGNAL_FINISH:
                     calc_status = MAN_SIGNAL_FINISH
 
-- 
2.43.0


From ab76c94fb13bd31ec7b94fcb9dc123b35e66bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:03 +0000
Subject: [PATCH 21/70] fix: run does not hang if a persistent function returns
 without its final status

---
 libensemble/worker.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/libensemble/worker.py b/libensemble/worker.py
index 571349a..1a0ed2c 100644
--- a/libensemble/worker.py
+++ b/libensemble/worker.py
@@ -27,6 +27,8 @@ from libensemble.message_numbers import (
     CALC_EXCEPTION,
     EVAL_GEN_TAG,
     EVAL_SIM_TAG,
+    FINISHED_PERSISTENT_GEN_TAG,
+    FINISHED_PERSISTENT_SIM_TAG,
     MAN_SIGNAL_FINISH,
     MAN_SIGNAL_KILL,
     PERSIS_STOP,
@@ -179,6 +181,7 @@ class Worker:
         self.gen_runner = Runner.from_specs(gen_specs)
         self.runners = {EVAL_SIM_TAG: self.sim_runner.run, EVAL_GEN_TAG: self.gen_runner.run}
         self.calc_iter = {EVAL_SIM_TAG: 0, EVAL_GEN_TAG: 0}
+        self.persis_open = False  # Has a persistent function returned without a final status?
         Worker._set_executor(self.workerID, self.comm)
         Worker._set_resources(self.workerID, self.comm)
         self.EnsembleDirectory = EnsembleDirectory(libE_specs=libE_specs)
@@ -373,6 +376,10 @@ class Worker:
         if "executor" in libE_info:
             del libE_info["executor"]
 
+        final_status = calc_status in [FINISHED_PERSISTENT_SIM_TAG, FINISHED_PERSISTENT_GEN_TAG]
+        self.persis_open = libE_info.get("persistent", False) and not final_status
+        self.calc_type = calc_type
+
         # If there was a finish signal, bail
         if calc_status == MAN_SIGNAL_FINISH:
             return None
@@ -387,6 +394,13 @@ class Worker:
             "calc_type": calc_type,
         }
 
+    def _end_persis(self) -> None:
+        """Answers the manager for a persistent function that returned without a final status"""
+        final_tags = {EVAL_SIM_TAG: FINISHED_PERSISTENT_SIM_TAG, EVAL_GEN_TAG: FINISHED_PERSISTENT_GEN_TAG}
+        D = {"calc_out": None, "persis_info": {}, "libE_info": {"H_rows": []}, "calc_type": self.calc_type}
+        self.comm.send(0, {**D, "calc_status": final_tags[self.calc_type]})
+        self.persis_open = False
+
     def run(self) -> None:
         """Runs the main worker loop."""
         try:
@@ -403,11 +417,12 @@ class Worker:
                 if mtag in [STOP_TAG, PERSIS_STOP]:
                     if Work is MAN_SIGNAL_FINISH:
                         break
-                    elif Work is MAN_SIGNAL_KILL:
-                        continue
-                    elif isinstance(Work, dict):  # Final rows for a persistent function that has already returned
-                        if len(Work["libE_info"]["H_rows"]) > 0:
+                    elif Work is MAN_SIGNAL_KILL or isinstance(Work, dict):
+                        # Persistent function has already returned, so throw away any final rows
+                        if isinstance(Work, dict) and len(Work["libE_info"]["H_rows"]) > 0:
                             self.comm.recv()
+                        if mtag == PERSIS_STOP and self.persis_open:
+                            self._end_persis()
                         continue
 
                 # Active recv is for persistent worker only - throw away here
-- 
2.43.0


From 29a51ced026fe64858df2273a2eaba2cab3cf9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:13 +0000
Subject: [PATCH 22/70] fix: work orders for rows beyond the history are
 refused before anything is sent

---
 libensemble/manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 4781ca0..e36463a 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -383,6 +383,10 @@ class Manager:
                 f"Allocation function requested rows={work_rows} be sent to worker={w}, "
                 "but requested no fields to be sent."
             )
+            assert np.max(work_rows) < self.hist.index, (
+                f"Allocation function requested rows={work_rows} be sent to worker={w}, "
+                f"but there are only {self.hist.index} rows in the history."
+            )
             hist_fields = self.hist.H.dtype.names
             diff_fields = list(work_fields.difference(hist_fields))
 
-- 
2.43.0


From 982396f6172f6b2f43f8010248d5ceefecb4ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:59 +0000
Subject: [PATCH 23/70] fix: log messages with exception information, or
 arguments that cannot be pickled, reach the manager's log

---
 libensemble/comms/logs.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libensemble/comms/logs.py b/libensemble/comms/logs.py
index 47f85f3..28a232c 100644
--- a/libensemble/comms/logs.py
+++ b/libensemble/comms/logs.py
@@ -11,6 +11,7 @@ information (in the form of a worker field) that identifies the origin of
 a given log message (manager or worker ID).
 """
 
+import copy
 import logging
 import sys
 from pathlib import Path
@@ -71,11 +72,20 @@ class CommLogHandler(logging.Handler):
 
     def emit(self, record):
         """Actually log the record."""
+        record = self.prepare(record)
         if self.pack is not None:
             self.comm.send(*self.pack(record))
         else:
             self.comm.send(record)
 
+    def prepare(self, record):
+        """Return a copy of the record that can be sent, with arguments and exception merged into the message."""
+        msg = self.format(record)
+        record = copy.copy(record)
+        record.message = record.msg = msg
+        record.args = record.exc_info = record.exc_text = record.stack_info = None
+        return record
+
 
 class WorkerIDFilter(logging.Filter):
     """Logging filter to add worker ID to records."""
-- 
2.43.0


From 6c5c2cef3e8418fe76959c5bb1a54149f836aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:59 +0000
Subject: [PATCH 24/70] fix: statistics of worker calculations are written at
 every log level

---
 libensemble/comms/logs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/comms/logs.py b/libensemble/comms/logs.py
index 28a232c..9022701 100644
--- a/libensemble/comms/logs.py
+++ b/libensemble/comms/logs.py
@@ -155,7 +155,7 @@ def worker_logging_config(comm, worker_id=None):
         remove_handlers(slogger)
     else:
         init_worker_logger(logger, logconfig.log_level)
-        init_worker_logger(slogger, logconfig.log_level)
+        init_worker_logger(slogger, logging.DEBUG)  # As on manager, statistics do not depend on the log level
         logconfig.logger_set = True
 
     logger.addHandler(ch)
-- 
2.43.0


From d1459de6a6bcc3e5352a2e94b35ee453c02e8ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:00 +0000
Subject: [PATCH 25/70] fix: log and statistics lines of workers run as threads
 name the worker

---
 libensemble/comms/logs.py | 21 ++++++++++++++-------
 libensemble/worker.py     |  7 ++++++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/libensemble/comms/logs.py b/libensemble/comms/logs.py
index 9022701..e3b2217 100644
--- a/libensemble/comms/logs.py
+++ b/libensemble/comms/logs.py
@@ -14,6 +14,7 @@ a given log message (manager or worker ID).
 import copy
 import logging
 import sys
+import threading
 from pathlib import Path
 
 from libensemble.utils.timer import Timer
@@ -93,21 +94,27 @@ class WorkerIDFilter(logging.Filter):
     # Give min. width adjustment (uses more space if needs more).
     margin_align = 5
 
+    # ID of the worker running on the current thread, if workers are threads of the manager's process
+    on_thread = threading.local()
+
     def __init__(self, worker_id):
         super().__init__()
         self.worker_id = worker_id
+        self.prefix = self._get_prefix(worker_id)
 
-        # Prefix used by stats logger
+    @staticmethod
+    def _get_prefix(worker_id):
+        """Prefix used by stats logger"""
         if worker_id == 0:
-            self.prefix = "Manager" + " " * (WorkerIDFilter.margin_align)
-        else:
-            worker_str = str(self.worker_id).rjust(WorkerIDFilter.margin_align, " ")
-            self.prefix = f"Worker {worker_str}"
+            return "Manager" + " " * (WorkerIDFilter.margin_align)
+        worker_str = str(worker_id).rjust(WorkerIDFilter.margin_align, " ")
+        return f"Worker {worker_str}"
 
     def filter(self, record):
         """Add worker ID to a LogRecord"""
-        record.worker = getattr(record, "worker", self.worker_id)
-        record.prefix = getattr(record, "prefix", self.prefix)
+        worker_id = getattr(WorkerIDFilter.on_thread, "worker_id", self.worker_id)
+        record.worker = getattr(record, "worker", worker_id)
+        record.prefix = getattr(record, "prefix", self._get_prefix(worker_id))
         return True
 
 
diff --git a/libensemble/worker.py b/libensemble/worker.py
index 1a0ed2c..238f641 100644
--- a/libensemble/worker.py
+++ b/libensemble/worker.py
@@ -21,7 +21,7 @@ if TYPE_CHECKING:
 import numpy as np
 import numpy.typing as npt
 
-from libensemble.comms.logs import LogConfig, worker_logging_config
+from libensemble.comms.logs import LogConfig, WorkerIDFilter, worker_logging_config
 from libensemble.executors.executor import Executor
 from libensemble.message_numbers import (
     CALC_EXCEPTION,
@@ -111,6 +111,8 @@ def worker_main(
     # Initialize logging on comms
     if log_comm:
         worker_logging_config(comm, workerID)
+    else:
+        WorkerIDFilter.on_thread.worker_id = workerID  # Worker's thread writes to the manager's log
 
     LS = LocationStack()
     LS.register_loc("workflow", Path(libE_specs.get("workflow_dir_path")))
@@ -122,6 +124,9 @@ def worker_main(
             Executor.executor.base_dir = os.getcwd()
         worker.run()
 
+    if not log_comm:
+        del WorkerIDFilter.on_thread.worker_id
+
     if libE_specs.get("profile"):
         pr.disable()
         profile_state_fname = "worker_%d.prof" % (workerID)
-- 
2.43.0


From 8cf8acdcc8ba7e169537f37916f65c037c6d0bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:19 +0000
Subject: [PATCH 26/70] fix: MPI workers leave no log message behind that a
 later libE() call receives, or hangs on

---
 libensemble/comms/logs.py | 7 +++++++
 libensemble/worker.py     | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/libensemble/comms/logs.py b/libensemble/comms/logs.py
index e3b2217..378130f 100644
--- a/libensemble/comms/logs.py
+++ b/libensemble/comms/logs.py
@@ -169,6 +169,13 @@ def worker_logging_config(comm, worker_id=None):
     slogger.addHandler(ch)
 
 
+def remove_worker_logging():
+    """Remove the comm handlers of a worker, whose comm is about to be closed."""
+    logconfig = LogConfig.config
+    remove_handlers(logging.getLogger(logconfig.name))
+    remove_handlers(logging.getLogger(logconfig.stats_name))
+
+
 def manager_logging_config(specs={}):
     """Add file-based logging at manager."""
     stat_timer = Timer()
diff --git a/libensemble/worker.py b/libensemble/worker.py
index 238f641..7554e11 100644
--- a/libensemble/worker.py
+++ b/libensemble/worker.py
@@ -21,7 +21,7 @@ if TYPE_CHECKING:
 import numpy as np
 import numpy.typing as npt
 
-from libensemble.comms.logs import LogConfig, WorkerIDFilter, worker_logging_config
+from libensemble.comms.logs import LogConfig, WorkerIDFilter, remove_worker_logging, worker_logging_config
 from libensemble.executors.executor import Executor
 from libensemble.message_numbers import (
     CALC_EXCEPTION,
@@ -124,7 +124,9 @@ def worker_main(
             Executor.executor.base_dir = os.getcwd()
         worker.run()
 
-    if not log_comm:
+    if log_comm:
+        remove_worker_logging()  # The manager receives no more messages
+    else:
         del WorkerIDFilter.on_thread.worker_id
 
     if libE_specs.get("profile"):
-- 
2.43.0


From 2220820143d84f910dc82b3c7fa9d06d9e5a883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 27/70] fix: a message pushed back to a queue communicator is
 seen by mail_flag

---
 libensemble/comms/comms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/comms/comms.py b/libensemble/comms/comms.py
index 52f71da..a24ee56 100644
--- a/libensemble/comms/comms.py
+++ b/libensemble/comms/comms.py
@@ -142,7 +142,7 @@ class QComm(Comm):
 
     def mail_flag(self):
         """Check whether a message is ready for receipt."""
-        return not self._inbox.empty()
+        return self.recv_buffer is not None or not self._inbox.empty()
 
 
 class QCommLocal(Comm):
-- 
2.43.0


From 62842601a1b7e821a7986ea8c07e9a86043a70fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 28/70] fix: polling for a manager signal does not discard
 other messages

---
 libensemble/executors/executor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libensemble/executors/executor.py b/libensemble/executors/executor.py
index 81e2cd8..f23f28c 100644
--- a/libensemble/executors/executor.py
+++ b/libensemble/executors/executor.py
@@ -16,7 +16,10 @@ from typing import Any
 
 import libensemble.utils.launcher as launcher
 from libensemble.message_numbers import (
+    EVAL_GEN_TAG,
+    EVAL_SIM_TAG,
     MAN_KILL_SIGNALS,
+    PERSIS_STOP,
     STOP_TAG,
     TASK_FAILED,
     TASK_FAILED_TO_START,
@@ -552,11 +555,14 @@ class Executor:
 
         self.manager_signal = None  # Reset
 
-        # Check for messages; disregard anything but a stop signal
+        # Check for messages; disregard anything but a stop signal, but leave work and stop
+        # messages for a persistent function to that function
         if not self.comm.mail_flag():
             return
         mtag, man_signal = self.comm.recv()
         if mtag != STOP_TAG:
+            if mtag in [EVAL_SIM_TAG, EVAL_GEN_TAG, PERSIS_STOP]:
+                self.comm.push_to_buffer(mtag, man_signal)
             return
 
         # Process the signal and push back on comm (for now)
-- 
2.43.0


From 929318c38812353381ef28b16911b5b062dbcab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 29/70] fix: keyword-only parameters of user functions are not
 given positional arguments

---
 libensemble/utils/runners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libensemble/utils/runners.py b/libensemble/utils/runners.py
index ee0ebd6..e733a5c 100644
--- a/libensemble/utils/runners.py
+++ b/libensemble/utils/runners.py
@@ -36,7 +36,8 @@ class Runner:
         self.f = specs.get("sim_f") or specs.get("gen_f")
 
     def _truncate_args(self, calc_in: npt.NDArray, persis_info, libE_info):
-        nparams = len(inspect.signature(self.f).parameters)
+        params = inspect.signature(self.f).parameters.values()
+        nparams = sum(p.kind not in (p.KEYWORD_ONLY, p.VAR_KEYWORD) for p in params)
         args = [calc_in, persis_info, self.specs, libE_info]
         return args[:nparams]
 
-- 
2.43.0


From 6b98cdd5acd464f6b551cbee1c2b0c9b80f79482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 30/70] fix: default resource sets are not given to persistent
 workers or to the manager's generator

---
 libensemble/manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index e36463a..4f5f944 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -402,7 +402,9 @@ class Manager:
 
         if rset_req is None:
             rset_team = []
-            default_rset = resource_manager.index_list[w - 1]
+            # A persistent worker keeps what it has, and the manager's generator has no default
+            has_default = w > 0 and not self.W[w]["persis_state"]
+            default_rset = resource_manager.index_list[w - 1] if has_default else None
             if default_rset is not None:
                 rset_team.append(default_rset)
             Work["libE_info"]["rset_team"] = rset_team
-- 
2.43.0


From 0042185cd11f207a1f557451a26de03af4d509d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 31/70] fix: assigning a resource set that another worker holds
 raises the exception made for it

---
 libensemble/resources/worker_resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/resources/worker_resources.py b/libensemble/resources/worker_resources.py
index ed3d06c..a3dcc19 100644
--- a/libensemble/resources/worker_resources.py
+++ b/libensemble/resources/worker_resources.py
@@ -83,7 +83,7 @@ class ResourceManager(RSetResources):
                     else:
                         self.nongpu_rsets_free -= 1
                 elif wid != worker_id:
-                    ResourceManagerException(
+                    raise ResourceManagerException(
                         f"Error: Attempting to assign rsets {rset_team}" f" already assigned to workers: {rteam}"
                     )
 
-- 
2.43.0


From c2e4ad8c9b9bf85557bd8093daa4f5086c032046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 32/70] fix: an empty rset_team passed to sim_work or gen_work
 is honoured

---
 libensemble/tools/alloc_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/tools/alloc_support.py b/libensemble/tools/alloc_support.py
index a8c9a65..dab7fe3 100644
--- a/libensemble/tools/alloc_support.py
+++ b/libensemble/tools/alloc_support.py
@@ -201,7 +201,7 @@ class AllocSupport:
 
     def _update_rset_team(self, libE_info, wid, H=None, H_rows=None):
         """Add rset_team to libE_info."""
-        if self.manage_resources and not libE_info.get("rset_team"):
+        if self.manage_resources and libE_info.get("rset_team") is None:
             num_rsets_req = 0
             if self.W[wid]["persis_state"]:
                 # Even if empty list, non-None rset_team stops manager giving default resources
-- 
2.43.0


From d3f6e0364cfb2e3d562ec91aad576a1bed6bce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 33/70] fix: a number of GPUs given as zero is not replaced by
 the platform's or a detected number

resource_info is documented to override what the platform says and what
is detected; a zero was treated as if nothing had been given.
---
 libensemble/resources/resources.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libensemble/resources/resources.py b/libensemble/resources/resources.py
index 443424e..aa6c701 100644
--- a/libensemble/resources/resources.py
+++ b/libensemble/resources/resources.py
@@ -175,7 +175,9 @@ class GlobalResources:
         cores_on_node = resource_info.get("cores_on_node")
         if cores_on_node is None:
             cores_on_node = (platform_info.get("cores_per_node"), platform_info.get("logical_cores_per_node"))
-        gpus_on_node = resource_info.get("gpus_on_node") or platform_info.get("gpus_per_node")
+        gpus_on_node = resource_info.get("gpus_on_node")
+        if gpus_on_node is None:
+            gpus_on_node = platform_info.get("gpus_per_node")
 
         self.tiles_per_gpu = 1
         if libE_specs.get("use_tiles_as_gpus", False):
@@ -265,7 +267,7 @@ class GlobalResources:
             if not cores_on_node[1]:
                 cores_on_node[1] = detected_config[1]
             cores_on_node = tuple(cores_on_node)
-        if not gpus_on_node:
+        if gpus_on_node is None:
             gpus_on_node = detected_config[2]
         return cores_on_node, gpus_on_node
 
-- 
2.43.0


From 15a12d8e868e84730ac20c1507a54a647fc0b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:09 +0000
Subject: [PATCH 34/70] fix: finite-difference stencils are built in any
 dimension, not only in two

The list of (x_ind, f_ind) pairs was shaped by the dimension of x.
---
 libensemble/gen_funcs/persistent_fd_param_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/gen_funcs/persistent_fd_param_finder.py b/libensemble/gen_funcs/persistent_fd_param_finder.py
index d72f645..671b293 100644
--- a/libensemble/gen_funcs/persistent_fd_param_finder.py
+++ b/libensemble/gen_funcs/persistent_fd_param_finder.py
@@ -60,7 +60,7 @@ def fd_param_finder(H, persis_info, gen_specs, libE_info):
         for j in range(p):
             Fhist0[i, j, nf // 2] = U["f0"][j]
 
-    x_f_pairs = np.array(np.meshgrid(range(n), range(p))).T.reshape(-1, n)
+    x_f_pairs = np.array(np.meshgrid(range(n), range(p))).T.reshape(-1, 2)
     H0 = build_H0(x_f_pairs, gen_specs, noise_h_mat)
 
     iters = np.ones_like(noise_h_mat)
-- 
2.43.0


From e411642d097dfce55f2defd5e20238330f35c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:09 +0000
Subject: [PATCH 35/70] fix: fd_param_finder ends when there is no parameter
 left to try

It sent an empty batch and waited for its results, which ended the run with
an error about idle workers.
---
 libensemble/gen_funcs/persistent_fd_param_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/gen_funcs/persistent_fd_param_finder.py b/libensemble/gen_funcs/persistent_fd_param_finder.py
index 671b293..35fde6c 100644
--- a/libensemble/gen_funcs/persistent_fd_param_finder.py
+++ b/libensemble/gen_funcs/persistent_fd_param_finder.py
@@ -112,7 +112,7 @@ def fd_param_finder(H, persis_info, gen_specs, libE_info):
             os.remove("inform.out")
             os.remove("fnoise.out")
 
-        if np.all(inform == 1):
+        if np.all(inform == 1) or len(x_f_pairs_new) == 0:
             break
 
         H0 = build_H0(x_f_pairs_new, gen_specs, noise_h_mat)
-- 
2.43.0


From d6a2182aad7bc50020a4f8ad18a99c34ba8074c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:09 +0000
Subject: [PATCH 36/70] fix: persistent_uniform_final_update draws from its
 random stream

Its points came from the global random state, so they were not reproducible
and, with forked workers, not independent.
---
 libensemble/gen_funcs/persistent_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/gen_funcs/persistent_sampling.py b/libensemble/gen_funcs/persistent_sampling.py
index 375d7f4..b1fd69e 100644
--- a/libensemble/gen_funcs/persistent_sampling.py
+++ b/libensemble/gen_funcs/persistent_sampling.py
@@ -86,7 +86,7 @@ def persistent_uniform_final_update(_, persis_info, gen_specs, libE_info):
         return corners
 
     def sample_corners_with_probability(corners, p, b):
-        selected_corners = np.random.choice(len(corners), size=b, p=p)
+        selected_corners = persis_info["rand_stream"].choice(len(corners), size=b, p=p)
         sampled_corners = [corners[i] for i in selected_corners]
         return sampled_corners, selected_corners
 
-- 
2.43.0


From 03be70412af9836dbe7caee59af8e1c60e716675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:09 +0000
Subject: [PATCH 37/70] fix: borehole function is evaluated for every point of
 a batch

All points got the value of the first one.
---
 libensemble/sim_funcs/borehole.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libensemble/sim_funcs/borehole.py b/libensemble/sim_funcs/borehole.py
index 708a895..1767226 100644
--- a/libensemble/sim_funcs/borehole.py
+++ b/libensemble/sim_funcs/borehole.py
@@ -66,7 +66,9 @@ def borehole_func(x: npt.NDArray):
     denom1 = 2 * L * Tu / (np.log(r / rw) * rw**2 * Kw)
     denom2 = Tu / Tl
 
-    return ((numer / (np.log(r / rw) * (1 + denom1 + denom2))).reshape(-1))[0]
+    f = (numer / (np.log(r / rw) * (1 + denom1 + denom2))).reshape(-1)
+
+    return f[0] if x.ndim == 1 else f
 
 
 def gen_borehole_input(n):
-- 
2.43.0


From 97dc216071beffe43cfc9a6343096fd263c5203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 38/70] fix: batched_history_matching works in one dimension

np.cov gives a scalar then, which is no covariance matrix for the next sample.
---
 libensemble/gen_funcs/persistent_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/gen_funcs/persistent_sampling.py b/libensemble/gen_funcs/persistent_sampling.py
index b1fd69e..9455662 100644
--- a/libensemble/gen_funcs/persistent_sampling.py
+++ b/libensemble/gen_funcs/persistent_sampling.py
@@ -241,7 +241,7 @@ def batched_history_matching(_, persis_info, gen_specs, libE_info):
             all_inds = np.argsort(calc_in["f"])
             best_inds = all_inds[:q]
             mu = np.mean(H_o["x"][best_inds], axis=0)
-            Sigma = np.cov(H_o["x"][best_inds].T)
+            Sigma = np.atleast_2d(np.cov(H_o["x"][best_inds].T))
 
     return None, persis_info, FINISHED_PERSISTENT_GEN_TAG
 
-- 
2.43.0


From 63d725d295dbb3cc11cbba1a4e7c405f53eb84b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:39 +0000
Subject: [PATCH 39/70] fix: list_dicts_to_np finds types that hold the values
 of all records

---
 libensemble/utils/misc.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/libensemble/utils/misc.py b/libensemble/utils/misc.py
index 83f2388..3abbc40 100644
--- a/libensemble/utils/misc.py
+++ b/libensemble/utils/misc.py
@@ -83,12 +83,18 @@ def _get_combinable_multidim_names(first: dict, new_dtype_names: list) -> list:
     return [[name] for name in new_dtype_names]
 
 
-def _decide_dtype(name: str, entry, size: int) -> tuple:
-    """decide dtype of field, and size if needed"""
-    if isinstance(entry, str):  # use numpy style for string type
-        output_type = "U" + str(len(entry) + 1)
+def _decide_dtype(name: str, entries: list, size: int) -> tuple:
+    """decide dtype of field that can hold all entries, and size if needed"""
+    types = list(dict.fromkeys(type(entry) for entry in entries))
+    if all(issubclass(i, (str, bytes)) for i in types):  # use numpy style for string type
+        code = "S" if issubclass(types[0], bytes) else "U"
+        output_type = code + str(max(len(entry) for entry in entries) + 1)
+    elif len(types) == 1:
+        output_type = types[0]  # use default "python" type
+    elif any(np.ndim(entry) for entry in entries):
+        output_type = object
     else:
-        output_type = type(entry)  # use default "python" type
+        output_type = np.result_type(*types)
     if name == "sim_id":
         output_type = int
     if size == 1 or not size:
@@ -98,14 +104,14 @@ def _decide_dtype(name: str, entry, size: int) -> tuple:
 
 
 def _start_building_dtype(
-    first: dict, new_dtype_names: list, combinable_names: list, dtype: list, mapping: dict
+    list_dicts: list, new_dtype_names: list, combinable_names: list, dtype: list, mapping: dict
 ) -> list:
     """parse out necessary components of dtype for output numpy array"""
     for i, entry in enumerate(combinable_names):
         name = new_dtype_names[i]
         size = len(combinable_names[i])  # e.g. 2 for [x0, x1]
         if name not in mapping:  # mapping keys are what we're converting *to*
-            dtype.append(_decide_dtype(name, first[entry[0]], size))
+            dtype.append(_decide_dtype(name, [i[entry[0]] for i in list_dicts], size))
     return dtype
 
 
@@ -126,7 +132,7 @@ def list_dicts_to_np(list_dicts: list, dtype: list = None, mapping: dict = {}) -
     if not list_dicts:
         return np.array([], dtype=dtype if dtype else [])
 
-    # first entry is used to determine dtype
+    # first entry is used to determine the fields
     first = list_dicts[0]
 
     # build a presumptive dtype
@@ -138,7 +144,7 @@ def list_dicts_to_np(list_dicts: list, dtype: list = None, mapping: dict = {}) -
 
     # build dtype of non-mapped fields. appending onto empty dtype
     if not len(dtype):
-        dtype = _start_building_dtype(first, new_dtype_names, combinable_names, dtype, mapping)
+        dtype = _start_building_dtype(list_dicts, new_dtype_names, combinable_names, dtype, mapping)
 
     # append dtype of mapped float fields
     if len(mapping):
@@ -147,7 +153,7 @@ def list_dicts_to_np(list_dicts: list, dtype: list = None, mapping: dict = {}) -
             # If the field is already in the dtype, skip it. *And* the field is present in the input data
             if name not in existing_names and all(src in first for src in mapping[name]):
                 size = len(mapping[name])
-                dtype.append(_decide_dtype(name, 0.0, size))  # default to float
+                dtype.append(_decide_dtype(name, [0.0], size))  # default to float
                 new_dtype_names.append(name)
                 combinable_names.append(mapping[name])
 
-- 
2.43.0


From 7a2874671d326743d1a12371fb157116acb62db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:39 +0000
Subject: [PATCH 40/70] fix: list_dicts_to_np accepts records without _id

---
 libensemble/utils/misc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libensemble/utils/misc.py b/libensemble/utils/misc.py
index 3abbc40..852e2cc 100644
--- a/libensemble/utils/misc.py
+++ b/libensemble/utils/misc.py
@@ -111,13 +111,15 @@ def _start_building_dtype(
         name = new_dtype_names[i]
         size = len(combinable_names[i])  # e.g. 2 for [x0, x1]
         if name not in mapping:  # mapping keys are what we're converting *to*
-            dtype.append(_decide_dtype(name, [i[entry[0]] for i in list_dicts], size))
+            dtype.append(_decide_dtype(name, [i[entry[0]] for i in list_dicts if entry[0] in i], size))
     return dtype
 
 
 def _pack_field(input_dict: dict, field_names: list) -> tuple:
     """pack dict data into tuple for slotting into numpy array"""
     # {"x0": 1, "x1": 2} -> (1, 2)
+    if field_names == ["_id"]:
+        return input_dict.get("_id", -1)  # points from elsewhere have no _id
     return tuple(input_dict[name] for name in field_names) if len(field_names) > 1 else input_dict[field_names[0]]
 
 
@@ -132,8 +134,10 @@ def list_dicts_to_np(list_dicts: list, dtype: list = None, mapping: dict = {}) -
     if not list_dicts:
         return np.array([], dtype=dtype if dtype else [])
 
-    # first entry is used to determine the fields
-    first = list_dicts[0]
+    # entries are used to determine the fields. The first one may lack an _id that others have
+    first = {}
+    for entry in list_dicts:
+        first.update((name, value) for name, value in entry.items() if name not in first)
 
     # build a presumptive dtype
     new_dtype_names = _get_new_dtype_fields(first, mapping)
-- 
2.43.0


From d102855936802856e06777e0e80aaf63d8d005fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:39 +0000
Subject: [PATCH 41/70] fix: list_dicts_to_np fills mapped fields of a given
 dtype, and leaves it unchanged

---
 libensemble/utils/misc.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/libensemble/utils/misc.py b/libensemble/utils/misc.py
index 852e2cc..5016204 100644
--- a/libensemble/utils/misc.py
+++ b/libensemble/utils/misc.py
@@ -139,25 +139,27 @@ def list_dicts_to_np(list_dicts: list, dtype: list = None, mapping: dict = {}) -
     for entry in list_dicts:
         first.update((name, value) for name, value in entry.items() if name not in first)
 
+    # only the mappings with their source fields present in the input data
+    mapping = {name: srcs for name, srcs in mapping.items() if all(src in first for src in srcs)}
+
     # build a presumptive dtype
     new_dtype_names = _get_new_dtype_fields(first, mapping)
     combinable_names = _get_combinable_multidim_names(first, new_dtype_names)  # [['x0', 'x1'], ['z']]
 
-    if dtype is None:  # Default value gets set upon function instantiation (default is mutable).
-        dtype = []
-
     # build dtype of non-mapped fields. appending onto empty dtype
-    if not len(dtype):
-        dtype = _start_building_dtype(list_dicts, new_dtype_names, combinable_names, dtype, mapping)
+    if dtype is None or not len(dtype):
+        dtype = _start_building_dtype(list_dicts, new_dtype_names, combinable_names, [], mapping)
 
     # append dtype of mapped float fields
     if len(mapping):
+        dtype = list(dtype)  # the given dtype is the caller's
         existing_names = [f[0] for f in dtype]
         for name in mapping:
-            # If the field is already in the dtype, skip it. *And* the field is present in the input data
-            if name not in existing_names and all(src in first for src in mapping[name]):
+            # If the field is already in the dtype, only its values are missing
+            if name not in existing_names:
                 size = len(mapping[name])
                 dtype.append(_decide_dtype(name, [0.0], size))  # default to float
+            if name not in new_dtype_names:
                 new_dtype_names.append(name)
                 combinable_names.append(mapping[name])
 
-- 
2.43.0


From e568ebcfdd96dc9d65494cb85a55d7dc6b9205b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:39 +0000
Subject: [PATCH 42/70] fix: unmap_numpy_array keeps the width of texts

---
 libensemble/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/utils/misc.py b/libensemble/utils/misc.py
index 5016204..15e3e9e 100644
--- a/libensemble/utils/misc.py
+++ b/libensemble/utils/misc.py
@@ -204,7 +204,7 @@ def unmap_numpy_array(array: npt.NDArray, mapping: dict = {}) -> npt.NDArray:
     for field in array.dtype.names:
         if field in mapping:
             for var_name in mapping[field]:
-                new_fields.append((var_name, array[field].dtype.type))
+                new_fields.append((var_name, array[field].dtype))
         else:
             # Preserve the original field structure including per-row shape
             field_dtype = array.dtype[field]
-- 
2.43.0


From a94c532db188818ecad209e573e14e95e913f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:39 +0000
Subject: [PATCH 43/70] fix: map_numpy_array copies fields that are not mapped,
 and keeps values of every type

---
 libensemble/utils/misc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libensemble/utils/misc.py b/libensemble/utils/misc.py
index 15e3e9e..5d2032f 100644
--- a/libensemble/utils/misc.py
+++ b/libensemble/utils/misc.py
@@ -242,6 +242,9 @@ def map_numpy_array(array: npt.NDArray, mapping: dict = {}) -> npt.NDArray:
     if not mapping or array is None:
         return array
 
+    # Only map fields that are present in the source array
+    mapping = {name: srcs for name, srcs in mapping.items() if all(src in array.dtype.names for src in srcs)}
+
     # Create new dtype with mapped fields
     new_fields = []
 
@@ -252,9 +255,7 @@ def map_numpy_array(array: npt.NDArray, mapping: dict = {}) -> npt.NDArray:
 
     # First add mapped fields from the mapping definition
     for mapped_name, val_list in mapping.items():
-        first_var = val_list[0]
-        # We assume all components have the same type, take from first
-        base_type = array.dtype[first_var]
+        base_type = np.result_type(*[array.dtype[val] for val in val_list])
         size = len(val_list)
         if size > 1:
             new_fields.append((mapped_name, base_type, (size,)))
@@ -275,7 +276,7 @@ def map_numpy_array(array: npt.NDArray, mapping: dict = {}) -> npt.NDArray:
     # Fill the new array
     for field in mapped_array.dtype.names:
         # Mapped field: stack the source columns
-        val_list = mapping[field]
+        val_list = mapping.get(field, [field])
         if len(val_list) == 1:
             mapped_array[field] = array[val_list[0]]
         else:
-- 
2.43.0


From 533cf713a624b2cf78dec2225782502f0eb8290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:39 +0000
Subject: [PATCH 44/70] fix: np_to_list_dicts gives scalars for mapped fields
 of length one

---
 libensemble/utils/misc.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/libensemble/utils/misc.py b/libensemble/utils/misc.py
index 5d2032f..dd9a0b6 100644
--- a/libensemble/utils/misc.py
+++ b/libensemble/utils/misc.py
@@ -176,14 +176,6 @@ def list_dicts_to_np(list_dicts: list, dtype: list = None, mapping: dict = {}) -
     return out
 
 
-def _is_multidim(selection: npt.NDArray) -> bool:
-    return hasattr(selection, "__len__") and len(selection) > 1 and not isinstance(selection, str)
-
-
-def _is_singledim(selection: npt.NDArray) -> bool:
-    return (hasattr(selection, "__len__") and len(selection) == 1) or selection.shape == ()
-
-
 def unmap_numpy_array(array: npt.NDArray, mapping: dict = {}) -> npt.NDArray:
     """Convert numpy array with mapped fields back to individual scalar fields.
     Parameters
@@ -305,11 +297,9 @@ def np_to_list_dicts(array: npt.NDArray, mapping: dict = {}) -> List[dict]:
                     "dimension mismatch between mapping and array with field " + field
                 )
 
+                values = np.atleast_1d(row[field])
                 for i, name in enumerate(mapping[field]):
-                    if _is_multidim(row[field]):
-                        new_dict[name] = row[field][i]
-                    elif _is_singledim(row[field]):
-                        new_dict[name] = row[field]
+                    new_dict[name] = values[i]
 
         out.append(new_dict)
 
-- 
2.43.0


From 6693846c02a5c35e8ba0e0a9b351735b94acb6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:39 +0000
Subject: [PATCH 45/70] fix: results are unmapped for standard generators after
 every batch

---
 libensemble/utils/runners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/utils/runners.py b/libensemble/utils/runners.py
index e733a5c..6e4fc45 100644
--- a/libensemble/utils/runners.py
+++ b/libensemble/utils/runners.py
@@ -133,7 +133,7 @@ class StandardGenRunner(Runner):
         )
 
     def _convert_ingest(self, x: npt.NDArray) -> list:
-        self.gen.ingest(np_to_list_dicts(x))
+        self.gen.ingest(np_to_list_dicts(x, mapping=getattr(self.gen, "variables_mapping", {})))
 
     def _convert_initial_ingest(self, x: npt.NDArray) -> list:
         self.gen.ingest(np_to_list_dicts(x, mapping=getattr(self.gen, "variables_mapping", {})))
-- 
2.43.0


From ee156de4cfc988c270c8664e631bcad82d53947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:39 +0000
Subject: [PATCH 46/70] fix: gest_api_sim does not evaluate a point twice when
 the simulator raises TypeError

---
 libensemble/sim_funcs/gest_api_wrapper.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/libensemble/sim_funcs/gest_api_wrapper.py b/libensemble/sim_funcs/gest_api_wrapper.py
index 414c5a5..d940536 100644
--- a/libensemble/sim_funcs/gest_api_wrapper.py
+++ b/libensemble/sim_funcs/gest_api_wrapper.py
@@ -6,11 +6,22 @@ VOCS variables and constants, and return a dict with VOCS objectives,
 observables, and constraints.
 """
 
+import inspect
+
 import numpy as np
 
 __all__ = ["gest_api_sim"]
 
 
+def _accepts_libE_info(simulator):
+    """Whether the simulator can be called with libE_info"""
+    try:
+        params = inspect.signature(simulator).parameters
+    except (TypeError, ValueError):
+        return False
+    return "libE_info" in params or any(p.kind == p.VAR_KEYWORD for p in params.values())
+
+
 def gest_api_sim(H, persis_info, sim_specs, libE_info):
     """
     LibEnsemble sim_f wrapper for gest-api format simulation functions.
@@ -71,6 +82,9 @@ def gest_api_sim(H, persis_info, sim_specs, libE_info):
     input_fields = get_vocs_fields(vocs, ["variables", "constants"])
     output_fields = get_vocs_fields(vocs, ["objectives", "observables", "constraints"])
 
+    # Pass libE_info if the function accepts it
+    kwargs = {"libE_info": libE_info} if _accepts_libE_info(simulator) else {}
+
     # Process each point in the batch
     for i in range(batch):
         # Build input_dict from H for this point
@@ -78,12 +92,7 @@ def gest_api_sim(H, persis_info, sim_specs, libE_info):
         for field in input_fields:
             input_dict[field] = H[field][i]
 
-        # Try to pass libE_info, fall back if function doesn't accept it
-        try:
-            output_dict = simulator(input_dict, libE_info=libE_info, **user_specs)
-        except TypeError:
-            # Function doesn't accept libE_info, call without it
-            output_dict = simulator(input_dict, **user_specs)
+        output_dict = simulator(input_dict, **kwargs, **user_specs)
 
         # Extract outputs from the returned dict
         for field in output_fields:
-- 
2.43.0


From 9a811e79765114da42ccdf9c686981e22ae3b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:39 +0000
Subject: [PATCH 47/70] fix: H0 points without _id are not given the _id of a
 generated point

---
 libensemble/history.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libensemble/history.py b/libensemble/history.py
index fc15bd8..be8fd6a 100644
--- a/libensemble/history.py
+++ b/libensemble/history.py
@@ -78,6 +78,9 @@ class History:
             if "sim_id" not in fields:
                 logger.manager_warning("Assigning sim_ids to entries in H0")
                 H["sim_id"][: len(H0)] = np.arange(0, len(H0))
+
+            if "_id" in H.dtype.names and "_id" not in fields:
+                H["_id"][: len(H0)] = -1
         else:
             H = np.zeros(L + len(H0), dtype=specs_dtype_list)
 
-- 
2.43.0


From fa819878bad9a4048f4256db8dc0b96bb8c585d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:20 +0000
Subject: [PATCH 48/70] fix: standard generators may be stopped right after
 their first batch

---
 libensemble/utils/runners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libensemble/utils/runners.py b/libensemble/utils/runners.py
index 6e4fc45..25b1f3c 100644
--- a/libensemble/utils/runners.py
+++ b/libensemble/utils/runners.py
@@ -156,7 +156,8 @@ class StandardGenRunner(Runner):
 
     def _start_generator_loop(self, tag, Work, H_in):
         """Start the generator loop after choosing best way of giving initial results to gen"""
-        self._convert_initial_ingest(H_in)
+        if H_in is not None:
+            self._convert_initial_ingest(H_in)
         return self._loop_over_gen(tag, Work, H_in)
 
     def _persistent_result(self, calc_in, persis_info, libE_info):
-- 
2.43.0


From 29573bdc8c528ab1056b6b388db1f2af896f630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:20 +0000
Subject: [PATCH 49/70] fix: _id stays unset in arrays made of records without
 _id

---
 libensemble/utils/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libensemble/utils/misc.py b/libensemble/utils/misc.py
index dd9a0b6..ced3b35 100644
--- a/libensemble/utils/misc.py
+++ b/libensemble/utils/misc.py
@@ -164,6 +164,8 @@ def list_dicts_to_np(list_dicts: list, dtype: list = None, mapping: dict = {}) -
                 combinable_names.append(mapping[name])
 
     out = np.zeros(len(list_dicts), dtype=dtype)
+    if "_id" in out.dtype.names:
+        out["_id"] = -1  # stays unset for records without it
 
     # starting packing data from list of dicts into array
     for j, input_dict in enumerate(list_dicts):
-- 
2.43.0


From 7a1352d12c1571e31f99267aabd0d62cea523faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:55 +0000
Subject: [PATCH 50/70] fix: text constants of a VOCS get a text field

---
 libensemble/specs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libensemble/specs.py b/libensemble/specs.py
index a38efd4..76c119e 100644
--- a/libensemble/specs.py
+++ b/libensemble/specs.py
@@ -41,6 +41,9 @@ def _get_dtype(field, name: str):
                 dtype = f"U{max_len}"
             else:
                 dtype = type(sample_val)
+    # Text constants need a text field
+    if dtype is None and isinstance(getattr(field, "value", None), str):
+        dtype = f"U{max(len(field.value), 1)}"
     return dtype
 
 
-- 
2.43.0


From 666b0213f0c45434e00764f02ef71261aca68f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:55 +0000
Subject: [PATCH 51/70] fix: results sent at the end to a standard generator
 are not returned as new points

---
 libensemble/utils/runners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/utils/runners.py b/libensemble/utils/runners.py
index 25b1f3c..2fd7cb1 100644
--- a/libensemble/utils/runners.py
+++ b/libensemble/utils/runners.py
@@ -146,7 +146,7 @@ class StandardGenRunner(Runner):
             tag, Work, H_in = self.ps.send_recv(H_out)
             if H_in is not None:
                 self._convert_ingest(H_in)
-        return H_in
+        return None  # the last results received are no new points
 
     def _get_initial_suggest(self, libE_info) -> npt.NDArray:
         """Get initial batch from generator based on generator type"""
-- 
2.43.0


From de137694453bc8593c96374764f55a31ceb7c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:00 +0000
Subject: [PATCH 52/70] fix: export unmaps fields once, also when a variable
 has the name of a mapped field

---
 libensemble/generators.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libensemble/generators.py b/libensemble/generators.py
index ef2251e..4d981c1 100644
--- a/libensemble/generators.py
+++ b/libensemble/generators.py
@@ -239,8 +239,5 @@ class PersistentGenInterfacer(LibensembleGenerator):
         if vocs_field_names and local_H is not None and self.variables_mapping:
             local_H = unmap_numpy_array(local_H, self.variables_mapping)
         if as_dicts and local_H is not None:
-            if vocs_field_names and self.variables_mapping:
-                local_H = np_to_list_dicts(local_H, self.variables_mapping)
-            else:
-                local_H = np_to_list_dicts(local_H)
+            local_H = np_to_list_dicts(local_H)  # already unmapped if asked for
         return (local_H, persis_info, tag)
-- 
2.43.0


From 1e46cbf7339033384759b108cc2b3c68bb9ea372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:15 +0000
Subject: [PATCH 53/70] fix: libE generators work on ensembles with the fields
 of the VOCS

---
 libensemble/utils/runners.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libensemble/utils/runners.py b/libensemble/utils/runners.py
index 2fd7cb1..ca38b3a 100644
--- a/libensemble/utils/runners.py
+++ b/libensemble/utils/runners.py
@@ -188,14 +188,24 @@ class StandardGenRunner(Runner):
 
 
 class LibensembleGenRunner(StandardGenRunner):
+    def _suggest(self, batch_size: int) -> npt.NDArray:
+        """Get points, with variables as separate fields if these are the fields of the ensemble"""
+        out_names = [field[0] for field in self.specs.get("out") or []]
+        mapping = {
+            name: variables
+            for name, variables in self.gen.variables_mapping.items()
+            if name not in out_names and all(var in out_names for var in variables)
+        }
+        return unmap_numpy_array(self.gen.suggest_numpy(batch_size), mapping=mapping)
+
     def _get_initial_suggest(self, libE_info) -> npt.NDArray:
         """Get initial batch from generator based on generator type"""
         initial_batch = self.specs.get("initial_batch_size") or self.specs.get("batch_size") or libE_info["batch_size"]
-        H_out = self.gen.suggest_numpy(initial_batch)
+        H_out = self._suggest(initial_batch)
         return H_out
 
     def _get_points_updates(self, batch_size: int) -> (npt.NDArray, list):
-        numpy_out = self.gen.suggest_numpy(batch_size)
+        numpy_out = self._suggest(batch_size)
         if callable(getattr(self.gen, "suggest_updates", None)):
             updates = self.gen.suggest_updates()
         else:
@@ -203,10 +213,10 @@ class LibensembleGenRunner(StandardGenRunner):
         return numpy_out, updates
 
     def _convert_ingest(self, x: npt.NDArray) -> list:
-        self.gen.ingest_numpy(x)
+        self.gen.ingest_numpy(map_numpy_array(x, mapping=self.gen.variables_mapping))
 
     def _convert_initial_ingest(self, x: npt.NDArray) -> list:
-        self.gen.ingest_numpy(x)
+        self.gen.ingest_numpy(map_numpy_array(x, mapping=self.gen.variables_mapping))
 
 
 class LibensembleGenThreadRunner(StandardGenRunner):
-- 
2.43.0


From fc2bf3bbc369c9db290c43c800ac1ea3eadb8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:30 +0000
Subject: [PATCH 54/70] fix: saved histories are complete under their name,
 replace older ones only then, and other files stay

---
 libensemble/manager.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 4f5f944..218ad63 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -5,6 +5,7 @@ libEnsemble manager routines
 
 import cProfile
 import glob
+import io
 import logging
 import os
 import platform
@@ -203,6 +204,7 @@ class Manager:
         timer = Timer()
         timer.start()
         self.date_start = timer.date_start.replace(" ", "_")
+        self.last_saved = {}  # Newest history file of each kind saved by this run
         self.safe_mode = libE_specs.get("safe_mode")
         self.kill_canceled_sims = libE_specs.get("kill_canceled_sims")
         self.hist = hist
@@ -329,11 +331,26 @@ class Manager:
             count = k * (count // k)
         date_start = self._get_date_start_str()
 
-        filename = fname.format(self.libE_specs["H_file_prefix"], date_start, count)
-        if (not os.path.isfile(filename) and count > 0) or complete:
-            for old_file in glob.glob(fname.format(self.libE_specs["H_file_prefix"], date_start, "*")):
-                os.remove(old_file)
-            np.save(filename, self.hist.trim_H())
+        prefix = self.libE_specs["H_file_prefix"]
+        filename = fname.format(prefix, date_start, count)
+        if (filename != self.last_saved.get(fname) and count > 0) or complete:
+            # The new file appears under its name when it is complete, and replaces the older ones only then.
+            part_name = filename + ".part"
+            contents = io.BytesIO()  # np.save does not notice when it cannot write the last part of a real file
+            np.save(contents, self.hist.trim_H())
+            try:
+                with open(part_name, "wb") as part_file:
+                    part_file.write(contents.getbuffer())
+                os.replace(part_name, filename)
+            except OSError:
+                if os.path.isfile(part_name):
+                    os.remove(part_name)
+                raise
+            self.last_saved[fname] = filename
+            head = fname.format(prefix, date_start, "").removesuffix(".npy")
+            for old_file in glob.glob(glob.escape(head) + "*.npy"):
+                if old_file != filename and old_file[len(head) : -len(".npy")].isdigit():
+                    os.remove(old_file)
 
     def _save_every_k_sims(self, complete: bool) -> None:
         """Saves history every kth sim step"""
-- 
2.43.0


From 3162d06d706a3fcfddeb1c471f12a5b40ed7d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:32 +0000
Subject: [PATCH 55/70] fix: safe mode restores protected fields that an
 allocation function modified

---
 libensemble/manager.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 218ad63..e352993 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -700,24 +700,30 @@ class Manager:
     def _alloc_work(self, H: npt.NDArray, persis_info: dict) -> dict:
         """
         Calls work allocation function from alloc_specs. Copies protected libE
-        fields before the alloc_f call and ensures they weren't modified
+        fields before the alloc_f call, restores them if they were modified, and raises an error then
         """
         if self.safe_mode:
             saveH = repack_fields(H[protected_libE_fields], recurse=True)
 
         alloc_f = self.alloc_specs["alloc_f"]
-        output = alloc_f(
-            self.W,
-            H,
-            self.sim_specs,
-            self.gen_specs,
-            self.alloc_specs,
-            persis_info,
-            self._get_alloc_libE_info(),
-        )
+        modified = []
+        try:
+            output = alloc_f(
+                self.W,
+                H,
+                self.sim_specs,
+                self.gen_specs,
+                self.alloc_specs,
+                persis_info,
+                self._get_alloc_libE_info(),
+            )
+        finally:
+            if self.safe_mode:
+                modified = [field for field in protected_libE_fields if H[field].tobytes() != saveH[field].tobytes()]
+                for field in modified:
+                    H[field] = saveH[field]
 
-        if self.safe_mode:
-            assert np.array_equal(saveH, H[protected_libE_fields]), "The allocation function modified protected fields"
+        assert not modified, f"The allocation function modified protected fields: {modified}"
 
         if len(output) == 2:
             output = output + ((0,))
-- 
2.43.0


From 9b9f46d7826418417cc719d07f981f63c9db0e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:27 +0000
Subject: [PATCH 56/70] fix: an error in the final data of a persistent
 function does not hang the run

---
 libensemble/manager.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index e352993..d522951 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -516,6 +516,15 @@ class Manager:
             self.W[w]["active"] = 0
 
         if calc_status in [FINISHED_PERSISTENT_SIM_TAG, FINISHED_PERSISTENT_GEN_TAG]:
+            # The worker has left its persistent mode, also if its data cannot be used
+            self.W[w]["persis_state"] = 0
+            if self.W[w]["active_recv"]:
+                self.W[w]["active"] = 0
+                self.W[w]["active_recv"] = False
+            if w in self.persis_pending:
+                self.persis_pending.remove(w)
+                self.W[w]["active"] = 0
+            self._freeup_resources(w)
             final_data = D_recv.get("calc_out", None)
             if isinstance(final_data, np.ndarray):
                 if calc_status is FINISHED_PERSISTENT_GEN_TAG and self.libE_specs.get("use_persis_return_gen", False):
@@ -527,14 +536,6 @@ class Manager:
                     self.hist.sim_ended_count -= already_ended  # Count each simulation once
                 else:
                     logger.info(_PERSIS_RETURN_WARNING)
-            self.W[w]["persis_state"] = 0
-            if self.W[w]["active_recv"]:
-                self.W[w]["active"] = 0
-                self.W[w]["active_recv"] = False
-            if w in self.persis_pending:
-                self.persis_pending.remove(w)
-                self.W[w]["active"] = 0
-            self._freeup_resources(w)
         else:
             if calc_type == EVAL_SIM_TAG:
                 try:
-- 
2.43.0


From b2f38304a0ec38b92fba091a588612bc4e8e642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 57/70] fix: the fields of H0 take types that hold new values
 too, and H0 without sim_started or with sim_max 0 is kept

---
 libensemble/history.py              | 52 +++++++++++++++++++++--------
 libensemble/utils/specs_checkers.py |  2 +-
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/libensemble/history.py b/libensemble/history.py
index be8fd6a..6d87624 100644
--- a/libensemble/history.py
+++ b/libensemble/history.py
@@ -55,19 +55,21 @@ class History:
         specs_dtype_list = list(set(libE_fields + sum([k.get("out", []) for k in specs if k], [])))
 
         if len(H0):
-            # remove duplicate fields from specs dtype list if those already in H0 (H0 takes precedence)
-            pruned_specs_dtype_list = [i for i in specs_dtype_list if i[0] not in H0.dtype.names]
-            H_fields = list(set(pruned_specs_dtype_list + H0.dtype.descr))
-
-            H = np.zeros(L + len(H0), dtype=H_fields)
+            H = np.zeros(L + len(H0), dtype=self._combine_fields(specs_dtype_list, H0))
 
             # Prepend H with H0
             fields = H0.dtype.names
 
             for field in fields:
-                H[field][: len(H0)] = H0[field]
-
-            if "sim_started" not in fields:
+                rows = H[field][: len(H0)]
+                # H0 may have fewer components of a field
+                part = tuple(slice(n) for n in H0[field].shape) if H0[field].ndim == rows.ndim else ...
+                rows[part] = H0[field]
+
+            if "sim_started" not in fields and "sim_ended" in fields:
+                logger.manager_warning("Marking entries in H0 as having been 'sim_started' if 'sim_ended'")
+                H["sim_started"][: len(H0)] = H0["sim_ended"]
+            elif "sim_started" not in fields:
                 logger.manager_warning("Marking entries in H0 as having been 'sim_started' and 'sim_ended'")
                 H["sim_started"][: len(H0)] = 1
                 H["sim_ended"][: len(H0)] = 1
@@ -81,17 +83,21 @@ class History:
 
             if "_id" in H.dtype.names and "_id" not in fields:
                 H["_id"][: len(H0)] = -1
+
+            if "resource_sets" in H.dtype.names and "resource_sets" not in fields:
+                H["resource_sets"][: len(H0)] = 1
         else:
             H = np.zeros(L + len(H0), dtype=specs_dtype_list)
 
-        H["sim_id"][-L:] = -1
+        n0 = len(H0)
+        H["sim_id"][n0:] = -1
         if "_id" in H.dtype.names:
-            H["_id"][-L:] = -1
-        H["sim_started_time"][-L:] = np.inf
-        H["gen_informed_time"][-L:] = np.inf
+            H["_id"][n0:] = -1
+        H["sim_started_time"][n0:] = np.inf
+        H["gen_informed_time"][n0:] = np.inf
 
         if "resource_sets" in H.dtype.names:
-            H["resource_sets"][-L:] = 1
+            H["resource_sets"][n0:] = 1
 
         self.H = H
         self.using_H0 = len(H0) > 0
@@ -112,6 +118,26 @@ class History:
         self.last_started = -1
         self.last_ended = -1
 
+    @staticmethod
+    def _combine_fields(specs_dtype_list: list, H0: npt.NDArray) -> list:
+        """
+        Fields of a history that begins with H0. A field that is in the specs and in H0 has a
+        type that holds the values of both (libE fields keep their type).
+        """
+        libE_names = [i[0] for i in libE_fields]
+        combined = [i for i in specs_dtype_list if i[0] in libE_names or i[0] not in H0.dtype.names]
+        for name in H0.dtype.names:
+            if name in libE_names:
+                continue
+            base, shape = H0.dtype[name].base, H0.dtype[name].shape
+            for new in [np.dtype([i])[0] for i in specs_dtype_list if i[0] == name]:
+                if base.kind == new.base.kind or {base.kind, new.base.kind} <= set("biufc"):
+                    base = np.promote_types(base, new.base)
+                if len(shape) == len(new.shape):
+                    shape = tuple(max(sizes) for sizes in zip(shape, new.shape))
+            combined.append((name, base, shape))
+        return combined
+
     def _append_new_fields(self, H_f: npt.NDArray) -> None:
         old_fields = self.H.dtype.names
         new_descr = [d for d in np.lib.recfunctions.repack_fields(H_f).dtype.descr if d[0] not in old_fields]
diff --git a/libensemble/utils/specs_checkers.py b/libensemble/utils/specs_checkers.py
index b8e793f..cbc8626 100644
--- a/libensemble/utils/specs_checkers.py
+++ b/libensemble/utils/specs_checkers.py
@@ -46,7 +46,7 @@ def _check_H0(values):
         for field in specs_inputs_list:
             assert field in list(H0.dtype.names) + specs_dtype_fields, f"{field} not in H0 although expected as input"
 
-        assert "sim_ended" not in H0.dtype.names or np.all(
+        assert not {"sim_started", "sim_ended"} <= set(H0.dtype.names) or np.all(
             H0["sim_started"] == H0["sim_ended"]
         ), "H0 contains unreturned or invalid points"
 
-- 
2.43.0


From da1ccbd05b31ff2df596986f9e2e8acf9fa6e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:09 +0000
Subject: [PATCH 58/70] fix: allocation by next_to_give does not give points of
 H0 again that have been evaluated

---
 libensemble/tools/alloc_support.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libensemble/tools/alloc_support.py b/libensemble/tools/alloc_support.py
index dab7fe3..17a9f11 100644
--- a/libensemble/tools/alloc_support.py
+++ b/libensemble/tools/alloc_support.py
@@ -370,8 +370,10 @@ class AllocSupport:
         return np.nonzero(points_avail)[0][q_inds]
 
     def skip_canceled_points(self, H, persis_info):
-        """Increments the "next_to_give" field in persis_info to skip any cancelled points"""
-        while persis_info["next_to_give"] < len(H) and H[persis_info["next_to_give"]]["cancel_requested"]:
+        """Increments the "next_to_give" field in persis_info to skip any cancelled points, and points already given"""
+        while persis_info["next_to_give"] < len(H) and (
+            H[persis_info["next_to_give"]]["cancel_requested"] or H[persis_info["next_to_give"]]["sim_started"]
+        ):
             persis_info["next_to_give"] += 1
 
         return persis_info
-- 
2.43.0


From 012085fcab92eea5c522bdd0eab3f9c920af58b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:03 +0000
Subject: [PATCH 59/70] fix: only_persistent_gens gives no simulations to
 generator-only workers with alt_type

---
 libensemble/alloc_funcs/start_only_persistent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libensemble/alloc_funcs/start_only_persistent.py b/libensemble/alloc_funcs/start_only_persistent.py
index 7781ed3..7468b5b 100644
--- a/libensemble/alloc_funcs/start_only_persistent.py
+++ b/libensemble/alloc_funcs/start_only_persistent.py
@@ -96,8 +96,8 @@ def only_persistent_gens(W, H, sim_specs, gen_specs, alloc_specs, persis_info, l
     avail_workers = support.avail_worker_ids(persistent=False, zero_resource_workers=False, gen_workers=False)
     if user.get("alt_type"):
         avail_workers = list(
-            set(support.avail_worker_ids(persistent=False, zero_resource_workers=False))
-            | set(support.avail_worker_ids(persistent=EVAL_SIM_TAG, zero_resource_workers=False))
+            set(support.avail_worker_ids(persistent=False, zero_resource_workers=False, gen_workers=False))
+            | set(support.avail_worker_ids(persistent=EVAL_SIM_TAG, zero_resource_workers=False, gen_workers=False))
         )
     for wid in avail_workers:
         if not np.any(points_to_evaluate):
-- 
2.43.0


From 9cae51f2e1d9ab80bc5541cd655282d83cf61620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:23 +0000
Subject: [PATCH 60/70] fix: a relative sim_input_dir or gen_input_dir given as
 a Path is found from a workflow directory

---
 libensemble/utils/validators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libensemble/utils/validators.py b/libensemble/utils/validators.py
index 2164bf2..f64df06 100644
--- a/libensemble/utils/validators.py
+++ b/libensemble/utils/validators.py
@@ -76,6 +76,7 @@ def check_input_dir_exists(cls, value):
             value = Path(value).absolute()
         assert value.exists(), "value does not refer to an existing path"
         assert value != Path("."), "Value can't refer to the current directory ('.' or Path('.'))."
+        value = value.absolute()
     return value
 
 
-- 
2.43.0


From 08b48aac3936ac3a1b4ca92cb3e65a55159da84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:23 +0000
Subject: [PATCH 61/70] fix: an input file is not copied through a symlink of
 the same name, into the linked file

---
 libensemble/utils/loc_stack.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libensemble/utils/loc_stack.py b/libensemble/utils/loc_stack.py
index 8eadf52..fff15d1 100644
--- a/libensemble/utils/loc_stack.py
+++ b/libensemble/utils/loc_stack.py
@@ -28,12 +28,14 @@ class LocationStack:
         for file_path in copy_files:
             file_path = Path(file_path).absolute()
             dest_path = destdir / Path(file_path.name)
-            if allow_overwrite and dest_path.exists():
-                if dest_path.is_dir():
+            if allow_overwrite and (dest_path.exists() or dest_path.is_symlink()):
+                if dest_path.is_dir() and not dest_path.is_symlink():
                     shutil.rmtree(dest_path)
                 else:
                     dest_path.unlink()
             try:
+                if dest_path.is_symlink():  # Never write through a link into the file it refers to
+                    raise FileExistsError(f"{dest_path} is a link")
                 if file_path.is_dir():
                     shutil.copytree(file_path, dest_path, dirs_exist_ok=allow_overwrite)
                 else:
-- 
2.43.0


From 4ece56cfe8a53b62032ba0602aaa12d7f6b458c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:23 +0000
Subject: [PATCH 62/70] fix: workers are stopped when the directory for copying
 back already exists

---
 libensemble/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index d522951..9c08d6b 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -263,7 +263,7 @@ class Manager:
 
         try:
             temp_EnsembleDirectory.make_copyback()
-        except AssertionError as e:  # Ensemble dir exists and isn't empty.
+        except (AssertionError, FileExistsError) as e:  # Ensemble dir (or its copy) exists and isn't empty.
             logger.manager_warning(_USER_CALC_DIR_WARNING.format(temp_EnsembleDirectory.ensemble_dir))
             self._kill_workers()
             raise ManagerException(
-- 
2.43.0


From f922d3ef0c3a94029dae4c28396e611bcd256c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:23 +0000
Subject: [PATCH 63/70] fix: the directory for copying back is made even if no
 worker has made the workflow directory yet

---
 libensemble/utils/output_directory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libensemble/utils/output_directory.py b/libensemble/utils/output_directory.py
index b43ee34..2c3d654 100644
--- a/libensemble/utils/output_directory.py
+++ b/libensemble/utils/output_directory.py
@@ -80,9 +80,9 @@ class EnsembleDirectory:
             raise
         if self.ensemble_copy_back:
             if not self.allow_overwrite:
-                self.copybackdir.mkdir()
+                self.copybackdir.mkdir(parents=True)
             else:
-                self.copybackdir.mkdir(exist_ok=True)
+                self.copybackdir.mkdir(parents=True, exist_ok=True)
 
     def use_calc_dirs(self, typelabel: int) -> bool:
         """Determines calc_dirs enabling for each calc type"""
-- 
2.43.0


From 9da6b924707ec0d92834621b798faf319dc6aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:23 +0000
Subject: [PATCH 64/70] fix: results in a relative ensemble_dir_path inside a
 workflow directory are not overwritten by a second run

---
 libensemble/utils/output_directory.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libensemble/utils/output_directory.py b/libensemble/utils/output_directory.py
index 2c3d654..c8f19d5 100644
--- a/libensemble/utils/output_directory.py
+++ b/libensemble/utils/output_directory.py
@@ -61,8 +61,7 @@ class EnsembleDirectory:
         self.gen_dir_copy_files = self.specs.get("gen_dir_copy_files", [])
         self.gen_dir_symlink_files = self.specs.get("gen_dir_symlink_files", [])
 
-        if self.workflow_dir and self.ensemble_dir.stem == "ensemble":  # default ensemble dir without adjustment
-            self.ensemble_dir = self.workflow_dir / self.ensemble_dir
+        self.ensemble_dir = self.workflow_dir / self.ensemble_dir  # workers start in the workflow dir
 
         if self.ensemble_copy_back:
             self.copybackdir = self.workflow_dir / Path(self.ensemble_dir.stem + "_back")
-- 
2.43.0


From 51419b5752d41e45314af17eecca0c86be6c6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:23 +0000
Subject: [PATCH 65/70] fix: files named like calculation directories are
 copied back with the ensemble directory

---
 libensemble/utils/output_directory.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libensemble/utils/output_directory.py b/libensemble/utils/output_directory.py
index c8f19d5..765fdc1 100644
--- a/libensemble/utils/output_directory.py
+++ b/libensemble/utils/output_directory.py
@@ -202,9 +202,12 @@ class EnsembleDirectory:
 
         # If not using calc dirs, likely miscellaneous files to copy back
         if not self.sim_dirs_make or not self.gen_dirs_make:
-            p = re.compile(r"((^sim)|(^gen))\d")
-            for filep in [i for i in os.listdir(self.ensemble_dir) if not p.match(i)]:  # each noncalc_dir file
+            made = [i for i, make in [("sim", self.sim_dirs_make), ("gen", self.gen_dirs_make)] if make]
+            p = re.compile("(" + "|".join(made) + r")\d") if made else None
+            for filep in os.listdir(self.ensemble_dir):
                 source_path = self.ensemble_dir / filep
+                if p and p.match(filep) and os.path.isdir(source_path):
+                    continue  # a calc_dir, copied above
                 dest_path = self.copybackdir / filep
                 if self.allow_overwrite:
                     shutil.rmtree(dest_path, ignore_errors=True)
-- 
2.43.0


From 64c9654c8e0c33267e019254ee4eb67593f8ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 66/70] fix: generator calls on different workers get different
 directories

---
 libensemble/manager.py                | 5 +++++
 libensemble/utils/output_directory.py | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 9c08d6b..7132447 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -218,6 +218,7 @@ class Manager:
         self.wcomms = wcomms
         self.WorkerExc = False
         self.persis_pending = []
+        self.gen_calls = 0
         self.live_data = libE_specs.get("live_data")
 
         dyn_keys = ("resource_sets", "num_procs", "num_gpus")
@@ -448,6 +449,10 @@ class Manager:
         if self.resources:
             self._set_resources(Work, w)
 
+        if Work["tag"] == EVAL_GEN_TAG and not self.W[w]["persis_state"]:
+            self.gen_calls += 1
+            Work["libE_info"].setdefault("gen_count", self.gen_calls)  # Given already if AllocSupport is used
+
         if self.W[w]["persis_state"] and Work["libE_info"].get("active_recv", False):
             # Worker throws this away (rather than starting anew) if its persistent function has returned meanwhile
             libE_info = {k: v for k, v in Work["libE_info"].items() if k != "persistent"}
diff --git a/libensemble/utils/output_directory.py b/libensemble/utils/output_directory.py
index 765fdc1..c1bc299 100644
--- a/libensemble/utils/output_directory.py
+++ b/libensemble/utils/output_directory.py
@@ -175,7 +175,8 @@ class EnsembleDirectory:
         if calc_type == EVAL_SIM_TAG:
             H_rows = extract_H_ranges(Work)
         else:
-            H_rows = str(calc_iter[calc_type])
+            # Count over all workers, as generator calls on different workers can share a parent directory
+            H_rows = str(Work["libE_info"].get("gen_count", calc_iter[calc_type]))
 
         calc_str = calc_type_strings[calc_type]
 
-- 
2.43.0


From 17a837dc110d6cdc93789a665ea624b2c5ae525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:51 +0000
Subject: [PATCH 67/70] fix: copying back does not write through links copied
 earlier

---
 libensemble/utils/output_directory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libensemble/utils/output_directory.py b/libensemble/utils/output_directory.py
index c1bc299..ce4080c 100644
--- a/libensemble/utils/output_directory.py
+++ b/libensemble/utils/output_directory.py
@@ -212,6 +212,8 @@ class EnsembleDirectory:
                 dest_path = self.copybackdir / filep
                 if self.allow_overwrite:
                     shutil.rmtree(dest_path, ignore_errors=True)
+                if dest_path.is_symlink():  # Don't write through an older copy into the file it refers to
+                    dest_path.unlink(missing_ok=True)
                 try:
                     if os.path.isdir(source_path):
                         shutil.copytree(source_path, dest_path, symlinks=True)
-- 
2.43.0


From 6d8c52f8dd7c7f4bac67cb6e19d72cfcaa6f7a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:20 +0000
Subject: [PATCH 68/70] fix: with reuse_output_dir, a symlink can replace a
 copied directory or a dangling link

---
 libensemble/utils/loc_stack.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libensemble/utils/loc_stack.py b/libensemble/utils/loc_stack.py
index fff15d1..262d201 100644
--- a/libensemble/utils/loc_stack.py
+++ b/libensemble/utils/loc_stack.py
@@ -56,8 +56,11 @@ class LocationStack:
         for file_path in symlink_files:
             src_path = Path(file_path).absolute()
             dest_path = destdir / Path(file_path.name)
-            if allow_overwrite and dest_path.exists():
-                dest_path.unlink(missing_ok=True)
+            if allow_overwrite:
+                if dest_path.is_dir() and not dest_path.is_symlink():
+                    shutil.rmtree(dest_path)
+                else:
+                    dest_path.unlink(missing_ok=True)
             try:
                 os.symlink(src_path, dest_path)
             except FileExistsError:
-- 
2.43.0


From 65a70fc0e32c5a90a872601079eca4be23ad8957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:27 +0000
Subject: [PATCH 69/70] fix: fast_alloc_and_pausing does not replace a
 simulation given to a worker with a generator call

---
 libensemble/alloc_funcs/fast_alloc_and_pausing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libensemble/alloc_funcs/fast_alloc_and_pausing.py b/libensemble/alloc_funcs/fast_alloc_and_pausing.py
index f26b5c0..15e1b21 100644
--- a/libensemble/alloc_funcs/fast_alloc_and_pausing.py
+++ b/libensemble/alloc_funcs/fast_alloc_and_pausing.py
@@ -118,6 +118,7 @@ def give_sim_work_first(W, H, sim_specs, gen_specs, alloc_specs, persis_info, li
         else:
             break
 
+    idle_gen_workers = [wid for wid in idle_gen_workers if wid not in Work]
     while len(idle_gen_workers):
         if gen_count < alloc_specs["user"].get("num_active_gens", gen_count + 1):
             lw = persis_info["last_worker"]
-- 
2.43.0


From 07b9521a19c73b91198301e45de221412ecf4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:27 +0000
Subject: [PATCH 70/70] fix: APOSMM accepts that a local optimization run ends
 at its starting point

---
 libensemble/gen_funcs/persistent_aposmm.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libensemble/gen_funcs/persistent_aposmm.py b/libensemble/gen_funcs/persistent_aposmm.py
index 3102bb9..62cd15d 100644
--- a/libensemble/gen_funcs/persistent_aposmm.py
+++ b/libensemble/gen_funcs/persistent_aposmm.py
@@ -264,7 +264,17 @@ def aposmm(H, persis_info, gen_specs, libE_info):
 
                     local_opters[total_runs] = local_opter
 
-                    x_new = local_opter.iterate(local_H[ind][fields_to_pass])  # Assuming the second x won't be optimal
+                    x_new = local_opter.iterate(local_H[ind][fields_to_pass])
+
+                    if isinstance(x_new, ConvergedMsg):  # The run ended at its starting point
+                        run_order[total_runs] = [ind]
+                        run_pts[total_runs] = [local_H["x_on_cube"]]
+                        opt_ind = update_history_optimal(x_new.x, x_new.opt_flag, local_H, run_order[total_runs])
+                        new_opt_inds_to_send_mgr.append(opt_ind)
+                        local_opters.pop(total_runs)
+                        ended_runs.append(total_runs)
+                        total_runs += 1
+                        continue
 
                     add_to_local_H(local_H, x_new, user_specs, local_flag=1, on_cube=True)
                     new_inds_to_send_mgr.append(len(local_H) - 1)
-- 
2.43.0

