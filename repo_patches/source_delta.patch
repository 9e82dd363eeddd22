From 3a663bf14f593d2ecd868cfc574f791d0132dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 01/54] fix: ValueAnnealing kills a victim twice as large as
 the hunter with probability med_kill_chance

---
 glompo/hunters/valueannealing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/hunters/valueannealing.py b/glompo/hunters/valueannealing.py
index 44b0bc1..0081880 100644
--- a/glompo/hunters/valueannealing.py
+++ b/glompo/hunters/valueannealing.py
@@ -32,7 +32,7 @@ class ValueAnnealing(BaseHunter):
         super().__init__()
         assert 0 < med_kill_chance < 1, "med_kill_chance must be between 0 and 1"
         self.med_kill_chance = med_kill_chance
-        self.strictness = np.log(med_kill_chance)
+        self.strictness = np.log(1 - med_kill_chance)
 
     def __call__(self,
                  log: BaseLogger,
-- 
2.43.0


From cb408412d0ae0626b5be3aee13651bc5a831fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 02/54] fix: BaseLogger.n_optimizers counts every optimizer
 started, also after its cache has been cleared

---
 glompo/core/optimizerlogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 7040bec..6ea169a 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -36,7 +36,7 @@ class BaseLogger:
     @property
     def n_optimizers(self) -> int:
         """ Returns the number of optimizers in the log. """
-        return len(self._storage)
+        return len(self._best_iters) - 1  # Unlike _storage, never purged. Excludes the placeholder at index 0
 
     @property
     def largest_eval(self) -> float:
-- 
2.43.0


From 4edd228127de98ef00110d2fd73c3de23ed7ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 03/54] fix: ExploitExploreGenerator ignores optimizers which
 have not yet found a finite point

---
 glompo/generators/exploit_explore.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/glompo/generators/exploit_explore.py b/glompo/generators/exploit_explore.py
index d1c1284..b073399 100644
--- a/glompo/generators/exploit_explore.py
+++ b/glompo/generators/exploit_explore.py
@@ -58,7 +58,10 @@ class ExploitExploreGenerator(BaseGenerator):
         random = (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
         self.logger.debug("Random = %s", random)
 
-        f_track = np.array([best['fx'] for best in manager.opt_log._best_iters.values()])[1:]
+        # Only optimizers which have found a valid point may be selected (new optimizers have an infinite 'best').
+        opt_ids = [opt_id for opt_id, best in manager.opt_log._best_iters.items()
+                   if opt_id > 0 and np.isfinite(best['fx'])]
+        f_track = np.array([manager.opt_log._best_iters[opt_id]['fx'] for opt_id in opt_ids])
 
         if len(f_track) == 0:
             return random
@@ -70,8 +73,8 @@ class ExploitExploreGenerator(BaseGenerator):
             return random
         prob = revert / np.sum(revert)
 
-        select = np.random.choice(range(len(f_track)), p=prob)
-        incumbent = np.array(manager.opt_log.get_best_iter(select + 1)['x'])
+        select = opt_ids[np.random.choice(range(len(f_track)), p=prob)]
+        incumbent = np.array(manager.opt_log.get_best_iter(select)['x'])
         self.logger.debug("Selected incumbent from Optimizer %d = %s", select, incumbent)
 
         # Blending parameter
-- 
2.43.0


From 83822bce885d1bd79d961cb1b9340927d733eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 04/54] fix: IncumbentGenerator generates a random vector while
 no point has been evaluated

---
 glompo/generators/best.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/generators/best.py b/glompo/generators/best.py
index 6a1ae0c..1378b74 100644
--- a/glompo/generators/best.py
+++ b/glompo/generators/best.py
@@ -23,7 +23,7 @@ class IncumbentGenerator(BaseGenerator):
 
     def generate(self, manager: 'GloMPOManager') -> np.ndarray:
         best: Result = manager.result
-        if best.x is None:
+        if best.x is None or len(best.x) == 0:
             return (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
 
         return best.x
-- 
2.43.0


From 42a2fc3c7f178f7f0593f3f031c8753f4b0f4ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:14 +0000
Subject: [PATCH 05/54] fix: BasinHoppingGenerator respects max_step_size and
 accepts any sequence as location

---
 glompo/generators/basinhopping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/generators/basinhopping.py b/glompo/generators/basinhopping.py
index 7132be5..60f232b 100644
--- a/glompo/generators/basinhopping.py
+++ b/glompo/generators/basinhopping.py
@@ -110,14 +110,14 @@ class BasinHoppingGenerator(BaseGenerator):
             actual_accept_rate = self.n_accept / manager.o_counter
             self.logger.debug("Accept rate at %f", actual_accept_rate)
             if actual_accept_rate > self.target_accept_rate:
-                self.step_size /= self.factor
+                self.step_size = min(self.step_size / self.factor, self.max_step_size)
                 self.logger.debug("Accept rate too high, step size increasing %f -> %f.", old_step, self.step_size)
             elif actual_accept_rate < self.target_accept_rate:
                 self.step_size *= self.factor
                 self.logger.debug("Accept rate too low, step size decreasing %f -> %f.", old_step, self.step_size)
 
         # Random perturbation of the best vector based on the step size
-        x = best['x'].copy()
+        x = np.array(best['x'], dtype=float)
         x += np.random.uniform(-self.step_size, self.step_size, x.size)
 
         return x
-- 
2.43.0


From 1033dd52819a14b92a9127bda2fac8424b414557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 06/54] fix: ChainSelector stops spawning at its last threshold
 and skips stages that have already been passed

---
 glompo/opt_selectors/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/glompo/opt_selectors/chain.py b/glompo/opt_selectors/chain.py
index 429f94a..d9b306e 100644
--- a/glompo/opt_selectors/chain.py
+++ b/glompo/opt_selectors/chain.py
@@ -56,9 +56,12 @@ class ChainSelector(BaseSelector):
         if not self.allow_spawn(manager):
             return False
 
-        if self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
+        while self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
             self.toggle += 1
 
+        if self.toggle >= len(self.avail_opts):
+            return False
+
         selected = self.avail_opts[self.toggle]
         if selected[1]['workers'] > slots_available:
             return None
-- 
2.43.0


From c6f7dd83ea87815865336b6bea043fba78a08c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 07/54] fix: results of a finished optimizer can be cleared
 before its final message is logged

_process_results clears an optimizer (which is not the best) as soon as its end-of-results marker arrives; its convergence
signal is read in the next iteration of the manager loop. With an in-memory log this raised a KeyError and crashed the
manager.
---
 glompo/core/optimizerlogger.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 6ea169a..60f792f 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -110,16 +110,24 @@ class BaseLogger:
         for key in to_del:
             del self._storage[key]
 
+    def _is_cleared(self, opt_id: int) -> bool:
+        """ Returns :obj:`True` if `opt_id` was recorded by the log, but has since been cleared from memory. """
+        return opt_id in self._best_iters and opt_id not in self._storage
+
     def put_metadata(self, opt_id: int, key: str, value: Any):
-        """ Adds optimizer metadata to storage. """
-        self._storage[opt_id]['metadata'][key] = value
+        """ Adds optimizer metadata to storage. Ignored if `opt_id` has already been cleared from memory. """
+        if not self._is_cleared(opt_id):
+            self._storage[opt_id]['metadata'][key] = value
 
     def put_manager_metadata(self, key: str, value: Any):
         pass
 
     def put_message(self, opt_id: int, message: str):
-        """ Stores message signals sent from optimizers to the manager. """
-        self._storage[opt_id]['messages'].append(message)
+        """ Stores message signals sent from optimizers to the manager. Ignored if `opt_id` has already been cleared from
+        memory.
+        """
+        if not self._is_cleared(opt_id):
+            self._storage[opt_id]['messages'].append(message)
 
     def put_iteration(self, iter_res: IterationResult):
         """ Records function evaluations in memory. """
-- 
2.43.0


From d13144f4b04aee1a7ffb2ac345274b758c4dc003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 08/54] fix: run ends normally when the selector stops spawning
 while no optimizers are alive

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 967cb86..6c3aac1 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1256,7 +1256,7 @@ class GloMPOManager:
                                   'max_jobs': self.max_jobs,
                                   'f': self.f_counter,
                                   'f_best': f_best})
-        elif len(processes) == 0:
+        elif len(processes) == 0 and self.spawning_opts:
             raise RuntimeError("Not enough worker slots to start any optimizers with the current settings.")
 
     def _start_new_job(self, opt_id: int, optimizer: BaseOptimizer, call_kwargs: Dict[str, Any],
-- 
2.43.0


From 61f0a150ee4c23f18804d3cd810a619b361d1de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 09/54] fix: backend configured for an optimizer type applies
 to all optimizers of the type, not only the first

---
 glompo/core/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 6c3aac1..a2b4b2a 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1333,8 +1333,8 @@ class GloMPOManager:
         event.set()
 
         if 'backend' in init_kwargs:
-            backend = init_kwargs['backend']
-            del init_kwargs['backend']
+            init_kwargs = dict(init_kwargs)  # Belongs to the selector, must be unchanged for the next optimizer
+            backend = init_kwargs.pop('backend')
         else:
             backend = 'threads' if self.opts_daemonic else 'processes'
 
-- 
2.43.0


From 854882b1809cd75e06998c61f2150dacb5c5cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 10/54] fix: incumbent is only shared when it has improved

An incumbent of exactly zero was sent again after every evaluation, and an empty vector was sent if the first evaluations
were not finite.
---
 glompo/core/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index a2b4b2a..c56882e 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1620,7 +1620,8 @@ class GloMPOManager:
 
         best_iter = self.opt_log.get_best_iter()
 
-        if self.incumbent_sharing and (not self.result.fx or best_iter['fx'] < self.result.fx):
+        prev_fx = float('inf') if self.result.fx is None else self.result.fx
+        if self.incumbent_sharing and best_iter['fx'] < prev_fx:
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
                     pack.signal_pipe.send((4, best_iter['x'], best_iter['fx']))
-- 
2.43.0


From 8fac24534dc0581a722d36625e092f90476e2265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 11/54] fix: last messages of a crashed optimizer are recorded
 before it is buried

The traceback sent by an optimizer which crashed while the manager waited for results was lost, and the manager did not
notice that optimizers were crashing as soon as they were started.
---
 glompo/core/manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index c56882e..b421756 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1408,6 +1408,10 @@ class GloMPOManager:
                         self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
                         self.opt_log.put_metadata(opt_id, "end_cond", "Normal termination (Reason unknown)")
                 else:
+                    while self._check_signals(opt_id):  # Outstanding messages, like the reason for the crash
+                        pass
+                    if opt_id in self._graveyard:  # Signalled normal end before the error
+                        continue
                     self._graveyard.add(opt_id)
                     self.opt_log.put_message(opt_id, f"Terminated in error with code {-exitcode}")
                     warnings.warn(f"Optimizer {opt_id} terminated in error with code {-exitcode}",
-- 
2.43.0


From 3db20337756d07c2d1042e211661673dea726e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:28 +0000
Subject: [PATCH 12/54] fix: run no longer deadlocks on closing when more
 results arrive than fit on the results queue

---
 glompo/core/manager.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index b421756..db81780 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1652,12 +1652,7 @@ class GloMPOManager:
             self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
         # Purge the queue to ensure no optimizers are blocking
-        try:
-            while not self.optimizer_queue.empty():
-                self.optimizer_queue.get_nowait()
-        except Exception as e:
-            # Queue may not be accessible in a crash
-            self.logger.debug("Queue purge failed.", exc_info=e)
+        self._purge_queue()
 
         for opt_id, pack in self._optimizer_packs.items():
             # Add stop condition to logs without overwriting existing ones
@@ -1671,7 +1666,7 @@ class GloMPOManager:
                                           crash_reason if crash_reason else "GloMPO Convergence")
 
             if pack.process.is_alive():
-                pack.process.join(timeout=self.end_timeout if not crash_reason else 0.1)
+                self._join_child(pack.process, self.end_timeout if not crash_reason else 0.1)
                 if pack.process.is_alive():
                     if self.proc_backend:
                         self.logger.info("Termination signal sent to optimizer %d", opt_id)
@@ -1680,6 +1675,28 @@ class GloMPOManager:
                         self.logger.warning("Could not join optimizer %d. May crash out with it still running and thus "
                                             "generate errors. Terminations cannot be sent to threads.", opt_id)
 
+    def _join_child(self, process: Union[mp.Process, CustomThread], timeout: Optional[float]):
+        """ Waits for the `process` to end for at most `timeout` seconds. The results queue is emptied in the meantime since
+            the optimizers may be blocking until there is space on it for their final results.
+        """
+
+        t_join = time()
+        while timeout is None or time() - t_join < timeout:
+            process.join(timeout=0.1 if timeout is None else min(timeout, 0.1))
+            if not process.is_alive():
+                break
+            self._purge_queue()
+
+    def _purge_queue(self):
+        """ Discards all the results on the queue. """
+
+        try:
+            while not self.optimizer_queue.empty():
+                self.optimizer_queue.get_nowait()
+        except Exception as e:
+            # Queue may not be accessible in a crash
+            self.logger.debug("Queue purge failed.", exc_info=e)
+
     def _save_log(self, result: Result, reason: str, caught_exception: Optional[str], dump_dir: Path,
                   summary_files: int):
         """ Saves the manager's state and history into the collection of files indicated by :obj:`summary_files`.
-- 
2.43.0


From 1f7a2ea95744edbda7d24d32e308e90bb1ed23cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:50 +0000
Subject: [PATCH 13/54] fix: killed optimizers ending during a checkpoint are
 not also counted as converged

---
 glompo/core/manager.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index db81780..e29723a 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1852,10 +1852,11 @@ class GloMPOManager:
                         key, message = pack.signal_pipe.recv()
                         self.logger.debug("Received %d, %s from %d", key, message, opt_id)
                         if key == 0:
-                            self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                            self.opt_log.put_metadata(opt_id, "end_cond", message)
-                            self._graveyard.add(opt_id)
-                            self.conv_counter += 1
+                            if opt_id not in self._graveyard:
+                                self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+                                self.opt_log.put_metadata(opt_id, "end_cond", message)
+                                self._graveyard.add(opt_id)
+                                self.conv_counter += 1
                             not_chkpt.add(opt_id)
                         elif key == 1:
                             if self.visualisation:
-- 
2.43.0


From d358a25c8491b5f92ce70c3418c89b4bc85257c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:51 +0000
Subject: [PATCH 14/54] fix: log messages and crashes of optimizers during a
 checkpoint do not crash the run

---
 glompo/core/manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index e29723a..43697a4 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1862,6 +1862,12 @@ class GloMPOManager:
                             if self.visualisation:
                                 self.scope.update_pause(opt_id)
                             wait_reply.remove(opt_id)
+                        elif key == 9:
+                            self.opt_log.put_message(opt_id, message)
+                            self.logger.warning("Optimizer %d Exception: %s", opt_id, message)
+                            self.opt_crashed = "Traceback" in message or self.opt_crashed
+                            if self.visualisation:
+                                self.scope.update_crash_terminate(opt_id)
                         else:
                             raise RuntimeError(f"Unhandled message: {message}")
                 else:
-- 
2.43.0


From 8473b691876eecb817825d7ad4a36c22804a6731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:51 +0000
Subject: [PATCH 15/54] fix: manager does not wait forever for optimizers which
 end while being checkpointed

---
 glompo/core/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 43697a4..65d90d7 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1902,7 +1902,8 @@ class GloMPOManager:
         wait_reply = living.copy()
         while wait_reply:
             for opt_id in wait_reply.copy():
-                if not self._optimizer_packs[opt_id].allow_run_event.is_set():
+                pack = self._optimizer_packs[opt_id]
+                if not pack.allow_run_event.is_set() or not pack.process.is_alive():
                     wait_reply.remove(opt_id)
 
         # Confirm all restart files are found
-- 
2.43.0


From 46bea59a94c00815f3d275b16205a7f3fa1f556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:09 +0000
Subject: [PATCH 16/54] fix: results held in the queue cache are processed
 before a checkpoint is made

---
 glompo/core/manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 65d90d7..2078fdb 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1881,6 +1881,11 @@ class GloMPOManager:
         closed, victims = self._process_results()
         [not_chkpt.add(cld) for cld in closed]
         [not_chkpt.add(vic) for vic in victims]
+        if self.optimizer_queue.has_cache():
+            self.optimizer_queue.flush()
+            closed, victims = self._process_results()
+            [not_chkpt.add(cld) for cld in closed]
+            [not_chkpt.add(vic) for vic in victims]
         self.logger.info("Outstanding results processed")
 
         assert self.optimizer_queue.empty()
-- 
2.43.0


From 38cee74df1a704a7ea216621d5a769779c5ee337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:34 +0000
Subject: [PATCH 17/54] fix: checkpoint names are recognised for any naming
 format and any number of checkpoints

---
 glompo/core/checkpointing.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/glompo/core/checkpointing.py b/glompo/core/checkpointing.py
index b34d9b8..0e66815 100644
--- a/glompo/core/checkpointing.py
+++ b/glompo/core/checkpointing.py
@@ -5,7 +5,7 @@ from pathlib import Path
 
 __all__ = ("CheckpointingControl",)
 
-from typing import Union
+from typing import Optional, Union
 
 
 class CheckpointingControl:
@@ -108,20 +108,14 @@ class CheckpointingControl:
         self.naming_format = naming_format
         self.count = None
 
-        codes = {'%[(]date[)]': 8, '%[(]year[)]': 4, '%[(]yr[)]': 2, '%[(]month[)]': 2, '%[(]day[)]': 2,
-                 '%[(]time[)]': 6, '%[(]hour[)]': 2,
-                 '%[(]min[)]': 2, '%[(]sec[)]': 2}
-
-        format_re = list(copy(self.naming_format))
-        for i, char in enumerate(format_re):
-            if any([char == c for c in ('{', '(', '+', '*', '|', '.', '$', ')', '}')]):
-                format_re[i] = f'[{char}]'
-            if any([char == c for c in ('^', '[', ']')]):
-                format_re[i] = rf'\{char}'
-        format_re = "".join(format_re)
+        codes = {'%(date)': 8, '%(year)': 4, '%(yr)': 2, '%(month)': 2, '%(day)': 2, '%(time)': 6, '%(hour)': 2,
+                 '%(min)': 2, '%(sec)': 2}
+
+        format_re = re.escape(self.naming_format)
         for key, digits in codes.items():
-            format_re = format_re.replace(key, f'[0-9]{{{digits}}}')
-        format_re = format_re.replace('%[(]count[)]', '(?P<index>[0-9]{3})')
+            format_re = format_re.replace(re.escape(key), f'[0-9]{{{digits}}}')
+        format_re = format_re.replace(re.escape('%(count)'), '(?P<index>[0-9]{3,})', 1)
+        format_re = format_re.replace(re.escape('%(count)'), '(?P=index)')
 
         self._naming_format_re = format_re
 
@@ -144,7 +138,7 @@ class CheckpointingControl:
 
         if self.checkpointing_dir.exists():
             max_index = -1
-            matches = [re.match(self._naming_format_re, folder.name) for folder in self.checkpointing_dir.iterdir()]
+            matches = [self._match(folder.name) for folder in self.checkpointing_dir.iterdir()]
             for match in matches:
                 if match and match.lastgroup == 'index':
                     i = int(match.group('index'))
@@ -160,4 +154,8 @@ class CheckpointingControl:
 
     def matches_naming_format(self, name: str) -> bool:
         """ Returns :obj:`True` if the provided name matches the pattern in the :attr:`naming_format`. """
-        return bool(re.match(self._naming_format_re, name))
+        return bool(self._match(name))
+
+    def _match(self, name: str) -> Optional[re.Match]:
+        """ Matches the entire `name` (excluding the archive extension) to the naming format. """
+        return re.fullmatch(f"{self._naming_format_re}(?:[.]tar[.]gz)?", name)
-- 
2.43.0


From 816256ae1906b9e784351636529e9fb23499019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:34 +0000
Subject: [PATCH 18/54] fix: oldest checkpoints are deleted, never the new one,
 for naming formats which do not sort chronologically

---
 glompo/core/manager.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 2078fdb..e97b1a2 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1172,13 +1172,13 @@ class GloMPOManager:
             # Delete old checkpoints
             if self.checkpoint_control.keep_past > -1:
                 self.logger.debug("Finding old checkpoints to delete")
-                files = (file.name for file in self.checkpoint_control.checkpointing_dir.iterdir())
-                to_delete = sorted(filter(self.checkpoint_control.matches_naming_format, files), reverse=True)
-                self.logger.debug("Identified to delete: %d", to_delete[self.checkpoint_control.keep_past + 2:])
-                for old in to_delete[self.checkpoint_control.keep_past + 2:]:
-                    del_path = self.checkpoint_control.checkpointing_dir / old
-                    if del_path.is_file():
-                        del_path.unlink()
+                old_chkpts = [file for file in self.checkpoint_control.checkpointing_dir.iterdir()
+                              if file.is_file() and file.name != tar_path.name and
+                              self.checkpoint_control.matches_naming_format(file.name)]
+                old_chkpts.sort(key=lambda file: (file.stat().st_mtime, file.name), reverse=True)
+                self.logger.debug("Identified to delete: %s", old_chkpts[self.checkpoint_control.keep_past:])
+                for old in old_chkpts[self.checkpoint_control.keep_past:]:
+                    old.unlink()
 
         except CheckpointingError as e:
             self.checkpoint_history.remove(str(path.resolve().with_suffix('.tar.gz')))
-- 
2.43.0


From 4be057d94369fa073bfdbc01cfda415a4fb912db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:34 +0000
Subject: [PATCH 19/54] fix: task which cannot be pickled falls back to
 task.checkpoint_save whichever error pickling raises

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index e97b1a2..322c9b7 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1954,7 +1954,7 @@ class GloMPOManager:
                     dill.dump(self.task, file)
                 self.logger.info("Task successfully pickled")
                 task_persisted = True
-            except PickleError as pckl_err:
+            except Exception as pckl_err:  # Not only PickleError, most objects which cannot be pickled give a TypeError
                 self.logger.info("Pickle task failed. Attempting task.checkpoint_save()", exc_info=pckl_err)
                 (path / 'task').unlink()
 
-- 
2.43.0


From 180bce2c292640a07f3a06b4e8425ef8b4b366b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 20/54] fix: failed checkpoint, whatever the error, neither
 ends the run nor loses the checkpoint it was to replace

---
 glompo/core/manager.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 322c9b7..369b00b 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1162,12 +1162,16 @@ class GloMPOManager:
                 with tarfile.open(tar_path, 'x:gz') as tfile:
                     tfile.add(path, recursive=True, arcname='')
                 self.logger.debug("TarFile built")
-            except tarfile.TarError as e:
+            except BaseException as e:
                 self.logger.error("Error encountered during compression.")
+                if tar_path.exists():
+                    tar_path.unlink()
                 if overwriting_chkpt:
                     self.logger.info("Overwritten checkpoint restored")
                     ovw_path.replace(tar_path)
-                raise CheckpointingError("Could not compress checkpoint", e)
+                if isinstance(e, tarfile.TarError):
+                    raise CheckpointingError("Could not compress checkpoint", e)
+                raise
 
             # Delete old checkpoints
             if self.checkpoint_control.keep_past > -1:
@@ -1180,8 +1184,9 @@ class GloMPOManager:
                 for old in old_chkpts[self.checkpoint_control.keep_past:]:
                     old.unlink()
 
-        except CheckpointingError as e:
-            self.checkpoint_history.remove(str(path.resolve().with_suffix('.tar.gz')))
+        except (CheckpointingError, OSError) as e:
+            if not path.with_suffix('.tar.gz').exists():
+                self.checkpoint_history.discard(str(path.resolve().with_suffix('.tar.gz')))
 
             if self.checkpoint_control.raise_checkpoint_fail:
                 self.logger.error("Checkpointing failed", exc_info=e)
-- 
2.43.0


From 454160eebc3d6c1e42c8488d9bc633631a575b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 21/54] fix: remnants of an interrupted checkpoint do not crash
 the run or leave optimizers paused

---
 glompo/core/manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 369b00b..cc5ffdb 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1119,12 +1119,14 @@ class GloMPOManager:
 
         # Construct Checkpoint Name
         path = self.checkpoint_control.checkpointing_dir / self.checkpoint_control.get_name()
-        path.mkdir(parents=True, exist_ok=True)
 
         overwriting_chkpt = False
         ovw_path = path.parent / '_overwriting_chkpt.tar.gz'
 
         try:
+            shutil.rmtree(path, ignore_errors=True)  # Remnants of an interrupted checkpoint
+            path.mkdir(parents=True)
+
             # Flush logger
             self.opt_log.flush()
             self.opt_log.checkpoint_save(path)
@@ -1826,6 +1828,8 @@ class GloMPOManager:
     def _checkpoint_optimizers(self, path: Union[str, Path]):
         """ Checkpointing sub-task. Gathers, synchronises and saves child optimizers. """
 
+        (path / 'optimizers').mkdir()  # Before optimizers are paused, they only resume if the checkpoint is seen through
+
         # Pause optimizers
         messaged = set()
         for opt_id, pack in self._optimizer_packs.items():
@@ -1896,7 +1900,6 @@ class GloMPOManager:
         assert self.optimizer_queue.empty()
 
         # Send checkpoint_save signals
-        (path / 'optimizers').mkdir()
         for opt_id in messaged:
             pack = self._optimizer_packs[opt_id]
             if pack.process.is_alive():
-- 
2.43.0


From 5a6866424eec1eacf2336ad35c073bb07a0fcaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 22/54] fix: checkpoint archive is named after the naming
 format also if the name contains a dot

---
 glompo/core/manager.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index cc5ffdb..5b8c794 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1119,6 +1119,7 @@ class GloMPOManager:
 
         # Construct Checkpoint Name
         path = self.checkpoint_control.checkpointing_dir / self.checkpoint_control.get_name()
+        tar_path = path.with_name(path.name + '.tar.gz')
 
         overwriting_chkpt = False
         ovw_path = path.parent / '_overwriting_chkpt.tar.gz'
@@ -1138,7 +1139,7 @@ class GloMPOManager:
                     self.dt_ends[-1] = datetime.now()
                 else:
                     self.dt_ends.append(datetime.now())
-            self.checkpoint_history.add(str(path.resolve().with_suffix('.tar.gz')))
+            self.checkpoint_history.add(str(tar_path.resolve()))
 
             self._checkpoint_optimizers(path)
             self._checkpoint_manager(path)
@@ -1151,7 +1152,6 @@ class GloMPOManager:
 
             # Compress checkpoint
             self.logger.debug("Building TarFile")
-            tar_path = path.with_suffix('.tar.gz')
             if tar_path.exists():
                 self.logger.warning("Overwriting existing checkpoint. To avoid this change the checkpointing naming "
                                     "format")
@@ -1187,8 +1187,8 @@ class GloMPOManager:
                     old.unlink()
 
         except (CheckpointingError, OSError) as e:
-            if not path.with_suffix('.tar.gz').exists():
-                self.checkpoint_history.discard(str(path.resolve().with_suffix('.tar.gz')))
+            if not tar_path.exists():
+                self.checkpoint_history.discard(str(tar_path.resolve()))
 
             if self.checkpoint_control.raise_checkpoint_fail:
                 self.logger.error("Checkpointing failed", exc_info=e)
-- 
2.43.0


From 178f83ae6ac9d754b0e0e8e37679ec4f1dfbed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 23/54] fix: results processed while pausing optimizers are
 included in the log of the checkpoint

---
 glompo/core/manager.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 5b8c794..74b0730 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1128,11 +1128,6 @@ class GloMPOManager:
             shutil.rmtree(path, ignore_errors=True)  # Remnants of an interrupted checkpoint
             path.mkdir(parents=True)
 
-            # Flush logger
-            self.opt_log.flush()
-            self.opt_log.checkpoint_save(path)
-            self.logger.debug("Log successfully pickled")
-
             # Save timestamp and checkpoint name
             if len(self.dt_starts) > 0:
                 if len(self.dt_starts) == len(self.dt_ends):
@@ -1142,6 +1137,12 @@ class GloMPOManager:
             self.checkpoint_history.add(str(tar_path.resolve()))
 
             self._checkpoint_optimizers(path)
+
+            # Flush logger (once all outstanding results have been processed)
+            self.opt_log.flush()
+            self.opt_log.checkpoint_save(path)
+            self.logger.debug("Log successfully pickled")
+
             self._checkpoint_manager(path)
             self._checkpoint_task(path)
 
-- 
2.43.0


From a3cdf4dd4bac835dae2314564ef8b7f48bb37cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 24/54] fix: optimizers left paused by a failed checkpoint are
 woken when the run ends

---
 glompo/core/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 74b0730..1200ca7 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1659,6 +1659,9 @@ class GloMPOManager:
         except Exception as e:
             self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
+        # Wake optimizers left paused by a failed checkpoint
+        self._toggle_optimizers(1)
+
         # Purge the queue to ensure no optimizers are blocking
         self._purge_queue()
 
-- 
2.43.0


From 22495ece87dca87c34f9b97e316cdaad00a23bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:45 +0000
Subject: [PATCH 25/54] fix: run is not crashed by signals to optimizers which
 have already ended

---
 glompo/core/manager.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 1200ca7..cb2d7d8 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1203,7 +1203,7 @@ class GloMPOManager:
                 ovw_path.unlink()
 
         if self.converged:
-            [pack.signal_pipe.send(1) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            [self._send_signal(opt_id, 1) for opt_id, pack in self._optimizer_packs.items() if pack.process.is_alive()]
         self._toggle_optimizers(1)
         self.logger.info("Checkpoint '%s' successfully built", path.name)
 
@@ -1361,6 +1361,13 @@ class GloMPOManager:
             return OptimizerPackage(self.o_counter, optimizer, call_kwargs, parent_pipe, event, init_kwargs['workers'])
         return OptimizerPackage(self.o_counter, optimizer, {}, parent_pipe, event, init_kwargs['workers'])
 
+    def _send_signal(self, opt_id: int, message: Any):
+        """ Sends a message to optimizer :obj:`opt_id`, which is lost if the optimizer has already ended. """
+        try:
+            self._optimizer_packs[opt_id].signal_pipe.send(message)
+        except OSError:
+            self.logger.debug("Optimizer %d ended before receiving signal %s", opt_id, message)
+
     def _check_signals(self, opt_id: int) -> bool:
         """ Checks for signals from optimizer :obj:`opt_id` and processes it.
         Returns a :obj:`bool` indicating whether a signal was found.
@@ -1387,7 +1394,7 @@ class GloMPOManager:
                     if self.visualisation:
                         self.scope.update_crash_terminate(opt_id)
                 found_signal = True
-            except EOFError:
+            except (EOFError, OSError):
                 self.logger.error("Opt%d pipe closed. Opt%d should be in graveyard", opt_id, opt_id)
         else:
             self.logger.debug("No signals from %d.", opt_id)
@@ -1615,7 +1622,7 @@ class GloMPOManager:
         if self.aggressive_kill and self.proc_backend:
             self._optimizer_packs[opt_id].process.terminate()
         else:
-            self._optimizer_packs[opt_id].signal_pipe.send(1)
+            self._send_signal(opt_id, 1)
             self.logger.debug("Termination signal sent to %d", opt_id)
 
         self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
@@ -1636,7 +1643,7 @@ class GloMPOManager:
         if self.incumbent_sharing and best_iter['fx'] < prev_fx:
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
-                    pack.signal_pipe.send((4, best_iter['x'], best_iter['fx']))
+                    self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
 
         best_origin = {"opt_id": best_iter['opt_id'],
                        "type": best_iter['type']}
@@ -1655,7 +1662,8 @@ class GloMPOManager:
         # Attempt to send shutdown signals
         try:
             message = (1, "GloMPO Crash") if crash_reason else 1
-            [pack.signal_pipe.send(message) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            [self._send_signal(opt_id, message) for opt_id, pack in self._optimizer_packs.items()
+             if pack.process.is_alive()]
         except Exception as e:
             self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
@@ -1838,7 +1846,7 @@ class GloMPOManager:
         messaged = set()
         for opt_id, pack in self._optimizer_packs.items():
             if pack.process.is_alive():
-                pack.signal_pipe.send(2)
+                self._send_signal(opt_id, 2)
                 messaged.add(opt_id)
 
         # Synchronise and wait for replies (end or paused)
@@ -1862,7 +1870,11 @@ class GloMPOManager:
                 pack = self._optimizer_packs[opt_id]
                 if pack.process.is_alive():
                     if pack.signal_pipe.poll(0.1):
-                        key, message = pack.signal_pipe.recv()
+                        try:
+                            key, message = pack.signal_pipe.recv()
+                        except (EOFError, OSError):
+                            self.logger.debug("Pipe of optimizer %d closed", opt_id)
+                            continue
                         self.logger.debug("Received %d, %s from %d", key, message, opt_id)
                         if key == 0:
                             if opt_id not in self._graveyard:
@@ -1910,10 +1922,10 @@ class GloMPOManager:
                 if opt_id not in not_chkpt:
                     if self.visualisation:
                         self.scope.update_checkpoint(opt_id)
-                    pack.signal_pipe.send((0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
+                    self._send_signal(opt_id, (0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
                     self.logger.debug('Checkpoint save sent to Optimizer %d', opt_id)
                 else:
-                    pack.signal_pipe.send(3)  # Causes waiting optimizers will pass and not checkpoint
+                    self._send_signal(opt_id, 3)  # Causes waiting optimizers will pass and not checkpoint
 
         # Wait for all checkpoint_save to complete
         wait_reply = living.copy()
-- 
2.43.0


From 063023f34e3a36f8294cc228135c299b44808727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:32 +0000
Subject: [PATCH 26/54] fix: end of an optimizer announced after another
 message is recorded before the run ends

---
 glompo/core/manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index cb2d7d8..53e58d1 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1410,8 +1410,10 @@ class GloMPOManager:
             # Find dead optimizer processes that did not properly signal their termination.
             if opt_id not in self._graveyard and not pack.process.is_alive():
                 exitcode = pack.process.exitcode
+                while self._check_signals(opt_id):  # All outstanding messages, like the reason for the end
+                    pass
                 if exitcode == 0:
-                    if not self._check_signals(opt_id):
+                    if opt_id not in self._graveyard:
                         self.conv_counter += 1
                         self._graveyard.add(opt_id)
                         self.opt_log.put_message(opt_id, "Terminated normally without sending a minimization "
@@ -1423,8 +1425,6 @@ class GloMPOManager:
                         self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
                         self.opt_log.put_metadata(opt_id, "end_cond", "Normal termination (Reason unknown)")
                 else:
-                    while self._check_signals(opt_id):  # Outstanding messages, like the reason for the crash
-                        pass
                     if opt_id in self._graveyard:  # Signalled normal end before the error
                         continue
                     self._graveyard.add(opt_id)
-- 
2.43.0


From 5e774057c296440be442debe9346de3766dc6d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:32 +0000
Subject: [PATCH 27/54] fix: last results of the last optimizers are not lost
 when the run ends because none are left

---
 glompo/core/manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 53e58d1..51cf560 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1017,6 +1017,11 @@ class GloMPOManager:
                         del self._optimizer_packs[opt_id]
 
                 all_dead = len([p for p in self._optimizer_packs.values() if p.process.is_alive()]) == 0
+                if all_dead and not self.spawning_opts:
+                    self._process_results()  # Results which arrived in the meantime, no others will follow
+                    if self.optimizer_queue.has_cache():
+                        self.optimizer_queue.flush()
+                        self._process_results()
                 checker_condition = self.convergence_checker(self)
 
                 if checker_condition:
-- 
2.43.0


From d6ed4d371a6d39035285854fe03b3ab86fbc2dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:51 +0000
Subject: [PATCH 28/54] fix: returned statistics count the optimizers which
 started, converged or were killed after the last result

---
 glompo/core/manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 51cf560..6591ab5 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1090,8 +1090,11 @@ class GloMPOManager:
 
             self.result = Result(list(self.result.x) if self.result.x else None,
                                  self.result.fx,
-                                 {**self.result.stats, 'end_cond': reason} if self.result.stats else {
-                                     'end_cond': reason},
+                                 {**self.result.stats,
+                                  'opts_started': self.o_counter,
+                                  'opts_killed': len(self.hunt_victims),
+                                  'opts_conv': self.conv_counter,
+                                  'end_cond': reason} if self.result.stats else {'end_cond': reason},
                                  self.result.origin)
 
             self.opt_log.close()
-- 
2.43.0


From 6cd0eb739f6be51ad167495a6afa913828e3f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:56 +0000
Subject: [PATCH 29/54] fix: end of the last optimizers is recorded also if it
 happens just before the run ends

---
 glompo/core/manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 6591ab5..9304e7e 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1017,8 +1017,9 @@ class GloMPOManager:
                         del self._optimizer_packs[opt_id]
 
                 all_dead = len([p for p in self._optimizer_packs.values() if p.process.is_alive()]) == 0
-                if all_dead and not self.spawning_opts:
-                    self._process_results()  # Results which arrived in the meantime, no others will follow
+                if all_dead and not self.spawning_opts:  # Handle what happened in the meantime, nothing else will follow
+                    self._inspect_children()
+                    self._process_results()
                     if self.optimizer_queue.has_cache():
                         self.optimizer_queue.flush()
                         self._process_results()
-- 
2.43.0


From 729ff110ad2965cfa162dd156f00556ee6373661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:36 +0000
Subject: [PATCH 30/54] fix: item refused by a full results queue is not kept
 in its cache and delivered all the same

---
 glompo/core/_backends.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/glompo/core/_backends.py b/glompo/core/_backends.py
index 0aa9cc8..a3e89b9 100644
--- a/glompo/core/_backends.py
+++ b/glompo/core/_backends.py
@@ -145,8 +145,7 @@ class ChunkingQueue(queue.Queue):
         """
         if self.fast_func:
             with self.cache_lock:
-                self.cache.append(item)
-                super().put(self.cache, block, timeout)
+                super().put(self.cache + [item], block, timeout)
                 self.cache = []
         else:
             super().put([item], block, timeout)
-- 
2.43.0


From 1548b104fadbcfa0029b0f32180c3fb648628292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:09 +0000
Subject: [PATCH 31/54] fix: history of an optimizer can be read from the log
 file after its cache has been cleared

---
 glompo/core/optimizerlogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 60f792f..513a73c 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -483,7 +483,7 @@ class FileLogger(BaseLogger):
         opt_ids = [opt_id] if opt_id else self._writing_chunk.keys()
 
         for o in opt_ids:
-            if len(self._writing_chunk[o]) > 0:
+            if self._writing_chunk.get(o):  # Cleared optimizers have already been written in full
                 self.put_metadata(o, 'best_iter', self._best_iters[o])
                 table = self._get_table(o)
                 table.append(self._writing_chunk[o])
-- 
2.43.0


From 884a3701493a30b19780ab7eacadfe9fb9f0356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 32/54] fix: log file of a run which did not end gracefully can
 be continued from a checkpoint

---
 glompo/core/manager.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 9304e7e..ddea5a7 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -935,8 +935,9 @@ class GloMPOManager:
                                    f"{peek.root._v_attrs.checksum}) which is for an optimization which does not match "
                                    f"this one (Checksum: {self._checksum})! Aborting optimization.")
 
-                # Overwrite excess iterations
-                file_f_count = peek.root._v_attrs.f_counter
+                # Overwrite excess iterations (the tables are decisive, the previous run may not have ended gracefully)
+                file_f_count = max([int(tab.col('call_id')[-1]) for tab in peek.walk_nodes('/', 'Table')
+                                    if tab.nrows > 0], default=0)
                 if file_f_count > self.f_counter:
                     self.logger.warning("The log file (%d evaluations) has iterated past the checkpoint "
                                         "(%d evaluations). Rolling back the log file to the checkpoint.",
@@ -950,9 +951,10 @@ class GloMPOManager:
                         crit_i = np.searchsorted(call_ids, self.f_counter, 'right')
                         tab.remove_rows(crit_i)
 
-                    for group in peek.iter_nodes('/', 'Group'):
-                        if int(group._v_name.split('_')[1]) > self.o_counter:
-                            peek.remove_node('/', group._v_name, recursive=True)
+                # Remove optimizers started after the checkpoint
+                for group in [*peek.iter_nodes('/', 'Group')]:
+                    if int(group._v_name.split('_')[1]) > self.o_counter:
+                        peek.remove_node('/', group._v_name, recursive=True)
             mode = 'a'
 
         self._checksum = ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
-- 
2.43.0


From b61c428656fa900c9599e2be63114de9d404315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 33/54] fix: run can be resumed without its log file, and its
 record of optimizers matches the checkpoint

Resuming a run whose log file is missing crashed although it is documented to begin a new file, and end conditions and
messages recorded after the checkpoint were kept in a log file which is continued.
---
 glompo/core/manager.py         |  3 +++
 glompo/core/optimizerlogger.py | 46 +++++++++++++++++++++++++++++-----
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ddea5a7..01ae2dd 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -956,6 +956,9 @@ class GloMPOManager:
                     if int(group._v_name.split('_')[1]) > self.o_counter:
                         peek.remove_node('/', group._v_name, recursive=True)
             mode = 'a'
+        elif self._is_restart and self.summary_files > 2:
+            self.logger.warning("Log file (%s) not found, a new one will be created.", log_file)
+            warnings.warn(f"Log file ({log_file}) not found, a new one will be created.", RuntimeWarning)
 
         self._checksum = ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
         self.opt_log.open(log_file, mode, self._checksum)
diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 513a73c..0ef6790 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -376,11 +376,7 @@ class FileLogger(BaseLogger):
         super().add_optimizer(opt_id, opt_type, t_start)
         group = self.pytab_file.create_group(where='/',
                                              name=f'optimizer_{opt_id}')
-        self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
-                                       name='messages',
-                                       atom=tb.VLUnicodeAtom(),
-                                       title="Messages Generated by Optimizer",
-                                       expectedrows=3)
+        self._create_messages(opt_id)
         self._writing_chunk[opt_id] = []
         self._groups[opt_id] = group
 
@@ -392,7 +388,8 @@ class FileLogger(BaseLogger):
 
     def add_iter_history(self, opt_id: int, extra_headers: Optional[Dict[str, tb.Col]] = None):
         """ Creates an iteration history table in the HDF5 file. """
-        super().add_iter_history(opt_id, {})  # Do not hold extras in memory if file in use.
+        if not super().has_iter_history(opt_id):  # Already in memory if resumed without its log file
+            super().add_iter_history(opt_id, {})  # Do not hold extras in memory if file in use.
         headers = {'call_id': tb.UInt32Col(pos=-3),
                    'x': tb.Float64Col(shape=self.n_task_dims, pos=-2),
                    'fx': tb.Float64Col(pos=-1)}
@@ -464,6 +461,38 @@ class FileLogger(BaseLogger):
 
             return []
 
+    def _create_messages(self, opt_id: int) -> tb.VLArray:
+        """ Creates the array which holds the messages of optimizer `opt_id`. """
+        return self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
+                                              name='messages',
+                                              atom=tb.VLUnicodeAtom(),
+                                              title="Messages Generated by Optimizer",
+                                              expectedrows=3)
+
+    def _restore_record(self, opt_id: int):
+        """ Matches the file's record of optimizer `opt_id` to the one in memory when an optimization is resumed.
+        The file is missing the optimizer if it is a new one, or contains information from after the checkpoint.
+        """
+        if opt_id not in self._groups:
+            self._groups[opt_id] = self.pytab_file.create_group(where='/', name=f'optimizer_{opt_id}')
+            self._create_messages(opt_id)
+
+        metadata = self._storage[opt_id]['metadata']
+        attrs = self._groups[opt_id]._v_attrs
+        for key in attrs._f_list('user'):
+            if key not in metadata:
+                del attrs[key]
+        for key, value in metadata.items():
+            attrs[key] = value
+
+        messages = self._storage[opt_id]['messages']
+        if len(self._groups[opt_id]['messages']) > len(messages):
+            self.pytab_file.remove_node(f'/optimizer_{opt_id}', 'messages')
+            self._create_messages(opt_id)
+        table = self._groups[opt_id]['messages']
+        for message in messages[len(table):]:
+            table.append(message)
+
     def _get_group(self, opt_id: int) -> tb.Group:
         """ Returns the the :class:`tables.Group` object for optimizer `opt_id`. """
         if opt_id not in self._groups:
@@ -519,11 +548,16 @@ class FileLogger(BaseLogger):
         """
         self.pytab_file = tb.open_file(str(path), mode, filters=tb.Filters(1, 'blosc'))
         self.pytab_file.root._v_attrs.checksum = checksum
+        self._groups = {}
+        self._tables = {}
         if mode == 'a':
             self._groups = {int(g._v_name.split('_')[1]): g for g in self.pytab_file.iter_nodes('/', 'Group')}
             self._tables = {int(t._v_pathname.split('/')[1].split('_')[1]): t for t in
                             self.pytab_file.walk_nodes('/', 'Table')}
 
+        for opt_id in self._storage:
+            self._restore_record(opt_id)
+
     def close(self):
         """ Remove from memory, flush to file and close the file. """
         for key, value in (('opts_started', self._o_counter),
-- 
2.43.0


From e3bfec945e9c1c0e0fe5b414732554c286616ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 34/54] fix: optimizers which have been killed but are still
 closing are not saved in a checkpoint

They were restarted, outside of the control of the manager, when the run was resumed.
---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 01ae2dd..3adae14 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1864,7 +1864,7 @@ class GloMPOManager:
                 messaged.add(opt_id)
 
         # Synchronise and wait for replies (end or paused)
-        not_chkpt = set()  # Set of messaged opts that should not be checkpointed
+        not_chkpt = messaged & self._graveyard  # Set of messaged opts that should not be checkpointed
         wait_reply = messaged.copy()
         living = messaged.copy()
         n_alive = len(messaged)
-- 
2.43.0


From 2cd321a61a09c940386d76d25d13c3471f5da0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 35/54] fix: end of optimizers is recorded before a checkpoint
 from which they will be missing

A resumed run never recorded the end of an optimizer which had just ended when the checkpoint was made.
---
 glompo/core/manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 3adae14..fc05229 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1414,9 +1414,10 @@ class GloMPOManager:
             self.logger.debug("No signals from %d.", opt_id)
         return found_signal
 
-    def _inspect_children(self):
+    def _inspect_children(self, only_dead: bool = False):
         """ Loops through all children processes and checks their status.
         Tidies up and gracefully deals with any strange behaviour such as crashes or non-responsive behaviour.
+        Non-responsive children are ignored if `only_dead` is :obj:`True`.
         """
 
         for opt_id, pack in self._optimizer_packs.items():
@@ -1449,6 +1450,9 @@ class GloMPOManager:
                     self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
                     self.opt_log.put_metadata(opt_id, "end_cond", f"Error termination (exitcode {-exitcode}).")
 
+            if only_dead:
+                continue
+
             # Find hanging processes
             if pack.process.is_alive() and \
                     time() - self._last_feedback[opt_id] > self._too_long and \
@@ -1925,6 +1929,7 @@ class GloMPOManager:
             closed, victims = self._process_results()
             [not_chkpt.add(cld) for cld in closed]
             [not_chkpt.add(vic) for vic in victims]
+        self._inspect_children(only_dead=True)  # Optimizers which have ended will not be part of the checkpoint
         self.logger.info("Outstanding results processed")
 
         assert self.optimizer_queue.empty()
-- 
2.43.0


From b5fb9951f8afa09f9f143f0c5f6fb9917c2b84df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 36/54] fix: load_checkpoint uses task if task_loader fails, as
 documented

---
 glompo/core/manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index fc05229..c00db5e 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -740,7 +740,9 @@ class GloMPOManager:
                     self.logger.info("Task successfully loaded.")
                 except Exception as e:
                     self.logger.error("Use of task_loader failed.")
-                    raise e
+                    if not task:
+                        raise e
+                    self.task = None
 
             if not self.task and task:
                 try:
-- 
2.43.0


From 454ecb452b04f3f5c10265fa43884c29e6aa081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 37/54] fix: manual checkpoint with default settings is saved
 in working_dir, as documented

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index c00db5e..303c2a0 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1625,7 +1625,7 @@ class GloMPOManager:
             if not has_controls:
                 self.logger.warning("Manual checkpoint requested but checkpointing control not setup during "
                                     "initialisation, constructing with defaults.")
-                self.checkpoint_control = CheckpointingControl()
+                self.checkpoint_control = CheckpointingControl(checkpointing_dir=self.working_dir / 'checkpoints')
 
             self.logger.info("Manual checkpoint requested")
             self.checkpoint()
-- 
2.43.0


From 8b34c7ca5b2658a943760577833980f0a495261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 38/54] fix: optimizers are not forcibly terminated because
 they were paused by a long checkpoint

---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 303c2a0..dcbb609 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1221,6 +1221,8 @@ class GloMPOManager:
         if self.converged:
             [self._send_signal(opt_id, 1) for opt_id, pack in self._optimizer_packs.items() if pack.process.is_alive()]
         self._toggle_optimizers(1)
+        for opt_id in self._optimizer_packs:
+            self._last_feedback[opt_id] = time()  # Optimizers are silent while they are paused
         self.logger.info("Checkpoint '%s' successfully built", path.name)
 
     def write_summary_file(self, dump_dir: Optional[Path] = None):
-- 
2.43.0


From 5eb9b8e693855a6f15395e8e1545a61e3acf5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 39/54] fix: replaced checkpoint is removed only once the new
 one is complete

It was also removed if it could not be restored after a failure, and a failure to remove it ended the run.
---
 glompo/core/manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index dcbb609..e920c0e 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1192,6 +1192,9 @@ class GloMPOManager:
                     raise CheckpointingError("Could not compress checkpoint", e)
                 raise
 
+            if overwriting_chkpt:
+                ovw_path.unlink()
+
             # Delete old checkpoints
             if self.checkpoint_control.keep_past > -1:
                 self.logger.debug("Finding old checkpoints to delete")
@@ -1215,8 +1218,6 @@ class GloMPOManager:
             warnings.warn(f"Checkpointing failed: {e}.\nAborting checkpoint construction.")
         finally:
             shutil.rmtree(path, ignore_errors=True)
-            if ovw_path.exists():
-                ovw_path.unlink()
 
         if self.converged:
             [self._send_signal(opt_id, 1) for opt_id, pack in self._optimizer_packs.items() if pack.process.is_alive()]
-- 
2.43.0


From 6c1f965532ee4d4d8bec7c59d2595dce5be67201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 40/54] fix: a resumed random optimizer keeps the best result
 found before the checkpoint

---
 glompo/optimizers/random.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/glompo/optimizers/random.py b/glompo/optimizers/random.py
index 3ca06f7..dd9dc04 100644
--- a/glompo/optimizers/random.py
+++ b/glompo/optimizers/random.py
@@ -60,6 +60,12 @@ class RandomOptimizer(BaseOptimizer):
             fx = function(vector)
             self.logger.debug("Function returned fx = %f", fx)
 
+            if fx < best_f:
+                best_f = fx
+                best_x = vector
+                self.logger.debug("Updating best")
+                self.result.x, self.result.fx = best_x, best_f
+
             if callbacks and callbacks():
                 self.stop_called = True
 
@@ -68,12 +74,6 @@ class RandomOptimizer(BaseOptimizer):
                 self.check_messages()
                 self._pause_signal.wait()
 
-            if fx < best_f:
-                best_f = fx
-                best_x = vector
-                self.logger.debug("Updating best")
-                self.result.x, self.result.fx = best_x, best_f
-
         self.result.success = True
         self.logger.debug("Termination successful")
         if self._results_queue:
-- 
2.43.0


From d82c72726f2aa18b81312ac574f2d0e04df47525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 41/54] fix: resumed CMA optimizers no longer fail for want of
 sigma0

---
 glompo/optimizers/cmawrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 6d08d97..e24e185 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -136,7 +136,7 @@ class CMAOptimizer(BaseOptimizer):
         """
         task_settings = copy.deepcopy(self.cmasettings)
 
-        if sigma0 <= 0:
+        if not self.is_restart and sigma0 <= 0:
             self.logger.critical('sigma0 value invalid. Please select a positive value.')
             raise ValueError('sigma0 value invalid. Please select a positive value.')
 
-- 
2.43.0


From bc11f8a3a56367c3c0c82a515b55ed0b5e635739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 42/54] fix: CMA optimizers which converge report success

---
 glompo/optimizers/cmawrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index e24e185..4716f9a 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -157,6 +157,7 @@ class CMAOptimizer(BaseOptimizer):
             self.logger.info("Setting up fresh CMA")
 
             self.result = MinimizeResult()
+            self.result.success = True  # Unless stopped by the manager
             task_settings.update({'bounds': np.transpose(bounds).tolist()})
             self.es = cma.CMAEvolutionStrategy(x0, sigma0, task_settings)
             self.es.inject([x0], force=True)
-- 
2.43.0


From 22fa0b9f4b0143ec085df776780213de1b896312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 43/54] fix: CMA optimizers only print if verbose

---
 glompo/optimizers/cmawrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 4716f9a..f3a7568 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -189,7 +189,7 @@ class CMAOptimizer(BaseOptimizer):
                                     "fx = 'inf' and x = (first vector generated by es.ask())")
                 self.result.x = x[0]
             self.logger.debug("Extracted x and fx from result")
-            if self.verbose and i % 10 == 0 or i == 1:
+            if self.verbose and (i % 10 == 0 or i == 1):
                 print(f"@ iter = {i} fx={self.result.fx:.2E} sigma={self.es.sigma:.3E}")
 
             if callbacks and callbacks():
@@ -206,7 +206,8 @@ class CMAOptimizer(BaseOptimizer):
                     self.injection_frequency and i - self.injection_counter > self.injection_frequency:
                 self.injection_counter = i
                 self.es.inject([self.incumbent['x']], force=self.force_injects)
-                print("Incumbent solution injected.")
+                if self.verbose:
+                    print("Incumbent solution injected.")
 
         self.logger.debug("Exited optimization loop")
 
-- 
2.43.0


From 6251dcc9f9658cb0926d694d482e845c34c571b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 44/54] fix: default max_jobs is at least one on single core
 machines

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index e920c0e..22b9d10 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -519,7 +519,7 @@ class GloMPOManager:
             else:
                 raise TypeError(f"Cannot parse max_jobs = {max_jobs}. Only positive integers are allowed.")
         else:
-            self.max_jobs = mp.cpu_count() - 1
+            self.max_jobs = max(1, mp.cpu_count() - 1)
             self.logger.info("max_jobs set to one less than CPU count.")
 
         # Save convergence criteria
-- 
2.43.0


From 8336ddac121ba87cb06c9bdfb8afd41574078bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 45/54] fix: share_best_solutions can be overridden when
 loading a checkpoint

---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 22b9d10..ada3cf6 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -768,6 +768,8 @@ class GloMPOManager:
                 force_terminations_after = glompo_kwargs['force_terminations_after']
                 self.allow_forced_terminations = force_terminations_after > 0
                 self._too_long = force_terminations_after
+            elif key == 'share_best_solutions':
+                self.incumbent_sharing = val
             elif key == 'visualisation_args':
                 pass
             elif key == 'working_dir':
-- 
2.43.0


From 7fd562f3fb8b01bdc4de13da64005f1aebb08472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 46/54] fix: end condition is given if the convergence checker
 could not be evaluated before the start

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ada3cf6..b1e2d7a 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -919,7 +919,7 @@ class GloMPOManager:
                 warnings.warn("Convergence conditions met before optimizer start. Aborting start.", RuntimeWarning)
                 return self.result
         except Exception:
-            reason = "None"
+            reason = "No optimizers alive, spawning stopped."
             self.converged = False
 
         # Make working dir & open log file
-- 
2.43.0


From d6d61dd6c341bc116157ff53a3d1d50910dd6f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 47/54] fix: write_summary_file can be used while the
 optimization is running

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index b1e2d7a..ecd2f49 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1787,7 +1787,7 @@ class GloMPOManager:
 
             t_total = str(
                 timedelta(seconds=sum([(t - t0).total_seconds() for t0, t in zip(self.dt_starts, self.dt_ends)])))
-            t_session = str(timedelta(seconds=self.t_end - self.t_start)) if self.t_start else None
+            t_session = str(timedelta(seconds=self.t_end - self.t_start)) if self.t_start and self.t_end else None
             t_periods = [{"Start": str(t0), "End": str(t)} for t0, t in zip(self.dt_starts, self.dt_ends)]
             data = {
                 "Assignment": {
-- 
2.43.0


From abe0f49410a5057e2506b76be8a5247173c3f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 48/54] fix: the summary is saved on systems which do not know
 their CPU frequency

---
 glompo/core/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ecd2f49..fd6a94d 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1764,6 +1764,7 @@ class GloMPOManager:
                 cores = self._process.cpu_affinity()
                 resource_summary = self._summarise_resource_usage()
 
+                freq = psutil.cpu_freq()  # Not available on all systems
                 run_info = {
                     "Memory": {
                         "Used": {
@@ -1775,7 +1776,7 @@ class GloMPOManager:
                             "Total": len(cores),
                             "IDs": FlowList(cores)},
                         "Frequency":
-                            f"{psutil.cpu_freq().max / 1000}GHz",
+                            f"{freq.max / 1000}GHz" if freq else None,
                         "Load": {
                             "Average": FlowList(resource_summary['load_ave']),
                             "Std. Dev.": FlowList(resource_summary['load_std'])},
-- 
2.43.0


From 80dec986e4cb8dde462aafb5b021a3b0954c8f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 49/54] fix: summary_files can be raised when loading a
 checkpoint

---
 glompo/core/manager.py         |  5 ++++-
 glompo/core/optimizerlogger.py | 25 ++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index fd6a94d..7d438a1 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -796,7 +796,10 @@ class GloMPOManager:
 
         # Rebuild optimizer logger
         self.opt_log = FileLogger if self.summary_files > 2 else BaseLogger
-        self.opt_log = self.opt_log.checkpoint_load(tmp_dir / 'opt_log')
+        self.opt_log = self.opt_log.checkpoint_load(tmp_dir / 'opt_log',
+                                                    n_parms=self.n_parms,
+                                                    expected_rows=self._log_expected_rows(),
+                                                    build_traj_plot=self.summary_files > 1)
 
         # Modify/create missing variables
         assert len(self.dt_starts) == len(self.dt_ends), "Timestamps missing from checkpoint."
diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 0ef6790..07f0d12 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -45,15 +45,20 @@ class BaseLogger:
 
     @classmethod
     @needs_optional_package('dill')
-    def checkpoint_load(cls, path: Union[Path, str]):
-        """ Construct a new :class:`BaseLogger` from the attributes saved in the checkpoint file located at `path`. """
+    def checkpoint_load(cls, path: Union[Path, str], **init_kwargs):
+        """ Construct a new :class:`BaseLogger` from the attributes saved in the checkpoint file located at `path`.
+        `init_kwargs` initialise what is missing from the checkpoint if it was made by another type of logger.
+        """
         opt_log = cls.__new__(cls)
+        if init_kwargs:
+            opt_log.__init__(**init_kwargs)
 
         with Path(path).open('rb') as file:
             state = dill.load(file)
 
         for var, val in state.items():
             opt_log.__setattr__(var, val)
+        opt_log.build_traj_plot |= init_kwargs.get('build_traj_plot', False)
 
         return opt_log
 
@@ -251,6 +256,10 @@ class BaseLogger:
         for opt_id in range(1, self.n_optimizers + 1):
             f_calls = self.get_history(opt_id, 'call_id')
             traj = self.get_history(opt_id, 'fx')
+            try:
+                opt_type = self.get_metadata(opt_id, 'opt_type')
+            except (KeyError, tb.NoSuchNodeError):  # Cleared before a resume from which the plot was first configured
+                continue
             if best_fx:
                 traj = rolling_min(traj)
 
@@ -261,7 +270,7 @@ class BaseLogger:
 
             ax.plot(f_calls, traj, ls='-', marker='.', c=colors(opt_id))
             leg_elements.append(lines.Line2D([], [], ls='-', c=colors(opt_id),
-                                             label=f"{opt_id}: {self.get_metadata(opt_id, 'opt_type')}"))
+                                             label=f"{opt_id}: {opt_type}"))
 
             try:
                 end_cond = self.get_metadata(opt_id, "end_cond")
@@ -340,6 +349,16 @@ class FileLogger(BaseLogger):
         Flag the logger to hold trajectories in memory to construct the summary image.
     """
 
+    @classmethod
+    def checkpoint_load(cls, path: Union[Path, str], **init_kwargs):
+        opt_log = super().checkpoint_load(path, **init_kwargs)
+        if init_kwargs:
+            opt_log._o_counter = len(opt_log._best_iters) - 1
+            for opt_id in opt_log._storage:
+                opt_log._writing_chunk.setdefault(opt_id, [])
+
+        return opt_log
+
     def __init__(self,
                  n_parms: int,
                  expected_rows: int,
-- 
2.43.0


From bded92194f7ebdc0aeb428ee9a3b305c93b17c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 50/54] fix: a checkpoint made after the end of a run does not
 extend the time used by it

---
 glompo/core/manager.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 7d438a1..6215066 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1150,11 +1150,12 @@ class GloMPOManager:
             path.mkdir(parents=True)
 
             # Save timestamp and checkpoint name
-            if len(self.dt_starts) > 0:
+            if self.t_start:  # Not if a loaded optimization has yet to be resumed
+                dt_end = datetime.fromtimestamp(self.t_end) if self.t_end else datetime.now()
                 if len(self.dt_starts) == len(self.dt_ends):
-                    self.dt_ends[-1] = datetime.now()
+                    self.dt_ends[-1] = dt_end
                 else:
-                    self.dt_ends.append(datetime.now())
+                    self.dt_ends.append(dt_end)
             self.checkpoint_history.add(str(tar_path.resolve()))
 
             self._checkpoint_optimizers(path)
-- 
2.43.0


From 9c4a72704503831ad2f045ccfbfdfe2a34b59fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 51/54] fix: stored parameters are compared to the bounds of
 those parameters

---
 glompo/interfaces/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/interfaces/params.py b/glompo/interfaces/params.py
index 82e4c6d..324965e 100644
--- a/glompo/interfaces/params.py
+++ b/glompo/interfaces/params.py
@@ -400,7 +400,7 @@ class BaseParamsError:
             raise ValueError(f"Cannot parse space='{space}', 'real' or 'scaled' expected.")
 
         if any([not (min_ < x_ < max_) for x_, (min_, max_) in
-                zip(x, self.par_eng.range if not full else self.par_eng.active.range)]):
+                zip(x, self.par_eng.range if full else self.par_eng.active.range)]):
             warnings.warn("x contains parameters which are outside their bounds.", UserWarning)
 
         if full:
-- 
2.43.0


From eb43e055e6e978bfa8e4de0b5fead0523d41fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 52/54] fix: no error if none of the parameters may be
 activated

---
 glompo/interfaces/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/interfaces/params.py b/glompo/interfaces/params.py
index 324965e..b76718a 100644
--- a/glompo/interfaces/params.py
+++ b/glompo/interfaces/params.py
@@ -558,7 +558,7 @@ class BaseParamsError:
         else:
             raise ValueError("Must specify toggle parameter. Do you want these parameters turned 'on' or 'off'?")
 
-        if isinstance(parameters[0], str):
+        if any(isinstance(p, str) for p in parameters):  # May be empty
             mapping = dict(zip(self.par_eng.names, self.par_eng.is_active))
         else:
             mapping = dict(zip(range(len(self.par_eng.is_active)), self.par_eng.is_active))
-- 
2.43.0


From 7bcceb9ae359dd762e3b9f1291952da27b8e2ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 53/54] fix: the ParAMS wrapper reports no success if nothing
 was found

---
 glompo/interfaces/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/interfaces/params.py b/glompo/interfaces/params.py
index b76718a..53bc914 100644
--- a/glompo/interfaces/params.py
+++ b/glompo/interfaces/params.py
@@ -135,7 +135,7 @@ class GlompoParamsWrapper(BaseOptimizer):
         params_res = MinimizeResult()
         params_res.x = result.x
         params_res.fx = result.fx
-        params_res.success = self.manager.converged and len(result.x) > 0
+        params_res.success = bool(self.manager.converged and result.x)
 
         return params_res
 
-- 
2.43.0


From e2e8d5f3b987e402328d1c10969dd753fb6b9211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 54/54] fix: pickled ParAMS data sets and job collections have
 priority over YAML files

---
 glompo/interfaces/params.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glompo/interfaces/params.py b/glompo/interfaces/params.py
index 53bc914..12db9ff 100644
--- a/glompo/interfaces/params.py
+++ b/glompo/interfaces/params.py
@@ -880,6 +880,7 @@ def _setup_collections_from_params(path: Union[Path, str]) -> Tuple[DataSet, Job
             if file.exists():
                 getattr(params_obj, loader)(str(file))
                 built = True
+                break  # The pickle has priority
         if not built:
             raise FileNotFoundError(f"No {name.replace('_', ' ')} data found")
 
-- 
2.43.0

