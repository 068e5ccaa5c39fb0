From 962747356da69d931cd0f06446b192a408e87697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 001/154] fix: ParameterGrid indexing follows the iteration
 order and works without np.product

---
 mealpy/tuner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 61fd74e..0baa0c8 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -131,17 +131,17 @@ class ParameterGrid:
             ## My version: Don't sort the values and don't reverse here. Keep it as it is
             keys, values_lists = zip(*sub_grid.items())
             sizes = [len(v_list) for v_list in values_lists]
-            total = np.product(sizes)
+            total = reduce(operator.mul, sizes, 1)
 
             if ind >= total:
                 # Try the next grid
                 ind -= total
             else:
                 out = {}
-                for key, v_list, n in zip(keys, values_lists, sizes):
+                for key, v_list, n in zip(keys[::-1], values_lists[::-1], sizes[::-1]):
                     ind, offset = divmod(ind, n)
                     out[key] = v_list[offset]
-                return out
+                return {key: out[key] for key in keys}
 
         raise IndexError("ParameterGrid index out of range")
 
-- 
2.43.0


From 48f467c170f86689cd19311c79ac485b41c89097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 002/154] fix: Multitask accepts per-algorithm, exact and flat
 n*m lists of terminations and modes

---
 mealpy/multitask.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index a902db0..f72d746 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -98,14 +98,16 @@ class Multitask:
         if values is None:
             return None
         elif type(values) in (list, tuple):
-            if len(values) == 1:
+            if len(values) == self.n_algorithms and all(type(item) in (list, tuple) and len(item) == self.m_problems for item in values):
+                values_final = [deepcopy(list(item)) for item in values]
+            elif len(values) == 1:
                 values_final = [[deepcopy(values[0]) for _ in range(0, self.m_problems)] for _ in range(0, self.n_algorithms)]
             elif len(values) == self.n_algorithms:
-                values_final = [deepcopy(values[idx] for _ in range(0, self.m_problems)) for idx in range(0, self.n_algorithms)]
+                values_final = [[deepcopy(values[idx]) for _ in range(0, self.m_problems)] for idx in range(0, self.n_algorithms)]
             elif len(values) == self.m_problems:
                 values_final = [deepcopy(values) for _ in range(0, self.n_algorithms)]
             elif len(values) == (self.n_algorithms * self.m_problems):
-                values_final = values
+                values_final = [[deepcopy(values[idx * self.m_problems + jdx]) for jdx in range(0, self.m_problems)] for idx in range(0, self.n_algorithms)]
             else:
                 raise ValueError(f"{name} should be list of {kind} instances with size (1) or (n) or (m) or (n*m), n: #algorithms, m: #problems.")
             return values_final
-- 
2.43.0


From 1742687ee66b431897ebec40a941d5c54745fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 003/154] fix: n_jobs=1 runs trials sequentially in Tuner and
 Multitask as documented

---
 mealpy/multitask.py | 2 +-
 mealpy/tuner.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index f72d746..231214e 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -175,7 +175,7 @@ class Multitask:
         """
         n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_processors = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs > 1):
             n_processors = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         ## Get export function
diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 0baa0c8..1e09e43 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -388,7 +388,7 @@ class Tuner:
         self.problem = problem
         self.n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_cpus = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs > 1):
             n_cpus = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         if mode not in ("process", "thread", "single", "swarm"):
-- 
2.43.0


From 3c5e864c19abeccac7b0d106c25a64f70b0a918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 004/154] fix: Termination honours its documented 'termination'
 dictionary

---
 mealpy/utils/termination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/termination.py b/mealpy/utils/termination.py
index 95ad04a..8033193 100644
--- a/mealpy/utils/termination.py
+++ b/mealpy/utils/termination.py
@@ -73,7 +73,7 @@ class Termination:
     def __set_keyword_arguments(self, kwargs):
         if type(kwargs) == dict:
             if type(kwargs.get("termination")) == dict:
-                for key, value in kwargs.items():
+                for key, value in kwargs["termination"].items():
                     setattr(self, key, value)
             for key, value in kwargs.items():
                 setattr(self, key, value)
-- 
2.43.0


From 8a13c2b1094176072ba578ced2b4541ee760052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 005/154] fix: PermutationVar.correct keeps valid permutations,
 so decoding inverts encoding

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 12fe047..575a03f 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -333,7 +333,7 @@ class PermutationVar(BaseVar):
         return self.le.inverse_transform(x)
 
     def correct(self, x):
-        return np.argsort(x)
+        return np.argsort(np.argsort(x, kind="stable"), kind="stable")
 
     def generate(self):
         return self.generator.permutation(self.valid_set)
-- 
2.43.0


From 0a32ac2f0f61477f9c881d4eadc359094f9fd6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 006/154] fix: IntegerVar.generate rounds its limits instead of
 truncating them

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 575a03f..3f623cb 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -219,7 +219,7 @@ class IntegerVar(BaseVar):
         return np.clip(x, self.lb, self.ub)
 
     def generate(self):
-        return self.generator.integers(self.lb+0.5, self.ub+0.5+self.eps)
+        return self.generator.integers(np.rint(self.lb + 0.5), np.rint(self.ub + 0.5 + self.eps))
 
 
 class StringVar(BaseVar):
-- 
2.43.0


From 4cbef06de274ead69ba207e81f58d5e9f9163f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 007/154] fix: transfer variables use the given lower bound

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 3f623cb..86f61fa 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -372,7 +372,7 @@ class TransferBinaryVar(BinaryVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
         self.all_zeros = all_zeros
 
@@ -430,7 +430,7 @@ class TransferBoolVar(BoolVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
 
     def correct(self, x):
-- 
2.43.0


From c6ce8c2ddd8843e8086972cf138cec519ef3ebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 008/154] fix: decoding an already binary solution of a
 transfer variable returns that solution

---
 mealpy/utils/space.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 86f61fa..7410273 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -391,6 +391,12 @@ class TransferBinaryVar(BinaryVar):
         x = np.where(cons < x, 1, 0)
         return self._get_correct_x(x)
 
+    def decode(self, x):
+        x = np.asarray(x)
+        if np.all((x == 0) | (x == 1)) and (self.all_zeros or np.any(x)):   # Already corrected, don't draw it again
+            return np.array(x, dtype=int)
+        return super().decode(x)
+
     def generate(self):
         x = self.generator.integers(0, 2, self.n_vars)
         return self._get_correct_x(x)
@@ -438,3 +444,9 @@ class TransferBoolVar(BoolVar):
         x = self.tf_func(x)
         cons = self.generator.random(len(x))
         return np.where(cons < x, 1, 0)
+
+    def decode(self, x):
+        x = np.asarray(x)
+        if np.all((x == 0) | (x == 1)):   # Already corrected, don't draw it again
+            return x == 1
+        return super().decode(x)
-- 
2.43.0


From 2cc60ef15081cb023e8621e84dd209d11676b365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 009/154] fix: repeated labels in StringVar/CategoricalVar no
 longer decode to 'unknown'

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 7410273..edd52e7 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -236,7 +236,7 @@ class StringVar(BaseVar):
                 le = LabelEncoder().fit(valid_sets)
                 self.list_le = (le,)
                 self.lb = np.array([0., ])
-                self.ub = np.array([len(valid_sets) - self.eps, ])
+                self.ub = np.array([len(le.unique_labels) - self.eps, ])
             else:
                 self.n_vars = len(valid_sets)
                 if all(len(item) > 1 for item in valid_sets):
@@ -246,7 +246,7 @@ class StringVar(BaseVar):
                     for vl_set in valid_sets:
                         le = LabelEncoder().fit(vl_set)
                         self.list_le.append(le)
-                        ub.append(len(vl_set) - self.eps)
+                        ub.append(len(le.unique_labels) - self.eps)
                     self.lb = np.zeros(self.n_vars)
                     self.ub = np.array(ub)
                 else:
-- 
2.43.0


From 1c10637dfb5e5235ef39d0dc7d8354bbe3b0b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 010/154] fix: thread and process modes generate the initial
 population in order in the main process

---
 mealpy/optimizer.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 8b54ec7..02af8ac 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -133,8 +133,7 @@ class Optimizer:
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
             if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
                 if self.mode in self.AVAILABLE_MODES:
-                    self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
-                    self.pop = self.update_target_for_population(self.pop)
+                    self.pop = self.generate_evaluated_agents(starting_solutions)
                 else:
                     self.pop = [self.generate_agent(solution) for solution in starting_solutions]
             else:
@@ -345,22 +344,25 @@ class Optimizer:
         """
         if pop_size is None:
             pop_size = self.pop_size
-        pop = []
-        if self.mode == "thread":
-            with parallel.ThreadPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a thread finished their job (not by order)
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
-        elif self.mode == "process":
-            with parallel.ProcessPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a cpu finished their job (not by order).
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
-        else:
-            pop = [self.generate_agent() for _ in range(0, pop_size)]
-        return pop
+        if self.mode in self.PARALLEL_MODES:
+            return self.generate_evaluated_agents([None] * pop_size)
+        return [self.generate_agent() for _ in range(0, pop_size)]
+
+    def generate_evaluated_agents(self, solutions: Union[List, Tuple, np.ndarray]) -> List[Agent]:
+        """
+        Generate agents in order in the main process, so every random number comes from the generator of this run.
+        Only the evaluations are distributed to the workers. An optimizer that builds its agents from their targets
+        (its own generate_agent()) creates them one by one.
+
+        Args:
+            solutions: The solutions, None for a random one
+
+        Returns:
+            list: The evaluated agents, in the order of solutions
+        """
+        if type(self).generate_agent is not Optimizer.generate_agent:
+            return [self.generate_agent(solution) for solution in solutions]
+        return self.update_target_for_population([self.generate_empty_agent(solution) for solution in solutions])
 
     def amend_solution(self, solution: np.ndarray) -> np.ndarray:
         """
-- 
2.43.0


From 07dcc4922ccf15059563dd9e73d355a46363abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 011/154] fix: equal targets are not better than each other in
 max problems either

---
 mealpy/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 02af8ac..4645d25 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -442,14 +442,14 @@ class Optimizer:
         if minmax == "min":
             return True if target_x.fitness < target_y.fitness else False
         else:
-            return False if target_x.fitness < target_y.fitness else True
+            return True if target_x.fitness > target_y.fitness else False
 
     @staticmethod
     def compare_fitness(fitness_x: Union[float, int], fitness_y: Union[float, int], minmax: str = "min") -> bool:
         if minmax == "min":
             return True if fitness_x < fitness_y else False
         else:
-            return False if fitness_x < fitness_y else True
+            return True if fitness_x > fitness_y else False
 
     @staticmethod
     def duplicate_pop(pop: List[Agent]) -> List[Agent]:
-- 
2.43.0


From dc4d9a9419b31ea8151a5fd23e054c03f4925ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 012/154] fix: the number of function evaluations starts from 0
 at every solve

---
 mealpy/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 4645d25..ad32217 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -59,7 +59,7 @@ class Optimizer:
 
         if self.name is None: self.name = self.__class__.__name__
         self.sort_flag = False
-        self.nfe_counter = 1  # The first one is tested in Problem class
+        self.nfe_counter = 0
         self.parameters, self.params_name_ordered = {}, None
         self.is_parallelizable = True
         self.generator, self.rng = None, None     # random module for numpy and random (python)
@@ -174,6 +174,7 @@ class Optimizer:
         self.logger.info(self)
         self.history = History(log_to=self.problem.log_to, log_file=self.problem.log_file)
         self.pop, self.g_best, self.g_worst = None, None, None
+        self.nfe_counter = 0
 
     def check_mode_and_workers(self, mode, n_workers):
         self.mode = self.validator.check_str("mode", mode, self.SUPPORTED_MODES)
@@ -201,7 +202,6 @@ class Optimizer:
                     self.termination = Termination(log_to=self.problem.log_to, log_file=self.problem.log_file, **termination)
                 else:
                     raise ValueError("Termination needs to be a dict or an instance of Termination class.")
-                self.nfe_counter = 0
                 self.termination.set_start_values(0, self.nfe_counter, time.perf_counter(), 0)
         else:
             finished = False
-- 
2.43.0


From f7c4a3d7087e795485555d14ebbf51240733dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 013/154] fix: recorded agents and copies of agents do not
 share their solution with the live population

---
 mealpy/optimizer.py   | 8 ++++----
 mealpy/utils/agent.py | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index ad32217..da15020 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -624,14 +624,14 @@ class Optimizer:
         c_best, c_worst = sorted_pop[0], sorted_pop[-1]
         if save:
             ## Save current best
-            self.history.list_current_best.append(c_best)
+            self.history.list_current_best.append(c_best.copy())
             better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
             self.history.list_global_best.append(better)
             ## Save current worst
-            self.history.list_current_worst.append(c_worst)
+            self.history.list_current_worst.append(c_worst.copy())
             worse = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
             self.history.list_global_worst.append(worse)
-            return sorted_pop, better
+            return sorted_pop, better.copy()
         else:
             ## Handle current best
             local_better = self.get_better_agent(c_best, self.history.list_current_best[-1], self.problem.minmax)
@@ -643,7 +643,7 @@ class Optimizer:
             self.history.list_current_worst[-1] = local_worst
             global_worst = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
             self.history.list_global_worst[-1] = global_worst
-            return sorted_pop, global_better
+            return sorted_pop, global_better.copy()
 
     @staticmethod
     def sample_indexes_exclude_one(generator, pop_size: int, exclude_idx: int, n_samples: int, replace: bool=False):
diff --git a/mealpy/utils/agent.py b/mealpy/utils/agent.py
index e93d7ab..1ac2b02 100644
--- a/mealpy/utils/agent.py
+++ b/mealpy/utils/agent.py
@@ -28,7 +28,8 @@ class Agent:
             setattr(self, key, value)
 
     def copy(self) -> 'Agent':
-        agent = Agent(self.solution, self.target.copy(), **self.kwargs)
+        solution = None if self.solution is None else np.array(self.solution)
+        agent = Agent(solution, None if self.target is None else self.target.copy(), **self.kwargs)
         # Copy any changes made to the attributes
         for attr, value in vars(self).items():
             if attr not in ['target', 'solution', 'id', 'kwargs']:
-- 
2.43.0


From dafee3d24e39724743aeaa574ad533de525b8f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 014/154] fix: Tuner accepts an instance of Problem as
 documented

---
 mealpy/tuner.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 1e09e43..bc74ec2 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -396,7 +396,13 @@ class Tuner:
 
         list_params_grid = list(ParameterGrid(self.param_grid))
         trial_columns = [f"trial_{id_trial}" for id_trial in range(1, self.n_trials + 1)]
-        ascending = True if self.problem["minmax"] == "min" else False
+        if isinstance(self.problem, Problem):
+            minmax = self.problem.minmax
+        elif isinstance(self.problem, dict):
+            minmax = self.problem.get("minmax", "min")
+        else:
+            raise TypeError("problem needs to be a dict or an instance of Problem class.")
+        ascending = True if minmax == "min" else False
 
         best_fit_results = []
         loss_results = []
-- 
2.43.0


From 36a626b35b0d5d2d62e7d258394a5c85e4da9849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 015/154] fix: Tuner selects the best parameters of max
 problems, ties go to the smaller deviation

---
 mealpy/tuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index bc74ec2..c355c52 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -432,8 +432,8 @@ class Tuner:
         self.df_fit["trial_mean"] = self.df_fit[trial_columns].mean(axis=1)
         self.df_fit["trial_std"] = self.df_fit[trial_columns].std(axis=1)
         self.df_fit["rank_mean"] = self.df_fit["trial_mean"].rank(ascending=ascending)
-        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=ascending)
-        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=ascending)
+        self.df_fit["rank_std"] = self.df_fit["trial_std"].fillna(0.).rank(ascending=True)
+        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=True)
         self._best_row = self.df_fit[self.df_fit["rank_mean_std"] == self.df_fit["rank_mean_std"].min()]
         self._best_params = self._best_row["params"].values[0]
         self._best_score = self._best_row["trial_mean"].values[0]
-- 
2.43.0


From 963651d7e7235450fbd3292a66cf86093cf3fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 016/154] fix: OriginalBCO accepts its own default n_chemotaxis

---
 mealpy/bio_based/BCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index 781d6ce..b8775cf 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -68,7 +68,7 @@ class OriginalBCO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.c_min = self.validator.check_float("c_min", c_min, (0., 1.0))
         self.c_max = self.validator.check_float("c_max", c_max, (c_min, 10.0))
-        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, (1, 5))
+        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, [1, 5])
         self.max_swim_steps = self.validator.check_int("max_swim_steps", max_swim_steps, (2, 10))
         self.migration_prob = self.validator.check_float("migration_prob", migration_prob, (0., 1.0))
         self.set_parameters(["epoch", "pop_size", "c_min", "c_max", "n_chemotaxis", "max_swim_steps", "migration_prob"])
-- 
2.43.0


From d1a486e40fd7cf6a9883d562c46f632b0e5f844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 017/154] fix: get_optimizer_by_name never lists the abstract
 Optimizer as a variant

---
 mealpy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/__init__.py b/mealpy/__init__.py
index bf03a49..179b7cb 100644
--- a/mealpy/__init__.py
+++ b/mealpy/__init__.py
@@ -123,13 +123,13 @@ def get_optimizer_by_name(name: str, verbose: bool = False):
             for cls_name, cls_obj in inspect.getmembers(obj):
                 if inspect.isclass(cls_obj) and issubclass(cls_obj, Optimizer):
                     cls[cls_name] = cls_obj
+    cls.pop("Optimizer", None)
     if verbose:
         if not flag:
             print(f"Mealpy doesn't support optimizer named: {name}.\n"
                   f"Please see the supported Optimizer name from here:\n"
                   f"https://github.com/thieu1995/mealpy?tab=readme-ov-file#-optimizer-classification-table")
             return None
-        del cls['Optimizer']
         print(f"Found algorithm: {name}, the supported variants are:")
         for name, optimizer in cls.items():
             print(f"Optimizer: {name} - {optimizer} - {optimizer()}")
-- 
2.43.0


From 86d1790faa3bfbc468ebf959afa6a7691241176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 018/154] fix: starting solutions may be lists or tuples, and
 are copied

---
 mealpy/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index da15020..d69bbdf 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -132,6 +132,8 @@ class Optimizer:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
             if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
+                # Evaluate and evolve copies, the input may be of any supported array type and belongs to the user
+                starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]
                 if self.mode in self.AVAILABLE_MODES:
                     self.pop = self.generate_evaluated_agents(starting_solutions)
                 else:
-- 
2.43.0


From 92c552097305e19f55b331dc1cfcfd8216f65976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 019/154] fix: exploration is 0% instead of NaN when the
 population never spreads

---
 mealpy/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index d69bbdf..63a4d6b 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -307,7 +307,10 @@ class Optimizer:
         """
         self.history.epoch = len(self.history.list_diversity)
         div_max = np.max(self.history.list_diversity)
-        self.history.list_exploration = 100 * (np.array(self.history.list_diversity) / div_max)
+        if div_max > 0:
+            self.history.list_exploration = 100 * (np.array(self.history.list_diversity) / div_max)
+        else:
+            self.history.list_exploration = np.zeros(len(self.history.list_diversity))
         self.history.list_exploitation = 100 - self.history.list_exploration
         self.history.list_global_best = self.history.list_global_best[1:]
         self.history.list_current_best = self.history.list_current_best[1:]
-- 
2.43.0


From 43dfdcf768214b063d0d4bc1446c04d1d26533f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 020/154] fix: k-way tournament always draws at least as many
 candidates as it returns

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 63a4d6b..9a997fe 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -712,7 +712,7 @@ class Optimizer:
             list: List of the selected indexes
         """
         if 0 < k_way < 1:
-            k_way = int(k_way * len(pop))
+            k_way = max(int(k_way * len(pop)), min(output, len(pop)))
         list_id = self.generator.choice(range(len(pop)), k_way, replace=False)
         list_parents = [[idx, pop[idx].target.fitness] for idx in list_id]
         if self.problem.minmax == "min":
-- 
2.43.0


From c6702a458427a814d32b1a8ea12d73b17f44e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 021/154] fix: every starting solution is checked for its
 length, not only the first one

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 9a997fe..cd3e015 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -131,7 +131,7 @@ class Optimizer:
         if starting_solutions is None:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
-            if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
+            if all(type(solution) in self.SUPPORTED_ARRAYS and len(solution) == self.problem.n_dims for solution in starting_solutions):
                 # Evaluate and evolve copies, the input may be of any supported array type and belongs to the user
                 starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]
                 if self.mode in self.AVAILABLE_MODES:
-- 
2.43.0


From 22089e6b92e33a1c298b681280befdcb304dcc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 022/154] fix: Logger honours the log destination of the latest
 run instead of the first one

---
 mealpy/utils/logger.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/logger.py b/mealpy/utils/logger.py
index b0ff2d4..95aed9d 100644
--- a/mealpy/utils/logger.py
+++ b/mealpy/utils/logger.py
@@ -48,6 +48,11 @@ class Logger:
                 formatter = logging.Formatter(format_str, datefmt="%Y/%m/%d %I:%M:%S %p")
             handler = logging.StreamHandler()
             handler.setFormatter(formatter)
-        if not logger.hasHandlers():
+        # The same name can be configured again (e.g. the next run logs to another file), the previous output is released
+        for previous in [item for item in logger.handlers if getattr(item, "mealpy_output", False)]:
+            logger.removeHandler(previous)
+            previous.close()
+        handler.mealpy_output = True
+        if self.log_to == "file" or not logger.hasHandlers():
             logger.addHandler(handler)
         return logger
-- 
2.43.0


From 1960a0df42d4cbea7088437fac6832ad1a372c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 023/154] fix: undefined (NaN) coordinates are drawn again
 instead of being evaluated

---
 mealpy/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index cd3e015..4b439e3 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -394,6 +394,10 @@ class Optimizer:
             The correct solution that can be used to calculate target
         """
         solution = self.amend_solution(solution)
+        undefined = np.isnan(solution)
+        if np.any(undefined):
+            # A move can be undefined (e.g. 0/0 when agents coincide), such coordinates are drawn again
+            solution = np.where(undefined, self.generator.uniform(self.problem.lb, self.problem.ub), solution)
         return self.problem.correct_solution(solution)
 
     def update_target_for_population(self, pop: List[Agent] = None) -> List[Agent]:
-- 
2.43.0


From 82663fcaf99ada9f8934ab619202f43f3eb6dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 024/154] fix: updating the global best within a generation
 does not rewrite the record of the previous one

---
 mealpy/optimizer.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 4b439e3..23981cd 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -53,6 +53,7 @@ class Optimizer:
         self.epoch, self.pop_size = None, None
         self.mode, self.n_workers, self.name = None, None, None
         self.pop, self.g_best, self.g_worst = None, None, None
+        self.interim_best, self.interim_worst = None, None
         self.problem, self.logger, self.history = None, None, None
         self.__set_keyword_arguments(kwargs)
         self.validator = Validator(log_to="console", log_file=None)
@@ -176,6 +177,7 @@ class Optimizer:
         self.logger.info(self)
         self.history = History(log_to=self.problem.log_to, log_file=self.problem.log_file)
         self.pop, self.g_best, self.g_worst = None, None, None
+        self.interim_best, self.interim_worst = None, None
         self.nfe_counter = 0
 
     def check_mode_and_workers(self, mode, n_workers):
@@ -635,24 +637,24 @@ class Optimizer:
             ## Save current best
             self.history.list_current_best.append(c_best.copy())
             better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
+            if self.interim_best is not None:
+                better = self.get_better_agent(better, self.interim_best, self.problem.minmax)
             self.history.list_global_best.append(better)
             ## Save current worst
             self.history.list_current_worst.append(c_worst.copy())
             worse = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
+            if self.interim_worst is not None:
+                worse = self.get_better_agent(worse, self.interim_worst, self.problem.minmax, reverse=True)
             self.history.list_global_worst.append(worse)
+            self.interim_best, self.interim_worst = None, None
             return sorted_pop, better.copy()
         else:
-            ## Handle current best
-            local_better = self.get_better_agent(c_best, self.history.list_current_best[-1], self.problem.minmax)
-            self.history.list_current_best[-1] = local_better
-            global_better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
-            self.history.list_global_best[-1] = global_better
-            ## Handle current worst
-            local_worst = self.get_better_agent(c_worst, self.history.list_current_worst[-1], self.problem.minmax, reverse=True)
-            self.history.list_current_worst[-1] = local_worst
-            global_worst = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
-            self.history.list_global_worst[-1] = global_worst
-            return sorted_pop, global_better.copy()
+            ## The history belongs to the finished generations, keep what is found within this one for its own record
+            known_best = self.history.list_global_best[-1] if self.interim_best is None else self.interim_best
+            self.interim_best = self.get_better_agent(c_best, known_best, self.problem.minmax)
+            known_worst = self.history.list_global_worst[-1] if self.interim_worst is None else self.interim_worst
+            self.interim_worst = self.get_better_agent(c_worst, known_worst, self.problem.minmax, reverse=True)
+            return sorted_pop, self.interim_best.copy()
 
     @staticmethod
     def sample_indexes_exclude_one(generator, pop_size: int, exclude_idx: int, n_samples: int, replace: bool=False):
-- 
2.43.0


From 38549348a4faf2c129382e69e7926d0e20326e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 025/154] fix: PermutationVar keeps the types of a mixed
 valid_set

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index edd52e7..cd78d28 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -317,7 +317,7 @@ class PermutationVar(BaseVar):
 
     def _set_bounds(self, valid_set):
         if type(valid_set) in self.SUPPORTED_ARRAY and len(valid_set) > 1:
-            self.valid_set = np.array(valid_set)
+            self.valid_set = np.array(valid_set, dtype=object)      # Mixed types must stay as they are
             self.n_vars = len(valid_set)
             self.le = LabelEncoder().fit(valid_set)
             self.lb = np.zeros(self.n_vars)
-- 
2.43.0


From d064d4d8cc4a0f59ada1ceedaa7c9a06a6ea8998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 026/154] fix: Validator rejects complex, infinite and
 mismatched values with its own ValueError

---
 mealpy/utils/validator.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/mealpy/utils/validator.py b/mealpy/utils/validator.py
index 30b563a..6a3fa7c 100644
--- a/mealpy/utils/validator.py
+++ b/mealpy/utils/validator.py
@@ -6,7 +6,7 @@
 
 import numpy as np
 import operator
-from numbers import Number
+from numbers import Real
 from mealpy.utils.logger import Logger
 
 SEQUENCE = (list, tuple, np.ndarray)
@@ -50,20 +50,20 @@ class Validator:
             setattr(self, key, value)
 
     def check_int(self, name:str, value: int, bound=None):
-        if isinstance(value, Number):
-            if bound is None:
-                return int(value)
-            elif is_in_bound(value, bound):
+        if isinstance(value, Real) and (bound is None or is_in_bound(value, bound)):
+            try:
                 return int(value)
+            except (ValueError, OverflowError):     # NaN and infinity are not integers
+                pass
         bound = "" if bound is None else f"and value should be in range: {bound}"
         raise ValueError(f"'{name}' is an integer {bound}.")
 
     def check_float(self, name: str, value: float, bound=None):
-        if isinstance(value, Number):
-            if bound is None:
-                return float(value)
-            elif is_in_bound(value, bound):
+        if isinstance(value, Real) and (bound is None or is_in_bound(value, bound)):
+            try:
                 return float(value)
+            except OverflowError:                   # An integer that is too large to be a float
+                pass
         bound = "" if bound is None else f"and value should be in range: {bound}"
         raise ValueError(f"'{name}' is a float {bound}.")
 
@@ -85,25 +85,25 @@ class Validator:
         if isinstance(values, SEQUENCE) and len(values) > 1:
             value_flag = [isinstance(item, DIGIT) for item in values]
             if np.all(value_flag):
-                if bounds is not None and len(bounds) == len(values):
+                if bounds is None:
+                    return values
+                elif len(bounds) == len(values):
                     value_flag = [is_in_bound(item, bound) for item, bound in zip(values, bounds)]
                     if np.all(value_flag):
                         return values
-                else:
-                    return values
         bounds = "" if bounds is None else f"and values should be in range: {bounds}"
         raise ValueError(f"'{name}' are integer {bounds}.")
 
     def check_tuple_float(self, name: str, values: tuple, bounds=None):
         if isinstance(values, SEQUENCE) and len(values) > 1:
-            value_flag = [isinstance(item, Number) for item in values]
+            value_flag = [isinstance(item, Real) for item in values]
             if np.all(value_flag):
-                if bounds is not None and len(bounds) == len(values):
+                if bounds is None:
+                    return values
+                elif len(bounds) == len(values):
                     value_flag = [is_in_bound(item, bound) for item, bound in zip(values, bounds)]
                     if np.all(value_flag):
                         return values
-                else:
-                    return values
         bounds = "" if bounds is None else f"and values should be in range: {bounds}"
         raise ValueError(f"'{name}' are float {bounds}.")
 
-- 
2.43.0


From fbeed73a25037f35f0cdaabe4172a1cddbf11864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 027/154] fix: Tuner.export_figures draws the charts of a grid
 with one parameter

---
 mealpy/tuner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index c355c52..288f5c7 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -309,7 +309,8 @@ class Tuner:
             Path(save_path_new).mkdir(parents=True, exist_ok=True)
             for idx_para, para in enumerate(para_columns):
                 selected_paras = para_columns[:idx_para] + para_columns[idx_para + 1:]
-                group_paras = groups.groupby(selected_paras)
+                # A grid with a single parameter has nothing to group by
+                group_paras = groups.groupby(selected_paras) if selected_paras else [((), groups)]
                 for idx_group, group_df in group_paras:
                     if len(group_df) <= 1:
                         continue
@@ -335,7 +336,7 @@ class Tuner:
                     plt.xlabel(x_label)
                     plt.ylabel(y_label)
                     plt.legend(legends)
-                    fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)])
+                    fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)]) or para
                     for idx, ext in enumerate(exts):
                         plt.savefig(f"{save_path_new}/{fname}{ext}", bbox_inches='tight')
                     if platform.system() != "Linux" and verbose:
-- 
2.43.0


From 6834489334d751fe8aed23068bdbac718d183178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 028/154] fix: DevMShOA carries its documentation record

---
 mealpy/swarm_based/MShOA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/MShOA.py b/mealpy/swarm_based/MShOA.py
index bc81ac2..45d7ce7 100644
--- a/mealpy/swarm_based/MShOA.py
+++ b/mealpy/swarm_based/MShOA.py
@@ -280,6 +280,8 @@ class DevMShOA(Optimizer):
     >>> print(f"Solution: {model.g_best.solution}, Fitness: {model.g_best.target.fitness}")
     """
 
+    OPT_INFO = OptInfo(name="Mantis Shrimp Optimization Algorithm (Dev)", difficulty="nightmare", kind="developed")
+
     def __init__(self, epoch: int = 10000, pop_size: int = 100, k_value: float = 0.3, **kwargs: object) -> None:
         """
         Args:
-- 
2.43.0


From 7d8ff796370bc65c90b2bbf2b210aa778ab6591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 029/154] fix: set_parameters validates the values and updates
 what the constructor derives from them

---
 mealpy/optimizer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 23981cd..b56a291 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -7,6 +7,7 @@
 from __future__ import annotations
 
 from typing import List, Union, Tuple, Dict, ClassVar
+import inspect
 import random
 import numpy as np
 from tqdm import tqdm
@@ -89,9 +90,18 @@ class Optimizer:
             valid_para_names = set(self.parameters.keys())
             new_para_names = set(parameters.keys())
             if new_para_names.issubset(valid_para_names):
-                for key, value in parameters.items():
+                params = {**self.parameters, **parameters}
+                values = dict(parameters)
+                if valid_para_names.issubset(inspect.signature(self.__class__.__init__).parameters):
+                    # The constructor validates the new values and derives other attributes from them
+                    template = self.__class__(**params)
+                    params = template.parameters
+                    values = {key: params[key] for key in parameters}
+                    base = Optimizer().__dict__
+                    values.update({key: value for key, value in template.__dict__.items() if key not in base and key not in params})
+                for key, value in values.items():
                     setattr(self, key, value)
-                    self.parameters[key] = value
+                self.parameters.update(params)
             else:
                 raise ValueError(f"Invalid input parameters: {new_para_names} for {self.get_name()} optimizer. "
                                  f"Valid parameters are: {valid_para_names}.")
-- 
2.43.0


From 4c22520310318e3adc70b3db33cee72e4cadbe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 030/154] fix: PO reports the pop_size it was given, so that it
 can be set again

---
 mealpy/human_based/PO.py | 1 +
 mealpy/optimizer.py      | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index d7c25bf..2906055 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -70,6 +70,7 @@ class OriginalPO(Optimizer):
         self.pop_size = self.pop_n ** 2
         self.lamda_max = self.validator.check_int("lamda_max", lamda_max, [1.0, 100])
         self.set_parameters(["epoch", "pop_size", "lamda_max"])
+        self.parameters["pop_size"] = self.pop_n    # The given parameter, the population itself has pop_n^2 agents
         self.sort_flag = False
         self.lam = None
         self.pop_prev = None
diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index b56a291..de2f9f9 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -96,7 +96,7 @@ class Optimizer:
                     # The constructor validates the new values and derives other attributes from them
                     template = self.__class__(**params)
                     params = template.parameters
-                    values = {key: params[key] for key in parameters}
+                    values = {key: getattr(template, key) for key in parameters}
                     base = Optimizer().__dict__
                     values.update({key: value for key, value in template.__dict__.items() if key not in base and key not in params})
                 for key, value in values.items():
-- 
2.43.0


From f0d4f0d62c821fbf43b596388597a56249419a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 031/154] fix: OriginalSA and GaussianSA report their pop_size

---
 mealpy/physics_based/SA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/SA.py b/mealpy/physics_based/SA.py
index c2618af..ff4b149 100644
--- a/mealpy/physics_based/SA.py
+++ b/mealpy/physics_based/SA.py
@@ -67,7 +67,7 @@ class OriginalSA(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [2, 10000])
         self.temp_init = self.validator.check_float("temp_init", temp_init, [1, 10000])
         self.step_size = self.validator.check_float("step_size", step_size, (-100., 100.))
-        self.set_parameters(["epoch", "temp_init", "step_size"])
+        self.set_parameters(["epoch", "pop_size", "temp_init", "step_size"])
 
     def before_main_loop(self):
         self.agent_current = self.g_best.copy()
@@ -160,7 +160,7 @@ class GaussianSA(Optimizer):
         self.temp_init = self.validator.check_float("temp_init", temp_init, [1, 10000])
         self.cooling_rate = self.validator.check_float("cooling_rate", cooling_rate, (0., 1.))
         self.scale = self.validator.check_float("scale", scale, (0., 100.))
-        self.set_parameters(["epoch", "temp_init", "cooling_rate", "scale"])
+        self.set_parameters(["epoch", "pop_size", "temp_init", "cooling_rate", "scale"])
 
     def before_main_loop(self):
         # Initialize the system
-- 
2.43.0


From 6b084e0afff05603e042cd0e9f4b1ba3fd686d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 032/154] fix: OriginalBFO keeps its fractional step size Ci

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index c498f5b..0616672 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -95,7 +95,7 @@ class OriginalBFO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.step_size = self.Ci = self.validator.check_int("Ci", Ci, (0, 5.0))
+        self.step_size = self.Ci = self.validator.check_float("Ci", Ci, (0, 5.0))
         self.p_eliminate = self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
         self.chem_steps = self.Nc = self.validator.check_int("Nc", Nc, [2, 100])
         self.swim_length = self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
-- 
2.43.0


From fd2a394e279dd2f6455fd3f5e312b92829c70071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 033/154] fix: MGTO names the parameter pp it rejects

---
 mealpy/swarm_based/AGTO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/AGTO.py b/mealpy/swarm_based/AGTO.py
index 28dad34..0de760a 100644
--- a/mealpy/swarm_based/AGTO.py
+++ b/mealpy/swarm_based/AGTO.py
@@ -178,7 +178,7 @@ class MGTO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.pp = self.validator.check_float("p1", pp, (0, 1))      # p in the paper
+        self.pp = self.validator.check_float("pp", pp, (0, 1))      # p in the paper
         self.set_parameters(["epoch", "pop_size", "pp"])
         self.sort_flag = False
 
-- 
2.43.0


From 1542831f224202edb7b324246f1ee1ed91fb429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 034/154] fix: set_parameters keeps the additional keyword
 arguments of the constructor

---
 mealpy/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index de2f9f9..e010fac 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -67,6 +67,7 @@ class Optimizer:
         self.generator, self.rng = None, None     # random module for numpy and random (python)
 
     def __set_keyword_arguments(self, kwargs):
+        self.keyword_arguments = dict(kwargs)
         for key, value in kwargs.items():
             setattr(self, key, value)
 
@@ -94,7 +95,7 @@ class Optimizer:
                 values = dict(parameters)
                 if valid_para_names.issubset(inspect.signature(self.__class__.__init__).parameters):
                     # The constructor validates the new values and derives other attributes from them
-                    template = self.__class__(**params)
+                    template = self.__class__(**{**self.keyword_arguments, **params})
                     params = template.parameters
                     values = {key: getattr(template, key) for key in parameters}
                     base = Optimizer().__dict__
-- 
2.43.0


From 6ad8549316daa4251f61958d993926b4ed48a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 035/154] fix: AAA agents do not share the position that is
 moved further; problems with fewer than 3 dimensions

---
 mealpy/bio_based/AAA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index e8183dc..527b33c 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -156,7 +156,7 @@ class OriginalAAA(Optimizer):
             pos_new = self.pop[idx].solution.copy()
             while energy[idx] >= 0:
                 ndx = self.get_index_kway_tournament_selection(self.pop, k_way=0.2, output=1)[0]
-                rd1, rd2, rd3 = self.generator.choice(self.problem.n_dims, 3, False)
+                rd1, rd2, rd3 = self.generator.choice(self.problem.n_dims, 3, replace=self.problem.n_dims < 3)
                 pos_new[rd1] += (self.pop[ndx].solution[rd1] - pos_new[rd1]) * (self.s_force - alg_friction[idx]) * ((self.generator.random() - 0.5) * 2)
                 pos_new[rd2] += (self.pop[ndx].solution[rd2] - pos_new[rd2]) * (self.s_force - alg_friction[idx]) * np.cos(self.generator.random() * 2 * np.pi)
                 pos_new[rd3] += (self.pop[ndx].solution[rd3] - pos_new[rd3]) * (self.s_force - alg_friction[idx]) * np.sin(self.generator.random() * 2 * np.pi)
@@ -164,7 +164,7 @@ class OriginalAAA(Optimizer):
                 # Movement cost
                 energy[idx] = energy[idx] - self.e_loss / 2
                 pos_new = self.correct_solution(pos_new)
-                agent_new = self.generate_agent(pos_new)
+                agent_new = self.generate_agent(pos_new.copy())
                 if self.compare_target(agent_new.target, self.pop[idx].target, self.problem.minmax):
                     self.pop[idx] = agent_new
                     self.starvation[idx] = 0
-- 
2.43.0


From 4a8e42a30c7596d34361ff0606d791e58436f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 036/154] fix: AO, AAO divide by zero when epoch is 1

---
 mealpy/swarm_based/AO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/AO.py b/mealpy/swarm_based/AO.py
index 5152d10..9dd38d3 100644
--- a/mealpy/swarm_based/AO.py
+++ b/mealpy/swarm_based/AO.py
@@ -79,7 +79,7 @@ class OriginalAO(Optimizer):
         phi = -w * dim_list + phi0
         x = r * np.sin(phi)  # Eq.(9)
         y = r * np.cos(phi)  # Eq.(10)
-        QF = epoch ** ((2 * self.generator.random() - 1) / (1 - self.epoch) ** 2)  # Eq.(15)        Quality function
+        QF = epoch ** ((2 * self.generator.random() - 1) / max((1 - self.epoch) ** 2, 1))  # Eq.(15)        Quality function
         pop_new = []
         for idx in range(0, self.pop_size):
             x_mean = np.mean(np.array([agent.solution for agent in self.pop]), axis=0)
@@ -182,7 +182,7 @@ class AAO(Optimizer):
         phi = -w * dim_list + phi0
         x = r * np.sin(phi)  # Eq.(9)
         y = r * np.cos(phi)  # Eq.(10)
-        QF = epoch ** ((2 * self.generator.random() - 1) / (1 - self.epoch) ** 2)  # Eq.(15)        Quality function
+        QF = epoch ** ((2 * self.generator.random() - 1) / max((1 - self.epoch) ** 2, 1))  # Eq.(15)        Quality function
         pop_new = []
 
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 6d86f1120ea499b05d870782e6a4213e956641ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 037/154] fix: ArchOA, BCO evaluate the corrected solution, not
 the uncorrected move

---
 mealpy/bio_based/BCO.py        | 2 +-
 mealpy/physics_based/ArchOA.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index b8775cf..b81dd58 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -116,7 +116,7 @@ class OriginalBCO(Optimizer):
                 # Continue swimming without turbulence
                 pos_new = self.pop[idx].solution + step * step_direction
                 agent_new.solution = self.correct_solution(pos_new)
-                agent_new.target = self.get_target(pos_new)
+                agent_new.target = self.get_target(agent_new.solution)
                 m += 1
 
         # 2. Interactive Exchange
diff --git a/mealpy/physics_based/ArchOA.py b/mealpy/physics_based/ArchOA.py
index e0efd68..988f4b7 100644
--- a/mealpy/physics_based/ArchOA.py
+++ b/mealpy/physics_based/ArchOA.py
@@ -142,7 +142,7 @@ class OriginalArchOA(Optimizer):
             agent.solution = self.correct_solution(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                agent.target = self.get_target(pos_new)
+                agent.target = self.get_target(agent.solution)
                 self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From a91e91fecb797d89a67aebb91cea08b984788dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 038/154] fix: OriginalBFO with an odd pop_size

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 0616672..0c5e53c 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -164,7 +164,7 @@ class OriginalBFO(Optimizer):
                     sum_nutrients += self.pop[idx].cost
                 self.pop[idx].nutrients = sum_nutrients
             cells = sorted(self.pop, key=lambda cell: cell.nutrients)
-            self.pop = cells[0:self.half_pop_size].copy() + cells[0:self.half_pop_size].copy()
+            self.pop = cells[0:self.half_pop_size].copy() + cells[0:self.pop_size - self.half_pop_size].copy()
             for idc in range(self.pop_size):
                 if self.generator.random() < self.p_eliminate:
                     self.pop[idc] = self.generate_agent()
-- 
2.43.0


From 2aebc3bca2ab8cec4f5054121b1b0a0ccf7915b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 039/154] fix: ABFO keeps its declared step sizes and its
 population size, runs sequentially

---
 mealpy/swarm_based/BFO.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 0c5e53c..296d1a2 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -238,19 +238,19 @@ class ABFO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.C_s = self.Ped = self.validator.check_float("C_s", C_s, (0, 2.0))
-        self.C_e = self.Ped = self.validator.check_float("C_e", C_e, (0, 1.0))
+        self.C_s = self.validator.check_float("C_s", C_s, (0, 2.0))
+        self.C_e = self.validator.check_float("C_e", C_e, (0, 1.0))
         self.p_eliminate = self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
         self.swim_length = self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
         self.N_adapt = self.validator.check_int("N_adapt", N_adapt, [0, 4])
         self.N_split = self.validator.check_int("N_split", N_split, [5, 50])
         self.set_parameters(["epoch", "pop_size", "C_s", "C_e", "Ped", "Ns", "N_adapt", "N_split"])
-        self.support_parallel_modes = False
+        self.is_parallelizable = False
         self.sort_flag = False
 
     def initialize_variables(self):
-        self.C_s = self.C_s * (self.problem.ub - self.problem.lb)
-        self.C_e = self.C_e * (self.problem.ub - self.problem.lb)
+        self.step_start = self.C_s * (self.problem.ub - self.problem.lb)
+        self.step_end = self.C_e * (self.problem.ub - self.problem.lb)
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
@@ -267,7 +267,7 @@ class ABFO(Optimizer):
 
     def update_step_size__(self, pop=None, idx=None):
         total_fitness = np.sum([agent.target.fitness for agent in pop])
-        step_size = self.C_s - (self.C_s - self.C_e) * pop[idx].target.fitness / total_fitness
+        step_size = self.step_start - (self.step_start - self.step_end) * pop[idx].target.fitness / total_fitness
         step_size = step_size / self.pop[idx].nutrients if self.pop[idx].nutrients > 0 else step_size
         return step_size
 
@@ -295,26 +295,27 @@ class ABFO(Optimizer):
                         self.pop[idx].update(local_solution=pos_new.copy(), local_target=agent.target.copy())
                 else:
                     self.pop[idx].nutrients -= 1
-            if self.pop[idx].nutrients > max(self.N_split, int(self.N_split + (len(self.pop) - self.pop_size) / self.N_adapt)):
+            if self.pop[idx].nutrients > max(self.N_split, int(self.N_split + (len(self.pop) - self.pop_size) / max(self.N_adapt, 1))):
                 tt = self.generator.normal(0, 1, self.problem.n_dims)
                 pos_new = tt * self.pop[idx].solution + (1 - tt) * (self.g_best.solution - self.pop[idx].solution)
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
                 self.pop.append(agent)
-            nut_min = min(self.N_adapt, int(self.N_adapt + (len(self.pop) - self.pop_size) / self.N_adapt))
+            nut_min = min(self.N_adapt, int(self.N_adapt + (len(self.pop) - self.pop_size) / max(self.N_adapt, 1)))
             if self.pop[idx].nutrients < nut_min or self.generator.random() < self.p_eliminate:
                 self.pop[idx] = self.generate_agent()
         ## Make sure the population does not have duplicates.
         new_set = set()
-        for idx, obj in enumerate(self.pop):
-            if tuple(obj.solution.tolist()) in new_set:
-                self.pop.pop(idx)
-            else:
+        pop_unique = []
+        for obj in self.pop:
+            if tuple(obj.solution.tolist()) not in new_set:
                 new_set.add(tuple(obj.solution.tolist()))
+                pop_unique.append(obj)
+        self.pop = pop_unique
         ## Balance the population by adding more agents or remove some agents
         n_agents = len(self.pop) - self.pop_size
         if n_agents < 0:
-            for idx in range(0, n_agents):
+            for idx in range(0, -n_agents):
                 agent = self.generate_agent()
                 self.pop.append(agent)
         elif n_agents > 0:
-- 
2.43.0


From b64cfc3e4e926b64809ef816067d2012d485efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 040/154] fix: BSO with a pop_size that is not a multiple of
 m_clusters

---
 mealpy/human_based/BSO.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mealpy/human_based/BSO.py b/mealpy/human_based/BSO.py
index 0e7ecf6..58f253d 100644
--- a/mealpy/human_based/BSO.py
+++ b/mealpy/human_based/BSO.py
@@ -83,6 +83,8 @@ class ImprovedBSO(Optimizer):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
         self.pop_group = self.generate_group_population(self.pop, self.m_clusters, self.m_solution)
+        # The last cluster also takes the agents left when pop_size is not a multiple of m_clusters
+        self.pop_group[-1].extend(agent.copy() for agent in self.pop[self.m_clusters * self.m_solution:])
         self.centers = self.find_cluster__(self.pop_group)
 
     def evolve(self, epoch):
@@ -98,8 +100,8 @@ class ImprovedBSO(Optimizer):
             self.centers[idx] = self.generate_agent()
         pop_group = self.pop_group
         for idx in range(0, self.pop_size):  # Generate new individuals
-            cluster_id = int(idx / self.m_solution)
-            location_id = int(idx % self.m_solution)
+            cluster_id = min(int(idx / self.m_solution), self.m_clusters - 1)
+            location_id = idx - cluster_id * self.m_solution
 
             if self.generator.uniform() < self.p2:  # p_6b
                 if self.generator.uniform() < self.p3:
@@ -210,11 +212,12 @@ class OriginalBSO(ImprovedBSO):
             self.centers[idx] = self.generate_agent()
         pop_group = self.pop_group
         for idx in range(0, self.pop_size):  # Generate new individuals
-            cluster_id = int(idx / self.m_solution)
-            location_id = int(idx % self.m_solution)
+            cluster_id = min(int(idx / self.m_solution), self.m_clusters - 1)
+            location_id = idx - cluster_id * self.m_solution
             if self.generator.uniform() < self.p2:  # p_6b
                 if self.generator.uniform() < self.p3:  # p_6i
                     cluster_id = self.generator.integers(0, self.m_clusters)
+                    location_id = location_id % self.m_solution
                 if self.generator.uniform() < self.p3:
                     pos_new = self.centers[cluster_id].solution + epsilon * self.generator.normal(0, 1, self.problem.n_dims)
                 else:
-- 
2.43.0


From 155c8436c32234be50d9716742b1b5ba0e94352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 041/154] fix: CleverBookBeesA can move every dimension, also
 in 1-D problems

---
 mealpy/swarm_based/BeesA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index d78d976..a2c8267 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -96,7 +96,7 @@ class CleverBookBeesA(Optimizer):
         """
         pop_neigh = []
         for idx in range(0, neigh_size):
-            t1 = self.generator.integers(0, len(parent.solution) - 1)
+            t1 = self.generator.integers(0, len(parent.solution))
             new_bee = parent.solution.copy()
             new_bee[t1] = (parent.solution[t1] + self.generator.uniform() * self.patch_size) if self.generator.uniform() < 0.5 \
                 else (parent.solution[t1] - self.generator.uniform() * self.patch_size)
-- 
2.43.0


From 8567df30e22e86a61705c29dd061976424bd4f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 042/154] fix: BeesA dances from a copy of the position,
 restarts its radius per run and sends at least one bee

---
 mealpy/swarm_based/BeesA.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index a2c8267..e2730e0 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -209,12 +209,16 @@ class OriginalBeesA(Optimizer):
         self.dyn_radius = self.dance_radius
         self.n_selected_bees = int(round(self.selected_site_ratio * self.pop_size))
         self.n_elite_bees = int(round(self.elite_site_ratio * self.n_selected_bees))
-        self.n_selected_bees_local = int(round(self.selected_site_bee_ratio * self.pop_size))
-        self.n_elite_bees_local = int(round(self.elite_site_bee_ratio * self.n_selected_bees_local))
+        self.n_selected_bees_local = max(1, int(round(self.selected_site_bee_ratio * self.pop_size)))
+        self.n_elite_bees_local = max(1, int(round(self.elite_site_bee_ratio * self.n_selected_bees_local)))
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.dyn_radius = self.dance_radius
+
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
+        position = position.copy()
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
 
@@ -258,7 +262,7 @@ class OriginalBeesA(Optimizer):
                 pop_new[idx] = self.generate_agent()
         self.pop = pop_new
         # Damp Dance Radius
-        self.dyn_radius = self.dance_reduction * self.dance_radius
+        self.dyn_radius = self.dance_reduction * self.dyn_radius
 
 
 class ProbBeesA(Optimizer):
@@ -327,8 +331,12 @@ class ProbBeesA(Optimizer):
         self.dyn_radius = self.dance_radius
         self.recruited_bee_count = int(round(self.recruited_bee_ratio * self.pop_size))
 
+    def initialize_variables(self):
+        self.dyn_radius = self.dance_radius
+
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(list(range(0, self.problem.n_dims)))
+        position = position.copy()
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
 
@@ -374,4 +382,4 @@ class ProbBeesA(Optimizer):
             else:
                 self.pop[idx] = self.generate_agent()
         # Damp Dance Radius
-        self.dyn_radius = self.dance_reduction * self.dance_radius
+        self.dyn_radius = self.dance_reduction * self.dyn_radius
-- 
2.43.0


From a3d3bf2bfb61598e2691b7b46cac67f2ea41cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 043/154] fix: CA accepts at least one agent into the belief
 space

---
 mealpy/human_based/CA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/CA.py b/mealpy/human_based/CA.py
index 1919c0f..4017464 100644
--- a/mealpy/human_based/CA.py
+++ b/mealpy/human_based/CA.py
@@ -71,7 +71,7 @@ class OriginalCA(Optimizer):
             "lb": self.problem.lb,
             "ub": self.problem.ub,
         }
-        self.dyn_accepted_num = int(self.accepted_rate * self.pop_size)
+        self.dyn_accepted_num = max(1, int(self.accepted_rate * self.pop_size))
         # update situational knowledge (g_best here is an element inside belief space)
 
     def create_faithful__(self, lb, ub):
-- 
2.43.0


From 5371767b33eb88fcd95c68d2a74546a4887c7b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 044/154] fix: CDDO with a pattern_size larger than the
 population

---
 mealpy/human_based/CDDO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/CDDO.py b/mealpy/human_based/CDDO.py
index b56df44..5e2e20b 100644
--- a/mealpy/human_based/CDDO.py
+++ b/mealpy/human_based/CDDO.py
@@ -122,7 +122,7 @@ class OriginalCDDO(Optimizer):
                 self.SR = self.generator.integers(6, 11) / 10
             elif 1.5 < self.list_gr[idx] < 2:
                 # Consider the learnt patterns
-                pos_new = pattern[self.generator.integers(0, self.pattern_size)].solution - self.creativity_rate * self.pop_local[idx].solution
+                pos_new = pattern[self.generator.integers(0, len(pattern))].solution - self.creativity_rate * self.pop_local[idx].solution
                 self.LR = self.generator.integers(0, 6) / 10
                 self.SR = self.generator.integers(0, 6) / 10
             pos_new = self.correct_solution(pos_new)
-- 
2.43.0


From 1993072ff8628a9270bcf5690f8cf87cfa19a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 045/154] fix: COA with n_coyotes=2

---
 mealpy/swarm_based/COA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index fd65e0d..0072931 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -101,7 +101,7 @@ class OriginalCOA(Optimizer):
             #  Update coyotes' social condition
             pop_new = []
             for i in range(self.n_coyotes):
-                rc1, rc2 = self.generator.choice(list(set(range(0, self.n_coyotes)) - {i}), 2, replace=False)
+                rc1, rc2 = self.generator.choice(list(set(range(0, self.n_coyotes)) - {i}), 2, replace=self.n_coyotes < 3)
                 # Try to update the social condition according to the alpha and the pack tendency(Eq. 12)
                 pos_new = self.pop_group[p][i].solution + self.generator.random() * (self.pop_group[p][0].solution - self.pop_group[p][rc1].solution) + \
                           self.generator.random() * (tendency - self.pop_group[p][rc2].solution)
-- 
2.43.0


From 4ffbeb15071f62c9528014940f0ec41f764637be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 046/154] fix: CRO on 1-D problems

---
 mealpy/evolutionary_based/CRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index fd5c5dc..f7e4596 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -119,7 +119,7 @@ class OriginalCRO(Optimizer):
 
     ### Crossover
     def multi_point_cross__(self, pos1, pos2):
-        p1, p2 = self.generator.choice(list(range(len(pos1))), 2, replace=False)
+        p1, p2 = self.generator.choice(list(range(len(pos1))), 2, replace=len(pos1) < 2)
         start, end = min(p1, p2), max(p1, p2)
         pos_new = np.concatenate((pos1[:start], pos2[start:end], pos1[end:]), axis=0)
         return self.correct_solution(pos_new)
-- 
2.43.0


From d4cec7066bbe79a6d7421c0c9cf0baf2d36f6590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 047/154] fix: CSO tournament with a seeking memory pool
 smaller than 4

---
 mealpy/swarm_based/CSO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/CSO.py b/mealpy/swarm_based/CSO.py
index 5415e64..a44a811 100644
--- a/mealpy/swarm_based/CSO.py
+++ b/mealpy/swarm_based/CSO.py
@@ -138,8 +138,8 @@ class OriginalCSO(Optimizer):
         if self.selected_strategy == 0:  # Best fitness-self
             cat, _ = self.get_best_agent(candidate_cats, self.problem.minmax)
         elif self.selected_strategy == 1:  # Tournament
-            k_way = 4
-            idx = self.generator.choice(range(0, self.smp), k_way, replace=False)
+            k_way = min(4, len(candidate_cats))
+            idx = self.generator.choice(range(0, len(candidate_cats)), k_way, replace=False)
             cats_k_way = [candidate_cats[_] for _ in idx]
             cat, _ = self.get_best_agent(cats_k_way, self.problem.minmax)
         elif self.selected_strategy == 2:  ### Roul-wheel selection
-- 
2.43.0


From a36eac4c7d963a254f6e9576969eb40d8bec9a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 048/154] fix: JADE, SHADE, L_SHADE, LSHADEcnEpSin draw from
 their own generator, work with small populations and 1-D problems

---
 mealpy/evolutionary_based/DE.py    |  4 ++--
 mealpy/evolutionary_based/SHADE.py |  8 ++++----
 mealpy/sota_based/LSHADEcnEpSin.py | 14 +++++++-------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 33da76c..0783598 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -261,7 +261,7 @@ class JADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr, 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f, 0.1)
+                f = cauchy.rvs(self.dyn_miu_f, 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
@@ -269,7 +269,7 @@ class JADE(Optimizer):
                 break
             temp_f.append(f)
             temp_cr.append(cr)
-            top = int(self.pop_size * self.pt)
+            top = max(1, int(self.pop_size * self.pt))
             x_best = pop_sorted[self.generator.integers(0, top)]
             r1_idx = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
             new_pop = self.pop + self.dyn_pop_archive
diff --git a/mealpy/evolutionary_based/SHADE.py b/mealpy/evolutionary_based/SHADE.py
index dd136b1..874e889 100644
--- a/mealpy/evolutionary_based/SHADE.py
+++ b/mealpy/evolutionary_based/SHADE.py
@@ -105,7 +105,7 @@ class OriginalSHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
@@ -113,8 +113,8 @@ class OriginalSHADE(Optimizer):
                 break
             list_cr_new[idx] = cr
             list_f_new[idx] = f
-            p = self.generator.uniform(2 / self.pop_size, 0.2)
-            top = int(self.pop_size * p)
+            p = self.generator.uniform(min(2 / self.pop_size, 0.2), 0.2)
+            top = max(1, int(self.pop_size * p))
             x_best = pop_sorted[self.generator.integers(0, top)]
             r1_idx = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
             new_pop = self.pop + self.dyn_pop_archive
@@ -271,7 +271,7 @@ class L_SHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index 059faac..d59550e 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -96,7 +96,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
     def initialize_variables(self):
         self.NP_init = self.pop_size if self.pop_size else 18 * self.problem.n_dims
-        self.NP_min = self.pop_size_min  # Minimum population size
+        self.NP_min = min(self.pop_size_min, self.NP_init)  # Minimum population size
         self.NP = self.NP_init      # population size will be updated in each iteration
 
         # Memory settings
@@ -185,7 +185,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
         """Standard binomial crossover"""
         if CR is None:
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
         trial = np.where(self.generator.uniform(0, 1, self.problem.n_dims) <= CR, mutant, target)
         j_rand = self.generator.integers(0, self.problem.n_dims)
@@ -206,7 +206,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
         # Compute covariance matrix
         if neighborhood.shape[0] > 1:
-            cov_matrix = np.cov(neighborhood.T)
+            cov_matrix = np.atleast_2d(np.cov(neighborhood.T))
             # Ensure positive definite
             cov_matrix += np.eye(self.problem.n_dims) * 1e-8
 
@@ -222,7 +222,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
                 # Generate random CR for this crossover
                 r_idx = self.generator.integers(0, self.H)
-                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
                 CR = np.clip(CR, 0, 1)
 
                 # Binomial crossover in eigen space
@@ -291,20 +291,20 @@ class OriginalLSHADEcnEpSin(Optimizer):
                 else:
                     # Configuration 2: adaptive increasing
                     r_idx = self.generator.integers(0, self.H)
-                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1)
+                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1, random_state=self.generator)
                     freq = np.clip(freq, 0.1, 2.0)
                     F = self.sinusoidal_adaptation(epoch, self.epoch, config_type=2, freq=freq)
                     config_used = 2
             else:
                 # Second half: standard LSHADE
                 r_idx = self.generator.integers(0, self.H)
-                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1)
+                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1, random_state=self.generator)
                 F = np.clip(F, 0.1, 1.0)
                 config_used = 0
 
             # Generate CR
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
 
             # Mutation
-- 
2.43.0


From d0a564b99c3909bd5a3c3c7870f775e4e4032005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 049/154] fix: SAP_DE starts every run with its own pop_size
 and keeps at least 5 agents

---
 mealpy/evolutionary_based/DE.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 0783598..18a1316 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -498,6 +498,9 @@ class SAP_DE(Optimizer):
             pop_size = int(10 * self.problem.n_dims + self.generator.uniform(-0.5, 0.5))
         return Agent(solution=solution, crossover=crossover_rate, mutation=mutation_rate, pop_size=pop_size)
 
+    def initialize_variables(self):
+        self.pop_size = self.fixed_pop_size
+
     def edit_to_range__(self, var=None, lower=0, upper=1, func_value=None):
         while var <= lower or var >= upper:
             if var <= lower:
@@ -563,7 +566,7 @@ class SAP_DE(Optimizer):
         if m_new <= 4:
             m_new = self.fixed_pop_size + int(self.generator.uniform(0, 4))
         elif m_new > 4 * self.fixed_pop_size:
-            m_new = self.fixed_pop_size - int(self.generator.uniform(0, 4))
+            m_new = max(5, self.fixed_pop_size - int(self.generator.uniform(0, 4)))
         ## Change population by population size
         if m_new <= self.pop_size:
             self.pop = pop[:m_new]
-- 
2.43.0


From b868075a75fd9ab4dcb5103776c9f43f6127a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 050/154] fix: DandelionO divides by zero when epoch is 1

---
 mealpy/swarm_based/DandelionO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/DandelionO.py b/mealpy/swarm_based/DandelionO.py
index fb00f9a..d83b72c 100644
--- a/mealpy/swarm_based/DandelionO.py
+++ b/mealpy/swarm_based/DandelionO.py
@@ -72,7 +72,7 @@ class OriginalDandelionO(Optimizer):
         alpha = self.generator.random() * ((epoch / self.epoch)**2 - 2.0 * epoch / self.epoch + 1)
 
         # Eq. (11) Local search domain factor k
-        aa = 1.0 / (self.epoch ** 2 - 2 *self.epoch + 1)
+        aa = 1.0 / max(self.epoch ** 2 - 2 * self.epoch + 1, 1)
         bb = -2 * aa
         cc = 1 - aa - bb
         kk = 1 - self.generator.random() * (cc + aa*epoch**2 + bb * epoch)
-- 
2.43.0


From 66b0f427549a03b746a380c63b03d6393bdf206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 051/154] fix: DBO does not reuse the positions of an earlier
 run

---
 mealpy/swarm_based/DBO.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/DBO.py b/mealpy/swarm_based/DBO.py
index 0a40f02..8c4672c 100644
--- a/mealpy/swarm_based/DBO.py
+++ b/mealpy/swarm_based/DBO.py
@@ -74,9 +74,8 @@ class OriginalDBO(Optimizer):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        # Initialize previous positions x(t−1) on the first call
-        if self._prev_positions is None:
-            self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
+        # Initialize previous positions x(t−1) of this run
+        self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
 
     def evolve(self, epoch: int):
         """
-- 
2.43.0


From 30a2b4aadc7924dcbab4da4c9a688da9aaea45fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 052/154] fix: DOA perturbs dimension jdx with its own bounds,
 also when n_dims is small

---
 mealpy/human_based/DOA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/human_based/DOA.py b/mealpy/human_based/DOA.py
index a98dbae..fa3a44a 100644
--- a/mealpy/human_based/DOA.py
+++ b/mealpy/human_based/DOA.py
@@ -93,7 +93,7 @@ class OriginalDOA(Optimizer):
                 # Calculate k for current group
                 aa = max(1, np.ceil(self.problem.n_dims / 8 / (m + 1)))
                 bb = np.ceil(self.problem.n_dims / 3 / (m + 1)) + 1
-                kk = self.generator.integers(aa, bb)
+                kk = min(self.generator.integers(aa, bb), self.problem.n_dims)
                 # Group indices
                 group_start = int((m / 5) * self.pop_size)
                 group_end = int(((m + 1) / 5) * self.pop_size)
@@ -134,12 +134,12 @@ class OriginalDOA(Optimizer):
             pop_new = []
             for idx in range(self.pop_size):
                 km = max(2, int(np.ceil(self.problem.n_dims / 3)))
-                k = self.generator.integers(2, km + 1)
+                k = min(self.generator.integers(2, km + 1), self.problem.n_dims)
                 in_indices = self.generator.choice(self.problem.n_dims, size=k, replace=False)
                 pos_new = self.g_best.solution.copy()
                 for jdx in in_indices:
                     cos_term = (np.cos(epoch * np.pi / self.epoch) + 1) / 2
-                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[idx] - self.problem.lb[idx]) + self.problem.lb[idx]) * cos_term
+                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[jdx] - self.problem.lb[jdx]) + self.problem.lb[jdx]) * cos_term
                     # Boundary handling
                     if pos_new[jdx] > self.problem.ub[jdx] or pos_new[jdx] < self.problem.lb[jdx]:
                         if self.problem.n_dims > 15:
-- 
2.43.0


From 5f67fae6d2b62b262e6e1be12b83210196dfedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 053/154] fix: encoded and corrected solutions of permutation
 problems are real-valued like all others (in-place updates were truncated or
 failed)

---
 mealpy/utils/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/problem.py b/mealpy/utils/problem.py
index 081def8..a05ceda 100644
--- a/mealpy/utils/problem.py
+++ b/mealpy/utils/problem.py
@@ -110,7 +110,7 @@ class Problem:
         x_new = []
         for idx, var in enumerate(bounds):
             x_new += list(var.encode(x[idx]))
-        return np.array(x_new)
+        return np.array(x_new, dtype=float)
 
     @staticmethod
     def decode_solution_with_bounds(x, bounds):
@@ -130,7 +130,7 @@ class Problem:
         for idx, var in enumerate(bounds):
             x_new += list(var.correct(x[n_vars:n_vars+var.n_vars]))
             n_vars += var.n_vars
-        return np.array(x_new)
+        return np.array(x_new, dtype=float)
 
     @staticmethod
     def generate_solution_with_bounds(bounds: Union[List, Tuple, np.ndarray], encoded: bool = True) -> Union[List, np.ndarray]:
-- 
2.43.0


From 39fe4596e40715768ee92489a307153da2ca03ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 054/154] fix: EFO with small populations or small fields

---
 mealpy/physics_based/EFO.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mealpy/physics_based/EFO.py b/mealpy/physics_based/EFO.py
index 4c112bf..12ce5f3 100644
--- a/mealpy/physics_based/EFO.py
+++ b/mealpy/physics_based/EFO.py
@@ -78,6 +78,14 @@ class DevEFO(Optimizer):
         self.phi = (1 + np.sqrt(5)) / 2  # golden ratio
         self.sort_flag = True
 
+    def get_neutral_field__(self):
+        """
+        Returns:
+            tuple: The first index of the neutral field and the index behind its end, the field has at least 1 particle
+        """
+        start = min(int((self.pop_size * self.p_field) + 1), self.pop_size - 1)
+        return start, max(int(self.pop_size * (1 - self.n_field)), start + 1)
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -87,9 +95,9 @@ class DevEFO(Optimizer):
         """
         pop_new = []
         for idx in range(0, self.pop_size):
-            r_idx1 = self.generator.integers(0, int(self.pop_size * self.p_field))  # top
+            r_idx1 = self.generator.integers(0, max(1, int(self.pop_size * self.p_field)))  # top
             r_idx2 = self.generator.integers(int(self.pop_size * (1 - self.n_field)), self.pop_size)  # bottom
-            r_idx3 = self.generator.integers(int((self.pop_size * self.p_field) + 1), int(self.pop_size * (1 - self.n_field)))  # middle
+            r_idx3 = self.generator.integers(*self.get_neutral_field__())  # middle
             if self.generator.random() < self.ps_rate:
                 pos_new = self.pop[r_idx1].solution + self.phi * self.generator.random() * (self.g_best.solution - self.pop[r_idx3].solution) \
                           + self.generator.random() * (self.g_best.solution - self.pop[r_idx2].solution)
@@ -188,11 +196,11 @@ class OriginalEFO(DevEFO):
             self.pop = self.generate_population(self.pop_size)
         # %random vectors (this is to increase the calculation speed instead of determining the random values in each
         # iteration we allocate them in the beginning before algorithm start
-        self.r_index1 = self.generator.integers(0, int(self.pop_size * self.p_field), (self.problem.n_dims, self.epoch))
+        self.r_index1 = self.generator.integers(0, max(1, int(self.pop_size * self.p_field)), (self.problem.n_dims, self.epoch))
         # random particles from positive field
         self.r_index2 = self.generator.integers(int(self.pop_size * (1 - self.n_field)), self.pop_size, (self.problem.n_dims, self.epoch))
         # random particles from negative field
-        self.r_index3 = self.generator.integers(int((self.pop_size * self.p_field) + 1), int(self.pop_size * (1 - self.n_field)), (self.problem.n_dims, self.epoch))
+        self.r_index3 = self.generator.integers(*self.get_neutral_field__(), (self.problem.n_dims, self.epoch))
         # random particles from neutral field
         self.ps = self.generator.uniform(0, 1, (self.problem.n_dims, self.epoch))
         # Probability of selecting electromagnets of generated particle from the positive field
-- 
2.43.0


From ccc4520e3eee869c3179352d8ad16742d776ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 055/154] fix: EHO with a pop_size that is not a multiple of
 n_clans

---
 mealpy/swarm_based/EHO.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/EHO.py b/mealpy/swarm_based/EHO.py
index 7e48a52..2655ab7 100644
--- a/mealpy/swarm_based/EHO.py
+++ b/mealpy/swarm_based/EHO.py
@@ -73,10 +73,16 @@ class OriginalEHO(Optimizer):
         self.n_individuals = int(self.pop_size / self.n_clans)
         self.sort_flag = False
 
+    def generate_clans__(self, pop):
+        pop_group = self.generate_group_population(pop, self.n_clans, self.n_individuals)
+        # The last clan also takes the agents left when pop_size is not a multiple of n_clans
+        pop_group[-1].extend(agent.copy() for agent in pop[self.n_clans * self.n_individuals:])
+        return pop_group
+
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        self.pop_group = self.generate_group_population(self.pop, self.n_clans, self.n_individuals)
+        self.pop_group = self.generate_clans__(self.pop)
 
     def evolve(self, epoch):
         """
@@ -88,8 +94,8 @@ class OriginalEHO(Optimizer):
         # Clan updating operator
         pop_new = []
         for idx in range(0, self.pop_size):
-            clan_idx = int(idx / self.n_individuals)
-            pos_clan_idx = int(idx % self.n_individuals)
+            clan_idx = min(int(idx / self.n_individuals), self.n_clans - 1)
+            pos_clan_idx = idx - clan_idx * self.n_individuals
             if pos_clan_idx == 0:  # The best in clan, because all clans are sorted based on fitness
                 center = np.mean(np.array([agent.solution for agent in self.pop_group[clan_idx]]), axis=0)
                 pos_new = self.beta * center
@@ -105,7 +111,7 @@ class OriginalEHO(Optimizer):
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
             self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
-        self.pop_group = self.generate_group_population(self.pop, self.n_clans, self.n_individuals)
+        self.pop_group = self.generate_clans__(self.pop)
         # Separating operator
         for idx in range(0, self.n_clans):
             self.pop_group[idx], _ = self.get_sorted_population(self.pop_group[idx], self.problem.minmax)
-- 
2.43.0


From e72983d684368e4facdabf3c7b1e5115c0367f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 056/154] fix: DMOA weights stay finite when the mean cost is
 close to zero

---
 mealpy/swarm_based/DMOA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/DMOA.py b/mealpy/swarm_based/DMOA.py
index 67e9e65..f2ac44f 100644
--- a/mealpy/swarm_based/DMOA.py
+++ b/mealpy/swarm_based/DMOA.py
@@ -89,7 +89,7 @@ class OriginalDMOA(Optimizer):
         CF = (1. - epoch/self.epoch)**(2.*epoch/self.epoch)
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         mean_cost = np.mean(fit_list)
-        fi = np.exp(-fit_list / mean_cost)
+        fi = np.exp(np.clip(-fit_list / (mean_cost + self.EPSILON), -500, 500))
         for idx in range(0, self.pop_size):
             alpha = self.get_index_roulette_wheel_selection(fi)
             k = self.generator.choice(list(set(range(0, self.pop_size)) - {idx, alpha}))
@@ -199,7 +199,7 @@ class DevDMOA(Optimizer):
         CF = (1. - epoch / self.epoch) ** (2. * epoch / self.epoch)
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         mean_cost = np.mean(fit_list)
-        fi = np.exp(-fit_list / mean_cost)
+        fi = np.exp(np.clip(-fit_list / (mean_cost + self.EPSILON), -500, 500))
 
         ## Foraging led by Alpha female
         for idx in range(0, self.pop_size):
-- 
2.43.0


From a4a51ecf305ca9bc1843c56df96e7715fffeba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 057/154] fix: FOA keeps the given solutions, its first
 population is inside the bounds and bounds may be negative

---
 mealpy/swarm_based/FOA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/FOA.py b/mealpy/swarm_based/FOA.py
index e7f40ca..f64adca 100644
--- a/mealpy/swarm_based/FOA.py
+++ b/mealpy/swarm_based/FOA.py
@@ -62,7 +62,7 @@ class OriginalFOA(Optimizer):
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
-        solution = self.norm_consecutive_adjacent__(solution)
+            solution = self.correct_solution(self.norm_consecutive_adjacent__(solution))
         return Agent(solution=solution)
 
     def evolve(self, epoch):
@@ -74,7 +74,7 @@ class OriginalFOA(Optimizer):
         """
         pop_new = []
         for idx in range(0, self.pop_size):
-            pos_new = self.pop[idx].solution + self.generator.random() * self.generator.normal(self.problem.lb, self.problem.ub)
+            pos_new = self.pop[idx].solution + self.generator.random() * self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             pos_new = self.norm_consecutive_adjacent__(pos_new)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
@@ -139,7 +139,7 @@ class DevFOA(OriginalFOA):
         c = 1 - epoch / self.epoch
         pop_new = []
         for idx in range(0, self.pop_size):
-            pos_new = self.pop[idx].solution + self.generator.normal(self.problem.lb, self.problem.ub)
+            pos_new = self.pop[idx].solution + self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             pos_new = c * self.generator.random() * self.norm_consecutive_adjacent__(pos_new)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From a70fd5a520a714c0f95f7eb7b5844ee545e3d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 058/154] fix: GA mutates copies of the selected parents, not
 the parents

---
 mealpy/evolutionary_based/GA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 550a084..89b0d5f 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -142,7 +142,7 @@ class BaseGA(Optimizer):
             id_c1, id_c2 = self.generator.choice(range(self.pop_size), 2, replace=False)
         else:   ## tournament
             id_c1, id_c2 = self.get_index_kway_tournament_selection(self.pop, k_way=self.k_way, output=2)
-        return self.pop[id_c1].solution, self.pop[id_c2].solution
+        return self.pop[id_c1].solution.copy(), self.pop[id_c2].solution.copy()
 
     def selection_process_00__(self, pop_selected):
         """
@@ -168,7 +168,7 @@ class BaseGA(Optimizer):
             id_c1, id_c2 = self.generator.choice(range(len(pop_selected)), 2, replace=False)
         else:   ## tournament
             id_c1, id_c2 = self.get_index_kway_tournament_selection(pop_selected, k_way=self.k_way, output=2)
-        return pop_selected[id_c1].solution, pop_selected[id_c2].solution
+        return pop_selected[id_c1].solution.copy(), pop_selected[id_c2].solution.copy()
 
     def selection_process_01__(self, pop_dad, pop_mom):
         """
@@ -192,7 +192,7 @@ class BaseGA(Optimizer):
         else:   ## tournament
             id_c1 = self.get_index_kway_tournament_selection(pop_dad, k_way=self.k_way, output=1)[0]
             id_c2 = self.get_index_kway_tournament_selection(pop_mom, k_way=self.k_way, output=1)[0]
-        return pop_dad[id_c1].solution, pop_mom[id_c2].solution
+        return pop_dad[id_c1].solution.copy(), pop_mom[id_c2].solution.copy()
 
     def crossover_process__(self, dad, mom):
         """
-- 
2.43.0


From 31345ce469b4460064349da50c1b6af9b805fa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 059/154] fix: GA roulette selection never ends when only one
 agent has a positive probability

---
 mealpy/evolutionary_based/GA.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 89b0d5f..6cc872e 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -135,9 +135,9 @@ class BaseGA(Optimizer):
         """
         if self.selection == "roulette":
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
-            id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
-                id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            # The second parent is selected among the others
+            id_c2 = self.get_index_roulette_wheel_selection(np.delete(list_fitness, id_c1))
+            id_c2 += int(id_c2 >= id_c1)
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(self.pop_size), 2, replace=False)
         else:   ## tournament
@@ -161,9 +161,9 @@ class BaseGA(Optimizer):
         if self.selection == "roulette":
             list_fitness = np.array([agent.target.fitness for agent in pop_selected])
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
-            id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
-                id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            # The second parent is selected among the others
+            id_c2 = self.get_index_roulette_wheel_selection(np.delete(list_fitness, id_c1))
+            id_c2 += int(id_c2 >= id_c1)
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(len(pop_selected)), 2, replace=False)
         else:   ## tournament
-- 
2.43.0


From 1ea48c998b28c28ff5fc2c20071ed80dd87fa91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 060/154] fix: GA with an odd pop_size

---
 mealpy/evolutionary_based/GA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 6cc872e..ce8a9d4 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -307,7 +307,7 @@ class BaseGA(Optimizer):
         """
         list_fitness = np.array([agent.target.fitness for agent in self.pop])
         pop_new = []
-        for i in range(0, int(self.pop_size/2)):
+        for i in range(0, int((self.pop_size + 1) / 2)):
             ### Selection
             child1, child2 = self.selection_process__(list_fitness)
 
-- 
2.43.0


From 7496114755ec35ce102f4a612cd9a5b9d6a8fa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 061/154] fix: GA crossover and mutation with fewer than 4
 dimensions

---
 mealpy/evolutionary_based/GA.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index ce8a9d4..da781dd 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -212,11 +212,11 @@ class BaseGA(Optimizer):
         if self.crossover == "arithmetic":
             w1, w2 = self.crossover_arithmetic(dad, mom)
         elif self.crossover == "one_point":
-            cut = self.generator.integers(1, self.problem.n_dims-1)
+            cut = self.generator.integers(1, max(2, self.problem.n_dims-1))
             w1 = np.concatenate([dad[:cut], mom[cut:]])
             w2 = np.concatenate([mom[:cut], dad[cut:]])
         elif self.crossover == "multi_points":
-            idxs = self.generator.choice(range(1, self.problem.n_dims-1), 2, replace=False)
+            idxs = self.generator.choice(range(1, max(2, self.problem.n_dims-1)), 2, replace=self.problem.n_dims < 4)
             cut1, cut2 = np.min(idxs), np.max(idxs)
             w1 = np.concatenate([dad[:cut1], mom[cut1:cut2], dad[cut2:]])
             w2 = np.concatenate([mom[:cut1], dad[cut1:cut2], mom[cut2:]])
@@ -251,7 +251,7 @@ class BaseGA(Optimizer):
         if self.mutation_multipoints:
             if self.mutation == "swap":
                 for idx in range(self.problem.n_dims):
-                    idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
+                    idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}) or [idx])
                     child[idx], child[idx_swap] = child[idx_swap], child[idx]
                     return child
             else:       # "flip"
@@ -260,17 +260,17 @@ class BaseGA(Optimizer):
                 return np.where(flag_child, mutation_child, child)
         else:
             if self.mutation == "swap":
-                idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+                idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
                 child[idx1], child[idx2] = child[idx2], child[idx1]
                 return child
             elif self.mutation == "inversion":
-                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
                 temp = child[cut1:cut2]
                 temp = temp[::-1]
                 child[cut1:cut2] = temp
                 return child
             elif self.mutation == "scramble":
-                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
                 temp = child[cut1:cut2]
                 self.generator.shuffle(temp)
                 child[cut1:cut2] = temp
@@ -431,17 +431,17 @@ class SingleGA(BaseGA):
             np.array: The mutated vector of the child
         """
         if self.mutation == "swap":
-            idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+            idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
             child[idx1], child[idx2] = child[idx2], child[idx1]
             return child
         elif self.mutation == "inversion":
-            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
             temp = child[cut1:cut2]
             temp = temp[::-1]
             child[cut1:cut2] = temp
             return child
         elif self.mutation == "scramble":
-            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
             temp = child[cut1:cut2]
             self.generator.shuffle(temp)
             child[cut1:cut2] = temp
@@ -684,7 +684,7 @@ class MultiGA(BaseGA):
         """
         if self.mutation == "swap":
             for idx in range(self.problem.n_dims):
-                idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
+                idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}) or [idx])
                 child[idx], child[idx_swap] = child[idx_swap], child[idx]
                 return child
         else:       # "flip"
-- 
2.43.0


From dd551256633f6ab69df745efe4a1baf7838b6360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 062/154] fix: GSKA with an empty best, middle or worst group

---
 mealpy/human_based/GSKA.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/mealpy/human_based/GSKA.py b/mealpy/human_based/GSKA.py
index 07bc4e3..4f91272 100644
--- a/mealpy/human_based/GSKA.py
+++ b/mealpy/human_based/GSKA.py
@@ -70,6 +70,14 @@ class DevGSKA(Optimizer):
         self.set_parameters(["epoch", "pop_size", "pb", "kr"])
         self.sort_flag = True
 
+    def choose_member__(self, start, end, idx):
+        # Random member of the group [start, end) other than idx. A group without such member (small pop_size, small or
+        # large pb) is replaced by the whole population
+        group = list(set(range(start, end)) - {idx})
+        if len(group) == 0:
+            group = list(set(range(0, self.pop_size)) - {idx})
+        return self.generator.choice(group)
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -104,9 +112,9 @@ class DevGSKA(Optimizer):
                 if self.generator.uniform() <= self.kr:
                     id1 = int(self.pb * self.pop_size)
                     id2 = int(id1 + self.pop_size * (1 - 2 * self.pb))
-                    rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}))
-                    rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}))
-                    rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}))
+                    rand_best = self.choose_member__(0, id1, idx)
+                    rand_worst = self.choose_member__(id2, self.pop_size, idx)
+                    rand_mid = self.choose_member__(id1, id2, idx)
                     if self.compare_target(self.pop[rand_mid].target, self.pop[idx].target, self.problem.minmax):
                         pos_new = self.pop[idx].solution + self.generator.uniform(0, 1, self.problem.n_dims) * \
                                   (self.pop[rand_best].solution - self.pop[rand_worst].solution + self.pop[rand_mid].solution - self.pop[idx].solution)
@@ -196,6 +204,14 @@ class OriginalGSKA(Optimizer):
         self.set_parameters(["epoch", "pop_size", "pb", "kf", "kr", "kg"])
         self.sort_flag = True
 
+    def choose_member__(self, start, end, idx):
+        # Random member of the group [start, end) other than idx. A group without such member (small pop_size, small or
+        # large pb) is replaced by the whole population
+        group = list(set(range(start, end)) - {idx})
+        if len(group) == 0:
+            group = list(set(range(0, self.pop_size)) - {idx})
+        return self.generator.choice(group)
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -234,9 +250,9 @@ class OriginalGSKA(Optimizer):
                     if self.generator.uniform() <= self.kr:
                         id1 = int(self.pb * self.pop_size)
                         id2 = int(id1 + self.pop_size * (1 - 2 * self.pb))
-                        rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}))
-                        rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}))
-                        rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}))
+                        rand_best = self.choose_member__(0, id1, idx)
+                        rand_worst = self.choose_member__(id2, self.pop_size, idx)
+                        rand_mid = self.choose_member__(id1, id2, idx)
                         if self.compare_target(self.pop[rand_mid].target, self.pop[idx].target, self.problem.minmax):
                             pos_new[j] = self.pop[idx].solution[j] + self.kf * \
                                          (self.pop[rand_best].solution[j] - self.pop[rand_worst].solution[j] +
-- 
2.43.0


From 47c09e7546126ed558d3f8b6c4ca229daa8914d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 063/154] fix: HCO initialization never ends when no better
 agent can be generated

---
 mealpy/human_based/HCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/HCO.py b/mealpy/human_based/HCO.py
index 9adb38e..48cc51b 100644
--- a/mealpy/human_based/HCO.py
+++ b/mealpy/human_based/HCO.py
@@ -110,7 +110,7 @@ class OriginalHCO(Optimizer):
         pfit = (worst.target.fitness - best.target.fitness) * self.wfp + best.target.fitness
         for idx in range(0, self.pop_size):
             if self.compare_fitness(pfit, self.pop[idx].target.fitness, self.problem.minmax):
-                while True:
+                for _ in range(0, self.pop_size):   # A better agent may not exist, so the number of attempts is limited
                     agent = self.generate_agent()
                     if self.compare_fitness(agent.target.fitness, pfit, self.problem.minmax):
                         self.pop[idx] = agent
-- 
2.43.0


From ac05797929f504fe4567757487fcd6e155d5261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 064/154] fix: HS with negative upper bounds

---
 mealpy/music_based/HS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/music_based/HS.py b/mealpy/music_based/HS.py
index a14da0b..d02a1b9 100644
--- a/mealpy/music_based/HS.py
+++ b/mealpy/music_based/HS.py
@@ -82,7 +82,7 @@ class DevHS(Optimizer):
         for idx in range(0, self.pop_size):
             # Create New Harmony Position
             pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
-            delta = self.dyn_fw * self.generator.normal(self.problem.lb, self.problem.ub)
+            delta = self.dyn_fw * self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             # Use Harmony Memory
             pos_new = np.where(self.generator.random(self.problem.n_dims) < self.c_r, self.g_best.solution, pos_new)
             # Pitch Adjustment
-- 
2.43.0


From 51b25d0990b5cea63d134066a17aeeb6810b2c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 065/154] fix: SRSR with negative upper bounds

---
 mealpy/swarm_based/SRSR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 4aebe28..3e9fe41 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -139,7 +139,7 @@ class OriginalSRSR(Optimizer):
         self.SIF = sigma_factor * self.sigma_temp[fit_id]
         # Controlling Parameter Of Algorithm
         if self.SIF > np.max(self.problem.ub):
-            self.SIF = np.max(self.problem.ub) * self.generator.uniform()
+            self.SIF = np.abs(np.max(self.problem.ub)) * self.generator.uniform()
 
         # ========================================================================================= %%
         #            Phase 2 (Exploration): Moving Slave Robots Toward Master Robot                   %
-- 
2.43.0


From 7d86db9010bc67c2d0b19e1780ffa354efe8d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 066/154] fix: INFO with pop_size 5

---
 mealpy/math_based/INFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/math_based/INFO.py b/mealpy/math_based/INFO.py
index 30651c9..b1f3e08 100644
--- a/mealpy/math_based/INFO.py
+++ b/mealpy/math_based/INFO.py
@@ -71,7 +71,7 @@ class OriginalINFO(Optimizer):
             epoch (int): The current iteration
         """
         alpha = 2 * np.exp(-4 * (epoch / self.epoch))      # Eqs.(5.1) - Eq.(9.1)
-        idx_better = self.generator.integers(2, 6)
+        idx_better = self.generator.integers(2, min(6, self.pop_size))
         better = self.pop[idx_better]
         g_worst = self.pop[-1]
 
-- 
2.43.0


From 7725f0c51710af9a482971250242c5dd146c6dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 067/154] fix: MA with an odd pop_size

---
 mealpy/evolutionary_based/MA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/MA.py b/mealpy/evolutionary_based/MA.py
index 5915507..496d5b8 100644
--- a/mealpy/evolutionary_based/MA.py
+++ b/mealpy/evolutionary_based/MA.py
@@ -151,9 +151,10 @@ class OriginalMA(Optimizer):
         return best
 
     def create_child__(self, idx, pop_copy):
-        ancient = pop_copy[idx + 1] if idx % 2 == 0 else pop_copy[idx - 1]
         if idx == self.pop_size - 1:
             ancient = pop_copy[0]
+        else:
+            ancient = pop_copy[idx + 1] if idx % 2 == 0 else pop_copy[idx - 1]
         bitstring_new = self.crossover__(pop_copy[idx].bitstring, ancient.bitstring)
         bitstring_new = self.point_mutation__(bitstring_new)
         pos_new = self.decode__(bitstring_new)
@@ -176,9 +177,10 @@ class OriginalMA(Optimizer):
             children.append(self.pop[idx_offspring].copy())
         pop = []
         for idx in range(0, self.pop_size):
-            ancient = children[idx + 1] if idx % 2 == 0 else children[idx - 1]
             if idx == self.pop_size - 1:
                 ancient = children[0]
+            else:
+                ancient = children[idx + 1] if idx % 2 == 0 else children[idx - 1]
             bitstring_new = self.crossover__(children[idx].bitstring, ancient.bitstring)
             bitstring_new = self.point_mutation__(bitstring_new)
             pos_new = self.decode__(bitstring_new)
-- 
2.43.0


From 96d16dbf9885a97729b6582e8b1216d7b6275fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 068/154] fix: ImprovedNMRA with one dimension

---
 mealpy/swarm_based/NMRA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/NMRA.py b/mealpy/swarm_based/NMRA.py
index 5f9a22d..ce70a55 100644
--- a/mealpy/swarm_based/NMRA.py
+++ b/mealpy/swarm_based/NMRA.py
@@ -147,7 +147,7 @@ class ImprovedNMRA(Optimizer):
         self.size_b = int(self.pop_size / 5)
 
     def crossover_random__(self, pop, g_best):
-        start_point = self.generator.integers(0, self.problem.n_dims / 2)
+        start_point = self.generator.integers(0, max(1, self.problem.n_dims / 2))
         id1 = start_point
         id2 = int(start_point + self.problem.n_dims / 3)
         id3 = int(self.problem.n_dims)
-- 
2.43.0


From a77e00ec1497821c1983a7f4d01a10286d6114f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 069/154] fix: ICA loses colonies, fails with weak empires and
 changes recorded solutions in place

---
 mealpy/human_based/ICA.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 7a8940e..58a117f 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -93,9 +93,17 @@ class OriginalICA(Optimizer):
         idx_list = self.generator.choice(range(0, self.problem.n_dims), n_revoluted, replace=False)
         if len(idx_list) == 0:
             idx_list = np.append(idx_list, self.generator.integers(0, self.problem.n_dims))
+        solution = solution.copy()      # The given solution belongs to an agent that may be recorded or compared later
         solution[idx_list] = pos_new[idx_list]  # Change only those selected index
         return solution
 
+    def get_possession_probs__(self, costs: np.ndarray) -> np.ndarray:
+        normalized = costs - (np.max(costs) + np.min(costs))
+        total = np.sum(normalized)
+        if total == 0:      # All empires have the same power
+            return np.full(len(costs), 1.0 / len(costs))
+        return np.abs(normalized / total)
+
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
@@ -109,14 +117,13 @@ class OriginalICA(Optimizer):
         self.pop_colonies = [agent.copy() for agent in self.pop[self.empire_count:]]
 
         cost_empires_list = np.array([agent.target.fitness for agent in self.pop_empires])
-        cost_empires_list_normalized = cost_empires_list - (np.max(cost_empires_list) + np.min(cost_empires_list))
-        prob_empires_list = np.abs(cost_empires_list_normalized / np.sum(cost_empires_list_normalized))
+        prob_empires_list = self.get_possession_probs__(cost_empires_list)
         # Randomly choose colonies to empires
         self.empires = {}
         idx_already_selected = []
         for i in range(0, self.empire_count - 1):
             self.empires[i] = []
-            n_colonies = int(round(prob_empires_list[i] * colony_count))
+            n_colonies = min(int(round(prob_empires_list[i] * colony_count)), colony_count - len(idx_already_selected))
             idx_list = self.generator.choice(list(set(range(0, colony_count)) - set(idx_already_selected)), n_colonies, replace=False).tolist()
             idx_already_selected += idx_list
             for idx in idx_list:
@@ -171,12 +178,11 @@ class OriginalICA(Optimizer):
         cost_empires_list = []
         for idx, colonies in self.empires.items():
             fit_list = np.array([agent.target.fitness for agent in colonies])
-            fit_empire = self.pop_empires[idx].target.fitness + self.zeta * np.mean(fit_list)
+            fit_empire = self.pop_empires[idx].target.fitness + (self.zeta * np.mean(fit_list) if len(fit_list) > 0 else 0.)
             cost_empires_list.append(fit_empire)
         cost_empires_list = np.array(cost_empires_list)
         # Find possession probability of each empire based on its total power
-        cost_empires_list_normalized = cost_empires_list - (np.max(cost_empires_list) + np.min(cost_empires_list))
-        prob_empires_list = np.abs(cost_empires_list_normalized / np.sum(cost_empires_list_normalized))  # Vector P
+        prob_empires_list = self.get_possession_probs__(cost_empires_list)  # Vector P
         uniform_list = self.generator.uniform(0, 1, len(prob_empires_list))  # Vector R
         vector_D = prob_empires_list - uniform_list
         idx_empire = np.argmax(vector_D)
@@ -184,8 +190,14 @@ class OriginalICA(Optimizer):
         idx_weakest_empire = np.argmax(cost_empires_list)
         if len(self.empires[idx_weakest_empire]) > 0:
             colonies_sorted, _ = self.get_sorted_population(self.empires[idx_weakest_empire], self.problem.minmax)
-            self.empires[idx_empire].append(colonies_sorted.pop(-1))
-        else:
+            weakest_colony = colonies_sorted.pop(-1)
+            self.empires[idx_weakest_empire] = colonies_sorted
+            self.empires[idx_empire].append(weakest_colony)
+        elif idx_empire != idx_weakest_empire:
+            # The empire without colonies collapses, its imperialist becomes a colony of the possessing empire
             self.empires[idx_empire].append(self.pop_empires.pop(idx_weakest_empire))
+            self.empires.pop(idx_weakest_empire)
+            self.empires = {i: colonies for i, colonies in enumerate(self.empires.values())}
 
+        self.pop_colonies = [colony for colonies in self.empires.values() for colony in colonies]
         self.pop = self.pop_empires + self.pop_colonies
-- 
2.43.0


From 1ef6037dcfb05d04f810965dbd2c7766881a3f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 070/154] fix: NRO assigns the whole Levy step to one
 coordinate

---
 mealpy/physics_based/NRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index dcf4dfd..874a95c 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -124,7 +124,7 @@ class OriginalNRO(Optimizer):
                 for j in range(self.problem.n_dims):
                     #### Levy flight strategy is described as Eq. 18
                     if self.pop[i2].solution[j] == self.pop[idx].solution[j]:
-                        X_ion[j] = self.pop[idx].solution[j] + levy_b * (self.pop[idx].solution[j] - self.g_best.solution[j])
+                        X_ion[j] = self.pop[idx].solution[j] + levy_b[j] * (self.pop[idx].solution[j] - self.g_best.solution[j])
                     #### If not, based on Eq. 11, 12
                     else:
                         if self.generator.uniform() <= 0.5:
@@ -137,7 +137,7 @@ class OriginalNRO(Optimizer):
                 for j in range(self.problem.n_dims):
                     ##### Based on Eq. 21
                     if X_worst.solution[j] == self.g_best.solution[j]:
-                        X_ion[j] = self.pop[idx].solution[j] + levy_b * (self.problem.ub[j] - self.problem.lb[j])
+                        X_ion[j] = self.pop[idx].solution[j] + levy_b[j] * (self.problem.ub[j] - self.problem.lb[j])
                     ##### Based on Eq. 13
                     else:
                         X_ion[j] = self.pop[idx].solution[j] + round(self.generator.uniform()) * self.generator.uniform() * \
-- 
2.43.0


From 6b40645a067ab9b107a88e0af571dcc5a9ca8478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 071/154] fix: OriginalOrcaOA loses the elite and keeps the
 last radius for the next run

---
 mealpy/swarm_based/ORCA.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 8dece2d..6316e02 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -59,9 +59,11 @@ class OriginalOrcaOA(Optimizer):
         self.p_percent = self.validator.check_float("p_percent", p_percent, [0, 1.0])
         self.R0 = self.validator.check_float("R0", R0, [-1000, 1000])
         self.set_parameters(["epoch", "pop_size", "p_percent", "R0"])
-        self.R = self.R0
         self.sort_flag = True
-        self.n_removes = int(self.p_percent * pop_size)
+
+    def initialize_variables(self):
+        self.R = self.R0
+        self.n_removes = int(self.p_percent * self.pop_size)
 
     def evolve(self, epoch: int):
         """
@@ -107,7 +109,7 @@ class OriginalOrcaOA(Optimizer):
         # Evaluate fitness in parallel
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-        self.pop = pop_new
+        self.pop = [self.pop[0]] + pop_new
 
         # Reduce the radius of the ice floe (simulated linear decay)
         self.R = self.R0 * (1. - epoch / self.epoch)
-- 
2.43.0


From b2559592e28ff7fe83c38869a61ae3abb3eb6dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 072/154] fix: PSS ignores the seed and the starting solutions,
 fails with Monte Carlo sampling

---
 mealpy/math_based/PSS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index c6934d6..b481fe5 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -75,13 +75,15 @@ class OriginalPSS(Optimizer):
 
     def create_population(self, pop_size=None):
         if self.sampling_method == "MC":
-            pop = self.generator.random(self.pop_size, self.problem.n_dims)
+            pop = self.generator.random((pop_size, self.problem.n_dims))
         else:       # Default: "LHS"
-            sampler = qmc.LatinHypercube(d=self.problem.n_dims)
+            sampler = qmc.LatinHypercube(d=self.problem.n_dims, seed=self.generator)
             pop = sampler.random(n=pop_size)
         return pop
 
     def initialization(self):
+        if self.pop is not None:    # The starting solutions are given by user
+            return
         lb_pop = np.repeat(np.reshape(self.problem.lb, (1, -1)), self.pop_size, axis=0)
         ub_pop = np.repeat(np.reshape(self.problem.ub, (1, -1)), self.pop_size, axis=0)
         steps_mat = np.repeat(np.reshape(self.steps, (1, -1)), self.pop_size, axis=0)
-- 
2.43.0


From 6fdcdb9c40ae06d6f06d66e2fa2e2630e44e3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 073/154] fix: QleSCA with a density or distance out of its
 ranges

---
 mealpy/math_based/SCA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/math_based/SCA.py b/mealpy/math_based/SCA.py
index e209657..226c481 100644
--- a/mealpy/math_based/SCA.py
+++ b/mealpy/math_based/SCA.py
@@ -198,8 +198,8 @@ class QTable:
         self.epsilon = 0.1
 
     def get_state(self, density, distance):
-        density_range = next(i for i, r in enumerate(self.density_ranges) if density <= r[1])
-        distance_range = next(i for i, r in enumerate(self.distance_ranges) if distance <= r[1])
+        density_range = next((i for i, r in enumerate(self.density_ranges) if density <= r[1]), len(self.density_ranges) - 1)
+        distance_range = next((i for i, r in enumerate(self.distance_ranges) if distance <= r[1]), len(self.distance_ranges) - 1)
         return density_range * 3 + distance_range
 
     def get_action(self, state):
@@ -295,6 +295,8 @@ class QleSCA(DevSCA):
         # calculate the longest diagonal length L
         distances = np.sqrt(np.sum((agents[:, np.newaxis, :] - agents) ** 2, axis=-1))
         L = np.max(distances)
+        if L == 0:      # All agents have the same position
+            return 0.
         # calculate the density
         return 1 / (len(pop) * L) * np.sum(np.sqrt(np.sum((agents - Y) ** 2, axis=1)))
 
-- 
2.43.0


From 27b5e673debde30936484d2a6f8840e39f918355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 074/154] fix: OriginalSFO with a negative attack power

---
 mealpy/swarm_based/SFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SFO.py b/mealpy/swarm_based/SFO.py
index 2d9db03..4b07531 100644
--- a/mealpy/swarm_based/SFO.py
+++ b/mealpy/swarm_based/SFO.py
@@ -107,7 +107,7 @@ class OriginalSFO(Optimizer):
         AP = self.AP * (1. - 2. * epoch * self.epsilon)
         if AP < 0.5:
             alpha = int(self.s_size * np.abs(AP))
-            beta = int(self.problem.n_dims * np.abs(AP))
+            beta = min(int(self.problem.n_dims * np.abs(AP)), self.problem.n_dims)
             ### Random self.generator.choice number of sardines which will be updated their position
             list1 = self.generator.choice(range(0, self.s_size), alpha)
             for idx in range(0, self.s_size):
-- 
2.43.0


From 5524b2802fcef62962686911413a9fec3eff6312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 075/154] fix: SHO with more trials than agents

---
 mealpy/swarm_based/SHO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/swarm_based/SHO.py b/mealpy/swarm_based/SHO.py
index af0b011..42bd420 100644
--- a/mealpy/swarm_based/SHO.py
+++ b/mealpy/swarm_based/SHO.py
@@ -97,6 +97,7 @@ class OriginalSHO(Optimizer):
                         N += 1
                         break
                     N += 1
+                N = min(N, self.pop_size)
                 circle_list = []
                 idx_list = self.generator.choice(range(0, self.pop_size), N, replace=False)
                 for j in range(0, N):
-- 
2.43.0


From 0649a13f02e202556eddc51a188b56b9ca587f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 076/154] fix: SMO with groups of different sizes

---
 mealpy/swarm_based/SMO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/SMO.py b/mealpy/swarm_based/SMO.py
index 131cfc4..331ac34 100644
--- a/mealpy/swarm_based/SMO.py
+++ b/mealpy/swarm_based/SMO.py
@@ -123,7 +123,7 @@ class DevSMO(Optimizer):
         for group_idx, group in enumerate(self.groups):
             n_items = len(group)
             for idx in range(n_items):
-                list_rand = self.generator.choice(list(set(range(n_items)) - {idx}), size=self.problem.n_dims, replace=True)
+                list_rand = self.generator.choice(list(set(range(n_items)) - {idx}) or [idx], size=self.problem.n_dims, replace=True)
                 vector = np.array([group[jdx].solution[kdx] for kdx, jdx in enumerate(list_rand)])
                 pos_new = group[idx].solution + self.generator.uniform(0, 1, self.problem.n_dims) * \
                           (self.local_leaders[group_idx].solution - group[idx].solution) + \
@@ -157,7 +157,7 @@ class DevSMO(Optimizer):
                         # Randomly select dimension to update
                         k = self.generator.integers(0, self.problem.n_dims)
                         # Select random monkey
-                        jdx = self.generator.choice(list(set(range(self.group_size)) - {idx}))
+                        jdx = self.generator.choice(list(set(range(len(group))) - {idx}) or [idx])
                         pos_new = agent.solution.copy()
                         # Update using equation (4)
                         pos_new[k] = pos_new[k] + self.generator.uniform(0, 1) * (self.g_best.solution[k] - pos_new[k]) +\
@@ -218,7 +218,7 @@ class DevSMO(Optimizer):
         # Update global leader
         g_best_current = self.get_sorted_population(self.pop, self.problem.minmax)[0][0]
         if self.compare_target(g_best_current.target, self.g_best.target, self.problem.minmax):
-            self.g_best = g_best_current
+            self.g_best = g_best_current.copy()
             # Update global limit count
             self.global_limit_count = 0
         else:
-- 
2.43.0


From 0bd044dc514137d80a97e684a84422315d0a6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 077/154] fix: SOO mixes two generations of new agents in
 parallel modes

---
 mealpy/physics_based/SOO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/physics_based/SOO.py b/mealpy/physics_based/SOO.py
index f70ad77..9f5b935 100644
--- a/mealpy/physics_based/SOO.py
+++ b/mealpy/physics_based/SOO.py
@@ -122,6 +122,7 @@ class OriginalSOO(Optimizer):
         _, best3, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
 
         # Perform oscillatory movement update
+        pop_new = []
         for idx in range(self.pop_size):
             # Average of top star positions
             avg3 = np.mean([agent.solution for agent in best3], axis=0)
-- 
2.43.0


From 89d3de7e6e9a5cf827f48e1222ce28639c2c6579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 078/154] fix: SSpiderA has no new agents in parallel modes

---
 mealpy/swarm_based/SSpiderA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index 8bf4b70..129dd6e 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -139,7 +139,7 @@ class DevSSpiderA(Optimizer):
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(agent.solution)
                 agent.intensity = np.log(1. / (np.abs(agent.target.fitness) + self.EPSILON) + 1)
-                pop_new.append(agent)
+            pop_new.append(agent)
         pop_new = self.update_target_for_population(pop_new)
 
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 34699ea6fade151ce52a638c7bf8973a07d0beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 079/154] fix: SquirrelSA with many food sources, no acorn tree
 or at the end of the winter

---
 mealpy/swarm_based/SquirrelSA.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mealpy/swarm_based/SquirrelSA.py b/mealpy/swarm_based/SquirrelSA.py
index 08e8247..d9d9688 100644
--- a/mealpy/swarm_based/SquirrelSA.py
+++ b/mealpy/swarm_based/SquirrelSA.py
@@ -88,7 +88,8 @@ class OriginalSquirrelSA(Optimizer):
         self.surface_area = 154e-4  # Surface area (m²)
         self.height_loss = 8  # Height loss during gliding (m)
         # Assign roles: 1 hickory, 3 acorn, rest normal trees
-        self.n_acorn_trees = self.n_food_sources - 1  # Number of acorn trees
+        self.n_foods = min(self.n_food_sources, self.pop_size)
+        self.n_acorn_trees = self.n_foods - 1  # Number of acorn trees
 
     def calculate_gliding_distance(self):
         """Calculate gliding distance based on aerodynamics"""
@@ -134,13 +135,13 @@ class OriginalSquirrelSA(Optimizer):
             pop_new[idx] = agent
 
         # Case 2: Normal squirrels move toward acorn trees
-        indices_random = np.array(list(range(self.pop_size - self.n_food_sources)))
+        indices_random = np.array(range(self.pop_size - self.n_foods), dtype=int)
         self.generator.shuffle(indices_random)
-        indices_random = indices_random + self.n_food_sources # True indices of normal squirrels
-        n_cut = self.generator.integers(1, self.pop_size - self.n_food_sources - 1)
+        indices_random = indices_random + self.n_foods # True indices of normal squirrels
+        n_cut = self.generator.integers(1, max(2, self.pop_size - self.n_foods - 1))
         for idx in indices_random[n_cut:]:
             # Select random acorn tree
-            jdx = self.generator.integers(0, self.n_acorn_trees) + 1
+            jdx = self.generator.integers(0, self.n_acorn_trees) + 1 if self.n_acorn_trees > 0 else 0
             d_g = self.calculate_gliding_distance()
             if self.generator.random() >= self.predator_prob:
                 # No predator: move toward acorn
@@ -170,13 +171,13 @@ class OriginalSquirrelSA(Optimizer):
             pop_new[idx] = agent
 
         # Seasonal monitoring condition
-        S_c = np.mean([ np.sqrt(np.sum((self.pop[idx].solution - self.pop[0].solution)**2)) for idx in range(1, self.n_food_sources) ])
+        S_c = np.mean([ np.sqrt(np.sum((self.pop[idx].solution - self.pop[0].solution)**2)) for idx in range(1, self.n_foods) ]) if self.n_acorn_trees > 0 else np.inf
         # Calculate minimum seasonal constant
         S_min = (10e-6 / 365) * (epoch / (self.epoch / 2.5))
 
         if S_c < S_min:
             # Winter season is over: randomly relocate some squirrels
-            n_relocate = max(1, len(self.pop_size - self.n_food_sources) // 4)
+            n_relocate = min(max(1, len(indices_random) // 4), len(indices_random))
             relocate_indices = self.generator.choice(indices_random, n_relocate, replace=False)
             for idx in relocate_indices:
                 levy = self.get_levy_flight_step(beta = self.beta, multiplier = 0.01, size = self.problem.n_dims, case = -1)
-- 
2.43.0


From f137b317924705668d3c50de52a08165cc182b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 080/154] fix: TSeedA with one seed, evaluate the corrected
 seeds

---
 mealpy/bio_based/TSeedA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index aa2d642..4e3f3ab 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -87,7 +87,7 @@ class OriginalTSeedA(Optimizer):
             n_seeds = self.generator.integers(min_seeds, max_seeds + 1)
             
             pop_new = []
-            rdx_list = self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True)
+            rdx_list = np.atleast_1d(self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True))
             for jdx in range(n_seeds):
                 # Select a random tree 'r' different from 'i'
                 rdx = rdx_list[jdx]
@@ -112,7 +112,7 @@ class OriginalTSeedA(Optimizer):
                 # agent = self.generate_empty_agent(pos_new)
                 pop_new.append(self.generate_empty_agent(pos_new))
                 if self.mode not in self.AVAILABLE_MODES:
-                    pop_new[-1].target = self.get_target(seed)
+                    pop_new[-1].target = self.get_target(pos_new)
             # Update parallel
             if self.mode in self.AVAILABLE_MODES:
                 pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From 10391ced1aa12aee1b149d8710a9181402e464d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 081/154] fix: TS without any candidate

---
 mealpy/math_based/TS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/math_based/TS.py b/mealpy/math_based/TS.py
index 64bea42..0cdb46c 100644
--- a/mealpy/math_based/TS.py
+++ b/mealpy/math_based/TS.py
@@ -82,7 +82,7 @@ class OriginalTS(Optimizer):
     def before_main_loop(self):
         self.x = self.g_best.solution.copy()
         self.tabu_list = []
-        self.pop = []
+        self.pop = [self.g_best.copy()]
 
     def evolve(self, epoch):
         """
@@ -105,6 +105,8 @@ class OriginalTS(Optimizer):
             list_candidates.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
                 list_candidates[-1].target = self.get_target(pos_new)
+        if len(list_candidates) == 0:       # No candidate is different from the current and the tabu solutions
+            return
         list_candidates = self.update_target_for_population(list_candidates)
         best_candidate, _ = self.get_best_agent(list_candidates, self.problem.minmax)
         self.x = best_candidate.solution
@@ -113,4 +115,5 @@ class OriginalTS(Optimizer):
         self.pop.append(best_candidate)
         if len(self.tabu_list) > self.tabu_size:
             self.tabu_list.pop(0)
+        if len(self.pop) > self.tabu_size:
             self.pop.pop(0)
-- 
2.43.0


From aa9c010fe59b11e9c69b57736e1de87daea0e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 082/154] fix: WCA with a river without streams

---
 mealpy/system_based/WCA.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mealpy/system_based/WCA.py b/mealpy/system_based/WCA.py
index a8c809f..ff2bffb 100644
--- a/mealpy/system_based/WCA.py
+++ b/mealpy/system_based/WCA.py
@@ -96,14 +96,17 @@ class OriginalWCA(Optimizer):
 
         # Designate streams to rivers and sea
         cost_river_list = np.array([agent.target.fitness for agent in self.pop_best])
-        num_child_in_river_list = np.round(np.abs(cost_river_list / np.sum(cost_river_list)) * n_stream).astype(int)
+        total = np.sum(cost_river_list)
+        probs = np.abs(cost_river_list / total) if total != 0 else np.full(self.nsr, 1.0 / self.nsr)
+        num_child_in_river_list = np.round(probs * n_stream).astype(int)
         if np.sum(num_child_in_river_list) < n_stream:
             num_child_in_river_list[-1] += n_stream - np.sum(num_child_in_river_list)
         streams = {}
         idx_already_selected = []
         for i in range(0, self.nsr - 1):
             streams[i] = []
-            idx_list = self.generator.choice(list(set(range(0, n_stream)) - set(idx_already_selected)), num_child_in_river_list[i], replace=False).tolist()
+            n_child = min(num_child_in_river_list[i], n_stream - len(idx_already_selected))
+            idx_list = self.generator.choice(list(set(range(0, n_stream)) - set(idx_already_selected)), n_child, replace=False).tolist()
             idx_already_selected += idx_list
             for idx in idx_list:
                 streams[i].append(self.pop_stream[idx])
@@ -133,9 +136,10 @@ class OriginalWCA(Optimizer):
                     stream_new[-1].target = self.get_target(pos_new)
             stream_new = self.update_target_for_population(stream_new)
             self.streams[idx] = stream_new
-            stream_best, _ = self.get_best_agent(stream_new, self.problem.minmax)
-            if self.compare_target(stream_best.target, self.pop_best[idx].target, self.problem.minmax):
-                self.pop_best[idx] = stream_best.copy()
+            if len(stream_new) > 0:
+                stream_best, _ = self.get_best_agent(stream_new, self.problem.minmax)
+                if self.compare_target(stream_best.target, self.pop_best[idx].target, self.problem.minmax):
+                    self.pop_best[idx] = stream_best.copy()
             # Update river
             pos_new = self.pop_best[idx].solution + self.generator.uniform() * self.wc * (self.g_best.solution - self.pop_best[idx].solution)
             pos_new = self.correct_solution(pos_new)
-- 
2.43.0


From 438a3f2fcbe8f571672653f672ba95077273a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 083/154] fix: TWO shares agents between populations, evaluates
 uncorrected solutions, fails with odd pop_size

---
 mealpy/physics_based/TWO.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 759bb1a..7268e9c 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -82,6 +82,7 @@ class OriginalTWO(Optimizer):
         maxx, minn = np.max(list_fits), np.min(list_fits)
         if maxx == minn:
             list_fits = self.generator.uniform(0.0, 1.0, self.pop_size)
+            maxx, minn = np.max(list_fits), np.min(list_fits)
         list_weights = np.exp(-(list_fits - maxx) / (maxx - minn))
         list_weights = list_weights/np.sum(list_weights) + 0.1
         for idx in range(self.pop_size):
@@ -95,7 +96,7 @@ class OriginalTWO(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = [agent.copy() for agent in self.pop]
         for idx in range(self.pop_size):
             pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.pop_size):
@@ -124,7 +125,7 @@ class OriginalTWO(Optimizer):
             pos_new = self.correct_solution(pos_new)
             pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
@@ -171,10 +172,11 @@ class OppoTWO(OriginalTWO):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        list_idx = self.generator.choice(range(0, self.pop_size), int(self.pop_size/2), replace=False)
-        pop_temp = [self.pop[list_idx[idx]] for idx in range(0, int(self.pop_size/2))]
+        # Keep the better half of population, replace the others by the opposite of the kept agents
+        n_temp = self.pop_size - int(self.pop_size/2)
+        pop_temp = self.get_sorted_and_trimmed_population(self.pop, n_temp, self.problem.minmax)
         pop_oppo = []
-        for idx in range(len(pop_temp)):
+        for idx in range(self.pop_size - n_temp):
             pos_opposite = self.problem.ub + self.problem.lb - pop_temp[idx].solution
             pos_opposite = self.correct_solution(pos_opposite)
             agent = self.generate_empty_agent(pos_opposite)
@@ -193,7 +195,7 @@ class OppoTWO(OriginalTWO):
             epoch (int): The current iteration
         """
         ## Apply force of others solution on each individual solution
-        pop_new = self.pop.copy()
+        pop_new = [agent.copy() for agent in self.pop]
         for idx in range(self.pop_size):
             pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.pop_size):
@@ -205,16 +207,16 @@ class OppoTWO(OriginalTWO):
                     delta_x = 1 / 2 * acceleration + np.power(self.alpha, epoch) * self.beta * \
                               (self.problem.ub - self.problem.lb) * self.generator.normal(0, 1, self.problem.n_dims)
                     pos_new += delta_x
-            self.pop[idx].solution = pos_new
+            pop_new[idx].solution = pos_new
         ## Amend solution and update fitness value
         for idx in range(self.pop_size):
             pos_new = self.g_best.solution + self.generator.normal(0, 1, self.problem.n_dims) / (epoch) * (self.g_best.solution - pop_new[idx].solution)
             conditions = np.logical_or(pop_new[idx].solution < self.problem.lb, pop_new[idx].solution > self.problem.ub)
             conditions = np.logical_and(conditions, self.generator.random(self.problem.n_dims) < 0.5)
-            pos_new = np.where(conditions, pos_new, self.pop[idx].solution)
+            pos_new = np.where(conditions, pos_new, pop_new[idx].solution)
             pop_new[idx].solution = self.correct_solution(pos_new)
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
@@ -278,7 +280,7 @@ class LevyTWO(OriginalTWO):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = [agent.copy() for agent in self.pop]
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy().astype(float)
             for kdx in range(self.pop_size):
@@ -292,7 +294,7 @@ class LevyTWO(OriginalTWO):
                     pos_new +=delta_x
             pop_new[idx].solution = pos_new
         for idx in range(self.pop_size):
-            pos_new = self.pop[idx].solution.copy().astype(float)
+            pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.problem.n_dims):
                 if pos_new[jdx] < self.problem.lb[jdx] or pos_new[jdx] > self.problem.ub[jdx]:
                     if self.generator.random() <= 0.5:
@@ -306,7 +308,7 @@ class LevyTWO(OriginalTWO):
                             pos_new[jdx] = self.problem.ub[jdx]
             pop_new[idx].solution = self.correct_solution(pos_new)
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
@@ -374,7 +376,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        pop_oppo = self.pop.copy()
+        pop_oppo = [agent.copy() for agent in self.pop]
         for idx in range(self.pop_size):
             pos_opposite = self.problem.ub + self.problem.lb - self.pop[idx].solution
             pos_new = self.correct_solution(pos_opposite)
@@ -392,7 +394,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = [agent.copy() for agent in self.pop]
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy().astype(float)
             for kdx in range(self.pop_size):
@@ -406,7 +408,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
                     pos_new += delta_x
             pop_new[idx].solution = pos_new
         for idx in range(self.pop_size):
-            pos_new = self.pop[idx].solution.copy().astype(float)
+            pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.problem.n_dims):
                 if pos_new[jdx] < self.problem.lb[jdx] or pos_new[jdx] > self.problem.ub[jdx]:
                     if self.generator.random() <= 0.5:
@@ -420,7 +422,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
                             pos_new[jdx] = self.problem.ub[jdx]
             pop_new[idx].solution = self.correct_solution(pos_new)
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From 0c35c181efa72c2c950c2aedf697331f43c688ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 084/154] fix: SA evaluates solutions out of the bounds

---
 mealpy/physics_based/SA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/SA.py b/mealpy/physics_based/SA.py
index ff4b149..5bda97a 100644
--- a/mealpy/physics_based/SA.py
+++ b/mealpy/physics_based/SA.py
@@ -82,6 +82,7 @@ class OriginalSA(Optimizer):
         # Perturb the current solution
 
         pos_new = self.agent_current.solution + self.generator.standard_normal(self.problem.n_dims) * self.step_size
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
@@ -176,6 +177,7 @@ class GaussianSA(Optimizer):
         """
         # Perturb the current solution
         pos_new = self.agent_current.solution + self.generator.normal(scale=self.scale, size=self.problem.n_dims)
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
-- 
2.43.0


From a2e512fc6c1c917f7b420d0c6cc3031b5c3ced70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 085/154] fix: OGWO evaluates uncorrected opposite solutions

---
 mealpy/swarm_based/GWO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 52316fa..6530b08 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1099,6 +1099,7 @@ class OGWO(Optimizer):
         pop_opposite = []
         for agent in self.pop:
             pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+            pos_opposite = self.correct_solution(pos_opposite)
             agent_opposite = self.generate_empty_agent(pos_opposite)
             agent_opposite.target = self.get_target(pos_opposite)
             pop_opposite.append(agent_opposite)
@@ -1143,6 +1144,7 @@ class OGWO(Optimizer):
             pop_opposite = []
             for agent in self.pop:
                 pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+                pos_opposite = self.correct_solution(pos_opposite)
                 agent_opposite = self.generate_empty_agent(pos_opposite)
                 agent_opposite.target = self.get_target(pos_opposite)
                 pop_opposite.append(agent_opposite)
-- 
2.43.0


From d554279100f401a236fffc1d205c84d1e10fdae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 086/154] fix: OriginalSBO gives the target of the new solution
 to the old one

---
 mealpy/bio_based/SBO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/SBO.py b/mealpy/bio_based/SBO.py
index a88bcb1..9ad2168 100644
--- a/mealpy/bio_based/SBO.py
+++ b/mealpy/bio_based/SBO.py
@@ -225,6 +225,7 @@ class OriginalSBO(DevSBO):
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                self.pop[idx].target = self.get_target(pos_new)
+                agent.target = self.get_target(pos_new)
+                self.pop[idx] = agent
         if self.mode in self.AVAILABLE_MODES:
             self.pop = self.update_target_for_population(pop_new)
-- 
2.43.0


From 42131783a958b0fa661a680a072f55006d654e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 087/154] fix: SLO replaces the generated solution by its worse
 opposite

---
 mealpy/swarm_based/SLO.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mealpy/swarm_based/SLO.py b/mealpy/swarm_based/SLO.py
index 37c9647..536fe83 100644
--- a/mealpy/swarm_based/SLO.py
+++ b/mealpy/swarm_based/SLO.py
@@ -155,13 +155,9 @@ class ModifiedSLO(Optimizer):
         target = self.get_target(agent.solution)
         local_target = self.get_target(agent.local_solution)
         if self.compare_target(target, local_target, self.problem.minmax):
-            t1 = agent.local_solution.copy()
-            t2 = agent.solution.copy()
-            agent.update(solution=t1, target=local_target, local_solution=t2, local_target=target)
+            agent.update(target=target, local_solution=agent.solution.copy(), local_target=target.copy())
         else:
-            t1 = agent.solution.copy()
-            t2 = agent.local_solution.copy()
-            agent.update(solution=t1, target=target, local_solution=t2, local_target=local_target)
+            agent.update(target=target, local_target=local_target)
         return agent
 
     def evolve(self, epoch):
-- 
2.43.0


From be9934f99a4c6b572fff326c6cd674c7c858ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 088/154] fix: THRO training changes the evaluated solutions in
 place

---
 mealpy/game_based/THRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/game_based/THRO.py b/mealpy/game_based/THRO.py
index 8920b69..dbe5e2a 100644
--- a/mealpy/game_based/THRO.py
+++ b/mealpy/game_based/THRO.py
@@ -292,7 +292,7 @@ class OriginalTHRO(Optimizer):
 
         for idx in range(self.n_pop):
             # Training for Tianji's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_tianji[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     tr4, tr5 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
@@ -307,7 +307,7 @@ class OriginalTHRO(Optimizer):
                 self.pop_tianji[idx] = agent
 
             # Training for King's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_king[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     kr1, kr2 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
-- 
2.43.0


From a493027e6329d1a7025456940164d84b1d303e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 089/154] fix: WHO reports uncorrected solutions

---
 mealpy/bio_based/WHO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/WHO.py b/mealpy/bio_based/WHO.py
index 8d5ffef..eaf3c54 100644
--- a/mealpy/bio_based/WHO.py
+++ b/mealpy/bio_based/WHO.py
@@ -169,7 +169,7 @@ class OriginalWHO(Optimizer):
             for jdx in range(0, self.n_exploit_step):
                 temp = g_best.solution + 0.1 * self.generator.uniform(self.problem.lb, self.problem.ub)
                 pos_new = self.correct_solution(temp)
-                agent = self.generate_empty_agent(temp)
+                agent = self.generate_empty_agent(pos_new)
                 pop_child.append(agent)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-- 
2.43.0


From 43293aa6bbc90f0950d64b5a75ad5e61520aaedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 090/154] fix: TPO ignores the starting solutions

---
 mealpy/bio_based/TPO.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/TPO.py b/mealpy/bio_based/TPO.py
index fa0da9c..9aed273 100644
--- a/mealpy/bio_based/TPO.py
+++ b/mealpy/bio_based/TPO.py
@@ -92,10 +92,13 @@ class DevTPO(Optimizer):
         self.roots = self.generator.uniform(0, 1, (self.n_leafs, self.problem.n_dims))
 
     def initialization(self):
-        self.pop_total = []
+        starts, self.pop_total = self.pop, []
         self.pop = []                       # The best leaf in each branches
         for idx in range(self.pop_size):
-            leafs = self.generate_population(self.n_leafs)
+            if starts is None:
+                leafs = self.generate_population(self.n_leafs)
+            else:
+                leafs = [starts[idx]] + self.generate_population(self.n_leafs - 1)
             best, _ = self.get_best_agent(leafs, self.problem.minmax)
             self.pop.append(best)
             self.pop_total.append(leafs)
-- 
2.43.0


From 481e4e774ca3d6cb64020e0f53af40c7395b0b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 091/154] fix: TSeedA with one seed

---
 mealpy/bio_based/TSeedA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index 4e3f3ab..d134164 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -87,10 +87,10 @@ class OriginalTSeedA(Optimizer):
             n_seeds = self.generator.integers(min_seeds, max_seeds + 1)
             
             pop_new = []
-            rdx_list = np.atleast_1d(self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True))
+            rdx_list = self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True)
             for jdx in range(n_seeds):
                 # Select a random tree 'r' different from 'i'
-                rdx = rdx_list[jdx]
+                rdx = rdx_list[jdx] if n_seeds > 1 else rdx_list
 
                 # Create a new seed from the current tree
                 seed = self.pop[idx].solution.copy()
-- 
2.43.0


From e630a1517eb1d80367502b4323ab01648005614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 092/154] fix: NRO with one dimension

---
 mealpy/physics_based/NRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index 874a95c..bd7371b 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -71,7 +71,7 @@ class OriginalNRO(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        levy_b = self.get_levy_flight_step(beta=1.5, multiplier=0.01, size=self.problem.n_dims, case=-1)
+        levy_b = self.get_levy_flight_step(beta=1.5, multiplier=0.01, size=(self.problem.n_dims,), case=-1)
         # NFi phase
         Pb = self.generator.uniform()
         Pfi = self.generator.uniform()
-- 
2.43.0


From fa42883460b1c15abb02f93871159250b24d35d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 093/154] fix: IMODE changes its archive_size parameter

---
 mealpy/sota_based/IMODE.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/sota_based/IMODE.py b/mealpy/sota_based/IMODE.py
index d8fa722..bb0a81a 100644
--- a/mealpy/sota_based/IMODE.py
+++ b/mealpy/sota_based/IMODE.py
@@ -80,7 +80,7 @@ class OriginalIMODE(Optimizer):
         self.memory_f = np.full(self.memory_size, 0.5)  # Scaling factor memory
         self.memory_cr = np.full(self.memory_size, 0.5)  # Crossover rate memory
         # Archive for diversity
-        self.archive_size = max(self.archive_size, self.pop_size)
+        self.archive_limit = max(self.archive_size, self.pop_size)
 
     def before_main_loop(self):
         # Initialize archive with initial population
@@ -245,8 +245,8 @@ class OriginalIMODE(Optimizer):
             self.archive = list(set(self.archive))
 
             ## Randomly remove excess individuals from archive
-            if len(self.archive) > self.archive_size:
-                remove_count = len(self.archive) - self.archive_size
+            if len(self.archive) > self.archive_limit:
+                remove_count = len(self.archive) - self.archive_limit
                 remove_indices = self.generator.choice(len(self.archive), remove_count, replace=False)
                 keep_indices = list(set(range(len(self.archive))) - set(remove_indices))
                 self.archive = [self.archive[idx] for idx in keep_indices]
-- 
2.43.0


From 553a70884c7543e91e1e1949aa66f5d8f4883dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 094/154] fix: IOBL_GWO evaluates uncorrected opposite
 solutions

---
 mealpy/swarm_based/GWO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 6530b08..6ae8f27 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1020,9 +1020,9 @@ class IOBL_GWO(Optimizer):
         # Apply Opposition-Based Learning (OBL) for leading wolves
         _, list_best, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
         pop_sorted, indices = self.get_sorted_population(self.pop, minmax=self.problem.minmax)
-        obl_alpha = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[0].solution)
-        obl_beta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[1].solution)
-        obl_delta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[2].solution)
+        obl_alpha = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[0].solution))
+        obl_beta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[1].solution))
+        obl_delta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[2].solution))
         obl_pop = [obl_alpha, obl_beta, obl_delta]
 
         # Replace worst 3 wolves with opposite solutions if they are better
-- 
2.43.0


From c0fcf327d902c14779ff42a1aa121a5f5131c677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 095/154] fix: SquirrelSA accepts a Levy exponent of 0

---
 mealpy/swarm_based/SquirrelSA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/SquirrelSA.py b/mealpy/swarm_based/SquirrelSA.py
index d9d9688..e3aed4d 100644
--- a/mealpy/swarm_based/SquirrelSA.py
+++ b/mealpy/swarm_based/SquirrelSA.py
@@ -28,7 +28,7 @@ class OriginalSquirrelSA(Optimizer):
     scaling_factor : float
         Scaling factor for gliding distance, in range [1, 100]. Default is 18.
     beta : float
-        Beta parameter for Levy flight, in range [0.0, 10.0]. Default is 1.5.
+        Beta parameter for Levy flight, in range (0.0, 10.0). Default is 1.5.
 
     References
     ~~~~~~~~~~
@@ -77,7 +77,7 @@ class OriginalSquirrelSA(Optimizer):
         self.predator_prob = self.validator.check_float("predator_prob", predator_prob, [0.0, 1.0])
         self.gliding_constant = self.validator.check_float("gliding_constant", gliding_constant, [0.0, 10.0])
         self.scaling_factor = self.validator.check_float("scaling_factor", scaling_factor, [1, 100])
-        self.beta = self.validator.check_float("beta", beta, [0.0, 10.0])
+        self.beta = self.validator.check_float("beta", beta, (0.0, 10.0))
         self.set_parameters(["epoch", "pop_size", "n_food_sources", "predator_prob", "gliding_constant", "scaling_factor", "beta"])
         self.sort_flag = True
 
-- 
2.43.0


From e593091b658f1e0a67a6e9283496e65c8a3f7b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 096/154] fix: Triangular membership is 1 at its peak, also
 when the peak is an end of its interval

---
 mealpy/utils/fuzzy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/utils/fuzzy.py b/mealpy/utils/fuzzy.py
index aab43b9..3fbd569 100644
--- a/mealpy/utils/fuzzy.py
+++ b/mealpy/utils/fuzzy.py
@@ -17,6 +17,8 @@ class FuzzySystem:
 
     def triangular_membership(self, x, a, b, c):
         """Triangular membership function"""
+        if x == b:
+            return 1        # The peak, which is also an end of the interval when a = b or b = c
         if x <= a or x >= c:
             return 0
         elif a < x <= b:
-- 
2.43.0


From 8acb0210b316aac90bdc0ec543bc500a237ba34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 097/154] fix: Bernoulli map stays in [0, 1] for every
 parameter a

---
 mealpy/utils/chaotic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/chaotic.py b/mealpy/utils/chaotic.py
index 2195fc6..7fa10ab 100644
--- a/mealpy/utils/chaotic.py
+++ b/mealpy/utils/chaotic.py
@@ -15,10 +15,10 @@ class ChaoticMap:
     @staticmethod
     def bernoulli_map(x: float, a: float = 0.5) -> float:
         """Bernoulli map"""
-        if 0 <= x <= a:
+        if 0 <= x <= 1 - a:
             return x / (1 - a)
         else:
-            return (x - a) / a
+            return (x - (1 - a)) / a
 
     @staticmethod
     def logistic_map(x: float, a: float = 4.0) -> float:
-- 
2.43.0


From 40c571587b9e2813cfbde8a66c48affcba5e1738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 098/154] fix: vstf_03 does not fall back to 0 for very large
 inputs

---
 mealpy/utils/transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/transfer.py b/mealpy/utils/transfer.py
index 584aa15..bff358a 100644
--- a/mealpy/utils/transfer.py
+++ b/mealpy/utils/transfer.py
@@ -20,7 +20,7 @@ def vstf_02(x):
 
 
 def vstf_03(x):
-    return np.abs(x / np.sqrt(1. + np.square(x)))
+    return np.abs(x / np.hypot(1., x))
 
 
 def vstf_04(x):
-- 
2.43.0


From 5600a136229cf3ad1e923ecad2bf281000014a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 099/154] fix: Charts are drawn on their own figure instead of
 on top of an open one

---
 mealpy/utils/visualize/linechart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/utils/visualize/linechart.py b/mealpy/utils/visualize/linechart.py
index 5b4536e..c29f953 100644
--- a/mealpy/utils/visualize/linechart.py
+++ b/mealpy/utils/visualize/linechart.py
@@ -70,6 +70,7 @@ def _draw_line_(data=None, title=None, legend=None, linestyle='-', color='b', x_
                 y_label="Function Value", filename=None, exts=(".png", ".pdf"), verbose=True):
     x = np.arange(0, len(data))
     y = data
+    plt.figure()        # Never draw on top of a figure that is already open
     plt.title(title)
     plt.xlabel(x_label)
     plt.ylabel(y_label)
@@ -90,6 +91,7 @@ def _draw_line_(data=None, title=None, legend=None, linestyle='-', color='b', x_
 def _draw_multi_line_(data=None, title=None, list_legends=None, list_styles=None, list_colors=None,
                       x_label="#Iteration", y_label="Function Value", filename=None, exts=(".png", ".pdf"), verbose=True):
     x = np.arange(0, len(data[0]))
+    plt.figure()        # Never draw on top of a figure that is already open
     for idx, y in enumerate(data):
         plt.plot(x, y, label=list_legends[idx], markerfacecolor=list_colors[idx], linestyle=list_styles[idx])
 
@@ -190,6 +192,7 @@ def export_trajectory_chart(data=None, n_dimensions=1, title="Trajectory of some
     if list_colors is None:
         list_colors = LIST_COLORS[:len(data)]
 
+    plt.figure()        # Never draw on top of a figure that is already open
     if n_dimensions == 1:
         x = np.arange(0, len(data[0]))
         for idx, y in enumerate(data):
-- 
2.43.0


From abbf494a910a1d88ed7a440edf4cff18f9a1e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 100/154] fix: Objectives charts work for more than 10
 objectives

---
 mealpy/utils/visualize/linechart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/visualize/linechart.py b/mealpy/utils/visualize/linechart.py
index c29f953..f6812fe 100644
--- a/mealpy/utils/visualize/linechart.py
+++ b/mealpy/utils/visualize/linechart.py
@@ -177,9 +177,9 @@ def export_diversity_chart(data=None, title='Diversity Measurement Chart', list_
 def export_objectives_chart(data=None, title="Objectives chart", list_legends=None, list_styles=None, list_colors=None,
             x_label="#Iteration", y_labels=None, filename="Objective-chart", exts=(".png", ".pdf"), verbose=True):
     if list_styles is None:
-        list_styles = LIST_LINESTYLES[:len(data)]
+        list_styles = [LIST_LINESTYLES[idx % len(LIST_LINESTYLES)] for idx in range(len(data))]
     if list_colors is None:
-        list_colors = LIST_COLORS[:len(data)]
+        list_colors = [LIST_COLORS[idx % len(LIST_COLORS)] for idx in range(len(data))]
     _draw_multi_subplots_in_same_figure_(data=data, title=title, list_legends=list_legends, list_styles=list_styles, list_colors=list_colors,
                                      x_label=x_label, y_labels=y_labels, filename=filename, exts=exts, verbose=verbose)
 
-- 
2.43.0


From bfa66fa840b5e90ffcd8ccf5f00b332a9730df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 101/154] fix: ICMIC map does not overflow to NaN next to zero

---
 mealpy/utils/chaotic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/chaotic.py b/mealpy/utils/chaotic.py
index 7fa10ab..aa1beb3 100644
--- a/mealpy/utils/chaotic.py
+++ b/mealpy/utils/chaotic.py
@@ -43,8 +43,8 @@ class ChaoticMap:
     @staticmethod
     def icmic_map(x: float, a: float = 0.7) -> float:
         """Iterative chaotic map with infinite collapses"""
-        if x == 0:
-            return 0.1  # Avoid division by zero
+        if np.abs(x) < 1e-300:
+            return 0.1  # Avoid division by zero and overflow
         return np.abs(np.sin(a / x))
 
     @staticmethod
-- 
2.43.0


From 2ad522f62b8b9a55cc1dd7cd59da980f5dcdf7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 102/154] fix: QSA divides its queues only by positive fitness
 values

---
 mealpy/human_based/QSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/QSA.py b/mealpy/human_based/QSA.py
index 3b6855f..742357e 100644
--- a/mealpy/human_based/QSA.py
+++ b/mealpy/human_based/QSA.py
@@ -72,7 +72,7 @@ class DevQSA(Optimizer):
             + t2 = t2 * 1.0e+100
             + t3 = t3 * 1.0e+100
         """
-        if t1 > 1.0e-6:
+        if np.min((t1, t2, t3)) > 1.0e-6:
             n1 = (1 / t1) / ((1 / t1) + (1 / t2) + (1 / t3))
             n2 = (1 / t2) / ((1 / t1) + (1 / t2) + (1 / t3))
         else:
-- 
2.43.0


From 5c03b2d0e8201dd90555f038214751c17b8732cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 103/154] fix: GRSA updates its geodesics by the direction of
 the problem

---
 mealpy/physics_based/GRSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/GRSA.py b/mealpy/physics_based/GRSA.py
index f6e0c95..29e830c 100644
--- a/mealpy/physics_based/GRSA.py
+++ b/mealpy/physics_based/GRSA.py
@@ -170,7 +170,7 @@ class OriginalGRSA(Optimizer):
             self.pop = self.update_target_for_population(pop_new)
 
         for idx in range(self.pop_size):
-            if self.compare_fitness(self.pop[idx].target.fitness, self.geodesic_f[idx]):
+            if self.compare_fitness(self.pop[idx].target.fitness, self.geodesic_f[idx], self.problem.minmax):
                 self.geodesic_f[idx] = self.pop[idx].target.fitness
                 self.geodesic_x_p[idx] = self.pop[idx].solution.copy()
 
-- 
2.43.0


From ec16b60dbd81ff5673633a7b8e2eeeb554b0f2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 104/154] fix: ESO selects the better position by the direction
 of the problem

---
 mealpy/physics_based/ESO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ESO.py b/mealpy/physics_based/ESO.py
index 967c6e2..665f8c4 100644
--- a/mealpy/physics_based/ESO.py
+++ b/mealpy/physics_based/ESO.py
@@ -161,7 +161,7 @@ class OriginalESO(Optimizer):
             agent_new = self.generate_agent(pos_new)
 
             # Select better position
-            if self.compare_target(agent_new.target, agent.target):
+            if self.compare_target(agent_new.target, agent.target, self.problem.minmax):
                 pop_new.append(agent_new)
             else:
                 pop_new.append(agent)
-- 
2.43.0


From 2d5fc232cc33a0394d880b56e0541328f4a8a90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 105/154] fix: IMODE counts improvements by the direction of
 the problem

---
 mealpy/sota_based/IMODE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/sota_based/IMODE.py b/mealpy/sota_based/IMODE.py
index bb0a81a..0f52f3c 100644
--- a/mealpy/sota_based/IMODE.py
+++ b/mealpy/sota_based/IMODE.py
@@ -281,7 +281,7 @@ class OriginalIMODE(Optimizer):
         for idx in range(len(matrix_child)):
             pos_new = self.correct_solution(matrix_child[idx])
             agent = self.generate_agent(pos_new)
-            if self.compare_target(agent.target, self.pop[idx].target):
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 improvement_mask[idx] = True
             improvements[idx] = np.abs(self.pop[idx].target.fitness - agent.target.fitness)
             pop_new.append(agent)
-- 
2.43.0


From ff54ca4f34275dc7d41b7230bb0921a36122ded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 106/154] fix: C_PSO accepts its chaotic best by the direction
 of the problem

---
 mealpy/swarm_based/PSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/PSO.py b/mealpy/swarm_based/PSO.py
index 9ccd223..b5ae4dc 100644
--- a/mealpy/swarm_based/PSO.py
+++ b/mealpy/swarm_based/PSO.py
@@ -651,7 +651,7 @@ class C_PSO(P_PSO):
         x_best = self.problem.lb + cx_best_1 * (self.problem.ub - self.problem.lb)  # Eq. 8
         x_best = self.correct_solution(x_best)
         target_best = self.get_target(x_best)
-        if self.compare_target(target_best, self.g_best.target):
+        if self.compare_target(target_best, self.g_best.target, self.problem.minmax):
             g_best.update(solution=x_best, target=target_best)
 
         r = self.generator.random()
-- 
2.43.0


From 656111d76f99cd26425485d43d5252450d526c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 107/154] fix: EEFO interacts by the direction of the problem

---
 mealpy/swarm_based/EEFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/EEFO.py b/mealpy/swarm_based/EEFO.py
index f0e7236..fca9bdb 100644
--- a/mealpy/swarm_based/EEFO.py
+++ b/mealpy/swarm_based/EEFO.py
@@ -119,7 +119,7 @@ class OriginalEEFO(Optimizer):
                 agent_j = self.pop[jdx]
 
                 # Eq. (7): Interaction based on fitness comparison
-                if self.compare_target(agent_j.target, agent.target):
+                if self.compare_target(agent_j.target, agent.target, self.problem.minmax):
                     if self.generator.random() > 0.5:
                         pos_new = agent_j.solution + self.generator.standard_normal() * direct_vector * (mean_pop_pos - x)
                     else:
-- 
2.43.0


From 40d47340ee058391835c6ca5864aeb153bdc4aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 108/154] fix: CCO replaces agents by the direction of the
 problem

---
 mealpy/swarm_based/CCO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/CCO.py b/mealpy/swarm_based/CCO.py
index 1fd31d8..23b88cd 100644
--- a/mealpy/swarm_based/CCO.py
+++ b/mealpy/swarm_based/CCO.py
@@ -184,7 +184,7 @@ class OriginalCCO(Optimizer):
                             else:
                                 V = 2 * (rng.random() * (self.pop[kk[1]].solution - self.pop[kk[2]].solution) + rng.random() * (self.pop[kk[0]].solution - pos_ii))
 
-                            if self.compare_target(self.pop[idx].target, self.pop[kk[idx]].target):
+                            if self.compare_target(self.pop[idx].target, self.pop[kk[idx]].target, self.problem.minmax):
                                 step = pos_ii - E * self.pop[kk[idx]].solution
                                 if (idx + 1) % 2 == 1:
                                     pos_new = (pos_ii + (T ** 2) * self.y[idx] * (1 - R1) * np.abs(step)) + F * R1 * step / 2 + V * J_i / epoch
@@ -262,7 +262,7 @@ class OriginalCCO(Optimizer):
             agent = self.generate_agent(pos_new)
 
             # Replacement logic
-            if self.compare_target(agent.target, self.pop[idx].target):
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx] = agent
                 # Q=1 logic: Replace the current worst in population
                 if Q == 1:
-- 
2.43.0


From 36f8ee5d915c0c36bc7e8afff80e924fe05a423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 109/154] fix: NGO approaches its prey by the direction of the
 problem

---
 mealpy/swarm_based/NGO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/NGO.py b/mealpy/swarm_based/NGO.py
index 25fb791..355879f 100644
--- a/mealpy/swarm_based/NGO.py
+++ b/mealpy/swarm_based/NGO.py
@@ -93,7 +93,7 @@ class OriginalNGO(Optimizer):
         for idx in range(0, self.pop_size):
             # Phase 1: Exploration
             kk = self.generator.permutation(self.pop_size)[0]
-            if self.compare_target(self.pop[kk].target, self.pop[idx].target):     # Eq. 4
+            if self.compare_target(self.pop[kk].target, self.pop[idx].target, self.problem.minmax):     # Eq. 4
                 pos_new = self.pop[idx].solution + self.generator.random(self.problem.n_dims) * (self.pop[kk].solution - self.generator.integers(1, 3) * self.pop[idx].solution)
             else:
                 pos_new = self.pop[idx].solution + self.generator.random(self.problem.n_dims) * (self.pop[idx].solution - self.pop[kk].solution)
-- 
2.43.0


From 3601043eb906accc5814c1528a01d65cb12de7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 110/154] fix: CRO predates the worst corals of maximization
 problems

---
 mealpy/evolutionary_based/CRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index f7e4596..7977b87 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -142,7 +142,7 @@ class OriginalCRO(Optimizer):
     def sort_occupied_reef__(self):
         def reef_fitness(idx):
             return self.pop[idx].target.fitness
-        return sorted(self.occupied_idx_list, key=reef_fitness)
+        return sorted(self.occupied_idx_list, key=reef_fitness, reverse=self.problem.minmax == "max")
 
     def broadcast_spawning_brooding__(self):
         # Step 1a
-- 
2.43.0


From 0fd4b5afd44e67af4f22fac9663ce8325945277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 111/154] fix: CHIO learns from the best immune agent of
 maximization problems

---
 mealpy/human_based/CHIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/CHIO.py b/mealpy/human_based/CHIO.py
index 3c3a264..3aa3ae8 100644
--- a/mealpy/human_based/CHIO.py
+++ b/mealpy/human_based/CHIO.py
@@ -100,7 +100,7 @@ class OriginalCHIO(Optimizer):
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
-                    idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
+                    idx_selected = idx_candidates[0][np.argmin(fit_list) if self.problem.minmax == "min" else np.argmax(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
             if self.finished:
                 break
@@ -215,7 +215,7 @@ class DevCHIO(OriginalCHIO):
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
-                    idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
+                    idx_selected = idx_candidates[0][np.argmin(fit_list) if self.problem.minmax == "min" else np.argmax(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
             if self.finished:
                 break
-- 
2.43.0


From dbd7c88b65d65182c237b8c19914783fac271317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 112/154] fix: AAA does not invert the energy of the algae,
 whose size already follows the direction of the problem

---
 mealpy/bio_based/AAA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index 527b33c..4bad6a9 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -149,8 +149,8 @@ class OriginalAAA(Optimizer):
         Args:
             epoch: The current iteration
         """
-        energy = self.calculate_energy(self.alg_size_matrix, self.problem.minmax)
-        alg_friction = self.calculate_friction(self.alg_size_matrix, self.problem.minmax)
+        energy = self.calculate_energy(self.alg_size_matrix)
+        alg_friction = self.calculate_friction(self.alg_size_matrix)
         # 1. Helical Movement Phase
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy()
-- 
2.43.0


From 87fa033df981ff84eba2198acc5a507e5278471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 113/154] fix: BSA divides producers and scroungers by the
 direction of the problem

---
 mealpy/swarm_based/BSA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/BSA.py b/mealpy/swarm_based/BSA.py
index c9eae7b..d657e18 100644
--- a/mealpy/swarm_based/BSA.py
+++ b/mealpy/swarm_based/BSA.py
@@ -148,6 +148,8 @@ class OriginalBSA(Optimizer):
             # Divide the bird swarm into two parts: producers and scroungers.
             min_idx = np.argmin(fit_list)
             max_idx = np.argmax(fit_list)
+            if self.problem.minmax == "max":
+                min_idx, max_idx = max_idx, min_idx     # The producers are the best birds
             choose = 0
             if min_idx < 0.5 * self.pop_size and max_idx < 0.5 * self.pop_size:
                 choose = 1
-- 
2.43.0


From afdb56b89f090e3db7501bc0e0591d686cf9dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 114/154] fix: COA replaces the same coyote by age in both
 directions of the problem

---
 mealpy/swarm_based/COA.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index 0072931..f43a86f 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -131,10 +131,7 @@ class OriginalCOA(Optimizer):
             packs, _ = self.get_sorted_population(self.pop_group[p], self.problem.minmax)
             # Find index of element has fitness larger than new child. If existed an element like that, new child is good
             if self.compare_target(agent.target, packs[-1].target, self.problem.minmax):
-                if self.problem.minmax == "min":
-                    packs = sorted(packs, key=lambda agent: agent.age)
-                else:
-                    packs = sorted(packs, key=lambda agent: agent.age, reverse=True)
+                packs = sorted(packs, key=lambda agent: agent.age)
                 # Replace worst element by new child, New born child with age = 0
                 packs[-1] = agent
                 self.pop_group[p] = [agent.copy() for agent in packs]
-- 
2.43.0


From bbeeff1d349ef1d740097125ee9eec3be7e11819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 115/154] fix: NRO ranks its nuclei by the direction of the
 problem

---
 mealpy/physics_based/NRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index bd7371b..6efdb74 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -116,7 +116,7 @@ class OriginalNRO(Optimizer):
         ## Ionization stage
         ## Calculate the Pa through Eq. (10)
         pop_child = []
-        ranked_pop = np.argsort([self.pop[i].target.fitness for i in range(self.pop_size)])
+        _, ranked_pop = self.get_sorted_population(self.pop, self.problem.minmax)
         for idx in range(self.pop_size):
             X_ion = self.pop[idx].solution.copy()
             if (ranked_pop[idx] * 1.0 / self.pop_size) < self.generator.random():
@@ -156,7 +156,7 @@ class OriginalNRO(Optimizer):
         ## Fusion Stage
         ### all ions obtained from ionization are ranked based on (14) - Calculate the Pc through Eq. (14)
         pop_new = []
-        ranked_pop = np.argsort([self.pop[i].target.fitness for i in range(self.pop_size)])
+        _, ranked_pop = self.get_sorted_population(self.pop, self.problem.minmax)
         for idx in range(self.pop_size):
             i1, i2 = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}), 2, replace=False)
             #### Generate fusion nucleus
-- 
2.43.0


From f5bac1bed320869cffdefcd3e44072cc03685f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 116/154] fix: ICA takes the colony from the weakest empire of
 maximization problems

---
 mealpy/human_based/ICA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 58a117f..9387254 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -187,7 +187,7 @@ class OriginalICA(Optimizer):
         vector_D = prob_empires_list - uniform_list
         idx_empire = np.argmax(vector_D)
         # Find the weakest empire and weakest colony inside it
-        idx_weakest_empire = np.argmax(cost_empires_list)
+        idx_weakest_empire = np.argmax(cost_empires_list) if self.problem.minmax == "min" else np.argmin(cost_empires_list)
         if len(self.empires[idx_weakest_empire]) > 0:
             colonies_sorted, _ = self.get_sorted_population(self.empires[idx_weakest_empire], self.problem.minmax)
             weakest_colony = colonies_sorted.pop(-1)
-- 
2.43.0


From 652a93eab48ba7a1ee0dfff64f1ec4d1160824fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 117/154] fix: FBIO gives the higher probability to the better
 location of maximization problems

---
 mealpy/human_based/FBIO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/human_based/FBIO.py b/mealpy/human_based/FBIO.py
index c87f824..635fc6e 100644
--- a/mealpy/human_based/FBIO.py
+++ b/mealpy/human_based/FBIO.py
@@ -56,6 +56,8 @@ class DevFBIO(Optimizer):
     def probability__(self, list_fitness=None):  # Eq.(3) in FBI Inspired Meta-Optimization
         max1 = np.max(list_fitness)
         min1 = np.min(list_fitness)
+        if self.problem.minmax == "max":
+            return (list_fitness - min1) / (max1 - min1 + self.EPSILON)
         return (max1 - list_fitness) / (max1 - min1 + self.EPSILON)
 
     def evolve(self, epoch):
-- 
2.43.0


From d5d338a4e8a69ed1a78261624717608a1fe23409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 118/154] fix: HGSO replaces its worst agents instead of its
 best ones

---
 mealpy/physics_based/HGSO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/HGSO.py b/mealpy/physics_based/HGSO.py
index 69750fc..1431787 100644
--- a/mealpy/physics_based/HGSO.py
+++ b/mealpy/physics_based/HGSO.py
@@ -127,12 +127,12 @@ class OriginalHGSO(Optimizer):
         ## Rank and select the number of worst agents using Eq. 11
         N_w = int(self.pop_size * (self.generator.uniform(0, 0.1) + 0.1))
         ## Update the position of the worst agents using Eq. 12
-        sorted_id_pos = np.argsort([x.target.fitness for x in self.pop])
+        _, sorted_id_pos = self.get_sorted_population(self.pop, self.problem.minmax)
 
         pop_new = []
         pop_idx = []
         for item in range(N_w):
-            id = sorted_id_pos[item]
+            id = sorted_id_pos[-1 - item]
             pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From 921fc9ffecc47adffa7beace67254002dfe049a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 119/154] fix: DevSARO follows the better clue by the direction
 of the problem

---
 mealpy/human_based/SARO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/SARO.py b/mealpy/human_based/SARO.py
index 658f82c..92f96f2 100644
--- a/mealpy/human_based/SARO.py
+++ b/mealpy/human_based/SARO.py
@@ -99,7 +99,8 @@ class DevSARO(Optimizer):
             #### Remove third loop here, also using random flight back when out of bound
             pos_new_1 = self.pop[k].solution + self.generator.uniform() * sd
             pos_new_2 = pop_x[idx].solution + self.generator.uniform() * sd
-            condition = np.logical_and(self.generator.uniform(0, 1, self.problem.n_dims) < self.se, self.pop[k].target.fitness < pop_x[idx].target.fitness)
+            condition = np.logical_and(self.generator.uniform(0, 1, self.problem.n_dims) < self.se,
+                                       self.compare_target(self.pop[k].target, pop_x[idx].target, self.problem.minmax))
             pos_new = np.where(condition, pos_new_1, pos_new_2)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From 9d4502c11c826a7f2df3795329fbb5d7d480dd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 120/154] fix: SRSR follows the most improved robot of
 maximization problems

---
 mealpy/swarm_based/SRSR.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 3e9fe41..afa3ddd 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -134,7 +134,8 @@ class OriginalSRSR(Optimizer):
 
         # --------- Determining Sigma Improvement Factor (Sif) Based On Vvss Movement -------------------
         ## Get best improved fitness
-        fit_id = np.argmax([agent.target_move for agent in self.pop])
+        list_moves = [agent.target_move for agent in self.pop]
+        fit_id = np.argmax(list_moves) if self.problem.minmax == "min" else np.argmin(list_moves)
         sigma_factor = 1 + self.generator.uniform() * np.max(self.problem.ub - self.problem.lb)
         self.SIF = sigma_factor * self.sigma_temp[fit_id]
         # Controlling Parameter Of Algorithm
-- 
2.43.0


From 3bc4146b7565073123655a7d9973237b15420af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 121/154] fix: TOA moves towards the better supervisor by the
 direction of the problem

---
 mealpy/human_based/TOA.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/TOA.py b/mealpy/human_based/TOA.py
index 4342cb8..5e44d27 100644
--- a/mealpy/human_based/TOA.py
+++ b/mealpy/human_based/TOA.py
@@ -108,8 +108,11 @@ class OriginalTOA(Optimizer):
                 sf_pos = np.array([self.pop[jdx].solution for jdx in idxs])
                 sf_pos = self.correct_solution(np.mean(sf_pos, axis=0))
                 sf = self.generate_agent(sf_pos)
+            direction = np.sign(self.pop[idx].target.fitness - sf.target.fitness)
+            if self.problem.minmax == "max":
+                direction = -direction
             pos_new = self.pop[idx].solution + self.generator.random() * (sf.solution - self.generator.integers(1, 3) *
-                                    self.pop[idx].solution) * np.sign(self.pop[idx].target.fitness - sf.target.fitness)
+                                    self.pop[idx].solution) * direction
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_agent(pos_new)
             if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
-- 
2.43.0


From bcc1510325a611441e449664b7baa3ce82c62c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 122/154] fix: TWO gives the higher weight to the better team
 of maximization problems

---
 mealpy/physics_based/TWO.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 7268e9c..1f7b4b4 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -83,6 +83,9 @@ class OriginalTWO(Optimizer):
         if maxx == minn:
             list_fits = self.generator.uniform(0.0, 1.0, self.pop_size)
             maxx, minn = np.max(list_fits), np.min(list_fits)
+        if self.problem.minmax == "max":    # The better teams are the heavier ones
+            list_fits = -list_fits
+            maxx, minn = -minn, -maxx
         list_weights = np.exp(-(list_fits - maxx) / (maxx - minn))
         list_weights = list_weights/np.sum(list_weights) + 0.1
         for idx in range(self.pop_size):
-- 
2.43.0


From 211a599121af8d12fcadc808035a4eefc3a27d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 123/154] fix: Orca energy is the distance to the best fitness
 in both directions

---
 mealpy/swarm_based/ORCA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 6316e02..9a34581 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -74,7 +74,7 @@ class OriginalOrcaOA(Optimizer):
         """
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         # Calculate energy (e_i = F_i - F_s)
-        e = fit_list - self.g_best.target.fitness
+        e = np.abs(fit_list - self.g_best.target.fitness)
         e_min = np.min(e)
         e_max = np.max(e)
 
-- 
2.43.0


From 6490b6dedaa8b8c0e9c656b0748c1c6046e3b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 124/154] fix: KLA moves towards the better agents of
 maximization problems

---
 mealpy/physics_based/KLA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/KLA.py b/mealpy/physics_based/KLA.py
index b790453..600f951 100644
--- a/mealpy/physics_based/KLA.py
+++ b/mealpy/physics_based/KLA.py
@@ -79,6 +79,8 @@ class OriginalKLA(Optimizer):
             q = (f_i - f_jj) / (np.abs(f_i - f_jj) + self.EPSILON)
             Q = (f_i - f_a) / (np.abs(f_i - f_a) + self.EPSILON)
             Q2 = (f_i - f_b) / (np.abs(f_i - f_b) + self.EPSILON)
+            if self.problem.minmax == "max":    # Towards the better agents, away from the worse ones
+                q, Q, Q2 = -q, -Q, -Q2
 
             # Calculate random components
             q1 = (f_jj / (f_i + self.EPSILON)) ** (2 * self.generator.random())
-- 
2.43.0


From 80f4fcd2ad8cb6564c812ef9f5f8dcbd9b5e3fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 125/154] fix: ESO ionizes the better solutions of maximization
 problems

---
 mealpy/physics_based/ESO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/ESO.py b/mealpy/physics_based/ESO.py
index 665f8c4..30915e0 100644
--- a/mealpy/physics_based/ESO.py
+++ b/mealpy/physics_based/ESO.py
@@ -81,8 +81,10 @@ class OriginalESO(Optimizer):
             percentile_threshold = (resistance / 2) * 100
             # Find solutions better than percentile
             fits = np.array([agent.target.fitness for agent in self.pop])
-            fitness_percentile = np.percentile(fits, percentile_threshold)
-            ionized_indices = np.where(fits <= fitness_percentile)[0]
+            if self.problem.minmax == "min":
+                ionized_indices = np.where(fits <= np.percentile(fits, percentile_threshold))[0]
+            else:
+                ionized_indices = np.where(fits >= np.percentile(fits, 100 - percentile_threshold))[0]
             ionized_pop = [self.pop[idx] for idx in ionized_indices]
 
         # Calculate field conductivity using logistic function
-- 
2.43.0


From 6310df2b46502326916e786d93d965d55ec22876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 126/154] fix: GRSA groups its agents by the direction of the
 problem

---
 mealpy/physics_based/GRSA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/GRSA.py b/mealpy/physics_based/GRSA.py
index 29e830c..370d671 100644
--- a/mealpy/physics_based/GRSA.py
+++ b/mealpy/physics_based/GRSA.py
@@ -110,8 +110,8 @@ class OriginalGRSA(Optimizer):
 
         # Current status
         x_p = np.array([agent.solution for agent in self.pop])
-        fitness_list = np.array([agent.target.fitness for agent in self.pop])
-        sorted_indices = np.argsort(fitness_list)
+        _, sorted_indices = self.get_sorted_population(self.pop, self.problem.minmax)
+        sorted_indices = np.array(sorted_indices)
 
         # Precompute geometry indices
         sg_idx = np.array([i * n_orn_g for i in range(self.n_geometry)])
-- 
2.43.0


From 27abb2fb9e11453f134f119d01efdefe58caaa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 127/154] fix: IMODE rewards the operators that improve
 maximization problems

---
 mealpy/sota_based/IMODE.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/sota_based/IMODE.py b/mealpy/sota_based/IMODE.py
index 0f52f3c..2d85b1f 100644
--- a/mealpy/sota_based/IMODE.py
+++ b/mealpy/sota_based/IMODE.py
@@ -290,7 +290,8 @@ class OriginalIMODE(Optimizer):
         op1_mask, op2_mask, op3_mask = self._select_operator_indices()
         fits = np.array([agent.target.fitness for agent in self.pop])
         fits_child = np.array([agent.target.fitness for agent in pop_new])
-        relative_improvements = np.maximum(0, (fits - fits_child) / np.abs(fits))
+        gains = fits - fits_child if self.problem.minmax == "min" else fits_child - fits
+        relative_improvements = np.maximum(0, gains / np.abs(fits))
 
         # Update archive with improved solutions
         if np.any(improvement_mask):
-- 
2.43.0


From 4d9deaeee25a19a3463f12c6163d5b8e86a7fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 128/154] fix: C_PSO keeps the inertia weight in its range in
 maximization problems

---
 mealpy/swarm_based/PSO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/PSO.py b/mealpy/swarm_based/PSO.py
index b5ae4dc..1aacc94 100644
--- a/mealpy/swarm_based/PSO.py
+++ b/mealpy/swarm_based/PSO.py
@@ -608,8 +608,8 @@ class C_PSO(P_PSO):
         self.dyn_lb = self.problem.lb.copy()
         self.dyn_ub = self.problem.ub.copy()
 
-    def get_weights__(self, fit, fit_avg, fit_min):
-        temp1 = self.w_min + (self.w_max - self.w_min) * (fit - fit_min) / (fit_avg - fit_min)
+    def get_weights__(self, fit, fit_avg, fit_best):
+        temp1 = self.w_min + (self.w_max - self.w_min) * (fit - fit_best) / (fit_avg - fit_best)
         if self.problem.minmax == "min":
             output = temp1 if fit <= fit_avg else self.w_max
         else:
@@ -628,9 +628,9 @@ class C_PSO(P_PSO):
         """
         list_fits = [agent.target.fitness for agent in self.pop]
         fit_avg = np.mean(list_fits)
-        fit_min = np.min(list_fits)
+        fit_best = np.min(list_fits) if self.problem.minmax == "min" else np.max(list_fits)
         for idx in range(self.pop_size):
-            w = self.get_weights__(self.pop[idx].target.fitness, fit_avg, fit_min)
+            w = self.get_weights__(self.pop[idx].target.fitness, fit_avg, fit_best)
             v_new = w * self.pop[idx].velocity + self.c1 * self.generator.random() * (self.pop[idx].local_solution - self.pop[idx].solution) + \
                     self.c2 * self.generator.random() * (self.g_best.solution - self.pop[idx].solution)
             v_new = np.clip(v_new, self.v_min, self.v_max)
-- 
2.43.0


From 430ca9aacc7d08c5d408aea6a94eacf09495411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 129/154] fix: HCO moves its humans equally in both directions
 of the problem

---
 mealpy/human_based/HCO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/human_based/HCO.py b/mealpy/human_based/HCO.py
index 48cc51b..2d82fba 100644
--- a/mealpy/human_based/HCO.py
+++ b/mealpy/human_based/HCO.py
@@ -133,6 +133,8 @@ class OriginalHCO(Optimizer):
         rr = (fit_mean - fits) ** 2
         ll = RR - rr
         LL = (self.g_best.target.fitness - fit_mean)
+        if self.problem.minmax == "max":
+            LL = -LL
         VV = lamda * (ll / (4 * neu * LL))
         pop_new = []
         for idx in range(0, self.pop_size):
-- 
2.43.0


From b6890ebc69d8b4578b18248206b2bc966d188e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 130/154] fix: MVO computes its inflation rates by the
 direction of the problem

---
 mealpy/physics_based/MVO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/MVO.py b/mealpy/physics_based/MVO.py
index a98c299..63c7060 100644
--- a/mealpy/physics_based/MVO.py
+++ b/mealpy/physics_based/MVO.py
@@ -201,6 +201,8 @@ class OriginalMVO(DevMVO):
         # Travelling Distance Rate (Formula): Eq. (3.4) in the paper
         tdr = 1 - epoch ** (1.0 / 6) / self.epoch ** (1.0 / 6)
         list_fitness_raw = np.array([item.target.fitness for item in self.pop])
+        if self.problem.minmax == "max":    # The inflation rate is lower for the better universes
+            list_fitness_raw = -list_fitness_raw
         maxx = max(list_fitness_raw)
         if maxx > (2 ** 64 - 1):
             list_fitness_normalized = self.generator.uniform(0, 0.1, self.pop_size)
-- 
2.43.0


From 2fb3f519c37b726432bad8bf94b25e45f3a900ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 131/154] fix: SMO selects the better spider monkeys of
 maximization problems

---
 mealpy/swarm_based/SMO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/SMO.py b/mealpy/swarm_based/SMO.py
index 331ac34..5298104 100644
--- a/mealpy/swarm_based/SMO.py
+++ b/mealpy/swarm_based/SMO.py
@@ -139,6 +139,8 @@ class DevSMO(Optimizer):
         """Global Leader Phase - selected monkeys update based on global leader"""
         # Calculate selection probabilities
         list_fits = np.array([agent.target.fitness for group in self.groups for agent in group])
+        if self.problem.minmax == "max":
+            list_fits = -list_fits
         # Calculate fitness using formula from paper
         fitness = np.where(list_fits >= 0, 1 / (1 + list_fits), 1 + np.abs(list_fits))
 
-- 
2.43.0


From 7305d424ff53df1447e2fbf0cd117390148eb567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 132/154] fix: CG_GWO mutates its leaders equally in both
 directions of the problem

---
 mealpy/swarm_based/GWO.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 6ae8f27..a9caa61 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1323,7 +1323,10 @@ class CG_GWO(Optimizer):
 
         # Calculate sigma (equation 9)
         if abs(best.target.fitness) > 1e-10:
-            sigma = np.exp((leader.target.fitness - best.target.fitness) / abs(best.target.fitness))
+            gap = leader.target.fitness - best.target.fitness
+            if self.problem.minmax == "max":
+                gap = -gap
+            sigma = np.exp(gap / abs(best.target.fitness))
         else:
             sigma = 1.0
         # Generate Cauchy and Gaussian random variables
-- 
2.43.0


From 3bcd0a0d0e4a3a54920797f31e20bbf532f1b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:49 +0000
Subject: [PATCH 133/154] fix: IntegerVar has the same box for a number as for
 a list of one number

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index cd78d28..e8e07aa 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -195,7 +195,7 @@ class IntegerVar(BaseVar):
 
     def _set_bounds(self, lb, ub):
         if isinstance(lb, nb.Number) and isinstance(ub, nb.Number):
-            lb, ub = int(lb) - 0.5, int(ub) + 0.5 - self.eps
+            lb, ub = int(lb) - 0.5, int(ub) + (0.5 - self.eps)
             self.lb, self.ub = np.array((lb, ), dtype=float), np.array((ub, ), dtype=float)
             self.n_vars = 1
         elif type(lb) in self.SUPPORTED_ARRAY and type(ub) in self.SUPPORTED_ARRAY:
-- 
2.43.0


From 36d15919512a2a78c35bcbad57e31718cf5771bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 134/154] fix: The variables of a seeded problem are generated
 independently of each other

---
 mealpy/utils/problem.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mealpy/utils/problem.py b/mealpy/utils/problem.py
index a05ceda..24d6c3a 100644
--- a/mealpy/utils/problem.py
+++ b/mealpy/utils/problem.py
@@ -62,18 +62,16 @@ class Problem:
 
     def set_bounds(self, bounds):
         if isinstance(bounds, BaseVar):
-            bounds.seed = self.seed
             self._bounds = [bounds, ]
         elif type(bounds) in self.SUPPORTED_ARRAYS:
             self._bounds = []
             for bound in bounds:
-                if isinstance(bound, BaseVar):
-                    bound.seed = self.seed
-                else:
+                if not isinstance(bound, BaseVar):
                     raise ValueError(f"Invalid bounds. All variables in bounds should be an instance of {self.SUPPORTED_VARS}")
                 self._bounds.append(bound)
         else:
             raise TypeError(f"Invalid bounds. It should be type of {self.SUPPORTED_ARRAYS} or an instance of {self.SUPPORTED_VARS}")
+        self.set_seed(self.seed)
         self.lb = np.concatenate([bound.lb for bound in self._bounds])
         self.ub = np.concatenate([bound.ub for bound in self._bounds])
         self.n_dims = len(self.lb)
@@ -81,7 +79,8 @@ class Problem:
     def set_seed(self, seed: int = None) -> None:
         self.seed = seed
         for idx in range(len(self._bounds)):
-            self._bounds[idx].seed = seed
+            # Each variable has its own stream, otherwise the values of different variables would be correlated
+            self._bounds[idx].seed = seed if idx == 0 or seed is None else np.random.SeedSequence(seed, spawn_key=(idx,))
 
     def obj_func(self, x: np.ndarray) -> Union[List, Tuple, np.ndarray, int, float]:
         """Objective function
-- 
2.43.0


From a3beba79188f528051e54018f5509961fce293ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 135/154] fix: OriginalFLA transfers no more molecules than the
 region has

---
 mealpy/physics_based/FLA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/FLA.py b/mealpy/physics_based/FLA.py
index a2910f5..4a74ead 100644
--- a/mealpy/physics_based/FLA.py
+++ b/mealpy/physics_based/FLA.py
@@ -126,7 +126,7 @@ class OriginalFLA(Optimizer):
             tdo = self.C5 * tf - self.generator.random()
             if tdo < self.generator.random():
                 m1n, m2n = self.C3*self.n1, self.C4*self.n1
-                nt12 = int(np.round((m2n - m1n)*self.generator.random() + m1n))
+                nt12 = int(np.clip(np.round((m2n - m1n)*self.generator.random() + m1n), 0, self.n1))
                 for idx in range(0, nt12):
                     dfg = self.generator.integers(1, 3)
                     jj = -self.DD * (xm2 - xm1) / (np.linalg.norm(self.best2.solution - self.pop1[idx].solution) + self.EPSILON)
-- 
2.43.0


From 82eeda5a6d4b12bf14b9e1394267bc6e81d4e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 136/154] fix: OriginalDE strategy 3 works with the smallest
 population allowed

---
 mealpy/evolutionary_based/DE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 18a1316..518bd7b 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -127,7 +127,7 @@ class OriginalDE(Optimizer):
                     self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         elif self.strategy == 3:
             for idx in range(0, self.pop_size):
-                idx_list = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}), 5, replace=False)
+                idx_list = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}), 5, replace=self.pop_size < 6)
                 pos_new = self.pop[idx_list[0]].solution + self.wf * (self.pop[idx_list[1]].solution - self.pop[idx_list[2]].solution) + \
                           self.wf * (self.pop[idx_list[3]].solution - self.pop[idx_list[4]].solution)
                 pos_new = self.mutation__(self.pop[idx].solution, pos_new)
-- 
2.43.0


From 774ff6f4b8859a6a618f99c61affecbabb746cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 137/154] fix: DS_GWO makes no more groups than there are
 wolves

---
 mealpy/swarm_based/GWO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index a9caa61..96012cf 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -881,12 +881,13 @@ class DS_GWO(Optimizer):
         4. Set delta candidate farthest from alpha as beta
         """
         # Divide population into n_groups
-        group_size = self.pop_size // self.n_groups
+        n_groups = min(self.n_groups, self.pop_size)
+        group_size = self.pop_size // n_groups
         self.delta_candidates = []
 
-        for idx in range(self.n_groups):
+        for idx in range(n_groups):
             start_idx = idx * group_size
-            if idx == self.n_groups - 1:  # Last group takes remaining wolves
+            if idx == n_groups - 1:  # Last group takes remaining wolves
                 end_idx = self.pop_size
             else:
                 end_idx = (idx + 1) * group_size
-- 
2.43.0


From 86c02f69f0763d7282efac4f7fc464b7f705718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 138/154] fix: OriginalOrcaOA accepts every R0 in its declared
 range

---
 mealpy/swarm_based/ORCA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 9a34581..2bd7b14 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -96,7 +96,7 @@ class OriginalOrcaOA(Optimizer):
                 if norm > 0:
                     direction /= norm
                 # Random position between R-d_i and R
-                r_dist = self.generator.uniform(self.R - d_list[idx], self.R)
+                r_dist = self.generator.uniform(*sorted((self.R - d_list[idx], self.R)))
                 # Update position
                 pos_new = self.pop[0].solution + r_dist * direction
             else:
-- 
2.43.0


From da792e416217edc186f9dc13ca1e3d2a9e64a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:27 +0000
Subject: [PATCH 139/154] fix: OriginalFFA keeps its population size

---
 mealpy/swarm_based/FFA.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FFA.py b/mealpy/swarm_based/FFA.py
index 365b32f..2d94260 100644
--- a/mealpy/swarm_based/FFA.py
+++ b/mealpy/swarm_based/FFA.py
@@ -120,7 +120,10 @@ class OriginalFFA(Optimizer):
             # Compare to Previous Solution
             if self.compare_target(local_best.target, agent.target, self.problem.minmax):
                 self.pop[idx] = local_best
-        self.pop.append(self.g_best)
+        # The global best takes the place of the worst firefly, the population keeps its size
+        self.pop.append(self.g_best.copy())
+        _, _, list_worst = self.get_special_agents(self.pop, n_worst=1, minmax=self.problem.minmax, return_index=True)
+        self.pop.pop(list_worst[0])
         self.dyn_alpha = self.alpha_damp * self.alpha
 
 
-- 
2.43.0


From 32a37f9b40c90cf0253f018c38cc33f7f5bc7901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:27 +0000
Subject: [PATCH 140/154] fix: CRO empties the whole reef when no coral is to
 be depredated

---
 mealpy/evolutionary_based/CRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index 7977b87..4b1b921 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -185,7 +185,7 @@ class OriginalCRO(Optimizer):
         if self.generator.random() < self.dyn_Pd:
             num__depredation__ = int(len(self.occupied_idx_list) * self.Fd)
             idx_list_sorted = self.sort_occupied_reef__()
-            selected_depredator = idx_list_sorted[-num__depredation__:]
+            selected_depredator = idx_list_sorted[len(idx_list_sorted) - num__depredation__:]
             self.occupied_idx_list = np.setdiff1d(self.occupied_idx_list, selected_depredator)
             for idx in selected_depredator:
                 self.occupied_list[idx] = 0
@@ -313,7 +313,7 @@ class OCRO(OriginalCRO):
         if self.generator.random() < self.dyn_Pd:
             num__depredation__ = int(len(self.occupied_idx_list) * self.Fd)
             idx_list_sorted = self.sort_occupied_reef__()
-            selected_depredator = idx_list_sorted[-num__depredation__:]
+            selected_depredator = idx_list_sorted[len(idx_list_sorted) - num__depredation__:]
             for idx in selected_depredator:
                 ### Using opposition-based leanring
                 pos_oppo = self.generate_opposition_solution(self.pop[idx], self.g_best)
-- 
2.43.0


From b0bf04937607019bd72c537ca295a320cb03cee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:27 +0000
Subject: [PATCH 141/154] fix: OriginalGA evolves its population

---
 mealpy/evolutionary_based/GA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index da781dd..28ad203 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -815,7 +815,7 @@ class EliteMultiGA(MultiGA):
             self.pop = self.update_target_for_population(pop_new)
 
 
-class OriginalGA(Optimizer):
+class OriginalGA(BaseGA):
     """
     The fully tuned version of: Genetic Algorithm (GA)
 
-- 
2.43.0


From 44d06a776b8385aa333df3e47de93b2bf8c51ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:27 +0000
Subject: [PATCH 142/154] fix: The two copies of a reproduced cell of
 OriginalBFO share their nutrients

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 296d1a2..7807f78 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -164,7 +164,7 @@ class OriginalBFO(Optimizer):
                     sum_nutrients += self.pop[idx].cost
                 self.pop[idx].nutrients = sum_nutrients
             cells = sorted(self.pop, key=lambda cell: cell.nutrients)
-            self.pop = cells[0:self.half_pop_size].copy() + cells[0:self.pop_size - self.half_pop_size].copy()
+            self.pop = [cell.copy() for cell in cells[0:self.half_pop_size] + cells[0:self.pop_size - self.half_pop_size]]
             for idc in range(self.pop_size):
                 if self.generator.random() < self.p_eliminate:
                     self.pop[idc] = self.generate_agent()
-- 
2.43.0


From 72c8a410d68b21870f568ad1afb0d03d3554afa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:55 +0000
Subject: [PATCH 143/154] fix: CHIO fails when no individual is susceptible or
 none is immune

---
 mealpy/human_based/CHIO.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mealpy/human_based/CHIO.py b/mealpy/human_based/CHIO.py
index 3aa3ae8..19d4cf9 100644
--- a/mealpy/human_based/CHIO.py
+++ b/mealpy/human_based/CHIO.py
@@ -95,10 +95,14 @@ class OriginalCHIO(Optimizer):
                     is_corona_list[i] = True
                 elif (1.0 / 3) * self.brr <= rand < (2.0 / 3) * self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 0)  # Susceptible list
+                    if idx_candidates[0].size == 0:
+                        continue
                     idx_selected = self.generator.choice(idx_candidates[0])
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
+                    if idx_candidates[0].size == 0:
+                        continue
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
                     idx_selected = idx_candidates[0][np.argmin(fit_list) if self.problem.minmax == "min" else np.argmax(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
@@ -214,6 +218,10 @@ class DevCHIO(OriginalCHIO):
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
+                    if idx_candidates[0].size == 0:
+                        rand_choice = self.generator.choice(range(0, self.pop_size), int(0.33 * self.pop_size), replace=False)
+                        self.immunity_type_list[rand_choice] = 2
+                        idx_candidates = np.where(self.immunity_type_list == 2)
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
                     idx_selected = idx_candidates[0][np.argmin(fit_list) if self.problem.minmax == "min" else np.argmax(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
-- 
2.43.0


From 3545df4c94bda228a06caa79dc3dae813b23c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 144/154] fix: ES makes at least one child per generation

---
 mealpy/evolutionary_based/ES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/ES.py b/mealpy/evolutionary_based/ES.py
index 59394e2..a7d37b2 100644
--- a/mealpy/evolutionary_based/ES.py
+++ b/mealpy/evolutionary_based/ES.py
@@ -67,7 +67,7 @@ class OriginalES(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.lamda = self.validator.check_float("lamda", lamda, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "lamda"])
-        self.n_child = int(self.lamda * self.pop_size)
+        self.n_child = max(1, int(self.lamda * self.pop_size))
         self.sort_flag = True
     
     def initialize_variables(self):
-- 
2.43.0


From be0f5fd8884759430a68b817c42887d8e4b37838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:10 +0000
Subject: [PATCH 145/154] fix: OriginalFFA replaces the same firefly in min and
 max problems

---
 mealpy/swarm_based/FFA.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/FFA.py b/mealpy/swarm_based/FFA.py
index 2d94260..17a175b 100644
--- a/mealpy/swarm_based/FFA.py
+++ b/mealpy/swarm_based/FFA.py
@@ -121,9 +121,12 @@ class OriginalFFA(Optimizer):
             if self.compare_target(local_best.target, agent.target, self.problem.minmax):
                 self.pop[idx] = local_best
         # The global best takes the place of the worst firefly, the population keeps its size
-        self.pop.append(self.g_best.copy())
-        _, _, list_worst = self.get_special_agents(self.pop, n_worst=1, minmax=self.problem.minmax, return_index=True)
-        self.pop.pop(list_worst[0])
+        worst = 0
+        for idx in range(1, self.pop_size):
+            if self.compare_target(self.pop[worst].target, self.pop[idx].target, self.problem.minmax):
+                worst = idx
+        if self.compare_target(self.g_best.target, self.pop[worst].target, self.problem.minmax):
+            self.pop[worst] = self.g_best.copy()
         self.dyn_alpha = self.alpha_damp * self.alpha
 
 
-- 
2.43.0


From affd8c687b2c1fa0f1e6f34d719d553ee4404baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:21 +0000
Subject: [PATCH 146/154] fix: random candidates of BCO, BRO, CA, CSA, ETLBO
 and the moves of PO pass through the problem's correction before evaluation

---
 mealpy/bio_based/BCO.py   | 2 +-
 mealpy/human_based/BRO.py | 2 +-
 mealpy/human_based/CA.py  | 2 +-
 mealpy/human_based/PO.py  | 2 +-
 mealpy/human_based/TLO.py | 2 +-
 mealpy/swarm_based/CSA.py | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index b81dd58..c7e1e39 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -161,7 +161,7 @@ class OriginalBCO(Optimizer):
         if epoch % 50 == 0:
             for idx in range(self.pop_size):
                 if self.generator.random() < self.migration_prob:
-                    pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
+                    pos_new = self.correct_solution(self.generator.uniform(self.problem.lb, self.problem.ub))
                     agent_new = self.generate_agent(pos_new)
                     self.pop[idx] = agent_new
                     self.pop_local[idx] = agent_new.copy()
diff --git a/mealpy/human_based/BRO.py b/mealpy/human_based/BRO.py
index c6043f1..83c0e1b 100644
--- a/mealpy/human_based/BRO.py
+++ b/mealpy/human_based/BRO.py
@@ -222,7 +222,7 @@ class OriginalBRO(DevBRO):
                 self.pop[dam] = agent
                 self.pop[vic].damage = 0
             else:
-                pos_new = self.generator.uniform(self.problem.lb_updated, self.problem.ub_updated)
+                pos_new = self.correct_solution(self.generator.uniform(self.problem.lb_updated, self.problem.ub_updated))
                 agent = self.generate_agent(pos_new)
                 self.pop[dam] = agent
         if epoch >= self.dyn_delta:
diff --git a/mealpy/human_based/CA.py b/mealpy/human_based/CA.py
index 4017464..55c95c6 100644
--- a/mealpy/human_based/CA.py
+++ b/mealpy/human_based/CA.py
@@ -75,7 +75,7 @@ class OriginalCA(Optimizer):
         # update situational knowledge (g_best here is an element inside belief space)
 
     def create_faithful__(self, lb, ub):
-        pos = self.generator.uniform(lb, ub)
+        pos = self.correct_solution(self.generator.uniform(lb, ub))
         return self.generate_agent(pos)
 
     def update_belief_space__(self, belief_space, pop_accepted):
diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index 2906055..2d4a436 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -172,7 +172,7 @@ class OriginalPO(Optimizer):
             pos_new = self.rppus_update(pos_new, self.pop_prev[k].solution, m_const, is_improved)
 
             # Apply boundary constraints
-            self.pop[k].solution = self.amend_solution(pos_new)
+            self.pop[k].solution = self.correct_solution(pos_new)
 
         # Party Switching Phase
         for k in range(self.pop_size):
diff --git a/mealpy/human_based/TLO.py b/mealpy/human_based/TLO.py
index b4215df..37de885 100644
--- a/mealpy/human_based/TLO.py
+++ b/mealpy/human_based/TLO.py
@@ -121,7 +121,7 @@ class ETLBO(Optimizer):
         duplicate_indices = np.setdiff1d(np.arange(self.pop_size), unique_indices)
         for idx in duplicate_indices:
             # Randomly mutate duplicate solutions within bounds
-            pos_new = self.problem.lb + self.generator.random(self.problem.n_dims) * (self.problem.ub - self.problem.lb)
+            pos_new = self.correct_solution(self.problem.lb + self.generator.random(self.problem.n_dims) * (self.problem.ub - self.problem.lb))
             self.pop[idx] = self.generate_agent(pos_new)
 
 
diff --git a/mealpy/swarm_based/CSA.py b/mealpy/swarm_based/CSA.py
index cde8fed..d0fd6f6 100644
--- a/mealpy/swarm_based/CSA.py
+++ b/mealpy/swarm_based/CSA.py
@@ -92,7 +92,7 @@ class OriginalCSA(Optimizer):
         pop = self.get_sorted_and_trimmed_population(self.pop, self.pop_size, self.problem.minmax)
         pop_new = []
         for idx in range(0, self.n_cut):
-            pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
+            pos_new = self.correct_solution(self.generator.uniform(self.problem.lb, self.problem.ub))
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-- 
2.43.0


From d653b9a65902d770ccb8bc7a6fb687f41ac05f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:25 +0000
Subject: [PATCH 147/154] fix: coordinates drawn again because a move was
 undefined pass through the optimizer's own amendment too

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index e010fac..2bc45fb 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -410,7 +410,7 @@ class Optimizer:
         undefined = np.isnan(solution)
         if np.any(undefined):
             # A move can be undefined (e.g. 0/0 when agents coincide), such coordinates are drawn again
-            solution = np.where(undefined, self.generator.uniform(self.problem.lb, self.problem.ub), solution)
+            solution = self.amend_solution(np.where(undefined, self.generator.uniform(self.problem.lb, self.problem.ub), solution))
         return self.problem.correct_solution(solution)
 
     def update_target_for_population(self, pop: List[Agent] = None) -> List[Agent]:
-- 
2.43.0


From 8af7837cd8c5d48c0d809f9209318d70f7a065c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:54 +0000
Subject: [PATCH 148/154] fix: positions that OrcaPA mixes with the lower bound
 pass through the problem's correction before evaluation

---
 mealpy/swarm_based/ORCA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 2bd7b14..e995aab 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -255,7 +255,7 @@ class OriginalOrcaPA(Optimizer):
                 if self.generator.random() < self.p2:
                     # Assign the minimum boundary value (lb) for some dimensions
                     cond = self.generator.random(self.problem.n_dims) < self.p2
-                    pos_new = np.where(cond, self.problem.lb, pop_chase[idx].solution)
+                    pos_new = self.correct_solution(np.where(cond, self.problem.lb, pop_chase[idx].solution))
                     self.pop[idx] = self.generate_agent(pos_new)
                 else:
                     self.pop[idx] = pop_chase[idx].copy()
-- 
2.43.0


From 6e84dec0b19aaa5ba18f13c3390a054dd5dc9f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:28 +0000
Subject: [PATCH 149/154] fix: improved_ms() evaluates what it makes in single
 mode, keeps the population size and the better half in max problems

---
 mealpy/optimizer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 2bc45fb..7714428 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -832,9 +832,9 @@ class Optimizer:
     ##  s3: do the search mechanism for p1 (based on global best solution and the updated p1 above), to make p2 population
     ##  s4: construct the new population for next generation
     def improved_ms(self, pop=None, g_best=None):  ## m: mutation, s: search
-        pop_len = int(len(pop) / 2)
+        pop_len = int((len(pop) + 1) / 2)
         ## Sort the updated population based on fitness
-        pop = sorted(pop, key=lambda agent: agent.target.fitness)
+        pop, _ = self.get_sorted_population(pop, self.problem.minmax)
         pop_s1, pop_s2 = pop[:pop_len], pop[pop_len:]
 
         ## Mutation scheme
@@ -844,6 +844,8 @@ class Optimizer:
             pos_new = pop_s1[idx].solution * (1 + self.generator.normal(0, 1, self.problem.n_dims))
             agent.solution = self.correct_solution(pos_new)
             pop_new.append(agent)
+            if self.mode not in self.AVAILABLE_MODES:
+                agent.target = self.get_target(agent.solution)
         pop_new = self.update_target_for_population(pop_new)
         pop_s1 = self.greedy_selection_population(pop_s1, pop_new, self.problem.minmax)  ## Greedy method --> improved exploitation
 
@@ -851,15 +853,16 @@ class Optimizer:
         pos_s1_list = [agent.solution for agent in pop_s1]
         pos_s1_mean = np.mean(pos_s1_list, axis=0)
         pop_new = []
-        for idx in range(0, pop_len):
+        for idx in range(0, len(pop_s2)):
             agent = pop_s2[idx].copy()
             pos_new = (g_best.solution - pos_s1_mean) - self.generator.random() * \
                       (self.problem.lb + self.generator.random() * (self.problem.ub - self.problem.lb))
             agent.solution = self.correct_solution(pos_new)
             pop_new.append(agent)
+            if self.mode not in self.AVAILABLE_MODES:
+                agent.target = self.get_target(agent.solution)
         ## Keep the diversity of populatoin and still improved the exploration
         pop_s2 = self.update_target_for_population(pop_new)
-        pop_s2 = self.greedy_selection_population(pop_s2, pop_new, self.problem.minmax)
 
         ## Construct a new population
         pop = pop_s1 + pop_s2
-- 
2.43.0


From a460d6eaa025a9ce9ce0dc57b64ffa4e3e6c0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:15 +0000
Subject: [PATCH 150/154] fix: generate_evaluated_agents() evaluates in single
 mode too

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 7714428..62100cd 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -378,7 +378,7 @@ class Optimizer:
         Returns:
             list: The evaluated agents, in the order of solutions
         """
-        if type(self).generate_agent is not Optimizer.generate_agent:
+        if type(self).generate_agent is not Optimizer.generate_agent or self.mode not in self.AVAILABLE_MODES:
             return [self.generate_agent(solution) for solution in solutions]
         return self.update_target_for_population([self.generate_empty_agent(solution) for solution in solutions])
 
-- 
2.43.0


From 3df81402d22bca7604debef89a48b85a019e0e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:07 +0000
Subject: [PATCH 151/154] fix: CMA_ES recombines the steps that produced the
 sampled points, not freshly drawn ones

---
 mealpy/evolutionary_based/ES.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/ES.py b/mealpy/evolutionary_based/ES.py
index a7d37b2..800e6c3 100644
--- a/mealpy/evolutionary_based/ES.py
+++ b/mealpy/evolutionary_based/ES.py
@@ -288,13 +288,13 @@ class CMA_ES(Optimizer):
             pos_new = self.x_mean + self.sigma * self.pop[idx].step
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
+            agent.step = self.pop[idx].step.copy()
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
                 pop_new[-1].target = self.get_target(pos_new)
         pop_new = self.update_target_for_population(pop_new)
         self.pop, _ = self.get_sorted_population(pop_new, self.problem.minmax)
-        # Update MEan
-        self.pop = self.update_step__(self.pop, self.C)
+        # Update MEan from the steps of the best agents
         self.x_step = np.zeros(self.problem.n_dims)
         for idx in range(0, self.mu):
             self.x_step += self.w[idx] * self.pop[idx].step
@@ -319,6 +319,8 @@ class CMA_ES(Optimizer):
         if np.any(np.diag(E) < 0):
             E[E < 0] = 0
             self.C = V * E / V
+        # New steps for the next generation
+        self.pop = self.update_step__(self.pop, self.C)
 
 
 class Simple_CMA_ES(Optimizer):
-- 
2.43.0


From 598daf53934a56491536186bcff2418ba09cdde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:11 +0000
Subject: [PATCH 152/154] fix: CMA_ES keeps its covariance matrix symmetric and
 positive definite in long runs

---
 mealpy/evolutionary_based/ES.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mealpy/evolutionary_based/ES.py b/mealpy/evolutionary_based/ES.py
index 800e6c3..ade94df 100644
--- a/mealpy/evolutionary_based/ES.py
+++ b/mealpy/evolutionary_based/ES.py
@@ -314,11 +314,10 @@ class CMA_ES(Optimizer):
         for idx in range(0, self.mu):
             self.C = self.C + self.cmu * self.w[idx] * np.outer(self.pop[idx].step, self.pop[idx].step)
         # If Covariance Matrix is not Positive Defenite or Near Singular
-        E, V = np.linalg.eig(self.C)
-        E = np.diag(E)
-        if np.any(np.diag(E) < 0):
-            E[E < 0] = 0
-            self.C = V * E / V
+        E, V = np.linalg.eigh((self.C + self.C.T) / 2)
+        E_min = max(self.EPSILON, 1e-12 * np.max(E))
+        if np.any(E < E_min):
+            self.C = np.dot(V * np.maximum(E, E_min), V.T)
         # New steps for the next generation
         self.pop = self.update_step__(self.pop, self.C)
 
-- 
2.43.0


From 92a9e56f6cd03ef16c7a78d91f83b8c68aef58e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:48 +0000
Subject: [PATCH 153/154] fix: ESO keeps its percentile within 100 for problems
 with many dimensions

---
 mealpy/physics_based/ESO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ESO.py b/mealpy/physics_based/ESO.py
index 30915e0..accebd0 100644
--- a/mealpy/physics_based/ESO.py
+++ b/mealpy/physics_based/ESO.py
@@ -78,7 +78,7 @@ class OriginalESO(Optimizer):
             resistance = std_pos / peak_to_peak
             # Identify ionized areas (promising regions)
             # Calculate percentile threshold
-            percentile_threshold = (resistance / 2) * 100
+            percentile_threshold = min((resistance / 2) * 100, 100)
             # Find solutions better than percentile
             fits = np.array([agent.target.fitness for agent in self.pop])
             if self.problem.minmax == "min":
-- 
2.43.0


From 5ae234bf73b10337affbe9a5fbd61173f3bfdc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:21 +0000
Subject: [PATCH 154/154] fix: Trajectory charts of runs whose population
 shrinks

---
 mealpy/utils/history.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/history.py b/mealpy/utils/history.py
index 625aece..6b2e15a 100644
--- a/mealpy/utils/history.py
+++ b/mealpy/utils/history.py
@@ -191,7 +191,8 @@ class History:
         if n_dim == 1:
             y_label = f"x{selected_dimensions[0]}"
             for idx, id_agent in enumerate(list_agent_idx):
-                x = [pop[id_agent - 1].solution[selected_dimensions[0] - 1] for pop in self.list_population]
+                # An agent that a shrinking population has lost leaves a gap
+                x = [pop[id_agent - 1].solution[selected_dimensions[0] - 1] if id_agent <= len(pop) else np.nan for pop in self.list_population]
                 pos_list.append(x)
                 list_legends.append(f"Agent {id_agent}")
             visualize.export_trajectory_chart(pos_list, n_dimensions=n_dim, title=title, list_legends=list_legends,
@@ -202,7 +203,7 @@ class History:
             for idx1, id_agent in enumerate(list_agent_idx):
                 pos_temp = []
                 for idx2, id_dim in enumerate(selected_dimensions):
-                    x = [pop[id_agent - 1].solution[id_dim - 1] for pop in self.list_population]
+                    x = [pop[id_agent - 1].solution[id_dim - 1] if id_agent <= len(pop) else np.nan for pop in self.list_population]
                     pos_temp.append(x)
                 pos_list.append(pos_temp)
                 list_legends.append(f"Agent {id_agent}")
-- 
2.43.0

