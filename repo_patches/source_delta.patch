From 1f7bafdb35b97307b25a2dd49677da7aff1722cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 01/36] fix: run without --algo selects every algorithm instead
 of none

---
 simulation/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/factory.py b/simulation/factory.py
index 366dc6f..c2a896c 100644
--- a/simulation/factory.py
+++ b/simulation/factory.py
@@ -96,6 +96,8 @@ def parse_algorithms(args):
             algo for algo in run_config.algorithms if algo.lower() in algorithms_filter
         ]
         logger.debug("Selected: %s", algorithms)
+    else:
+        algorithms = run_config.algorithms
     return algorithms
 
 
-- 
2.43.0


From 14613acc3985ebd40c9cf49eecf2e824d1922e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 02/36] fix: a failed simulation no longer aborts the remaining
 ones

---
 simulation/run_parallel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulation/run_parallel.py b/simulation/run_parallel.py
index c756c82..7736443 100644
--- a/simulation/run_parallel.py
+++ b/simulation/run_parallel.py
@@ -39,7 +39,8 @@ def run_parallel(args):
 
         def process_result(subres):
             results.append(subres)
-            log_simulation_stats(start_time, subres[-1], len(simulation_cases))
+            if subres is not None:
+                log_simulation_stats(start_time, subres[-1], len(simulation_cases))
 
         rx.from_iterable(range(len(simulation_cases))).pipe(
             ops.map(lambda i: worker_factory(simulation_cases[i], i)),
-- 
2.43.0


From 1b8fd33de37636ef508d6a1c18fbd78ceaa6fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 03/36] fix: OMOPSO particles no longer move the caller's
 initial vectors

---
 algorithms/OMOPSO/OMOPSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index bcdbdba..0e79b90 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -233,7 +233,7 @@ class CrowdingTournament:
 
 class Individual:
     def __init__(self, value):
-        self.value = value
+        self.value = list(value)
         self.best_val = None
         self.crowd_val = 0
         self.objectives = []
-- 
2.43.0


From 7f60993ed74edaeb0bb87b704dfbf0f075a352da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 04/36] fix: OMOPSO mutation operators are applied, not just
 mapped lazily

---
 algorithms/OMOPSO/OMOPSO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 0e79b90..2847ca7 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -162,7 +162,8 @@ class OMOPSO(Driver):
         uniform_mutation = UniformMutation(
             self.mutation_probability, self.mutation_perturbation, self.dims
         )
-        map(uniform_mutation, self.individuals[0:pop_part])
+        for p in self.individuals[0:pop_part]:
+            uniform_mutation(p)
 
         if evolution_progress:
             non_uniform_mutation = NonUniformMutation(
@@ -171,7 +172,8 @@ class OMOPSO(Driver):
                 self.mutation_perturbation,
                 self.dims,
             )
-            map(non_uniform_mutation, self.individuals[pop_part : 2 * pop_part])
+            for p in self.individuals[pop_part : 2 * pop_part]:
+                non_uniform_mutation(p)
 
 
 class Mutation(object):
-- 
2.43.0


From 61b60bd2a663d5e2cd336f7eb1d4eb7561f3e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 05/36] fix: OMOPSO archive examines every member when members
 are removed

---
 algorithms/OMOPSO/OMOPSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 2847ca7..e3b33a9 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -279,7 +279,7 @@ class Archive(object):
 
     def add(self, p):
 
-        for l in self.archive:
+        for l in list(self.archive):
             if l.dominates(p, self.eta):
                 return False
             elif p.dominates(l, self.eta):
-- 
2.43.0


From 5fec6e2bd1f7d61945f5c9622f7a7e8916190c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 06/36] fix: SPEA2, OMOPSO and SMSEMOA charge one unit per
 evaluated individual

---
 algorithms/OMOPSO/OMOPSO.py   | 3 +--
 algorithms/SMSEMOA/SMSEMOA.py | 3 +--
 algorithms/SPEA2/SPEA2.py     | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index e3b33a9..fae2fc2 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -117,10 +117,9 @@ class OMOPSO(Driver):
         for p in self.individuals:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.individuals)
+                objectives_cost += 1
         return objectives_cost
 
     def move(self):
diff --git a/algorithms/SMSEMOA/SMSEMOA.py b/algorithms/SMSEMOA/SMSEMOA.py
index 4e09ec3..b91a479 100644
--- a/algorithms/SMSEMOA/SMSEMOA.py
+++ b/algorithms/SMSEMOA/SMSEMOA.py
@@ -66,10 +66,9 @@ class SMSEMOA(Driver):
         for p in pop:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def generate(self, pop):
diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index 5cb88c3..f90c7e5 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -117,10 +117,9 @@ class SPEA2(Driver):
                 p["value"] in self.fitness_archive
             ):
                 p["objectives"] = self.fitness_archive[p["value"]]
-                objectives_cost = 0
             else:
                 p["objectives"] = [o(p["value"]) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def calculate_dominated(self, pop):
-- 
2.43.0


From 51afa52483978eabde1974588beb0457d0c6cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 07/36] fix: IBEA charges an individual only when it is first
 evaluated

---
 algorithms/IBEA/IBEA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algorithms/IBEA/IBEA.py b/algorithms/IBEA/IBEA.py
index ff27292..8b1f748 100644
--- a/algorithms/IBEA/IBEA.py
+++ b/algorithms/IBEA/IBEA.py
@@ -45,10 +45,10 @@ class IBEA(Driver):
         self.trim_function = trim_function
         self.population = [self.trim_function(x) for x in population]
 
-        self._scale_objectives()
-
         self.fitness_archive = fitness_archive
 
+        self._scale_objectives()
+
     def finalized_population(self):
         return self.finish()
 
@@ -76,7 +76,7 @@ class IBEA(Driver):
     def _scale_objectives(self):
         min_max = lambda x: (min(x), max(x))
         for ind in self.individuals:
-            if not ind.known_objectives or not (
+            if not ind.known_objectives and not (
                 (self.fitness_archive is not None) and (ind.v in self.fitness_archive)
             ):
                 self.cost += 1
-- 
2.43.0


From a8f5da4fe516cd6e3fa6485c664ed3550257d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 08/36] fix: HGS revival no longer rewrites the shared
 configuration

---
 algorithms/HGS/classic/ClassicHGS.py         | 2 +-
 algorithms/HGS/distributed/DistributedHGS.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 7541a7d..3a047e4 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -62,7 +62,7 @@ class ClassicHGS(ComplexDriver):
         self.max_level = max_level
         self.max_sprouts_no = max_sprouts_no
         self.sproutiveness = sproutiveness
-        self.min_progress_ratio = min_progress_ratio
+        self.min_progress_ratio = list(min_progress_ratio)
 
         self.mutation_etas = mutation_etas
         self.mutation_rates = mutation_rates
diff --git a/algorithms/HGS/distributed/DistributedHGS.py b/algorithms/HGS/distributed/DistributedHGS.py
index 425a2de..bea3984 100644
--- a/algorithms/HGS/distributed/DistributedHGS.py
+++ b/algorithms/HGS/distributed/DistributedHGS.py
@@ -64,7 +64,7 @@ class DistributedHGS(ComplexDriver):
         self.hgs_config.max_level = max_level
         self.hgs_config.max_sprouts_no = max_sprouts_no
         self.hgs_config.sproutiveness = sproutiveness
-        self.hgs_config.min_progress_ratio = min_progress_ratio
+        self.hgs_config.min_progress_ratio = list(min_progress_ratio)
 
         self.hgs_config.mutation_etas = mutation_etas
         self.hgs_config.mutation_rates = mutation_rates
-- 
2.43.0


From d7dfc560cae2b7554f634be21a9a51ab1f20307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 09/36] fix: distributed HGS redundancy trimming takes effect

---
 algorithms/HGS/distributed/actors.py     |  5 +++--
 algorithms/HGS/distributed/hgs_tasks.py  |  7 ++++---
 algorithms/HGS/distributed/node_tasks.py | 11 +++++++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/algorithms/HGS/distributed/actors.py b/algorithms/HGS/distributed/actors.py
index 0e4168a..64091b2 100644
--- a/algorithms/HGS/distributed/actors.py
+++ b/algorithms/HGS/distributed/actors.py
@@ -18,7 +18,7 @@ from algorithms.HGS.distributed.node_tasks import (
     GetPopulationNodeTask,
     NewMetaepochNodeTask,
     TrimNotProgressingNodeTask,
-    ReleaseSproutsNodeTask, ReviveNodeTask)
+    ReleaseSproutsNodeTask, ReviveNodeTask, KillNodeTask)
 from algorithms.HGS.distributed.hgs_tasks import (
     HgsOperationTask,
     MetaepochHgsTask,
@@ -206,7 +206,8 @@ class Node(TaskActor):
             NodeOperation.NEW_METAEPOCH: NewMetaepochNodeTask,
             NodeOperation.TRIM_NOT_PROGRESSING: TrimNotProgressingNodeTask,
             NodeOperation.RELEASE_SPROUTS: ReleaseSproutsNodeTask,
-            NodeOperation.REVIVE: ReviveNodeTask
+            NodeOperation.REVIVE: ReviveNodeTask,
+            NodeOperation.KILL: KillNodeTask
         }
 
     def get_task_owner_name(self):
diff --git a/algorithms/HGS/distributed/hgs_tasks.py b/algorithms/HGS/distributed/hgs_tasks.py
index 292b7b6..af8ebf7 100644
--- a/algorithms/HGS/distributed/hgs_tasks.py
+++ b/algorithms/HGS/distributed/hgs_tasks.py
@@ -248,8 +248,9 @@ class TrimRedundantHgsTask(HgsOperationTask):
             for level, lvl_infos in itertools.groupby(
                 self.trim_infos, key=lambda info: info.level
             ):
-                self.log(f"trim lvl infos: {list(lvl_infos)} for lvl={level}")
-                self.trim_redundant(list(lvl_infos))
+                lvl_infos = list(lvl_infos)
+                self.log(f"trim lvl infos: {lvl_infos} for lvl={level}")
+                self.trim_redundant(lvl_infos)
             self.hgs.send(
                 self.sender,
                 HgsMessage(HgsOperation.TRIM_REDUNDANT_END, self.sender_task_id, True),
@@ -270,7 +271,7 @@ class TrimRedundantHgsTask(HgsOperationTask):
                 ) and tools.redundant(
                     [another_sprout.center],
                     [sprout.center],
-                    self.hgs.min_dists[sprout.level],
+                    self.hgs.config.min_dists[sprout.level],
                 ):
                     self.hgs.send(sprout.node, NodeMessage(NodeOperation.KILL, self.id))
                     sprout.alive = False
diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index c8223de..4155561 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -59,6 +59,17 @@ class CheckStatusNodeTask(NodeOperationTask):
         self.node.send(sender, NodeMessage(NodeOperation.CHECK_STATUS, msg.id, state))
 
 
+class KillNodeTask(NodeOperationTask):
+    def __init__(self, node):
+        super().__init__(node)
+
+    def configure_steps(self, steps: Dict[OperationType, Callable]):
+        steps[NodeOperation.KILL] = self.kill
+
+    def kill(self, msg: NodeMessage, sender: Actor):
+        self.node.alive = False
+
+
 class ReviveNodeTask(NodeOperationTask):
     def __init__(self, node):
         super().__init__(node)
-- 
2.43.0


From 7c64c409c178a67cd4b320da241ec10c115a6af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 10/36] fix: distributed HGS answers a revive request when no
 node is ripe

---
 algorithms/HGS/distributed/hgs_tasks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algorithms/HGS/distributed/hgs_tasks.py b/algorithms/HGS/distributed/hgs_tasks.py
index af8ebf7..8daec80 100644
--- a/algorithms/HGS/distributed/hgs_tasks.py
+++ b/algorithms/HGS/distributed/hgs_tasks.py
@@ -364,6 +364,9 @@ class ReviveHgsTask(HgsOperationTask):
 
             # TODO: logging root revival
             self.log("!!!   RESURRECTION", lvl=logging.INFO)
+
+            if not ripe_nodes:
+                self.finish()
         else:
             self.finish()
 
-- 
2.43.0


From 0ea3e01f9534f452077c4e1e818014a66104d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 11/36] fix: distributed HGS counts sprouts released in the
 same round

---
 algorithms/HGS/distributed/node_tasks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index 4155561..12db5bc 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -335,5 +335,6 @@ class ReleaseSproutsNodeTask(NodeOperationTask):
         self.log("new sprout registered")
         self.node.sprouts.append(msg.data)
         self.released_sprouts += 1
+        self.alive_sprouts_count += 1
 
         self.try_relase_next_sprout()
-- 
2.43.0


From 8091ea2220b36a7cae1307c60efdb87d7e1e1bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 12/36] fix: dominance-indicator cache numbers runs in the
 reader's order

---
 simulation/metrics_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index ea342a0..619eab3 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -191,7 +191,7 @@ def preload_results_for_problem(cache, problem_path: Path):
     logger.debug("Loading for problem : {}".format(problem_name))
     for algo_path in problem_path.iterdir():
         if algo_path.is_dir():
-            runs = [run for run in algo_path.iterdir() if run.is_dir()]
+            runs = sorted(run for run in algo_path.iterdir() if run.is_dir())
             for run_no in range(len(runs)):
                 for result_file in runs[run_no].iterdir():
                     try:
-- 
2.43.0


From becc59866f5c476667f4ab7196d8711c3942c7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 13/36] fix: stale-cache cleanup matches file names, not parent
 directories

---
 simulation/metrics_processor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index 619eab3..43617fe 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -255,9 +255,11 @@ def filter_non_dominated_in_cache(problem_path: Path, cache):
 def clear_old_pdi_metrics(problem_path: Path):
     logger = logging.getLogger(__name__)
 
-    for filename in fnmatch.filter(
-        [str(p) for p in problem_path.iterdir()], "*{}_*".format(problem_path.name)
-    ):
+    for filename in [
+        str(p)
+        for p in problem_path.iterdir()
+        if fnmatch.fnmatch(p.name, "*{}_*".format(problem_path.name))
+    ]:
         os.remove(filename)
         logger.debug("Removing file: " + filename)
 
-- 
2.43.0


From 739c381a539a44dff96558cf8d825d6f57dd3bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 14/36] fix: an algorithm directory without results is skipped,
 not fatal

---
 statistic/stats_bootstrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/statistic/stats_bootstrap.py b/statistic/stats_bootstrap.py
index 5d81eaf..3fa752b 100644
--- a/statistic/stats_bootstrap.py
+++ b/statistic/stats_bootstrap.py
@@ -15,6 +15,8 @@ def validate_cost(result, boot_size, delta=500):
 
 
 def find_acceptable_result_for_budget(results, boot_size):
+    if not results:
+        return None
     delta = 500
     prev_budget = results[-1]["budget"]
     for result in reversed(results):
-- 
2.43.0


From f10151b45e3eb683c43a045a55be421c662486af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 15/36] fix: stats reads the results directory given with --dir

---
 statistic/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/statistic/stats.py b/statistic/stats.py
index 62a450c..cace502 100644
--- a/statistic/stats.py
+++ b/statistic/stats.py
@@ -83,7 +83,7 @@ def statistics(args):
 
     with close_and_join(multiprocessing.Pool(min(int(args["-j"]), 8))) as p:
         for problem_name, problem_mod, algorithms in serialization.each_result(
-            BudgetResultsExtractor()
+            BudgetResultsExtractor(), args["--dir"]
         ):
             for algo_name, budgets in algorithms:
                 header_just_printed = print_header()
-- 
2.43.0


From d33b22140868378572b06d18eaf8d914fe3d59e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 16/36] fix: BOGO archive keeps the member that rejects a
 dominated candidate

---
 algorithms/BOGO/BOGO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithms/BOGO/BOGO.py b/algorithms/BOGO/BOGO.py
index a46d123..c65e635 100644
--- a/algorithms/BOGO/BOGO.py
+++ b/algorithms/BOGO/BOGO.py
@@ -38,6 +38,7 @@ class BOGO(Driver):
         for archival in self.archive:
             if not individual_dominated and dominates(archival.fit, individual.fit):
                 individual_dominated = True
+                new_archive.append(archival)
             elif not dominates(individual.fit, archival.fit):
                 new_archive.append(archival)
         if not individual_dominated:
-- 
2.43.0


From 780c3e4b83efabfd45a3a1c79038593213d4597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 17/36] fix: stored population is a list, not an exhausted
 iterator

---
 simulation/worker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/worker.py b/simulation/worker.py
index 4905eba..4fb5293 100644
--- a/simulation/worker.py
+++ b/simulation/worker.py
@@ -113,7 +113,7 @@ class BudgetWorker(SimulationWorker):
         results = []
 
         def process_results(budget: int):
-            finalpop = driver.finalized_population()
+            finalpop = list(driver.finalized_population())
             finalpop_fit = [[fit(x) for fit in problem_mod.fitnesses] for x in finalpop]
             serializer.store(
                 Result(finalpop, finalpop_fit, cost=driver.cost), str(budget)
@@ -157,7 +157,7 @@ class TimeWorker(SimulationWorker):
         time_run = TimeRun(sampling_interval, timeout)
 
         def process_results(msg: TimeProgressMessage):
-            finalpop = driver.finalized_population()
+            finalpop = list(driver.finalized_population())
             print(f"final pop result: {finalpop}")
             finalpop_fit = [[fit(x) for fit in problem_mod.fitnesses] for x in finalpop]
 
-- 
2.43.0


From 41b64e308a149310469b3709e340275242f80772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 18/36] fix: the reference front of UF9 has no points with a
 negative objective

---
 problems/UF9/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/problems/UF9/problem.py b/problems/UF9/problem.py
index 044dbf0..6cfe4f8 100644
--- a/problems/UF9/problem.py
+++ b/problems/UF9/problem.py
@@ -12,7 +12,7 @@ z_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 pareto_front = [
     [x, 1 - x - z, z]
     for x, z in itertools.product(x_points, z_points)
-    if x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z)
+    if x + z <= 1 and (x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z))
 ]
 
 J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-- 
2.43.0


From 7f4cbfa7d362bcf10cae4ae3a86fd3e162bb3125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 19/36] fix: the reference front of UF6 stays within its
 attainable segments

---
 problems/UF6/problem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/problems/UF6/problem.py b/problems/UF6/problem.py
index aa28d5d..ac079fc 100644
--- a/problems/UF6/problem.py
+++ b/problems/UF6/problem.py
@@ -11,6 +11,7 @@ emoa_points = [
     x
     for i in range(1, n + 1)
     for x in numpy.arange((2 * i - 1) / (2 * n), (2 * i) / (2 * n) + p_step, p_step)
+    if x <= (2 * i) / (2 * n)
 ]
 pareto_front = [[0, 1]] + [[x, 1 - x] for x in emoa_points]
 pareto_set = []
-- 
2.43.0


From 7e0a5f54e5f6395f24b47f627a42a924042a737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 20/36] fix: the reference fronts of UF8 and UF10 lie on the
 unit sphere

---
 problems/UF10/problem.py | 2 +-
 problems/UF8/problem.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/UF10/problem.py b/problems/UF10/problem.py
index 3c3e39a..7f4b30e 100644
--- a/problems/UF10/problem.py
+++ b/problems/UF10/problem.py
@@ -10,7 +10,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 2)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
diff --git a/problems/UF8/problem.py b/problems/UF8/problem.py
index 830f97b..cd386d0 100644
--- a/problems/UF8/problem.py
+++ b/problems/UF8/problem.py
@@ -9,7 +9,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 2)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
-- 
2.43.0


From 1114996cc0ed640c9912ea92880950b6aebd7b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 21/36] fix: hypervolume of four and more objectives when
 points coincide in some of them

---
 algorithms/base/hv.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/algorithms/base/hv.py b/algorithms/base/hv.py
index 26f2526..65a0f20 100644
--- a/algorithms/base/hv.py
+++ b/algorithms/base/hv.py
@@ -134,8 +134,7 @@ class HyperVolume:
                 qArea[dimIndex] = qPrevDimIndex.area[dimIndex]
             else:
                 qArea[dimIndex] = hvRecursive(dimIndex - 1, length, bounds)
-                if qArea[dimIndex] <= qPrevDimIndex.area[dimIndex]:
-                    q.ignore = dimIndex
+                self.markDominated(q, dimIndex)
             while p is not sentinel:
                 pCargoDimIndex = p.cargo[dimIndex]
                 hvol += q.area[dimIndex] * (pCargoDimIndex - q.cargo[dimIndex])
@@ -149,11 +148,24 @@ class HyperVolume:
                     q.area[dimIndex] = q.prev[dimIndex].area[dimIndex]
                 else:
                     q.area[dimIndex] = hvRecursive(dimIndex - 1, length, bounds)
-                    if q.area[dimIndex] <= q.prev[dimIndex].area[dimIndex]:
-                        q.ignore = dimIndex
+                    self.markDominated(q, dimIndex)
             hvol -= q.area[dimIndex] * q.cargo[dimIndex]
             return hvol
 
+    def markDominated(self, q, dimIndex):
+        """Lets 'q' be skipped in the lists up to 'dimIndex' if it is dominated.
+
+        Above the first swept dimension an unchanged area is not enough: two
+        nodes that coincide there could each be skipped because of the other.
+
+        """
+        if dimIndex > 2:
+            dominated = q.ignore == dimIndex - 1
+        else:
+            dominated = q.area[dimIndex] <= q.prev[dimIndex].area[dimIndex]
+        if dominated:
+            q.ignore = dimIndex
+
     def preProcess(self, front):
         """Sets up the list data structure needed for calculation."""
         dimensions = len(self.referencePoint)
-- 
2.43.0


From 5a62a4e71e2933e8cfe2e1e610d90ea9be3bb2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 22/36] fix: ClassicHGS builds its tree for the configured
 max_level, not for three levels

---
 algorithms/HGS/classic/ClassicHGS.py | 48 +++++++++++++---------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 3a047e4..269db46 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -71,7 +71,9 @@ class ClassicHGS(ComplexDriver):
         self.population_sizes = population_sizes
 
         self.mantissa_bits = mantissa_bits
-        self.global_fitness_archive = [ResultArchive() for _ in range(3)]
+        self.global_fitness_archive = [
+            ResultArchive() for _ in range(self.max_level + 1)
+        ]
 
         # TODO add preconditions checking if message adapter is HGS message adapter
 
@@ -79,7 +81,8 @@ class ClassicHGS(ComplexDriver):
             self, 0, random.sample(population, self.population_sizes[0])
         )
         self.nodes = [self.root]
-        self.level_nodes = {0: [self.root], 1: [], 2: []}
+        self.level_nodes = {level: [] for level in range(self.max_level + 1)}
+        self.level_nodes[0].append(self.root)
 
         self.cost = 0
 
@@ -96,18 +99,15 @@ class ClassicHGS(ComplexDriver):
             len(self.nodes),
             len([x for x in self.nodes if x.alive]),
             len([x for x in self.nodes if x.ripe]),
-            "   zer:",
-            len(self.level_nodes[0]),
-            len([x for x in self.level_nodes[0] if x.alive]),
-            len([x for x in self.level_nodes[0] if x.ripe]),
-            "   one:",
-            len(self.level_nodes[1]),
-            len([x for x in self.level_nodes[1] if x.alive]),
-            len([x for x in self.level_nodes[1] if x.ripe]),
-            "   two:",
-            len(self.level_nodes[2]),
-            len([x for x in self.level_nodes[2] if x.alive]),
-            len([x for x in self.level_nodes[2] if x.ripe]),
+            *[
+                "   level {}: {} {} {}".format(
+                    level + 1,
+                    len(nodes),
+                    len([x for x in nodes if x.alive]),
+                    len([x for x in nodes if x.ripe]),
+                )
+                for level, nodes in self.level_nodes.items()
+            ]
         )
 
         self.run_metaepoch()
@@ -115,7 +115,7 @@ class ClassicHGS(ComplexDriver):
         self.release_new_sprouts()
         self.revive_root()
         print("Nodes:")
-        for i in range(3):
+        for i in range(self.max_level + 1):
             print(
                 "level {} : {} / {}".format(
                     i + 1,
@@ -127,13 +127,10 @@ class ClassicHGS(ComplexDriver):
     def run_metaepoch(self):
         node_jobs = []
 
-        for node in self.level_nodes[2]:
-            node_jobs.append(node.run_metaepoch())
-        for node in self.level_nodes[1]:
-            node_jobs.append(node.run_metaepoch())
-        for node in self.level_nodes[0]:
-            node_jobs.append(node.run_metaepoch())
-            # _plot_node(node, 'r', [[0, 1], [0, 3]])
+        for level in range(self.max_level, -1, -1):
+            for node in self.level_nodes[level]:
+                node_jobs.append(node.run_metaepoch())
+                # _plot_node(node, 'r', [[0, 1], [0, 3]])
         node_costs = []
         for node_job in node_jobs:
             node_job.pipe(
@@ -150,9 +147,8 @@ class ClassicHGS(ComplexDriver):
         return self.cost_modifiers[message.level] * message.epoch_cost
 
     def trim_sprouts(self):
-        self.trim_all(self.level_nodes[2])
-        self.trim_all(self.level_nodes[1])
-        self.trim_all(self.level_nodes[0])
+        for level in range(self.max_level, -1, -1):
+            self.trim_all(self.level_nodes[level])
 
     def trim_all(self, nodes):
         self.trim_not_progressing(nodes)
@@ -203,7 +199,7 @@ class ClassicHGS(ComplexDriver):
 
                 ripe_node.alive = True
                 ripe_node.ripe = False
-            for i in range(3):
+            for i in range(self.max_level + 1):
                 self.min_progress_ratio[i] /= 2
 
             # TODO: logging root revival
-- 
2.43.0


From ff90a2aa8e633a6f4235dc3b50ced0058f79c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 23/36] fix: distributed HGS keeps nodes for the configured
 max_level, so a step always ends

---
 algorithms/HGS/distributed/actors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algorithms/HGS/distributed/actors.py b/algorithms/HGS/distributed/actors.py
index 64091b2..e5d4561 100644
--- a/algorithms/HGS/distributed/actors.py
+++ b/algorithms/HGS/distributed/actors.py
@@ -150,7 +150,8 @@ class HgsNodeSupervisor(TaskActor):
         self.root = self.create_root_node()
         self.log("ROOT CREATED")
         self.nodes = [self.root]
-        self.level_nodes = {0: [self.root], 1: [], 2: []}
+        self.level_nodes = {level: [] for level in range(config.max_level + 1)}
+        self.level_nodes[0].append(self.root)
 
     def create_root_node(self):
         return self.create_node(
-- 
2.43.0


From dbc42183137a9eae4f1cdb28a09f0e8c6124cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 24/36] fix: a distributed metaepoch with no live node is
 answered

---
 algorithms/HGS/distributed/hgs_tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/HGS/distributed/hgs_tasks.py b/algorithms/HGS/distributed/hgs_tasks.py
index 8daec80..8af3f49 100644
--- a/algorithms/HGS/distributed/hgs_tasks.py
+++ b/algorithms/HGS/distributed/hgs_tasks.py
@@ -77,7 +77,7 @@ class MetaepochHgsTask(HgsOperationTask):
             )
         if self.nodes_finished == self.requests_count:
             self.log("All nodes have ended their metaepochs")
-            self.hgs.cost += max(self.metaepoch_costs)
+            self.hgs.cost += max(self.metaepoch_costs, default=0)
             self.hgs.send(
                 self.sender,
                 HgsMessage(
-- 
2.43.0


From 9a9066b1a9aa913fcad36f1244aa45f99dbc6fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 25/36] fix: the local search ends its step when no neighbour
 joins the population

---
 algorithms/NSLS/NSLS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/NSLS/NSLS.py b/algorithms/NSLS/NSLS.py
index 3384929..f4dc8e3 100644
--- a/algorithms/NSLS/NSLS.py
+++ b/algorithms/NSLS/NSLS.py
@@ -163,7 +163,7 @@ class NSLS(Driver):
         next_gen_individuals = []
 
         front_no = 1
-        while (
+        while self.front[front_no] and (
             len(next_gen_individuals) + len(self.front[front_no])
             <= self.population_size
         ):
-- 
2.43.0


From f2e5f61571abeba913064334a462a2b98984d3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 26/36] fix: theta-dominance search ends its step for a single
 individual

---
 algorithms/NSGAIII/NSGAIII.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/NSGAIII/NSGAIII.py b/algorithms/NSGAIII/NSGAIII.py
index a6a3153..e7b9c4b 100644
--- a/algorithms/NSGAIII/NSGAIII.py
+++ b/algorithms/NSGAIII/NSGAIII.py
@@ -283,7 +283,7 @@ class NSGAIII(Driver):
         new_inds = []
         new_size = len(new_inds)
         i = 1
-        while new_size + len(fronts[i]) <= self.population_size:
+        while fronts[i] and new_size + len(fronts[i]) <= self.population_size:
             new_inds.extend(fronts[i])
             new_size = len(new_inds)
             i += 1
-- 
2.43.0


From bd51b8f02ec049f5052b0c2288302fb42b9d880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 27/36] fix: a gene that jumps at the upper bound does not land
 above it

---
 algorithms/JGBL/JGBL.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/algorithms/JGBL/JGBL.py b/algorithms/JGBL/JGBL.py
index 415c8c2..ab1dad6 100644
--- a/algorithms/JGBL/JGBL.py
+++ b/algorithms/JGBL/JGBL.py
@@ -134,7 +134,10 @@ class JGBL(NSGAII):
 
     def decode_ratio(self, ratio):
         return [
-            self.dims[i][0] + ratio[i] * (self.dims[i][1] - self.dims[i][0])
+            min(
+                self.dims[i][1],
+                self.dims[i][0] + ratio[i] * (self.dims[i][1] - self.dims[i][0]),
+            )
             for i in range(len(ratio))
         ]
 
-- 
2.43.0


From fb2bfdac99d75107f74cdcaf98c25c9b5478f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 28/36] fix: a repeated solution counts once in the dominance
 indicator

---
 metrics/metrics_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics/metrics_utils.py b/metrics/metrics_utils.py
index ab62d15..0efe1e8 100644
--- a/metrics/metrics_utils.py
+++ b/metrics/metrics_utils.py
@@ -92,9 +92,9 @@ def distance(from_set, to_set):
 
 
 def pareto_dominance_indicator(solution, not_dominated_solution, all_solutions):
-    non_dominated_intersection = [
-        s for s in not_dominated_solution if tuple(s) in all_solutions
-    ]
+    non_dominated_intersection = {
+        tuple(s) for s in not_dominated_solution if tuple(s) in all_solutions
+    }
     return len(non_dominated_intersection) / len(all_solutions)
 
 
-- 
2.43.0


From 043cd27ab6915356962fa6c86e50ebd3c133c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:47 +0000
Subject: [PATCH 29/36] fix: a single value is resampled as one value, not as
 none

---
 statistic/stats_bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/statistic/stats_bootstrap.py b/statistic/stats_bootstrap.py
index 3fa752b..ca2c2d5 100644
--- a/statistic/stats_bootstrap.py
+++ b/statistic/stats_bootstrap.py
@@ -95,7 +95,7 @@ def yield_analysis(data_process, boot_size):
         mean_nooutliers = float("inf")
 
     btstrpd = bootstrap(
-        data_process, average, boot_size, int(len(data_process) * 0.66), 0.025
+        data_process, average, boot_size, max(1, int(len(data_process) * 0.66)), 0.025
     )
 
     goodbench = "✓"
-- 
2.43.0


From 6ab9068b552188ccc4174144f01a7197a10a803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:02 +0000
Subject: [PATCH 30/36] fix: SPEA2 compares equally close individuals by their
 further neighbours

---
 algorithms/SPEA2/SPEA2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index f90c7e5..424a8ef 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -185,7 +185,7 @@ class SPEA2(Driver):
         return self.get_min(distances, 0)[0]
 
     def get_min(self, distances, level):
-        if level >= len(distances):
+        if level >= len(distances[0][1]):
             return distances[0]
 
         sorted_distances = sorted(distances, key=lambda dist: dist[1][level][1])
-- 
2.43.0


From 75a3b8cdb17cedab9793143eab76a863e2309084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:19 +0000
Subject: [PATCH 31/36] fix: UF8, UF9 and UF10 sum over the published index
 sets

The sets are the indices j for which j-1, j-2 and j are multiples of three;
the conditions selected the indices for which they are not.
---
 problems/UF10/problem.py | 6 +++---
 problems/UF8/problem.py  | 6 +++---
 problems/UF9/problem.py  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/problems/UF10/problem.py b/problems/UF10/problem.py
index 7f4b30e..ae8e97b 100644
--- a/problems/UF10/problem.py
+++ b/problems/UF10/problem.py
@@ -17,9 +17,9 @@ pareto_front = [
 
 pareto_set = []
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
+J2 = [j for j in range(3, n + 1) if (j - 2) % 3 == 0]
+J3 = [j for j in range(3, n + 1) if j % 3 == 0]
 
 
 def yj(x, j):
diff --git a/problems/UF8/problem.py b/problems/UF8/problem.py
index cd386d0..9b90480 100644
--- a/problems/UF8/problem.py
+++ b/problems/UF8/problem.py
@@ -15,9 +15,9 @@ pareto_front = [
 ]
 pareto_set = []
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
+J2 = [j for j in range(3, n + 1) if (j - 2) % 3 == 0]
+J3 = [j for j in range(3, n + 1) if j % 3 == 0]
 
 
 def base_fit(x, J):
diff --git a/problems/UF9/problem.py b/problems/UF9/problem.py
index 6cfe4f8..062d2ea 100644
--- a/problems/UF9/problem.py
+++ b/problems/UF9/problem.py
@@ -15,9 +15,9 @@ pareto_front = [
     if x + z <= 1 and (x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z))
 ]
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
+J2 = [j for j in range(3, n + 1) if (j - 2) % 3 == 0]
+J3 = [j for j in range(3, n + 1) if j % 3 == 0]
 
 
 def base_fit(x, J):
-- 
2.43.0


From 2d3625357cf84d508f1ee66d67524495b78e1e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:54 +0000
Subject: [PATCH 32/36] fix: the listing of a suspicious result marks the
 values that are out of bounds
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

It counted and marked the values inside mean±3σ as out of it, and left a value on
the outer upper fence unmarked while one on the inner fence was called an outlier,
unlike the counts of yield_analysis.
---
 statistic/stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/statistic/stats.py b/statistic/stats.py
index cace502..60fc11b 100644
--- a/statistic/stats.py
+++ b/statistic/stats.py
@@ -143,7 +143,7 @@ def statistics(args):
                                     [
                                         x
                                         for x in data_process
-                                        if lower_process <= x <= upper_process
+                                        if not (lower_process <= x <= upper_process)
                                     ]
                                 )
                                 print(
@@ -185,7 +185,7 @@ def statistics(args):
                                         "{err_prefix}:: {0:>30.20}  = avg {1:<+30} = avg {3:+8.3f}% ⨉ σ | {2:17} {4:17} {5:17}\n".format(
                                             x,
                                             x - mean_process,
-                                            (lower_process <= x <= upper_process)
+                                            not (lower_process <= x <= upper_process)
                                             and "(out of mean±3σ)"
                                             or "",
                                             aux(x),
@@ -197,8 +197,8 @@ def statistics(args):
                                                 )
                                                 or (
                                                     analysis["upp_inn_fence"]
-                                                    <= x
-                                                    < upp_out_fence_process
+                                                    < x
+                                                    <= upp_out_fence_process
                                                 )
                                             )
                                             and " (mild outlier)"
-- 
2.43.0


From b37e1621c3c58ebb717b40883ebe911221c7adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:36 +0000
Subject: [PATCH 33/36] fix: OMOPSO gives up its most crowded leader and
 follows the less crowded one

---
 algorithms/OMOPSO/OMOPSO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index fae2fc2..24d5c15 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -229,7 +229,7 @@ class CrowdingTournament:
 
     def __call__(self, pool):
         sub_pool = random.sample(pool.archive, self.tournament_size)
-        return min(sub_pool, key=lambda x: x.crowd_val)
+        return max(sub_pool, key=lambda x: x.crowd_val)
 
 
 class Individual:
@@ -303,7 +303,7 @@ class LeaderArchive(Archive):
 
     def prune(self):
         self.crowding()
-        worst_res = max(self.archive, key=lambda x: x.crowd_val)
+        worst_res = min(self.archive, key=lambda x: x.crowd_val)
         self.archive.remove(worst_res)
 
     def crowding(self):
@@ -324,7 +324,7 @@ class LeaderArchive(Archive):
             for j in range(1, archive_len - 1):
                 if obj_max - obj_min > 0:
                     dist = (
-                        self.archive[j].objectives[i]
+                        self.archive[j + 1].objectives[i]
                         - self.archive[j - 1].objectives[i]
                     )
                     dist /= obj_max - obj_min
-- 
2.43.0


From ccaf18a9bde6586e34415ee35e786595d1e90fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:36 +0000
Subject: [PATCH 34/36] fix: pictures leaves out algorithms without a place in
 the figures instead of failing

---
 plots/pictures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index aaf71b1..942d6b7 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -554,7 +554,7 @@ def pictures_time(args):
 
                             keys = [
                                 (problem_name, algo_name, metric_name, group)
-                                for group in algos_groups[algo_name]
+                                for group in algos_groups.get(algo_name, ())
                             ]
                             value = (time, 0, score, score_err)
                             for key in keys:
-- 
2.43.0


From 7b05778c988236bb71c88160085fda594837a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:36 +0000
Subject: [PATCH 35/36] fix: the time axis of pictures reaches to the latest
 result of all series

---
 plots/pictures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index 942d6b7..24a4899 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -559,7 +559,7 @@ def pictures_time(args):
                             value = (time, 0, score, score_err)
                             for key in keys:
                                 plot_data[key].append(value)
-    max_time = max(list(plot_data.values())[0])[0]
+    max_time = max((x[0] for values in plot_data.values() for x in values), default=0)
     plot_results(plot_data, plots_dir, (0, max_time))
 
 
-- 
2.43.0


From a80586d282f6608904c554645bd85299c58d32e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:36 +0000
Subject: [PATCH 36/36] fix: pictures_summary survives a problem without
 accepted results

---
 plots/pictures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index 24a4899..a511816 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -659,7 +659,8 @@ def pictures_summary(args):
                 if metric_name != "pdi":
 
                     max_score = (
-                        max(x for algo, x in problem_score[metric_name]) + 0.0001
+                        max((x for algo, x in problem_score[metric_name]), default=0)
+                        + 0.0001
                     )
                     for algo_name, _ in algos:
                         if (
-- 
2.43.0

