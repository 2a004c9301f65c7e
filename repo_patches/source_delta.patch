From 7986cdb8dc51b61ca9da262eb93b48a993be94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 01/42] fix: hypervolume of points with tied coordinates in
 four or more objectives

---
 algorithms/base/hv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/algorithms/base/hv.py b/algorithms/base/hv.py
index 26f2526..ea549b9 100644
--- a/algorithms/base/hv.py
+++ b/algorithms/base/hv.py
@@ -166,13 +166,15 @@ class HyperVolume:
 
     def sortByDimension(self, nodes, i):
         """Sorts the list of nodes by the i-th value of the contained points."""
-        # build a list of tuples of (point[i], node)
-        decorated = [(node.cargo[i], node) for node in nodes]
+        # build a list of tuples of (point[i], point, node): ties are broken
+        # lexicographically, so that a dominating point always precedes the
+        # points it dominates (the 'ignore' shortcut relies on this)
+        decorated = [(node.cargo[i], tuple(node.cargo), node) for node in nodes]
 
         # sort by this value
         decorated.sort()
         # write back to original list
-        nodes[:] = [node for (_, node) in decorated]
+        nodes[:] = [node for (_, _, node) in decorated]
 
 
 class MultiList:
-- 
2.43.0


From 133fcdcc3ac013f2e06f720050a1be10e01833f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 02/42] fix: OMOPSO never applied its mutation operators (lazy
 map)

---
 algorithms/OMOPSO/OMOPSO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index bcdbdba..25d0ead 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -162,7 +162,8 @@ class OMOPSO(Driver):
         uniform_mutation = UniformMutation(
             self.mutation_probability, self.mutation_perturbation, self.dims
         )
-        map(uniform_mutation, self.individuals[0:pop_part])
+        for p in self.individuals[0:pop_part]:
+            uniform_mutation(p)
 
         if evolution_progress:
             non_uniform_mutation = NonUniformMutation(
@@ -171,7 +172,8 @@ class OMOPSO(Driver):
                 self.mutation_perturbation,
                 self.dims,
             )
-            map(non_uniform_mutation, self.individuals[pop_part : 2 * pop_part])
+            for p in self.individuals[pop_part : 2 * pop_part]:
+                non_uniform_mutation(p)
 
 
 class Mutation(object):
-- 
2.43.0


From 20b09db1c7fc63863944745f65d86b28e6ca5ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 03/42] fix: OMOPSO moved the particles of the caller's initial
 population in place

---
 algorithms/OMOPSO/OMOPSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 25d0ead..7cfe8dc 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -27,7 +27,7 @@ class OMOPSO(Driver):
         super().__init__(*args, **kwargs)
         self.fitnesses = fitnesses
         self.dims = dims
-        self.individuals = [Individual(trim_function(x)) for x in population]
+        self.individuals = [Individual(list(trim_function(x))) for x in population]
         self.mutation_probability = mutation_probability
 
         self.leaders_size = len(population)  # parameter?
-- 
2.43.0


From 1dcfc60ea05de16e7b142f34f36fa909a001aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 04/42] fix: NSLS looped forever when no local search step was
 accepted

---
 algorithms/NSLS/NSLS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algorithms/NSLS/NSLS.py b/algorithms/NSLS/NSLS.py
index 3384929..d69af30 100644
--- a/algorithms/NSLS/NSLS.py
+++ b/algorithms/NSLS/NSLS.py
@@ -164,7 +164,8 @@ class NSLS(Driver):
 
         front_no = 1
         while (
-            len(next_gen_individuals) + len(self.front[front_no])
+            len(self.front[front_no]) > 0
+            and len(next_gen_individuals) + len(self.front[front_no])
             <= self.population_size
         ):
             next_gen_individuals.extend(self.front[front_no])
-- 
2.43.0


From 5a15daeee997879086be8f56216d06458cbef669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 05/42] fix: cost accounting of SMSEMOA, SPEA2 and OMOPSO
 charged whole populations

---
 algorithms/OMOPSO/OMOPSO.py   | 3 +--
 algorithms/SMSEMOA/SMSEMOA.py | 3 +--
 algorithms/SPEA2/SPEA2.py     | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 7cfe8dc..8fd5fb0 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -117,10 +117,9 @@ class OMOPSO(Driver):
         for p in self.individuals:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.individuals)
+                objectives_cost += 1
         return objectives_cost
 
     def move(self):
diff --git a/algorithms/SMSEMOA/SMSEMOA.py b/algorithms/SMSEMOA/SMSEMOA.py
index 4e09ec3..b91a479 100644
--- a/algorithms/SMSEMOA/SMSEMOA.py
+++ b/algorithms/SMSEMOA/SMSEMOA.py
@@ -66,10 +66,9 @@ class SMSEMOA(Driver):
         for p in pop:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def generate(self, pop):
diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index 5cb88c3..f90c7e5 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -117,10 +117,9 @@ class SPEA2(Driver):
                 p["value"] in self.fitness_archive
             ):
                 p["objectives"] = self.fitness_archive[p["value"]]
-                objectives_cost = 0
             else:
                 p["objectives"] = [o(p["value"]) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def calculate_dominated(self, pop):
-- 
2.43.0


From 1f5a91009954e0361c359bcbe500ddf6b7154b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 06/42] fix: BOGO dropped the archive members that dominate a
 new individual

---
 algorithms/BOGO/BOGO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithms/BOGO/BOGO.py b/algorithms/BOGO/BOGO.py
index a46d123..c65e635 100644
--- a/algorithms/BOGO/BOGO.py
+++ b/algorithms/BOGO/BOGO.py
@@ -38,6 +38,7 @@ class BOGO(Driver):
         for archival in self.archive:
             if not individual_dominated and dominates(archival.fit, individual.fit):
                 individual_dominated = True
+                new_archive.append(archival)
             elif not dominates(individual.fit, archival.fit):
                 new_archive.append(archival)
         if not individual_dominated:
-- 
2.43.0


From 8b77219217030257d703197d444db0209c781057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 07/42] fix: IBEA charged the whole population again in every
 generation

---
 algorithms/IBEA/IBEA.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algorithms/IBEA/IBEA.py b/algorithms/IBEA/IBEA.py
index ff27292..3148781 100644
--- a/algorithms/IBEA/IBEA.py
+++ b/algorithms/IBEA/IBEA.py
@@ -43,12 +43,11 @@ class IBEA(Driver):
         self.k = kappa
         self.mating_size_c = mating_population_size
         self.trim_function = trim_function
+        self.fitness_archive = fitness_archive
         self.population = [self.trim_function(x) for x in population]
 
         self._scale_objectives()
 
-        self.fitness_archive = fitness_archive
-
     def finalized_population(self):
         return self.finish()
 
@@ -76,7 +75,7 @@ class IBEA(Driver):
     def _scale_objectives(self):
         min_max = lambda x: (min(x), max(x))
         for ind in self.individuals:
-            if not ind.known_objectives or not (
+            if not ind.known_objectives and not (
                 (self.fitness_archive is not None) and (ind.v in self.fitness_archive)
             ):
                 self.cost += 1
-- 
2.43.0


From 1bb46c9a7e000772d21610d0da3c12c3fe1743ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 08/42] fix: SPEA2 truncation stopped comparing neighbour
 distances too early

---
 algorithms/SPEA2/SPEA2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index f90c7e5..424a8ef 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -185,7 +185,7 @@ class SPEA2(Driver):
         return self.get_min(distances, 0)[0]
 
     def get_min(self, distances, level):
-        if level >= len(distances):
+        if level >= len(distances[0][1]):
             return distances[0]
 
         sorted_distances = sorted(distances, key=lambda dist: dist[1][level][1])
-- 
2.43.0


From 08ec0b62f6a909852089a4ae2c38366010542cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 09/42] fix: OMOPSO archive skipped members while removing
 dominated ones

---
 algorithms/OMOPSO/OMOPSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 8fd5fb0..c81c559 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -278,7 +278,7 @@ class Archive(object):
 
     def add(self, p):
 
-        for l in self.archive:
+        for l in list(self.archive):
             if l.dominates(p, self.eta):
                 return False
             elif p.dominates(l, self.eta):
-- 
2.43.0


From 67eafaa9d29f3569a42b8f0130e4484230161bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 10/42] fix: IBEA tournament preferred the individual with the
 worse indicator fitness

---
 algorithms/IBEA/IBEA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/IBEA/IBEA.py b/algorithms/IBEA/IBEA.py
index 3148781..48bc146 100644
--- a/algorithms/IBEA/IBEA.py
+++ b/algorithms/IBEA/IBEA.py
@@ -138,9 +138,9 @@ class IBEA(Driver):
     def _mating_selection(self, p):
         coin = lambda: random.random() < p
         better = (
-            lambda x1, x2: self.fitness[x1] < self.fitness[x2] and x1 or x2
+            lambda x1, x2: self.fitness[x1] > self.fitness[x2] and x1 or x2
             if coin()
-            else self.fitness[x1] > self.fitness[x2] and x1 or x2
+            else self.fitness[x1] < self.fitness[x2] and x1 or x2
         )
         self.mating_individuals = [
             better(random.choice(self.individuals), random.choice(self.individuals))
-- 
2.43.0


From 48cf74fdbb8bf6297ece02382df86848bffef144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 11/42] fix: HGS revival modified the progress thresholds
 shared by all simulations

---
 algorithms/HGS/classic/ClassicHGS.py         | 2 +-
 algorithms/HGS/distributed/DistributedHGS.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 7541a7d..3a047e4 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -62,7 +62,7 @@ class ClassicHGS(ComplexDriver):
         self.max_level = max_level
         self.max_sprouts_no = max_sprouts_no
         self.sproutiveness = sproutiveness
-        self.min_progress_ratio = min_progress_ratio
+        self.min_progress_ratio = list(min_progress_ratio)
 
         self.mutation_etas = mutation_etas
         self.mutation_rates = mutation_rates
diff --git a/algorithms/HGS/distributed/DistributedHGS.py b/algorithms/HGS/distributed/DistributedHGS.py
index 425a2de..bea3984 100644
--- a/algorithms/HGS/distributed/DistributedHGS.py
+++ b/algorithms/HGS/distributed/DistributedHGS.py
@@ -64,7 +64,7 @@ class DistributedHGS(ComplexDriver):
         self.hgs_config.max_level = max_level
         self.hgs_config.max_sprouts_no = max_sprouts_no
         self.hgs_config.sproutiveness = sproutiveness
-        self.hgs_config.min_progress_ratio = min_progress_ratio
+        self.hgs_config.min_progress_ratio = list(min_progress_ratio)
 
         self.hgs_config.mutation_etas = mutation_etas
         self.hgs_config.mutation_rates = mutation_rates
-- 
2.43.0


From b84aaa9c43e9f2142eee138091dee3df97418066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 12/42] fix: a run without --algo selected no algorithm instead
 of all of them

---
 simulation/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/factory.py b/simulation/factory.py
index 366dc6f..c2a896c 100644
--- a/simulation/factory.py
+++ b/simulation/factory.py
@@ -96,6 +96,8 @@ def parse_algorithms(args):
             algo for algo in run_config.algorithms if algo.lower() in algorithms_filter
         ]
         logger.debug("Selected: %s", algorithms)
+    else:
+        algorithms = run_config.algorithms
     return algorithms
 
 
-- 
2.43.0


From 1fcd48919c436e83ff793161b2aaeaa4002dae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 13/42] fix: a failed simulation aborted the rest of the batch

---
 simulation/run_parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/run_parallel.py b/simulation/run_parallel.py
index c756c82..5a0e43d 100644
--- a/simulation/run_parallel.py
+++ b/simulation/run_parallel.py
@@ -39,7 +39,7 @@ def run_parallel(args):
 
         def process_result(subres):
             results.append(subres)
-            log_simulation_stats(start_time, subres[-1], len(simulation_cases))
+            log_simulation_stats(start_time, len(results), len(simulation_cases))
 
         rx.from_iterable(range(len(simulation_cases))).pipe(
             ops.map(lambda i: worker_factory(simulation_cases[i], i)),
-- 
2.43.0


From 7265f9c613dbe7aec465c7a2b5151d4342dbfa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 14/42] fix: clearing the PDI cache tried to remove results
 below a path that contains the problem name

---
 simulation/metrics_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index ea342a0..0cca846 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -256,9 +256,9 @@ def clear_old_pdi_metrics(problem_path: Path):
     logger = logging.getLogger(__name__)
 
     for filename in fnmatch.filter(
-        [str(p) for p in problem_path.iterdir()], "*{}_*".format(problem_path.name)
+        [p.name for p in problem_path.iterdir()], "{}_*".format(problem_path.name)
     ):
-        os.remove(filename)
+        os.remove(str(problem_path / filename))
         logger.debug("Removing file: " + filename)
 
     for root, dirnames, filenames in os.walk(str(problem_path)):
-- 
2.43.0


From d59f1b69206abaa1baa8fd050a552679dcd07019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 15/42] fix: PDI counted duplicated solutions several times

---
 metrics/metrics_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics/metrics_utils.py b/metrics/metrics_utils.py
index ab62d15..0efe1e8 100644
--- a/metrics/metrics_utils.py
+++ b/metrics/metrics_utils.py
@@ -92,9 +92,9 @@ def distance(from_set, to_set):
 
 
 def pareto_dominance_indicator(solution, not_dominated_solution, all_solutions):
-    non_dominated_intersection = [
-        s for s in not_dominated_solution if tuple(s) in all_solutions
-    ]
+    non_dominated_intersection = {
+        tuple(s) for s in not_dominated_solution if tuple(s) in all_solutions
+    }
     return len(non_dominated_intersection) / len(all_solutions)
 
 
-- 
2.43.0


From b74e2431f345cbfd44084f39d6f1496d385ff5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 16/42] fix: PDI numbered runs in directory order, unlike the
 loaded results

---
 simulation/metrics_processor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index 0cca846..de29e92 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -191,7 +191,14 @@ def preload_results_for_problem(cache, problem_path: Path):
     logger.debug("Loading for problem : {}".format(problem_name))
     for algo_path in problem_path.iterdir():
         if algo_path.is_dir():
-            runs = [run for run in algo_path.iterdir() if run.is_dir()]
+            runs = sorted(
+                run
+                for run in algo_path.iterdir()
+                if run.is_dir()
+                and re.fullmatch(
+                    "\d{4}-\d{2}-\d{2}\.\d{6}\.\d{6}__\d{7}", run.name
+                )
+            )
             for run_no in range(len(runs)):
                 for result_file in runs[run_no].iterdir():
                     try:
-- 
2.43.0


From a47a06b98aa08e2ff056fa90ba3ec2c8f8b9219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 17/42] fix: the confidence interval of a single result was
 (-inf, -inf)

---
 statistic/stats_bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/statistic/stats_bootstrap.py b/statistic/stats_bootstrap.py
index 5d81eaf..34a1701 100644
--- a/statistic/stats_bootstrap.py
+++ b/statistic/stats_bootstrap.py
@@ -93,7 +93,7 @@ def yield_analysis(data_process, boot_size):
         mean_nooutliers = float("inf")
 
     btstrpd = bootstrap(
-        data_process, average, boot_size, int(len(data_process) * 0.66), 0.025
+        data_process, average, boot_size, max(1, int(len(data_process) * 0.66)), 0.025
     )
 
     goodbench = "✓"
-- 
2.43.0


From 03ef8700aaf5c64c15780504cd9c689eb4e21933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:00 +0000
Subject: [PATCH 18/42] fix: the statistics report flagged the values within
 three deviations as outside

---
 statistic/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/statistic/stats.py b/statistic/stats.py
index 62a450c..57b2e02 100644
--- a/statistic/stats.py
+++ b/statistic/stats.py
@@ -185,7 +185,7 @@ def statistics(args):
                                         "{err_prefix}:: {0:>30.20}  = avg {1:<+30} = avg {3:+8.3f}% ⨉ σ | {2:17} {4:17} {5:17}\n".format(
                                             x,
                                             x - mean_process,
-                                            (lower_process <= x <= upper_process)
+                                            not (lower_process <= x <= upper_process)
                                             and "(out of mean±3σ)"
                                             or "",
                                             aux(x),
-- 
2.43.0


From 2ba2ee488a3822e67e9129b3db98143b1db4dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 19/42] fix: UF8, UF9 and UF10 summed each objective over the
 complement of its index set

---
 problems/UF10/problem.py | 6 +++---
 problems/UF8/problem.py  | 6 +++---
 problems/UF9/problem.py  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/problems/UF10/problem.py b/problems/UF10/problem.py
index 3c3e39a..19352d9 100644
--- a/problems/UF10/problem.py
+++ b/problems/UF10/problem.py
@@ -17,9 +17,9 @@ pareto_front = [
 
 pareto_set = []
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if not (j - 1) % 3]
+J2 = [j for j in range(3, n + 1) if not (j - 2) % 3]
+J3 = [j for j in range(3, n + 1) if not j % 3]
 
 
 def yj(x, j):
diff --git a/problems/UF8/problem.py b/problems/UF8/problem.py
index 830f97b..bda49f6 100644
--- a/problems/UF8/problem.py
+++ b/problems/UF8/problem.py
@@ -15,9 +15,9 @@ pareto_front = [
 ]
 pareto_set = []
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if not (j - 1) % 3]
+J2 = [j for j in range(3, n + 1) if not (j - 2) % 3]
+J3 = [j for j in range(3, n + 1) if not j % 3]
 
 
 def base_fit(x, J):
diff --git a/problems/UF9/problem.py b/problems/UF9/problem.py
index 044dbf0..1c63821 100644
--- a/problems/UF9/problem.py
+++ b/problems/UF9/problem.py
@@ -15,9 +15,9 @@ pareto_front = [
     if x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z)
 ]
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if not (j - 1) % 3]
+J2 = [j for j in range(3, n + 1) if not (j - 2) % 3]
+J3 = [j for j in range(3, n + 1) if not j % 3]
 
 
 def base_fit(x, J):
-- 
2.43.0


From 24a9dc18bc6602893d883f2c5b8c7229ad367cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 20/42] fix: reference fronts of UF8 and UF10 did not lie on
 the sphere

---
 problems/UF10/problem.py | 2 +-
 problems/UF8/problem.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/UF10/problem.py b/problems/UF10/problem.py
index 19352d9..8edfe2d 100644
--- a/problems/UF10/problem.py
+++ b/problems/UF10/problem.py
@@ -10,7 +10,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.sqrt(1 - x ** 2 - y ** 2)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
diff --git a/problems/UF8/problem.py b/problems/UF8/problem.py
index bda49f6..b31d1c8 100644
--- a/problems/UF8/problem.py
+++ b/problems/UF8/problem.py
@@ -9,7 +9,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.sqrt(1 - x ** 2 - y ** 2)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
-- 
2.43.0


From 998d0e87edf9300734ed0b50a91984e19843de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 21/42] fix: reference front of UF9 had unattainable vectors
 with a negative objective

---
 problems/UF9/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/problems/UF9/problem.py b/problems/UF9/problem.py
index 1c63821..c3523ee 100644
--- a/problems/UF9/problem.py
+++ b/problems/UF9/problem.py
@@ -12,7 +12,7 @@ z_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 pareto_front = [
     [x, 1 - x - z, z]
     for x, z in itertools.product(x_points, z_points)
-    if x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z)
+    if x <= 0.25 * (1 - z) or 0.75 * (1 - z) <= x <= 1 - z
 ]
 
 J1 = [j for j in range(3, n + 1) if not (j - 1) % 3]
-- 
2.43.0


From b3d6e6dee230625c9ce1a0b8470006f7e9be66a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 22/42] fix: reference front of UF6 ran past the ends of its
 segments

---
 problems/UF6/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/UF6/problem.py b/problems/UF6/problem.py
index aa28d5d..842deed 100644
--- a/problems/UF6/problem.py
+++ b/problems/UF6/problem.py
@@ -5,12 +5,12 @@ import numpy
 
 n = 30
 eps = 0.1
-p_step = (1 - 1 / (2 * n)) / 150
+p_no = 150
 
 emoa_points = [
     x
     for i in range(1, n + 1)
-    for x in numpy.arange((2 * i - 1) / (2 * n), (2 * i) / (2 * n) + p_step, p_step)
+    for x in numpy.linspace((2 * i - 1) / (2 * n), (2 * i) / (2 * n), p_no // n)
 ]
 pareto_front = [[0, 1]] + [[x, 1 - x] for x in emoa_points]
 pareto_set = []
-- 
2.43.0


From 4588a406b1675ccb6fc32f33ffd8f2da7d1dcad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 23/42] fix: the first island below a single torus row had no
 neighbours

---
 algorithms/IMGA/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/IMGA/topology.py b/algorithms/IMGA/topology.py
index e9d7f18..9cc2bbf 100644
--- a/algorithms/IMGA/topology.py
+++ b/algorithms/IMGA/topology.py
@@ -41,7 +41,7 @@ class TorusTopology(Topology):
 
                 neighbors = set()
 
-                if len(t) > self.width:
+                if len(t) >= self.width:
                     last = i - self.width
                     last_neighbors = t[last]
 
-- 
2.43.0


From ba604df1227a78452e0d5a35ae202e730ebc11b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:30 +0000
Subject: [PATCH 24/42] fix: IMGA returned its population as a one-shot
 iterator, so stored results were empty

---
 algorithms/IMGA/IMGA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algorithms/IMGA/IMGA.py b/algorithms/IMGA/IMGA.py
index 9dfb665..f03a2c3 100644
--- a/algorithms/IMGA/IMGA.py
+++ b/algorithms/IMGA/IMGA.py
@@ -60,8 +60,10 @@ class IMGA(ComplexDriver):
                 island.driver.max_budget = self.max_budget
 
     def finalized_population(self):
-        return itertools.chain(
-            *(island.driver.finalized_population() for island in self.islands)
+        return list(
+            itertools.chain(
+                *(island.driver.finalized_population() for island in self.islands)
+            )
         )
 
     def step(self):
-- 
2.43.0


From 30d104d1734c605b7be407ca711a96752bbf3986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 25/42] fix: IMGA told its islands the budget before it was
 known, so never

---
 algorithms/IMGA/IMGA.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/algorithms/IMGA/IMGA.py b/algorithms/IMGA/IMGA.py
index f03a2c3..4c52151 100644
--- a/algorithms/IMGA/IMGA.py
+++ b/algorithms/IMGA/IMGA.py
@@ -52,8 +52,6 @@ class IMGA(ComplexDriver):
 
         self.logger = logging.getLogger(__name__)
 
-        self.spread_budget_info()
-
     def spread_budget_info(self):
         if self.max_budget:
             for island in self.islands:
@@ -67,6 +65,7 @@ class IMGA(ComplexDriver):
         )
 
     def step(self):
+        self.spread_budget_info()
         last_result = (
             rx.from_iterable(self.islands)
             .pipe(
-- 
2.43.0


From 5e3f6f08715486264716bfde30b8697644576de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:37 +0000
Subject: [PATCH 26/42] fix: HGS demes saw negative objective values as
 positive

---
 algorithms/HGS/classic/ClassicHGS.py | 5 +----
 algorithms/HGS/tools.py              | 4 +---
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 3a047e4..8f11541 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -1,5 +1,4 @@
 import collections
-import math
 import random
 import time
 
@@ -213,9 +212,7 @@ class ClassicHGS(ComplexDriver):
         def blurred(f):
             def blurred_f(*args, **kwargs):
                 f_val = f(*args, **kwargs)
-                x = math.fabs(
-                    random.gauss(f_val, self.fitness_errors[level] * f_val / 3.0)
-                )
+                x = random.gauss(f_val, self.fitness_errors[level] * f_val / 3.0)
 
                 # print("level: {}, normal: {} blurred: {}, diff: {}".format(level, f_val, x, math.fabs(f_val - x)/f_val))
                 return x
diff --git a/algorithms/HGS/tools.py b/algorithms/HGS/tools.py
index 09be1de..bceec50 100644
--- a/algorithms/HGS/tools.py
+++ b/algorithms/HGS/tools.py
@@ -37,9 +37,7 @@ def blurred_fitnesses(level, fitnesses, fitness_errors):
     def blurred(f):
         def blurred_f(*args, **kwargs):
             f_val = f(*args, **kwargs)
-            x = np.math.fabs(
-                random.gauss(f_val, fitness_errors[level] * f_val / 3.0)
-            )
+            x = random.gauss(f_val, fitness_errors[level] * f_val / 3.0)
 
             # print("level: {}, normal: {} blurred: {}, diff: {}".format(level, f_val, x, math.fabs(f_val - x)/f_val))
             return x
-- 
2.43.0


From 506c928831a8000a4ae94532f83eef9b10df4e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 27/42] fix: sprouts released in the same cycle did not count
 against DHGS max_sprouts_no

---
 algorithms/HGS/distributed/node_tasks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index c8223de..c1362c5 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -324,5 +324,6 @@ class ReleaseSproutsNodeTask(NodeOperationTask):
         self.log("new sprout registered")
         self.node.sprouts.append(msg.data)
         self.released_sprouts += 1
+        self.alive_sprouts_count += 1
 
         self.try_relase_next_sprout()
-- 
2.43.0


From 3833a5a58aeb85d8d3742c51fe9ec00c0407914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 28/42] fix: DHGS never trimmed redundant demes

---
 algorithms/HGS/distributed/actors.py     |  5 +++--
 algorithms/HGS/distributed/hgs_tasks.py  | 27 ++++++++++++++++++------
 algorithms/HGS/distributed/node_tasks.py | 12 +++++++++++
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/algorithms/HGS/distributed/actors.py b/algorithms/HGS/distributed/actors.py
index 0e4168a..64091b2 100644
--- a/algorithms/HGS/distributed/actors.py
+++ b/algorithms/HGS/distributed/actors.py
@@ -18,7 +18,7 @@ from algorithms.HGS.distributed.node_tasks import (
     GetPopulationNodeTask,
     NewMetaepochNodeTask,
     TrimNotProgressingNodeTask,
-    ReleaseSproutsNodeTask, ReviveNodeTask)
+    ReleaseSproutsNodeTask, ReviveNodeTask, KillNodeTask)
 from algorithms.HGS.distributed.hgs_tasks import (
     HgsOperationTask,
     MetaepochHgsTask,
@@ -206,7 +206,8 @@ class Node(TaskActor):
             NodeOperation.NEW_METAEPOCH: NewMetaepochNodeTask,
             NodeOperation.TRIM_NOT_PROGRESSING: TrimNotProgressingNodeTask,
             NodeOperation.RELEASE_SPROUTS: ReleaseSproutsNodeTask,
-            NodeOperation.REVIVE: ReviveNodeTask
+            NodeOperation.REVIVE: ReviveNodeTask,
+            NodeOperation.KILL: KillNodeTask
         }
 
     def get_task_owner_name(self):
diff --git a/algorithms/HGS/distributed/hgs_tasks.py b/algorithms/HGS/distributed/hgs_tasks.py
index 292b7b6..35e8063 100644
--- a/algorithms/HGS/distributed/hgs_tasks.py
+++ b/algorithms/HGS/distributed/hgs_tasks.py
@@ -227,10 +227,12 @@ class TrimRedundantHgsTask(HgsOperationTask):
         self.sender = None
         self.sender_task_id = None
         self.requests_count = None
+        self.kills_to_confirm = 0
 
     def configure_steps(self, steps: Dict[OperationType, Callable]):
         steps[HgsOperation.TRIM_REDUNDANT] = self.send_trim_request
         steps[NodeOperation.CHECK_STATUS] = self.receive_trim_confirmation
+        steps[NodeOperation.KILL] = self.receive_kill_confirmation
 
     def send_trim_request(self, msg: HgsMessage, sender: Actor):
         self.sender = sender
@@ -248,12 +250,22 @@ class TrimRedundantHgsTask(HgsOperationTask):
             for level, lvl_infos in itertools.groupby(
                 self.trim_infos, key=lambda info: info.level
             ):
-                self.log(f"trim lvl infos: {list(lvl_infos)} for lvl={level}")
-                self.trim_redundant(list(lvl_infos))
-            self.hgs.send(
-                self.sender,
-                HgsMessage(HgsOperation.TRIM_REDUNDANT_END, self.sender_task_id, True),
-            )
+                lvl_infos = list(lvl_infos)
+                self.log(f"trim lvl infos: {lvl_infos} for lvl={level}")
+                self.trim_redundant(lvl_infos)
+            if self.kills_to_confirm == 0:
+                self.finish()
+
+    def receive_kill_confirmation(self, msg: NodeMessage, sender: Actor):
+        self.kills_to_confirm -= 1
+        if self.kills_to_confirm == 0:
+            self.finish()
+
+    def finish(self):
+        self.hgs.send(
+            self.sender,
+            HgsMessage(HgsOperation.TRIM_REDUNDANT_END, self.sender_task_id, True),
+        )
 
     def trim_redundant(self, lvl_infos):
         alive = [x for x in lvl_infos if x.alive]
@@ -270,8 +282,9 @@ class TrimRedundantHgsTask(HgsOperationTask):
                 ) and tools.redundant(
                     [another_sprout.center],
                     [sprout.center],
-                    self.hgs.min_dists[sprout.level],
+                    self.hgs.config.min_dists[sprout.level],
                 ):
+                    self.kills_to_confirm += 1
                     self.hgs.send(sprout.node, NodeMessage(NodeOperation.KILL, self.id))
                     sprout.alive = False
                     # TODO: logging killing redundant sprouts
diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index c1362c5..d9ee776 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -72,6 +72,18 @@ class ReviveNodeTask(NodeOperationTask):
         self.node.send(sender, NodeMessage(NodeOperation.REVIVE, msg.id))
 
 
+class KillNodeTask(NodeOperationTask):
+    def __init__(self, node):
+        super().__init__(node)
+
+    def configure_steps(self, steps: Dict[OperationType, Callable]):
+        steps[NodeOperation.KILL] = self.kill
+
+    def kill(self, msg: NodeMessage, sender: Actor):
+        self.node.alive = False
+        self.node.send(sender, NodeMessage(NodeOperation.KILL, msg.id))
+
+
 class GetPopulationNodeTask(NodeOperationTask):
     def __init__(self, node):
         super().__init__(node)
-- 
2.43.0


From 4a0077fa2ec195fa1654578927ebdb7a12b0e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 29/42] fix: NSLS kept running extremes of the last front
 instead of its boundary solutions

---
 algorithms/NSLS/NSLS.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/algorithms/NSLS/NSLS.py b/algorithms/NSLS/NSLS.py
index d69af30..cbecdb6 100644
--- a/algorithms/NSLS/NSLS.py
+++ b/algorithms/NSLS/NSLS.py
@@ -188,10 +188,9 @@ class NSLS(Driver):
                 if obj > max_obj:
                     max_obj = obj
                     max_ind = ind
-                if min_ind not in additional:
-                    additional.append(min_ind)
-                if max_ind not in additional:
-                    additional.append(max_ind)
+            for ind in (min_ind, max_ind):
+                if ind is not None and ind not in additional:
+                    additional.append(ind)
 
         if len(additional) > to_select:
             additional = random.sample(additional, to_select)
-- 
2.43.0


From 79678fdfcfedffd99f1a5696e477869a0083e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 30/42] fix: pictures cut off the time axis at the first
 series' last mark and failed without results

---
 plots/pictures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index aaf71b1..42fd894 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -559,7 +559,9 @@ def pictures_time(args):
                             value = (time, 0, score, score_err)
                             for key in keys:
                                 plot_data[key].append(value)
-    max_time = max(list(plot_data.values())[0])[0]
+    max_time = max(
+        (value[0] for values in plot_data.values() for value in values), default=0
+    )
     plot_results(plot_data, plots_dir, (0, max_time))
 
 
-- 
2.43.0


From 083fb823f2e37e21eaf88e5060ee687ede376edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 31/42] fix: pictures failed when results of an algorithm
 outside the plotted groups were stored

---
 plots/pictures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index 42fd894..a8894ba 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -512,7 +512,7 @@ def pictures_from_stats(args):
 
                             keys = [
                                 (problem_name, algo_name, metric_name, group)
-                                for group in algos_groups[algo_name]
+                                for group in algos_groups.get(algo_name, ())
                             ]
                             value = (budget, budget_err, score, score_err)
                             print("PLOT: " + str(value))
@@ -554,7 +554,7 @@ def pictures_time(args):
 
                             keys = [
                                 (problem_name, algo_name, metric_name, group)
-                                for group in algos_groups[algo_name]
+                                for group in algos_groups.get(algo_name, ())
                             ]
                             value = (time, 0, score, score_err)
                             for key in keys:
-- 
2.43.0


From 542cd13a800fda9451a1534ee9419532f0132579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 32/42] fix: pictures_summary failed on a problem without any
 acceptable result

---
 plots/pictures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index a8894ba..2627fb5 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -657,7 +657,7 @@ def pictures_summary(args):
                 else:
                     print("{}, {}, NO BUDGET".format(problem_name, algo_name))
 
-            for metric_name in scoring:
+            for metric_name in problem_score:
                 if metric_name != "pdi":
 
                     max_score = (
-- 
2.43.0


From 975e7667b87ab47773d96ec6b2e1b584e142dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 33/42] fix: best_fronts drew three-objective reference fronts
 also as a line in the plane of the first two objectives

---
 plots/best_fronts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plots/best_fronts.py b/plots/best_fronts.py
index 1d4dd61..61d64ec 100644
--- a/plots/best_fronts.py
+++ b/plots/best_fronts.py
@@ -53,7 +53,8 @@ def plot_front(f, series, scatter=False):
         z = [x[2] for x in series]
         f.azim = 60
         f.scatter(x, y, z, c="0.6", s=60, zorder=1)
-    f.plot(x, y, c="0.6", lw=6, zorder=1)
+    else:
+        f.plot(x, y, c="0.6", lw=6, zorder=1)
 
 
 def plot_nondom(nondominated):
-- 
2.43.0


From d091218870b01e0f2bf2e27094aee2023081de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 34/42] fix: PDI reused a joint front stored for other
 checkpoints or repetitions with the same solutions

---
 simulation/metrics_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index de29e92..b19637b 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -227,7 +227,7 @@ def filter_non_dominated_in_cache(problem_path: Path, cache):
     logger = logging.getLogger(__name__)
     problem_name = problem_path.name
     problem_keys = sorted(filter(lambda run_key: run_key[0] == problem_name, cache))
-    problem_solutions = [cache[key] for key in problem_keys]
+    problem_solutions = [(key, cache[key]) for key in problem_keys]
 
     problem_cache_file = problem_path / f"{problem_name}_nondominated"
     try:
-- 
2.43.0


From f6f4d888bd589f903594eb56ea06a97681a9cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 35/42] fix: OMOPSO pruned boundary leaders and preferred
 crowded ones

---
 algorithms/OMOPSO/OMOPSO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index c81c559..289197c 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -229,7 +229,7 @@ class CrowdingTournament:
 
     def __call__(self, pool):
         sub_pool = random.sample(pool.archive, self.tournament_size)
-        return min(sub_pool, key=lambda x: x.crowd_val)
+        return max(sub_pool, key=lambda x: x.crowd_val)
 
 
 class Individual:
@@ -303,7 +303,7 @@ class LeaderArchive(Archive):
 
     def prune(self):
         self.crowding()
-        worst_res = max(self.archive, key=lambda x: x.crowd_val)
+        worst_res = min(self.archive, key=lambda x: x.crowd_val)
         self.archive.remove(worst_res)
 
     def crowding(self):
-- 
2.43.0


From 596004aaf12bf851a8c8d30899d3b25aaa580ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 36/42] fix: JGBL decoded genes past the bounds by rounding

---
 algorithms/JGBL/JGBL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/JGBL/JGBL.py b/algorithms/JGBL/JGBL.py
index 415c8c2..d171678 100644
--- a/algorithms/JGBL/JGBL.py
+++ b/algorithms/JGBL/JGBL.py
@@ -134,8 +134,8 @@ class JGBL(NSGAII):
 
     def decode_ratio(self, ratio):
         return [
-            self.dims[i][0] + ratio[i] * (self.dims[i][1] - self.dims[i][0])
-            for i in range(len(ratio))
+            min(max(lb + r * (ub - lb), lb), ub)
+            for r, (lb, ub) in zip(ratio, self.dims)
         ]
 
     def prepare_transposon(self, x):
-- 
2.43.0


From 25c30f3310b6a6c5c972e6ea1b1c41d7fe3a4748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 37/42] fix: stats ignored the results directory given with -d

---
 statistic/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/statistic/stats.py b/statistic/stats.py
index 57b2e02..e140bc0 100644
--- a/statistic/stats.py
+++ b/statistic/stats.py
@@ -83,7 +83,7 @@ def statistics(args):
 
     with close_and_join(multiprocessing.Pool(min(int(args["-j"]), 8))) as p:
         for problem_name, problem_mod, algorithms in serialization.each_result(
-            BudgetResultsExtractor()
+            BudgetResultsExtractor(), args["--dir"]
         ):
             for algo_name, budgets in algorithms:
                 header_just_printed = print_header()
-- 
2.43.0


From 07e2bb4dcf39acf8530e5618207818affbc581bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 38/42] fix: OMOPSO's archive judges negative objectives with
 the tolerance reversed

The tolerance of the archive divides an objective by (1 + eta), which makes a
negative one worse instead of better: a solution that dominates an archived
one by less than the tolerance did not replace it, and the reported archive
held dominated solutions (and in ZDT3 the second objective is negative).
---
 algorithms/OMOPSO/OMOPSO.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 289197c..249e4c2 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -251,9 +251,15 @@ class Individual:
     def dominates(self, p2, eta=0):
         at_least_one = False
         for i in range(len(self.objectives)):
-            if p2.objectives[i] < self.objectives[i] / (1 + eta):
+            # objectives are minimised: the tolerance lowers negative values too
+            if self.objectives[i] < 0:
+                relaxed = self.objectives[i] * (1 + eta)
+            else:
+                relaxed = self.objectives[i] / (1 + eta)
+
+            if p2.objectives[i] < relaxed:
                 return False
-            elif p2.objectives[i] > self.objectives[i] / (1 + eta):
+            elif p2.objectives[i] > relaxed:
                 at_least_one = True
 
         return at_least_one
-- 
2.43.0


From 49e62879542195d8bc72d3d2725079693847a902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 39/42] fix: the directory of a first repetition (run 0)
 carried a random number

get_simulation_id took run number 0 for a missing one and drew a random
seven-digit number in its place.
---
 simulation/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/model.py b/simulation/model.py
index 4edf626..fe20ac5 100644
--- a/simulation/model.py
+++ b/simulation/model.py
@@ -5,7 +5,7 @@ from typing import List
 
 def get_simulation_id(run_id, run_date=None):
     run_date = run_date if run_date else datetime.today().strftime("%Y-%m-%d.%H%M%S.%f")
-    if not run_id:
+    if run_id is None:
         run_id = random.randint(1000000, 9999999)
     return f"{run_date}__{run_id:0>7}"
 
-- 
2.43.0


From 81e1e3928a75681e5030e2de9e15f019a860e427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:31 +0000
Subject: [PATCH 40/42] fix: a failing configuration initialiser was silently
 passed over

---
 simulation/factory.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/simulation/factory.py b/simulation/factory.py
index c2a896c..1e7b210 100644
--- a/simulation/factory.py
+++ b/simulation/factory.py
@@ -238,19 +238,18 @@ def custom_init(
         example fun: init_alg___HGS__SPEA2____ackley
         example fun: init_alg___IMGA__HGS_SPEA2____zdt1
     """
-    with suppress(AttributeError):
-        key = "init_alg___" + algo
-        if all_drivers:
-            key += "__" + "_".join(all_drivers[driver_pos + 1 :])
-        if problem:
-            key += "____" + problem
-        logger.debug("Try %s(…)", key)
-        updater = getattr(run_config, key)
-        logger.debug(
-            "Custom initialization: %s: %s: %s", "| by algo fun:", key, updater
-        )
-        updater(config, problem_mod)
-        logger.debug("config: %s", show_conf(config))
+    key = "init_alg___" + algo
+    if all_drivers:
+        key += "__" + "_".join(all_drivers[driver_pos + 1 :])
+    if problem:
+        key += "____" + problem
+    logger.debug("Try %s(…)", key)
+    updater = getattr(run_config, key, None)
+    if updater is None:
+        return
+    logger.debug("Custom initialization: %s: %s: %s", "| by algo fun:", key, updater)
+    updater(config, problem_mod)
+    logger.debug("config: %s", show_conf(config))
 
 
 def load_problem_config(
-- 
2.43.0


From 17a7dfd3212de83fdf1fef337637fa0674202533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:42 +0000
Subject: [PATCH 41/42] fix: a time simulation shorter than its sampling
 interval failed

---
 simulation/worker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulation/worker.py b/simulation/worker.py
index 4905eba..86650c9 100644
--- a/simulation/worker.py
+++ b/simulation/worker.py
@@ -170,6 +170,8 @@ class TimeWorker(SimulationWorker):
             slots_filled.add(time_slot)
 
 
-        time_run.create_job(driver).pipe(ops.do_action(on_next=process_results)).run()
+        time_run.create_job(driver).pipe(
+            ops.do_action(on_next=process_results), ops.default_if_empty()
+        ).run()
 
         return results
-- 
2.43.0


From c97ee2b16687f1dce29b88314934ffa336019965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:39 +0000
Subject: [PATCH 42/42] fix: a failing deme of the actor-based HGS surfaces as
 an error instead of hanging the batch

---
 algorithms/HGS/distributed/DistributedHGS.py | 55 +++++++++++---------
 algorithms/HGS/distributed/actors.py         | 26 +++++++--
 algorithms/HGS/distributed/message.py        |  1 +
 3 files changed, 51 insertions(+), 31 deletions(-)

diff --git a/algorithms/HGS/distributed/DistributedHGS.py b/algorithms/HGS/distributed/DistributedHGS.py
index bea3984..25c14ed 100644
--- a/algorithms/HGS/distributed/DistributedHGS.py
+++ b/algorithms/HGS/distributed/DistributedHGS.py
@@ -1,7 +1,7 @@
 import logging
 
 import numpy as np
-from thespian.actors import ActorSystem, ActorExitRequest
+from thespian.actors import ActorSystem, ActorExitRequest, PoisonMessage
 
 from algorithms.HGS import tools
 from algorithms.HGS.distributed.actors import HgsNodeSupervisor, HgsConfig
@@ -88,39 +88,42 @@ class DistributedHGS(ComplexDriver):
         self.hgs_system = ActorSystem()
         self.node_supervisor = self.hgs_system.createActor(HgsNodeSupervisor)
 
-        self.hgs_system.ask(
-            self.node_supervisor, HgsMessage(HgsOperation.START, data=self.hgs_config)
-        )
-        self.hgs_system.ask(
-            self.node_supervisor, HgsMessage(HgsOperation.CHECK_STATUS)
-        )
+        start_message = HgsMessage(HgsOperation.START, data=self.hgs_config)
+        self.start_id = start_message.id
+        self._ask(start_message)
+        self._ask(HgsMessage(HgsOperation.CHECK_STATUS))
         self.cost = 0
 
+    def _ask(self, request):
+        answer = self.hgs_system.ask(self.node_supervisor, request)
+        while answer is not None and not self._concerns(answer, request):
+            # left over from a run that failed
+            answer = self.hgs_system.listen()
+        if (
+            not isinstance(answer, HgsMessage)
+            or answer.operation == HgsOperation.FAILED
+        ):
+            self.shutdown()
+            raise RuntimeError(f"HGS failed, {request.operation}: {answer}")
+        return answer
+
+    def _concerns(self, answer, request):
+        if isinstance(answer, PoisonMessage):
+            answer = answer.poisonMessage
+        return getattr(answer, "id", None) in (request.id, self.start_id)
+
     def shutdown(self):
         self.hgs_system.tell(self.node_supervisor, ActorExitRequest())
 
     def finalized_population(self):
-        return (
-            ActorSystem()
-                .ask(self.node_supervisor, HgsMessage(HgsOperation.POPULATION))
-                .data
-        )
+        return self._ask(HgsMessage(HgsOperation.POPULATION)).data
 
     def step(self):
-        epoch_end_message = ActorSystem().ask(
-            self.node_supervisor, HgsMessage(HgsOperation.NEW_METAEPOCH)
-        )
+        epoch_end_message = self._ask(HgsMessage(HgsOperation.NEW_METAEPOCH))
         self.cost = epoch_end_message.data
 
-        ActorSystem().ask(
-            self.node_supervisor, HgsMessage(HgsOperation.TRIM_NOT_PROGRESSING)
-        )
-        ActorSystem().ask(self.node_supervisor, HgsMessage(HgsOperation.TRIM_REDUNDANT))
-        ActorSystem().ask(
-            self.node_supervisor, HgsMessage(HgsOperation.RELEASE_SPROUTS)
-        )
-
-        ActorSystem().ask(
-            self.node_supervisor, HgsMessage(HgsOperation.REVIVE)
-        )
+        self._ask(HgsMessage(HgsOperation.TRIM_NOT_PROGRESSING))
+        self._ask(HgsMessage(HgsOperation.TRIM_REDUNDANT))
+        self._ask(HgsMessage(HgsOperation.RELEASE_SPROUTS))
+        self._ask(HgsMessage(HgsOperation.REVIVE))
         logger.info(f"step finished, current cost = {self.cost}")
\ No newline at end of file
diff --git a/algorithms/HGS/distributed/actors.py b/algorithms/HGS/distributed/actors.py
index 64091b2..cb85f6b 100644
--- a/algorithms/HGS/distributed/actors.py
+++ b/algorithms/HGS/distributed/actors.py
@@ -3,7 +3,7 @@ import random
 import uuid
 from typing import Dict
 
-from thespian.actors import Actor
+from thespian.actors import Actor, PoisonMessage
 
 from algorithms.HGS import tools
 from algorithms.HGS.distributed.message import (
@@ -121,11 +121,16 @@ class HgsNodeSupervisor(TaskActor):
 
     def receiveMessage(self, msg, sender):
         self.log(f"SUPERVISOR RECEIVED: {msg} from: {sender}")
-        if isinstance(msg, HgsMessage):
+        if isinstance(msg, PoisonMessage):
+            self.report_failure(msg.details)
+        elif isinstance(msg, HgsMessage):
             if msg.operation == HgsOperation.START:
-                self.start(msg.data)
                 self.parent_actor = sender
-                self.send(sender, "done")
+                self.start_id = msg.id
+                self.start(msg.data)
+                self.send(sender, HgsMessage(HgsOperation.START, msg.id))
+            elif msg.operation == HgsOperation.FAILED:
+                self.report_failure(msg.data)
             elif msg.operation == HgsOperation.REGISTER_NODE:
                 level, population = msg.data
                 node = self.create_node(level, population)
@@ -141,6 +146,13 @@ class HgsNodeSupervisor(TaskActor):
             operation = self.tasks[msg.id]
             operation.execute(msg, sender)
 
+    def report_failure(self, details):
+        # the pending request will never be completed
+        self.send(
+            self.parent_actor,
+            HgsMessage(HgsOperation.FAILED, self.start_id, details),
+        )
+
     def start(self, config: HgsConfig):
         self.log("STARTING HGS SUPERVISOR")
         self.config = config
@@ -215,7 +227,11 @@ class Node(TaskActor):
 
     def receiveMessage(self, msg, sender):
         self.log(f"({self.level}) {self} : MESSAGE RECEIVED {msg} from {sender}")
-        if msg.id in self.tasks:
+        if isinstance(msg, PoisonMessage):
+            self.send(
+                self.supervisor, HgsMessage(HgsOperation.FAILED, data=msg.details)
+            )
+        elif msg.id in self.tasks:
             self.tasks[msg.id].execute(msg, sender)
         elif isinstance(msg, NodeMessage):
             if msg.operation == NodeOperation.RESET:
diff --git a/algorithms/HGS/distributed/message.py b/algorithms/HGS/distributed/message.py
index 99428c2..cbc48c8 100644
--- a/algorithms/HGS/distributed/message.py
+++ b/algorithms/HGS/distributed/message.py
@@ -27,6 +27,7 @@ class HgsOperation(OperationType):
     RELEASE_SPROUTS_END = auto()
     REVIVE = auto()
     REVIVE_END = auto()
+    FAILED = auto()
 
 
 @unique
-- 
2.43.0

