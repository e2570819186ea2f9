From 6a53a56dc910e1e8ee4a71c88ea5fdc892424a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 001/165] fix: NoCrossover returns new solutions instead of the
 parent objects

---
 pymoo/operators/crossover/nox.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pymoo/operators/crossover/nox.py b/pymoo/operators/crossover/nox.py
index 82146a1..e99922c 100644
--- a/pymoo/operators/crossover/nox.py
+++ b/pymoo/operators/crossover/nox.py
@@ -1,7 +1,10 @@
 """No-crossover (pass-through) operator."""
 
+import copy
+
 from pymoo.core.crossover import Crossover
 from pymoo.core.population import Population
+from pymoo.util import default_random_state
 
 
 class NoCrossover(Crossover):
@@ -10,7 +13,12 @@ class NoCrossover(Crossover):
             n_offsprings = n_parents
         super().__init__(n_parents, n_offsprings, prob, **kwargs)
 
-    def do(self, problem, pop, *args, random_state, **kwargs):
+    @default_random_state
+    def do(self, problem, pop, parents=None, *args, random_state=None, **kwargs):
+        # if a parents with array with mating indices is provided -> transform the input first
+        if parents is not None:
+            pop = [pop[mating] for mating in parents]
+
         offsprings = []
         for parents in pop:
             if self.n_offsprings < self.n_parents:
@@ -24,4 +32,6 @@ class NoCrossover(Crossover):
                 offsprings.extend(parents)
                 extra = self.n_offsprings - self.n_parents
                 offsprings.extend(random_state.choice(parents, size=extra, replace=True))
-        return Population.create(*offsprings)
+
+        # the offsprings are new solutions - never the parent objects, because operators modify offsprings in place
+        return Population.new("X", [copy.deepcopy(ind.X) for ind in offsprings])
-- 
2.43.0


From 2fae09f2f4ee739215f1170c149dead29ff0077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 002/165] fix: CMAES does not overwrite the objective values of
 infeasible solutions

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 5460da9..678f286 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -212,12 +212,8 @@ class CMAES(LocalSearch):
             self.termination.force_termination = True
 
         else:
-            # set infeasible individual's objective values to np.nan - then CMAES can handle it
-            for ind in infills:
-                if not ind.feas:
-                    ind.F[:] = np.inf
-
-            F = infills.get("f").tolist()
+            # pass infeasible individual's objective values as infinity - the solutions themselves stay untouched
+            F = [ind.f if ind.feas else np.inf for ind in infills]
             if not self.send_array_to_yield:
                 F = F[0]
 
-- 
2.43.0


From d1b73efc7144caf5cab8358694b81a1d102baa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 003/165] fix: CMAES and SimpleCMAES stay inside the bounds if
 a variable has no range

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 678f286..9c0b43b 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -7,6 +7,7 @@ from pymoo.algorithms.base.local import LocalSearch
 from pymoo.core.population import Population
 from pymoo.core.termination import NoTermination
 from pymoo.docs import parse_doc_string
+from pymoo.operators.repair.to_bound import set_to_bounds_if_outside
 from pymoo.termination.max_eval import MaximumFunctionCallTermination
 from pymoo.termination.max_gen import MaximumGenerationTermination
 from pymoo.util.display.column import Column
@@ -202,7 +203,7 @@ class CMAES(LocalSearch):
         X = np.atleast_2d(X)
 
         # evaluate the population
-        self.pop = Population.new("X", self.norm.backward(X))
+        self.pop = Population.new("X", set_to_bounds_if_outside(self.norm.backward(X), *self.problem.bounds()))
 
         return self.pop
 
@@ -275,6 +276,7 @@ class SimpleCMAES(LocalSearch):
 
     def _infill(self):
         X = self.norm.backward(np.array(self.es.ask()))
+        X = set_to_bounds_if_outside(X, *self.problem.bounds())
         return Population.new("X", X)
 
     def _advance(self, infills=None, **kwargs):
-- 
2.43.0


From 1412d9ea8958d399943fefcd3c0f43c347931fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 004/165] fix: CMAES restores the attribute es after unpickling

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 9c0b43b..4bf57a8 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -237,7 +237,7 @@ class CMAES(LocalSearch):
 
     def __setstate__(self, state):
         self.__dict__.update(state)
-        self.ers = None
+        self.es = None
 
 
 class SimpleCMAES(LocalSearch):
-- 
2.43.0


From bfa193fe98e0cc5586f8a518b3f8e6cf98ee1c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 005/165] fix: SPEA2 creates its own default survival, because
 it keeps a normalization state

---
 pymoo/algorithms/moo/spea2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index 29d7f64..c3cfe66 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -175,7 +175,7 @@ class SPEA2(GeneticAlgorithm):
         selection=TournamentSelection(spea_binary_tournament),
         crossover=SBX(),
         mutation=PM(),
-        survival=SPEA2Survival(normalize=True),
+        survival=None,
         eliminate_duplicates=True,
         n_offsprings=None,
         output=MultiObjectiveOutput(),
@@ -196,6 +196,10 @@ class SPEA2(GeneticAlgorithm):
             **kwargs: {kwargs}
 
         """
+        # the survival has a state - never share it across algorithm objects
+        if survival is None:
+            survival = SPEA2Survival(normalize=True)
+
         super().__init__(
             pop_size=pop_size,
             sampling=sampling,
-- 
2.43.0


From 21b7b2648439bbef127e46b6082bd399bb003cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 006/165] fix: normalized distances are defined if a variable
 has a single value

---
 pymoo/util/misc.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pymoo/util/misc.py b/pymoo/util/misc.py
index 6af885c..f32b469 100644
--- a/pymoo/util/misc.py
+++ b/pymoo/util/misc.py
@@ -170,6 +170,19 @@ def func_euclidean_distance(a: Any, b: Any) -> Any:
     return np.sqrt(((a - b) ** 2).sum(axis=1))
 
 
+def _bounds_range(xl: Any, xu: Any) -> Any:
+    """Get the range of each variable, and one for a variable with a single value.
+
+    Args:
+        xl: Lower bounds.
+        xu: Upper bounds.
+
+    Returns:
+        Range for each variable, never zero.
+    """
+    return np.where(xu != xl, xu - xl, 1.0)
+
+
 def func_norm_euclidean_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]:
     """Create normalized euclidean distance function.
 
@@ -180,7 +193,7 @@ def func_norm_euclidean_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]:
     Returns:
         Distance function.
     """
-    return lambda a, b: np.sqrt((((a - b) / (xu - xl)) ** 2).sum(axis=1))
+    return lambda a, b: np.sqrt((((a - b) / _bounds_range(xl, xu)) ** 2).sum(axis=1))
 
 
 def norm_eucl_dist_by_bounds(A: Any, B: Any, xl: Any, xu: Any, **kwargs: Any) -> Any:
@@ -237,7 +250,7 @@ def func_norm_manhatten_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]:
     Returns:
         Distance function.
     """
-    return lambda a, b: np.abs((a - b) / (xu - xl)).sum(axis=1)
+    return lambda a, b: np.abs((a - b) / _bounds_range(xl, xu)).sum(axis=1)
 
 
 def norm_manhatten_dist_by_bounds(A: Any, B: Any, xl: Any, xu: Any, **kwargs: Any) -> Any:
@@ -294,7 +307,7 @@ def func_norm_tchebychev_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]
     Returns:
         Distance function.
     """
-    return lambda a, b: np.abs((a - b) / (xu - xl)).max(axis=1)
+    return lambda a, b: np.abs((a - b) / _bounds_range(xl, xu)).max(axis=1)
 
 
 def norm_tchebychev_dist_by_bounds(A: Any, B: Any, xl: Any, xu: Any, **kwargs: Any) -> Any:
-- 
2.43.0


From 303cdf25dab7acd96b9cd4deaae95e02c6a3cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 007/165] fix: PINSGA2 does not fail as long as there is no
 feasible solution

---
 pymoo/algorithms/moo/pinsga2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index 207726f..709cd6f 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -243,6 +243,10 @@ class PINSGA2(GeneticAlgorithm):
 
         F = F[rank == 0]
 
+        # without any feasible (and thus ranked) solution there is nothing the DM can be asked about
+        if len(F) == 0:
+            return
+
         if self.historical_F is not None:
             self.historical_F = np.vstack((self.historical_F, F))
         else:
-- 
2.43.0


From 2232bee409d60e46205dd23c75941310cdd3e7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 008/165] fix: Optuna returns its infill solution as a
 population

---
 pymoo/algorithms/soo/nonconvex/optuna.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/optuna.py b/pymoo/algorithms/soo/nonconvex/optuna.py
index 82b3570..f6ccbc2 100644
--- a/pymoo/algorithms/soo/nonconvex/optuna.py
+++ b/pymoo/algorithms/soo/nonconvex/optuna.py
@@ -59,11 +59,11 @@ class Optuna(Algorithm):
                 raise Exception("Type not supported yet.")
             x[name] = v
 
-        return Individual(X=x)
+        return Population.create(Individual(X=x))
 
     def _advance(self, infills=None, **kwargs):
-        self.pop = Population.create(infills)
-        self.study.tell(self.trial, infills.f)
+        self.pop = infills
+        self.study.tell(self.trial, infills[0].f)
 
     def _initialize_infill(self):
         return self._infill()
-- 
2.43.0


From 8e2dbee4ede8a08865286f258c7cf578c018819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 009/165] fix: the result values belong to the reported optimum
 if only the least infeasible solution is returned

---
 pymoo/core/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 2c9f20b..105aa4b 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -284,7 +284,7 @@ class Algorithm:
 
         # otherwise get the values from the population
         else:
-            X, F, CV, G, H = self.opt.get("X", "F", "CV", "G", "H")  # type: ignore
+            X, F, CV, G, H = opt.get("X", "F", "CV", "G", "H")  # type: ignore
 
             # if single-objective problem and only one solution was found - create a 1d array
             if self.problem.n_obj == 1 and len(X) == 1:  # type: ignore
-- 
2.43.0


From ba05cbafee01088756155b73e69649ebcb6d8a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 010/165] fix: AGEMOEA2 does not divide by zero if the front
 contains the ideal point

---
 pymoo/algorithms/moo/age2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymoo/algorithms/moo/age2.py b/pymoo/algorithms/moo/age2.py
index 373c6d9..fee3a06 100644
--- a/pymoo/algorithms/moo/age2.py
+++ b/pymoo/algorithms/moo/age2.py
@@ -73,6 +73,11 @@ class AGEMOEA2(GeneticAlgorithm):
 @jit(nopython=True, fastmath=True)
 def project_on_manifold(point, p):
     dist = np.sum(point[point > 0] ** p) ** (1 / p)
+
+    # the origin (the ideal point itself) has no projection
+    if dist == 0:
+        return np.multiply(point, 1.0)
+
     return np.multiply(point, 1 / dist)
 
 
-- 
2.43.0


From 6ab6711635e2f0bcbec638be1976c3dd7fde87da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 011/165] fix: DIRECT passes its random state to the survival

---
 pymoo/algorithms/soo/nonconvex/direct.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index 9e67415..fd0ad1f 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -109,7 +109,11 @@ class DIRECT(LocalSearch):
         else:
             if len(candidates) > self.n_max_candidates:
                 candidates = RankAndCrowdingSurvival().do(
-                    self.problem, pop, n_survive=self.n_max_candidates, algorithm=self
+                    self.problem,
+                    pop,
+                    n_survive=self.n_max_candidates,
+                    algorithm=self,
+                    random_state=self.random_state,
                 )
 
             return candidates
-- 
2.43.0


From e611153fde080fdce67407f77755e2da1f5e109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 012/165] fix: CTAEA does not report infeasible solutions if
 there are feasible ones

---
 pymoo/algorithms/moo/ctaea.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index 9eb6b73..c443d0a 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -19,6 +19,7 @@ from pymoo.util.display.multi import MultiObjectiveOutput
 from pymoo.util.dominator import Dominator
 from pymoo.util.misc import has_feasible, random_permutations
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
+from pymoo.util.optimum import filter_optimum
 
 
 # =========================================================================================================
@@ -153,7 +154,7 @@ class CADASurvival:
             F = S.get("F")
             fronts, rank = NonDominatedSorting().do(F, return_rank=True)
             S.set("rank", rank)
-            self.opt = S[fronts[0]]
+            self.opt = filter_optimum(S, least_infeasible=True)
             return S
         else:  # Too many feasible individuals
             F = Sc.get("F")
-- 
2.43.0


From b9f451c619ab348a0c2958bbfa8dc93f55546d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 013/165] fix: DIRECT keeps the best solution found if its
 population is truncated

---
 pymoo/algorithms/soo/nonconvex/direct.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index fd0ad1f..313d565 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -9,6 +9,7 @@ from pymoo.core.population import Population
 from pymoo.util.display.single import SingleObjectiveOutput
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 from pymoo.util.normalization import normalize, denormalize
+from pymoo.util.optimum import filter_optimum
 
 
 def norm_bounds(pop, problem):
@@ -162,3 +163,8 @@ class DIRECT(LocalSearch):
     def _advance(self, infills=None, **kwargs):
         assert infills is not None, "This algorithms uses the AskAndTell interface thus infills must to be provided."
         self.pop = Population.merge(self.pop, infills)
+
+    def _set_optimum(self):
+        # the population is truncated if it becomes too large - the best solution found so far must not be lost
+        pop = self.pop if self.opt is None else Population.merge(self.opt, self.pop)
+        self.opt = filter_optimum(pop, least_infeasible=True)
-- 
2.43.0


From df7344254028b1b47c874f57bcb5cf518f950414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 014/165] fix: quadratic interpolation search stays in its
 bracket and keeps the better side

---
 pymoo/algorithms/soo/univariate/quadr_interp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/quadr_interp.py b/pymoo/algorithms/soo/univariate/quadr_interp.py
index 7cfd49e..14fba15 100644
--- a/pymoo/algorithms/soo/univariate/quadr_interp.py
+++ b/pymoo/algorithms/soo/univariate/quadr_interp.py
@@ -7,8 +7,8 @@ from pymoo.core.population import Population
 
 def quadr_interp_equ(xa, fa, xb, fb, xc, fc):
     g1 = (fc - fa) / (xc - xa)
-    g2 = ((fb - fc) / (xb - xc) - g1) * (xb - xa)
-    xd = 0.5 * ((xa - xb) - g1 / g2)
+    g2 = ((fb - fc) / (xb - xc) - g1) / (xb - xa)
+    xd = 0.5 * ((xa + xc) - g1 / g2)
     return xd
 
 
@@ -35,7 +35,7 @@ class QuadraticInterpolationSearch(BracketSearch):
         a, b = self.a, self.b
 
         # set c to be directly in the middle between the two brackets
-        c = Individual(X=(b.X - a.X) / 2)
+        c = Individual(X=a.X + (b.X - a.X) / 2)
 
         # create a population with all three individuals
         pop = Population.create(a, b, c)
@@ -51,11 +51,11 @@ class QuadraticInterpolationSearch(BracketSearch):
         if c.F[0] >= a.F[0] or c.F[0] >= b.F[0]:
             # choose the left side if a smaller than b, or the right side otherwise
             if a.F[0] <= b.F[0]:
-                a = c
-            else:
                 b = c
+            else:
+                a = c
 
-            c = Individual(X=(b.X - a.X) / 2)
+            c = Individual(X=a.X + (b.X - a.X) / 2)
             self.evaluator.eval(self.problem, c, algorithm=self)
             self.infills = c
 
-- 
2.43.0


From 6f79707bb49ea630657f268ecf8f12ab53069af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 015/165] fix: pruned crowding and M-nearest-neighbor metrics
 stay inside their arrays and agree with the Python versions

---
 pymoo/functions/compiled/mnn.pyx        | 69 +++++++++++++------------
 pymoo/functions/compiled/pruning_cd.pyx | 43 +++++++++++----
 pymoo/functions/standard/mnn.py         | 10 ++--
 pymoo/functions/standard/pruning_cd.py  | 10 ++--
 4 files changed, 82 insertions(+), 50 deletions(-)

diff --git a/pymoo/functions/compiled/mnn.pyx b/pymoo/functions/compiled/mnn.pyx
index 1f754cd..272998e 100644
--- a/pymoo/functions/compiled/mnn.pyx
+++ b/pymoo/functions/compiled/mnn.pyx
@@ -53,7 +53,7 @@ def calc_mnn(double[:, :] X, int n_remove=0):
     for n in extremes_max:
         extremes.insert(n)
 
-    X = c_normalize_array(X, extremes_max, extremes_min)
+    X = c_normalize_array(X.copy(), extremes_max, extremes_min)
 
     return c_calc_mnn(X, n_remove, N, M, extremes)
 
@@ -68,6 +68,10 @@ def calc_2nn(double[:, :] X, int n_remove=0):
     N = X.shape[0]
     M = X.shape[1]
 
+    # the two nearest neighbors need to exist
+    if N <= M or N <= 2:
+        return np.full(N, HUGE_VAL)
+
     if n_remove <= (N - M):
         if n_remove < 0:
             n_remove = 0
@@ -87,7 +91,11 @@ def calc_2nn(double[:, :] X, int n_remove=0):
     for n in extremes_max:
         extremes.insert(n)
 
-    X = c_normalize_array(X, extremes_max, extremes_min)
+    X = c_normalize_array(X.copy(), extremes_max, extremes_min)
+
+    # never prune so many points that the two neighbors do not exist anymore
+    if n_remove > N - 2:
+        n_remove = N - 2
 
     M = 2
 
@@ -143,13 +151,22 @@ cdef c_calc_mnn(double[:, :] X, int n_remove, int N, int M, cpp_set[int] extreme
     n_removed = 0
 
     # Initialize neighbors and distances
-    # _Mnn = np.full((N, M), -1, dtype=np.intc)
-    _Mnn = np.argpartition(D, range(1, M+1), axis=1)[:, 1:M+1].astype(np.intc)
+    _Mnn = np.full((N, M), -1, dtype=np.intc)
     dd = np.full((N,), HUGE_VAL, dtype=np.double)
 
     Mnn = _Mnn[:, :]
     d = dd[:]
 
+    # Fill in neighbors
+    c_calc_mnn_iter(
+            X,
+            Mnn,
+            D,
+            N, M,
+            calc_items,
+            H
+        )
+
     # Obtain distance metrics
     c_calc_d(d, Mnn, D, calc_items, M)
 
@@ -194,11 +211,15 @@ cdef c_calc_mnn_iter(
     ):
 
     cdef:
-        int i, j, m
+        int i, j, m, n
 
     # Iterate over items to calculate
     for i in calc_items:
 
+        # Forget the previous neighbors
+        for m in range(M):
+            Mnn[i, m] = -1
+
         # Iterate over elements in X
         for j in H:
 
@@ -206,32 +227,16 @@ cdef c_calc_mnn_iter(
             if (j == i):
                 continue
 
-            # Replace at least the last neighbor
-            elif (D[i, j] <= D[i, Mnn[i, M-1]]) or (Mnn[i, M-1] == -1):
-
-                # Iterate over current values
-                for m in range(M):
+            # Find the position of the element in the sorted list of neighbors
+            m = M
+            while m > 0 and (Mnn[i, m-1] == -1 or D[i, j] < D[i, Mnn[i, m-1]]):
+                m = m - 1
 
-                    # Set to current if unassigned
-                    if (Mnn[i, m] == -1):
-
-                        # Set last neighbor to index
-                        Mnn[i, m] = j
-                        break
-
-                    # Break if checking already corresponding index
-                    elif (j == Mnn[i, m]):
-                        break
-
-                    # Distance satisfies condition
-                    elif (D[i, j] <= D[i, Mnn[i, m]]):
-
-                        # Replace higher values
-                        Mnn[i, m + 1:] = Mnn[i, m:-1]
-
-                        # Replace current value
-                        Mnn[i, m] = j
-                        break
+            # Insert it and drop the last neighbor
+            if m < M:
+                for n in range(M - 1, m, -1):
+                    Mnn[i, n] = Mnn[i, n-1]
+                Mnn[i, m] = j
 
 
 # Calculate crowding metric
@@ -265,9 +270,7 @@ cdef cpp_set[int] c_get_calc_items(
 
             if Mnn[i, m] == k:
 
-                Mnn[i, m:-1] = Mnn[i, m + 1:]
-                Mnn[i, M-1] = -1
-
                 calc_items.insert(i)
+                break
 
     return calc_items
diff --git a/pymoo/functions/compiled/pruning_cd.pyx b/pymoo/functions/compiled/pruning_cd.pyx
index fb7c1b7..7204409 100644
--- a/pymoo/functions/compiled/pruning_cd.pyx
+++ b/pymoo/functions/compiled/pruning_cd.pyx
@@ -48,7 +48,7 @@ def calc_pcd(double[:, :] X, int n_remove=0):
     _I = np.argsort(X, axis=0, kind='mergesort').astype(np.intc)
     I = _I[:, :]
 
-    X = c_normalize_array(X, extremes_max, extremes_min)
+    X = c_normalize_array(X.copy(), extremes_max, extremes_min)
 
     return c_calc_pcd(X, I, n_remove, N, M, extremes)
 
@@ -60,9 +60,14 @@ cdef c_calc_pcd(double[:, :] X, int[:, :] I, int n_remove, int N, int M, cpp_set
         int n, n_removed, k
         cpp_set[int] calc_items
         cpp_set[int] H
+        vector[bool] is_const
         double[:, :] D
         double[:] d
 
+    # An objective which is equal for all points does not contribute
+    for n in range(M):
+        is_const.push_back(not (X[I[0, n], n] < X[I[N-1, n], n]))
+
     # Define items to calculate distances
     calc_items = cpp_set[int]()
     for n in range(N):
@@ -92,6 +97,7 @@ cdef c_calc_pcd(double[:, :] X, int[:, :] I, int n_remove, int N, int M, cpp_set
             D,
             N, M,
             calc_items,
+            is_const,
         )
 
     # Obtain distance metrics
@@ -108,7 +114,7 @@ cdef c_calc_pcd(double[:, :] X, int[:, :] I, int n_remove, int N, int M, cpp_set
         n_removed = n_removed + 1
 
         # Get items to be recalculated
-        calc_items = c_get_calc_items(I, k, M, N)
+        calc_items = c_get_calc_items(I, k, M, N - n_removed + 1)
         for n in extremes:
             calc_items.erase(n)
 
@@ -117,8 +123,9 @@ cdef c_calc_pcd(double[:, :] X, int[:, :] I, int n_remove, int N, int M, cpp_set
                 X,
                 I,
                 D,
-                N, M,
+                N - n_removed, M,
                 calc_items,
+                is_const,
             )
 
         # Obtain distance metrics
@@ -134,6 +141,7 @@ cdef c_calc_pcd_iter(
     double[:, :] D,
     int N, int M,
     cpp_set[int] calc_items,
+    vector[bool] is_const,
     ):
 
     cdef:
@@ -149,10 +157,20 @@ cdef c_calc_pcd_iter(
 
                 if i == I[n, m]:
 
-                    l = I[n - 1, m]
-                    u = I[n + 1, m]
+                    if is_const[m]:
+                        D[i, m] = 0.0
+
+                    # The first and last point have only one neighbor
+                    elif n == 0 or n == N - 1:
+                        D[i, m] = HUGE_VAL
+
+                    else:
+                        l = I[n - 1, m]
+                        u = I[n + 1, m]
 
-                    D[i, m] = (X[u, m] - X[l, m]) / M
+                        D[i, m] = (X[u, m] - X[l, m]) / M
+
+                    break
 
 
 # Calculate crowding metric
@@ -175,7 +193,7 @@ cdef cpp_set[int] c_get_calc_items(
     ):
 
     cdef:
-        int n, m
+        int n, m, j
         cpp_set[int] calc_items
 
     calc_items = cpp_set[int]()
@@ -188,10 +206,15 @@ cdef cpp_set[int] c_get_calc_items(
             if I[n, m] == k:
 
                 # Add to set of items to be recalculated
-                calc_items.insert(I[n - 1, m])
-                calc_items.insert(I[n + 1, m])
+                if n > 0:
+                    calc_items.insert(I[n - 1, m])
+                if n < N - 1:
+                    calc_items.insert(I[n + 1, m])
 
                 # Remove element from sorted array
-                I[n:-1, m] = I[n + 1:, m]
+                for j in range(n, N - 1):
+                    I[j, m] = I[j + 1, m]
+
+                break
 
     return calc_items
diff --git a/pymoo/functions/standard/mnn.py b/pymoo/functions/standard/mnn.py
index 5c206ea..81b9c0e 100644
--- a/pymoo/functions/standard/mnn.py
+++ b/pymoo/functions/standard/mnn.py
@@ -44,7 +44,8 @@ def calc_mnn_base(X, n_remove=0, twonn=False):
     N = X.shape[0]
     M = X.shape[1]
 
-    if N <= M:
+    # the M (or two) nearest neighbors need to exist
+    if N <= M or (twonn and N <= 2):
         return np.full(N, np.inf)
 
     if n_remove <= (N - M):
@@ -57,6 +58,7 @@ def calc_mnn_base(X, n_remove=0, twonn=False):
 
     if twonn:
         M = 2
+        n_remove = min(n_remove, N - 2)
 
     extremes_min = np.argmin(X, axis=0)
     extremes_max = np.argmax(X, axis=0)
@@ -66,7 +68,9 @@ def calc_mnn_base(X, n_remove=0, twonn=False):
 
     extremes = np.concatenate((extremes_min, extremes_max))
 
-    X = (X - min_vals) / (max_vals - min_vals)
+    norm = max_vals - min_vals
+    norm[norm == 0] = 1.0
+    X = (X - min_vals) / norm
 
     H = np.arange(N)
 
@@ -81,7 +85,7 @@ def calc_mnn_base(X, n_remove=0, twonn=False):
     while n_removed < (n_remove - 1):
         # Obtain element to drop
         _d = d[H]
-        _k = np.argmin(_d)
+        _k = len(_d) - 1 - np.argmin(_d[::-1])
         k = H[_k]
         H = H[H != k]
 
diff --git a/pymoo/functions/standard/pruning_cd.py b/pymoo/functions/standard/pruning_cd.py
index 15ff206..00fab95 100644
--- a/pymoo/functions/standard/pruning_cd.py
+++ b/pymoo/functions/standard/pruning_cd.py
@@ -32,7 +32,9 @@ def calc_pcd(X, n_remove=0):
 
     extremes = np.concatenate((extremes_min, extremes_max))
 
-    X = (X - min_vals) / (max_vals - min_vals)
+    # an objective which is equal for all points becomes NaN and does not contribute
+    norm = np.where(max_vals > min_vals, max_vals - min_vals, np.nan)
+    X = (X - min_vals) / norm
 
     H = np.arange(N)
     d = np.full(N, np.inf)
@@ -55,7 +57,7 @@ def calc_pcd(X, n_remove=0):
 
     # sum up the distance to next and last and norm by objectives - also reorder from sorted list
     J = np.argsort(I, axis=0)
-    _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1)
+    _d = np.sum((dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)]) / M, axis=1)
     d[H] = _d
     d[extremes] = np.inf
 
@@ -63,7 +65,7 @@ def calc_pcd(X, n_remove=0):
 
     while n_removed < (n_remove - 1):
         _d = d[H]
-        _k = np.argmin(_d)
+        _k = len(_d) - 1 - np.argmin(_d[::-1])
         k = H[_k]
 
         H = H[H != k]
@@ -83,7 +85,7 @@ def calc_pcd(X, n_remove=0):
         dist_to_next[np.isnan(dist_to_next)] = 0.0
 
         J = np.argsort(I, axis=0)
-        _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1)
+        _d = np.sum((dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)]) / M, axis=1)
         d[H] = _d
         d[extremes] = np.inf
 
-- 
2.43.0


From 39b4cb2ac9529ab29192328880d289cee4171869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 016/165] fix: tree-based and bi-objective sorting keep equal
 solutions in the same front

---
 pymoo/functions/__init__.py                   |  2 +-
 .../standard/non_dominated_sorting.py         | 24 +++++++++++--------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/pymoo/functions/__init__.py b/pymoo/functions/__init__.py
index 05ece5e..cad0ccd 100644
--- a/pymoo/functions/__init__.py
+++ b/pymoo/functions/__init__.py
@@ -42,7 +42,7 @@ def get_functions():
         },
         "tree_based_non_dominated_sort": {
             "python": tree_based_non_dominated_sort,
-            "cython": "pymoo.functions.compiled.non_dominated_sorting",
+            "cython": tree_based_non_dominated_sort,  # there is no compiled version
         },
         "dominance_degree_non_dominated_sort": {
             "python": dominance_degree_non_dominated_sort,
diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index 64de372..2fd07c4 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -104,8 +104,8 @@ def _fast_biobjective_nondominated_sort(F):
     if n_points == 0:
         return []
 
-    # Sort by first objective ascending
-    sorted_indices = np.argsort(F[:, 0])
+    # Sort by first objective ascending (and by the second one if the first is equal)
+    sorted_indices = np.lexsort((F[:, 1], F[:, 0]))
     sorted_F = F[sorted_indices]
 
     fronts = []
@@ -116,8 +116,8 @@ def _fast_biobjective_nondominated_sort(F):
         current_front = []
         current_indices = []
 
-        # Track the minimum second objective seen in the current front
-        min_second_obj = float("inf")
+        # Track the minimum second objective seen in the current front (and its first objective)
+        min_second_obj, its_first_obj = float("inf"), float("inf")
 
         for i in range(n_points):
             if assigned[i]:
@@ -128,7 +128,9 @@ def _fast_biobjective_nondominated_sort(F):
             if current_indices:  # If there are already points in the current front
                 # Since points are sorted by first objective, we only need to check
                 # if its second objective is greater than the minimum second objective in front
-                if sorted_F[i, 1] >= min_second_obj:
+                # (a solution with exactly the same values is not dominated)
+                is_equal = sorted_F[i, 1] == min_second_obj and sorted_F[i, 0] == its_first_obj
+                if sorted_F[i, 1] >= min_second_obj and not is_equal:
                     is_dominated = True
 
             if not is_dominated:
@@ -138,7 +140,8 @@ def _fast_biobjective_nondominated_sort(F):
                 assigned[i] = True
                 n_assigned += 1
                 # Update the minimum second objective
-                min_second_obj = min(min_second_obj, sorted_F[i, 1])
+                if sorted_F[i, 1] < min_second_obj:
+                    min_second_obj, its_first_obj = sorted_F[i, 1], sorted_F[i, 0]
 
         if current_front:
             fronts.append(current_front)
@@ -360,10 +363,10 @@ def tree_based_non_dominated_sort(F):
     Returns:
         List of fronts.
     """
+    # sort the rows in F - identical solutions belong to the same front and are represented by one row
+    F, inverse = np.unique(F, axis=0, return_inverse=True)
+    inverse = np.ravel(inverse)
     N, M = F.shape
-    # sort the rows in F
-    indices = np.lexsort(F.T[::-1])
-    F = F[indices]
 
     obj_seq = np.argsort(F[:, :0:-1], axis=1) + 1
 
@@ -382,7 +385,8 @@ def tree_based_non_dominated_sort(F):
     # convert forest to fronts
     fronts = [[] for _ in range(k)]
     for k, tree in enumerate(forest):
-        fronts[k].extend([indices[node.key] for node in tree.traversal()])
+        for node in tree.traversal():
+            fronts[k].extend(np.flatnonzero(inverse == node.key))
     return fronts
 
 
-- 
2.43.0


From 9efc7229a1467a3018ab956e2da0eddb78d9246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 017/165] fix: non-dominated sorting respects the number of
 fronts if a dominator is used

---
 pymoo/util/nds/non_dominated_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/nds/non_dominated_sorting.py b/pymoo/util/nds/non_dominated_sorting.py
index 2071ba4..010bf12 100644
--- a/pymoo/util/nds/non_dominated_sorting.py
+++ b/pymoo/util/nds/non_dominated_sorting.py
@@ -57,7 +57,7 @@ class NonDominatedSorting:
             for front in raw:
                 fronts.append(np.array(front, dtype=int))
                 n_ranked += len(front)
-                if n_ranked >= n_stop_if_ranked:
+                if n_ranked >= n_stop_if_ranked or len(fronts) >= n_fronts:
                     break
 
         if only_non_dominated_front:
-- 
2.43.0


From b3cc1b7041bc4526e23a85084175d1b9e38ae59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 018/165] fix: best order sort stays inside its arrays and
 handles ties and duplicates

---
 .../compiled/non_dominated_sorting.pyx        | 22 +++++--------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/pymoo/functions/compiled/non_dominated_sorting.pyx b/pymoo/functions/compiled/non_dominated_sorting.pyx
index b30cc2b..fc31886 100644
--- a/pymoo/functions/compiled/non_dominated_sorting.pyx
+++ b/pymoo/functions/compiled/non_dominated_sorting.pyx
@@ -256,8 +256,8 @@ cdef vector[vector[int]] c_best_order_sort(double[:,:] F):
 cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
     cdef:
-        int n_points, n_obj, n_fronts, n_ranked, i, j, s, e, l, z, s_next
-        vector[int] rank, counter, check_if_equal
+        int n_points, n_obj, n_fronts, n_ranked, i, j, s, e, l, z
+        vector[int] rank, counter
         int[:,:] Q
         bool is_dominated
         vector[vector[int]] fronts, empty ,C
@@ -270,8 +270,10 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
     _Q = np.zeros((n_points, n_obj), dtype=np.intc)
     _Q[:, 0] = np.lexsort(F[:, ::-1].T, axis=0)
+    # the position in the lexicographic order breaks ties
+    _pos = np.argsort(_Q[:, 0])
     for j in range(1, n_obj):
-        _Q[:, j] = np.lexsort(np.vstack([_Q[:, 0], F[:, j]]), axis=0)
+        _Q[:, j] = np.lexsort(np.vstack([_pos, F[:, j]]), axis=0)
     Q = _Q[:,:]
 
 
@@ -286,10 +288,6 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
             counter[s] += 1
     counter = vector[int](n_points)
 
-    check_if_equal = vector[int]()
-    for j in range(n_points):
-        check_if_equal.push_back(-1)
-
     rank = vector[int]()
     for i in range(n_points):
         rank.push_back(-1)
@@ -310,18 +308,10 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
             # index of the current solution
             s = Q[i, j]
-            s_next = Q[i + 1, j]
 
             # increase the counter for comparing this objective
             counter[s] += 1
 
-            # if not the last solution
-            if i < n_points - 1:
-                if check_if_equal[s] == -1:
-                    check_if_equal[s] = s_next
-                elif check_if_equal[s] != s_next:
-                    check_if_equal[s] = -2
-
             # if solution was already ranked before - just append it to the corresponding front
             if rank[s] != -1:
                 L[j][rank[s]].push_back(s)
@@ -345,7 +335,7 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
                         # get the domination relation - might return true even if equal
                         is_dominated = c_is_dominating_or_equal(F, e, s, C, counter[s])
 
-                        if is_dominated and check_if_equal[e] == s:
+                        if is_dominated:
                             is_equal = c_is_equal(F, s, e)
 
                         # if just one solution dominates the current one - go to the next front
-- 
2.43.0


From 43a729309b721df0b557b9c920dfa266c5654dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 019/165] fix: the minimum function value termination works for
 values that are not positive

---
 pymoo/termination/fmin.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pymoo/termination/fmin.py b/pymoo/termination/fmin.py
index 4b1043e..32042a4 100644
--- a/pymoo/termination/fmin.py
+++ b/pymoo/termination/fmin.py
@@ -10,8 +10,15 @@ class MinimumFunctionValueTermination(Termination):
 
     def _update(self, algorithm):
         opt = algorithm.opt
+        feas = opt.get("feas")
 
-        if not any(opt.get("feas")):
+        if not any(feas):
             return 0.0
-        else:
-            return self.fmin / opt.get("F").min()
+
+        f = opt.get("F")[feas].min()
+
+        if f <= self.fmin:
+            return 1.0
+
+        # the ratio describes the progress only if both values are positive
+        return self.fmin / f if self.fmin > 0 else 0.0
-- 
2.43.0


From 3a620615f432c1f77eb16128dd14763f33b8fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 020/165] fix: the indicator termination stops if the threshold
 is reached in the first iteration

---
 pymoo/termination/indicator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/termination/indicator.py b/pymoo/termination/indicator.py
index 8a7f562..cd2e179 100644
--- a/pymoo/termination/indicator.py
+++ b/pymoo/termination/indicator.py
@@ -39,6 +39,10 @@ class IndicatorTermination(Termination):
         self._max = max(self._max, v)
         _min, _max = self._min, self._max
 
+        # if the threshold has been reached
+        if (v <= threshold) if self.goal == "minimize" else (v >= threshold):
+            return 1.0
+
         # depending on the goal either set the percentage
         if self.goal == "minimize":
             perc = 1 - (v - threshold) / (_max - threshold)
-- 
2.43.0


From a5303aadc30181ee67365813d8a588675cd6adbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 021/165] fix: RVEA uses the whole budget of function
 evaluations

---
 pymoo/algorithms/moo/rvea.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index e3186bd..e64a674 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -79,7 +79,8 @@ class RVEA(GeneticAlgorithm):
 
         # if maximum functions termination convert it to generations
         if isinstance(self.termination, MaximumFunctionCallTermination):
-            n_gen = np.ceil((self.termination.n_max_evals - self.pop_size) / self.n_offsprings)
+            n_evals = max(0, self.termination.n_max_evals - self.pop_size)
+            n_gen = 1 + np.ceil(n_evals / self.n_offsprings)
             self.termination = MaximumGenerationTermination(n_gen)
 
         # check whether the n_gen termination is used - otherwise this algorithm can be not run
-- 
2.43.0


From 1af6c0005a6f92c2591964b9da552b945936aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 022/165] fix: NSGA3 reports the non-dominated solutions if
 none is closest to a reference direction

---
 pymoo/algorithms/moo/nsga3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymoo/algorithms/moo/nsga3.py b/pymoo/algorithms/moo/nsga3.py
index 6bcfd31..1970193 100644
--- a/pymoo/algorithms/moo/nsga3.py
+++ b/pymoo/algorithms/moo/nsga3.py
@@ -16,6 +16,7 @@ from pymoo.util.display.multi import MultiObjectiveOutput
 from pymoo.functions import load_function
 from pymoo.util.misc import intersect, has_feasible
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
+from pymoo.util.optimum import filter_optimum
 from pymoo.util import default_random_state
 
 
@@ -129,6 +130,10 @@ class NSGA3(GeneticAlgorithm):
             if len(self.survival.opt):
                 self.opt = self.survival.opt
 
+            # none of the solutions closest to a reference direction is non-dominated
+            else:
+                self.opt = filter_optimum(self.pop)
+
 
 # =========================================================================================================
 # Survival
-- 
2.43.0


From 4448429b23da89337bed524fb6e9ab4b4fd69d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 023/165] fix: DEX and GaussianMutation use the given random
 state to repair their solutions

---
 pymoo/operators/crossover/dex.py  | 2 +-
 pymoo/operators/mutation/gauss.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/operators/crossover/dex.py b/pymoo/operators/crossover/dex.py
index 71ce93c..b768ce1 100644
--- a/pymoo/operators/crossover/dex.py
+++ b/pymoo/operators/crossover/dex.py
@@ -114,7 +114,7 @@ class DEX(Crossover):
                 Xp[m] = de_differential(X[:, m], F, random_state=random_state)
 
             # if still infeasible do a random initialization
-            Xp = repair_random_init(Xp, X[0], *problem.bounds())
+            Xp = repair_random_init(Xp, X[0], *problem.bounds(), random_state=random_state)
 
         if self.variant == "bin":
             M = mut_binomial(
diff --git a/pymoo/operators/mutation/gauss.py b/pymoo/operators/mutation/gauss.py
index 57417f4..4d1b324 100644
--- a/pymoo/operators/mutation/gauss.py
+++ b/pymoo/operators/mutation/gauss.py
@@ -31,7 +31,7 @@ def mut_gauss(X, xl, xu, sigma, prob, random_state=None):
 
     Xp[mut] = random_state.normal(X[mut], sigma * (_xu - _xl))
 
-    Xp = repair_random_init(Xp, X, xl, xu)
+    Xp = repair_random_init(Xp, X, xl, xu, random_state=random_state)
 
     return Xp
 
-- 
2.43.0


From d330825617cccd95784b02da82dfb54d98a5f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 024/165] fix: the inverse penalty repair uses the given random
 state

---
 pymoo/operators/repair/inverse_penalty.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/operators/repair/inverse_penalty.py b/pymoo/operators/repair/inverse_penalty.py
index 98f4bca..484a8dc 100644
--- a/pymoo/operators/repair/inverse_penalty.py
+++ b/pymoo/operators/repair/inverse_penalty.py
@@ -77,13 +77,14 @@ def inverse_penality_by_problem(problem, x, p, **kwargs):  # noqa: D417
 class InversePenaltyOutOfBoundsRepair(BoundsRepair):
     """Inverse penalty repair operator for out-of-bounds variables."""
 
-    def repair_out_of_bounds(self, problem, X, P=None, **kwargs):  # noqa: D417
+    def repair_out_of_bounds(self, problem, X, P=None, random_state=None, **kwargs):  # noqa: D417
         """Repair out-of-bounds variables using inverse penalty.
 
         Args:
             problem: The optimization problem.
             X: Population variables to repair.
             P: Parent solutions within bounds.
+            random_state: Random state for reproducibility.
 
         Returns:
             Repaired population.
@@ -94,7 +95,7 @@ class InversePenaltyOutOfBoundsRepair(BoundsRepair):
         n = len(X)
 
         for k in range(n):
-            X[k] = inverse_penality_by_problem(problem, X[k], P[k])
+            X[k] = inverse_penality_by_problem(problem, X[k], P[k], random_state=random_state)
 
         return X
 
-- 
2.43.0


From 851b02a2268cafaad8af9b866efd2ac9caf7da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 025/165] fix: the evolutionary strategies use the random state
 of the algorithm in their survival

---
 pymoo/algorithms/soo/nonconvex/brkga.py | 2 +-
 pymoo/algorithms/soo/nonconvex/es.py    | 4 +++-
 pymoo/algorithms/soo/nonconvex/sres.py  | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/brkga.py b/pymoo/algorithms/soo/nonconvex/brkga.py
index 00159b3..47c983c 100755
--- a/pymoo/algorithms/soo/nonconvex/brkga.py
+++ b/pymoo/algorithms/soo/nonconvex/brkga.py
@@ -156,7 +156,7 @@ class BRKGA(GeneticAlgorithm):
         pop = Population.merge(pop[elites], infills)
 
         # the do survival selection - set the elites for the next round
-        self.pop = self.survival.do(self.problem, pop, n_survive=len(pop), algorithm=self)
+        self.pop = self.survival.do(self.problem, pop, n_survive=len(pop), algorithm=self, random_state=self.random_state)
 
 
 parse_doc_string(BRKGA.__init__)
diff --git a/pymoo/algorithms/soo/nonconvex/es.py b/pymoo/algorithms/soo/nonconvex/es.py
index d1a2d00..61a1519 100644
--- a/pymoo/algorithms/soo/nonconvex/es.py
+++ b/pymoo/algorithms/soo/nonconvex/es.py
@@ -130,7 +130,9 @@ class ES(GeneticAlgorithm):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
-        self.pop = self.survival.do(self.problem, infills, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
+        )
 
     def _set_optimum(self):
         pop = self.pop if self.opt is None else Population.merge(self.opt, self.pop)
diff --git a/pymoo/algorithms/soo/nonconvex/sres.py b/pymoo/algorithms/soo/nonconvex/sres.py
index 99b3708..e7212c7 100644
--- a/pymoo/algorithms/soo/nonconvex/sres.py
+++ b/pymoo/algorithms/soo/nonconvex/sres.py
@@ -50,7 +50,9 @@ class SRES(ES):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
-        self.pop = self.survival.do(self.problem, infills, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(SRES.__init__)
-- 
2.43.0


From 501c3eadaeffe3a233c45dc77dbab2f0ed2c317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 026/165] fix: PatternSearch uses the random state of the
 algorithm

---
 pymoo/algorithms/soo/nonconvex/pattern.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/pattern.py b/pymoo/algorithms/soo/nonconvex/pattern.py
index aa0dd66..02a22ed 100644
--- a/pymoo/algorithms/soo/nonconvex/pattern.py
+++ b/pymoo/algorithms/soo/nonconvex/pattern.py
@@ -77,7 +77,9 @@ class PatternSearch(LocalSearch):
             self._rho = self.init_rho**self.n_not_improved
 
             # explore around the current center - try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._center, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._center, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         # if we have found a direction in the last iteration to be worth following
         else:
@@ -94,7 +96,9 @@ class PatternSearch(LocalSearch):
             self._sign = calc_sign(self._direction)
 
             # explore around the current center to try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._trial, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._trial, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         self.pop = Population.create(self._center, self._explr)
 
-- 
2.43.0


From 637c7879f335cad87e1505b432c6bfd4b4811aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 027/165] fix: the truncation of an archive is deterministic

---
 pymoo/util/archive.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index b362e4a..920ce48 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -14,7 +14,7 @@ class Truncation:
 
 
 class RandomTruncation(Truncation):
-    @default_random_state
+    @default_random_state(seed=1)
     def __call__(self, sols, k, random_state=None):
         return random_state.choice(sols, size=k, replace=False)
 
@@ -32,8 +32,9 @@ class SurvivalTruncation(Truncation):
 
         self.problem = problem
 
-    def __call__(self, sols, k):
-        return self.survival.do(self.problem, sols, n_survive=k)
+    @default_random_state(seed=1)
+    def __call__(self, sols, k, random_state=None):
+        return self.survival.do(self.problem, sols, n_survive=k, random_state=random_state)
 
 
 class Archive(Population):
-- 
2.43.0


From 9c3c9a4e96ff62773ecbc71d6af4864c5d575309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 028/165] fix: CMAES uses an own random generator instead of
 seeding the global one

---
 pymoo/algorithms/soo/nonconvex/cmaes.py |  7 ++++--
 pymoo/vendor/vendor_cmaes.py            | 31 ++++++++++++++++++-------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 4bf57a8..264df39 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -14,7 +14,7 @@ from pymoo.util.display.column import Column
 from pymoo.util.display.single import SingleObjectiveOutput
 from pymoo.util.normalization import ZeroToOneNormalization, NoNormalization
 from pymoo.util.optimum import filter_optimum
-from pymoo.vendor.vendor_cmaes import my_fmin
+from pymoo.vendor.vendor_cmaes import RandomNormal, my_fmin
 
 
 # =========================================================================================================
@@ -267,7 +267,10 @@ class SimpleCMAES(LocalSearch):
         else:
             self.norm = NoNormalization()
             self.opts["bounds"] = [xl, xu]
-        self.opts["seed"] = self.seed
+
+        # use an own generator instead of seeding the global one
+        seed = self.seed if self.seed is not None else self.random_state.integers(0, 2**31)
+        self.opts["randn"], self.opts["seed"] = RandomNormal(seed), np.nan
 
     def _initialize_advance(self, infills=None, **kwargs):
         super()._initialize_advance(infills, **kwargs)
diff --git a/pymoo/vendor/vendor_cmaes.py b/pymoo/vendor/vendor_cmaes.py
index a9f86b7..5862d0b 100644
--- a/pymoo/vendor/vendor_cmaes.py
+++ b/pymoo/vendor/vendor_cmaes.py
@@ -16,6 +16,17 @@ all_stoppings: list = []
 def void(_):
     pass
 
+
+class RandomNormal:
+    """Normally distributed numbers from an own generator, to be used as option `randn`."""
+
+    def __init__(self, seed):
+        self.random_state = np.random.RandomState(seed)
+
+    def __call__(self, *shape):
+        return self.random_state.randn(*shape)
+
+
 @default_random_state
 def my_fmin(x0,
             sigma0,
@@ -114,6 +125,13 @@ def my_fmin(x0,
                     """created from `parallel_objective` argument"""
                     return parallel_objective([x], *args)[0]
 
+            # Set seed from random_state for deterministic behavior
+            if irun == 0:
+                seed = opts.get('seed')
+                if seed is None:
+                    # Generate a seed from the random_state for CMA-ES
+                    seed = random_state.integers(0, 2**31)
+
             # recover from a CMA object
             if irun == 0 and isinstance(x0, MyCMAEvolutionStrategy):
                 es = x0
@@ -126,11 +144,9 @@ def my_fmin(x0,
                     es.opts.set(options)
                 # ignore further input args and keep original options
             else:  # default case
-                # Set seed from random_state for deterministic behavior
-                if 'seed' not in opts or opts['seed'] is None:
-                    # Generate a seed from the random_state for CMA-ES
-                    opts['seed'] = random_state.integers(0, 2**31)
-                
+                # use an own generator instead of seeding the global one
+                opts['randn'], opts['seed'] = RandomNormal(seed), np.nan
+
                 if irun and eval(str(fmin_options['restart_from_best'])):
                     utils.print_warning('CAVE: restart_from_best is often not useful',
                                         verbose=opts['verbose'])
@@ -290,10 +306,7 @@ def my_fmin(x0,
                 break
             opts['verb_append'] = es.countevals
             opts['popsize'] = fmin_opts['incpopsize'] * es.sp.popsize  # TODO: use rather options?
-            try:
-                opts['seed'] += 1
-            except TypeError:
-                pass
+            seed += 1
 
         # while irun
 
-- 
2.43.0


From 44f715102c9bb34173262a38e68d9bb8b182686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 029/165] fix: the tournaments of NSGA3, UNSGA3 and NicheGA use
 the random state of the algorithm if solutions are equal

---
 pymoo/algorithms/moo/nsga3.py                | 1 +
 pymoo/algorithms/moo/unsga3.py               | 1 +
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 4 +++-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/nsga3.py b/pymoo/algorithms/moo/nsga3.py
index 1970193..b552ae0 100644
--- a/pymoo/algorithms/moo/nsga3.py
+++ b/pymoo/algorithms/moo/nsga3.py
@@ -41,6 +41,7 @@ def comp_by_cv_then_random(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible just set random
diff --git a/pymoo/algorithms/moo/unsga3.py b/pymoo/algorithms/moo/unsga3.py
index 2c79694..c88becf 100644
--- a/pymoo/algorithms/moo/unsga3.py
+++ b/pymoo/algorithms/moo/unsga3.py
@@ -39,6 +39,7 @@ def comp_by_rank_and_ref_line_dist(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible
diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 727e76c..2979bed 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -60,7 +60,7 @@ class NicheTermination(DefaultTermination):
 # =========================================================================================================
 
 
-def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
+def comp_by_cv_and_clearing_fitness(pop, P, random_state=None, **kwargs):
     S = np.full(P.shape[0], np.nan)
 
     for i in range(P.shape[0]):
@@ -75,6 +75,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # first compare by the round the individual was selected
@@ -90,6 +91,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                     pop[b].get("rank"),
                     method="smaller_is_better",
                     return_random_if_equal=True,
+                    random_state=random_state,
                 )
 
     return S[:, None].astype(int)
-- 
2.43.0


From df497809d0bd888c73cc21241fd410cecbf17fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 030/165] fix: the constrained rank and crowding survival uses
 the given random state for infeasible solutions

---
 pymoo/operators/survival/rank_and_crowding/classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/operators/survival/rank_and_crowding/classes.py b/pymoo/operators/survival/rank_and_crowding/classes.py
index 8db7899..e8b3ac5 100644
--- a/pymoo/operators/survival/rank_and_crowding/classes.py
+++ b/pymoo/operators/survival/rank_and_crowding/classes.py
@@ -192,7 +192,9 @@ class ConstrRankAndCrowding(Survival):
                     if len(survivors) + len(front) > n_survive:
                         # Obtain CV of front
                         CV = pop[infeas][front].get("CV").flatten()
-                        I = randomized_argsort(CV, order="ascending", method="numpy")  # noqa: E741
+                        I = randomized_argsort(  # noqa: E741
+                            CV, order="ascending", method="numpy", random_state=kwargs.get("random_state")
+                        )
                         I = I[: (n_survive - len(survivors))]  # noqa: E741
 
                     # Otherwise take the whole front unsorted
-- 
2.43.0


From b1e29ffe28118dd8398aa7d93050b6ae14665840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 031/165] fix: StaticProblem sets the values of all solutions
 if the problem is elementwise

---
 pymoo/problems/static.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/problems/static.py b/pymoo/problems/static.py
index 5dfdd88..07eae2c 100644
--- a/pymoo/problems/static.py
+++ b/pymoo/problems/static.py
@@ -9,6 +9,9 @@ class StaticProblem(Meta, Problem):
         super().__init__(problem)
         self.kwargs = kwargs
 
+        # the values are provided for all solutions at once (even if the problem itself is elementwise)
+        self.elementwise = False
+
     def _evaluate(self, _, out, *args, **kwargs):
         for K, V in self.kwargs.items():
             out[K] = V
-- 
2.43.0


From cafe48f040a33c757411cad00d99d431c87c5b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 032/165] fix: an archive keeps its attributes when it is
 serialized and does not share them with its copies

---
 pymoo/util/archive.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index 920ce48..0829dad 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -1,5 +1,7 @@
 """Archive and truncation strategies for maintaining solution collections."""
 
+import copy
+
 import numpy as np
 
 from pymoo.core.duplicate import DefaultDuplicateElimination
@@ -69,6 +71,21 @@ class Archive(Population):
         self.truncation = truncation
         self.duplicate_elimination = duplicate_elimination
 
+    # the attributes are not part of the array and need to be copied and serialized explicitly
+    def __deepcopy__(self, memo):
+        obj = super().__deepcopy__(memo)
+        obj.__dict__.update(copy.deepcopy(self.__dict__, memo))
+        return obj
+
+    def __reduce__(self):
+        func, args, state = super().__reduce__()
+        return func, args, (state, self.__dict__)
+
+    def __setstate__(self, state):
+        state, attributes = state
+        super().__setstate__(state)
+        self.__dict__.update(attributes)
+
     def add(self, sols):
 
         if len(self) > 0:
-- 
2.43.0


From a800abc3af678cd51fa5c678f06e7cef6a84de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 033/165] fix: CallbackCollection initializes and notifies its
 callbacks

---
 pymoo/core/callback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/callback.py b/pymoo/core/callback.py
index 3676ba3..cbd3a83 100644
--- a/pymoo/core/callback.py
+++ b/pymoo/core/callback.py
@@ -41,4 +41,4 @@ class CallbackCollection(Callback):
         self.callbacks: tuple[Callback, ...] = args
 
     def update(self, algorithm: "Algorithm") -> None:
-        [callback.update(algorithm) for callback in self.callbacks]
+        [callback(algorithm) for callback in self.callbacks]
-- 
2.43.0


From 53e66c6e48ea167789ac2404f74ba73388cabcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 034/165] fix: non-dominated sorting with infinite objective
 values

---
 pymoo/functions/standard/non_dominated_sorting.py |  2 +-
 pymoo/util/nds/non_dominated_sorting.py           | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index 2fd07c4..f29c48b 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -140,7 +140,7 @@ def _fast_biobjective_nondominated_sort(F):
                 assigned[i] = True
                 n_assigned += 1
                 # Update the minimum second objective
-                if sorted_F[i, 1] < min_second_obj:
+                if len(current_front) == 1 or sorted_F[i, 1] < min_second_obj:
                     min_second_obj, its_first_obj = sorted_F[i, 1], sorted_F[i, 0]
 
         if current_front:
diff --git a/pymoo/util/nds/non_dominated_sorting.py b/pymoo/util/nds/non_dominated_sorting.py
index 010bf12..bbc30c5 100644
--- a/pymoo/util/nds/non_dominated_sorting.py
+++ b/pymoo/util/nds/non_dominated_sorting.py
@@ -33,7 +33,7 @@ class NonDominatedSorting:
             fronts = []
         elif self.dominator is None:
             F_sort = F - self.epsilon if self.epsilon is not None else F
-            ranks = pareto_rank(F_sort)
+            ranks = pareto_rank(finite_with_same_order(F_sort))
             fronts = []
             n_ranked = 0
             for r in range(ranks.max() + 1):
@@ -70,6 +70,13 @@ class NonDominatedSorting:
         return fronts
 
 
+# moocore expects finite values: otherwise each objective is replaced by its order, which has the same dominance relation
+def finite_with_same_order(F):
+    if np.all(np.isfinite(F)):
+        return F
+    return np.column_stack([np.unique(f, return_inverse=True)[1] for f in F.T]).astype(float)
+
+
 def rank_from_fronts(fronts, n):
     # create the rank array and set values
     rank = np.full(n, sys.maxsize, dtype=int)
@@ -84,7 +91,7 @@ def find_non_dominated(F, _F=None):
     if len(F) == 0:
         return np.array([], dtype=int)
     if _F is None:
-        return np.where(is_nondominated(F.astype(float), keep_weakly=True))[0]
+        return np.where(is_nondominated(finite_with_same_order(F.astype(float)), keep_weakly=True))[0]
     else:
         M = Dominator.calc_domination_matrix(F, _F)
         return np.where(np.all(M >= 0, axis=1))[0]
-- 
2.43.0


From b99ab6ecab43f9858b13526aadcab7f13acf90ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 035/165] fix: calc_2nn_fast uses two neighbors

---
 pymoo/operators/survival/rank_and_crowding/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/survival/rank_and_crowding/metrics.py b/pymoo/operators/survival/rank_and_crowding/metrics.py
index a43de7f..fb092ca 100644
--- a/pymoo/operators/survival/rank_and_crowding/metrics.py
+++ b/pymoo/operators/survival/rank_and_crowding/metrics.py
@@ -198,7 +198,7 @@ def _calc_mnn_fast(F, n_neighbors, **kwargs):
     D = squareform(pdist(F, metric="sqeuclidean"))
 
     # M neighbors
-    M = F.shape[1]
+    M = n_neighbors
     _D = np.partition(D, range(1, M + 1), axis=1)[:, 1 : M + 1]
 
     # Metric d
-- 
2.43.0


From e5a236af14e32050279541886daf15417ca8706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 036/165] fix: get_duplicates if the last rows are duplicates

---
 pymoo/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/misc.py b/pymoo/util/misc.py
index f32b469..eb65273 100644
--- a/pymoo/util/misc.py
+++ b/pymoo/util/misc.py
@@ -146,7 +146,7 @@ def get_duplicates(M: Any) -> list:
 
     while i < S.shape[0] - 1:
         l = []  # noqa: E741
-        while np.all(S[i, :] == S[i + 1, :]):
+        while i < S.shape[0] - 1 and np.all(S[i, :] == S[i + 1, :]):
             l.append(I[i])
             i += 1
         if len(l) > 0:
-- 
2.43.0


From 4a404d57de646e10ae05135e958d0a8e9f162afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 037/165] fix: the constraint violation of an individual
 follows its constraint values

---
 pymoo/core/individual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/core/individual.py b/pymoo/core/individual.py
index d35cf3d..e85b115 100644
--- a/pymoo/core/individual.py
+++ b/pymoo/core/individual.py
@@ -206,6 +206,7 @@ class Individual:
             value: The inequality constraint vector for the individual.
         """
         self._G = value
+        self._CV = None
 
     @property
     def H(self) -> np.ndarray:
@@ -224,6 +225,7 @@ class Individual:
             value: The equality constraint vector for the individual.
         """
         self._H = value
+        self._CV = None
 
     @property
     def CV(self) -> np.ndarray:
-- 
2.43.0


From 19f81ed858585d32e89e5890d0b5a7313fbc2173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 038/165] fix: CTAEA with less solutions than reference
 directions

---
 pymoo/algorithms/moo/ctaea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index c443d0a..cace8e3 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -211,7 +211,7 @@ class CADASurvival:
         itr = 1
         S = []
         while len(S) < n_survive:
-            for i in range(n_survive):
+            for i in range(len(self.ref_dirs)):
                 (current_ca,) = np.where(niche_CA == i)
                 if len(current_ca) < itr:
                     for _ in range(itr - len(current_ca)):
-- 
2.43.0


From e8dea461e746525523743b7888878392e9858a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 039/165] fix: ToReplacement compares the ranks of the
 solutions

---
 pymoo/core/survival.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/survival.py b/pymoo/core/survival.py
index 4763738..4dbe9e9 100644
--- a/pymoo/core/survival.py
+++ b/pymoo/core/survival.py
@@ -140,7 +140,9 @@ class ToReplacement(Survival):
             random_state=random_state,
             **kwargs,
         )
-        merged.set("__rank__", indices)
+        rank = np.empty(len(merged), dtype=int)
+        rank[indices] = np.arange(len(merged))
+        merged.set("__rank__", rank)
 
         for k in range(len(pop)):
             if off[k].get("__rank__") < pop[k].get("__rank__"):
-- 
2.43.0


From 6f1390e4555b47704b3cb547a2fb4ab178f0a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 040/165] fix: ToReplacement can be used as a survival

---
 pymoo/core/survival.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymoo/core/survival.py b/pymoo/core/survival.py
index 4dbe9e9..6d25f06 100644
--- a/pymoo/core/survival.py
+++ b/pymoo/core/survival.py
@@ -127,6 +127,7 @@ class ToReplacement(Survival):
         problem: Any,
         pop: Any,
         off: Any,
+        n_survive: Optional[int] = None,
         random_state: Any = None,
         **kwargs: Any,
     ) -> Any:
-- 
2.43.0


From 7811f75571bfd48e4cd149f3f2a9ac1563bfae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 041/165] fix: adaptive constraint handling counts the function
 evaluations

---
 pymoo/constraints/adaptive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/constraints/adaptive.py b/pymoo/constraints/adaptive.py
index fff6017..048bcef 100644
--- a/pymoo/constraints/adaptive.py
+++ b/pymoo/constraints/adaptive.py
@@ -44,6 +44,10 @@ class AttachConfigEvaluator(Evaluator):
             **kwargs,
         )
         pop.apply(lambda ind: ind.set("config", self.config))
+
+        # the evaluations are counted by the wrapped evaluator
+        self.n_eval = self.wrapped.n_eval
+
         return pop
 
 
-- 
2.43.0


From 57fe19a64e9484d690e0d8e3ee93caa72ffd2b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 042/165] fix: ConstraintsAsPenalty if not all constraint types
 are requested and for more than one objective

---
 pymoo/constraints/as_penalty.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index cf779f6..1f94b89 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -20,7 +20,9 @@ class ConstraintsAsPenalty(Meta, Problem):
         self.n_eq_constr = 0
 
     def do(self, X, return_values_of, *args, **kwargs):
-        out = self.__object__.do(X, return_values_of, *args, **kwargs)
+        # the constraints are always necessary to calculate the penalty
+        values_of = list(dict.fromkeys([*return_values_of, "F", "G", "H"]))
+        out = self.__object__.do(X, values_of, *args, **kwargs)
 
         # get at the values from the output
         F, G, H = from_dict(out, "F", "G", "H")
@@ -32,7 +34,7 @@ class ConstraintsAsPenalty(Meta, Problem):
         CV = calc_cv(G=G, H=H)
 
         # set the penalized objective values
-        out["F"] = F + self.penalty * np.reshape(CV, F.shape)
+        out["F"] = F + self.penalty * np.reshape(CV, (-1, 1))
 
         del out["G"]
         del out["H"]
-- 
2.43.0


From 892cebfdf422e8e3cef93812ad184f2ce0fef1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 043/165] fix: ConstraintsAsObjective if not all constraint
 types are requested and without the objectives

---
 pymoo/constraints/as_obj.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index 8488224..0d22524 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -25,7 +25,9 @@ class ConstraintsAsObjective(Meta, Problem):
         self.n_eq_constr = 0
 
     def do(self, X, return_values_of, *args, **kwargs):
-        out = self.__object__.do(X, return_values_of, *args, **kwargs)
+        # the constraints are always necessary to calculate the constraint violation
+        values_of = list(dict.fromkeys([*return_values_of, "F", "G", "H"]))
+        out = self.__object__.do(X, values_of, *args, **kwargs)
 
         # get at the values from the output
         F, G, H = from_dict(out, "F", "G", "H")
@@ -40,7 +42,7 @@ class ConstraintsAsObjective(Meta, Problem):
         if self.append:
             out["F"] = anp.column_stack([CV, F])
         else:
-            out["F"] = CV
+            out["F"] = anp.column_stack([CV])
 
         del out["G"]
         del out["H"]
@@ -50,5 +52,6 @@ class ConstraintsAsObjective(Meta, Problem):
     def pareto_front(self, *args, **kwargs):
         pf = super().pareto_front(*args, **kwargs)
         if pf is not None:
-            pf = np.column_stack([np.zeros(len(pf)), pf])
+            cv = np.zeros((len(pf), 1))
+            pf = np.column_stack([cv, pf]) if self.append else cv[:1]
         return pf
-- 
2.43.0


From 09af7def0f05cf4ffc625b8db3d3e1523268da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 044/165] fix: ConstraintsFromBounds with the bounds being
 removed

---
 pymoo/constraints/from_bounds.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymoo/constraints/from_bounds.py b/pymoo/constraints/from_bounds.py
index 9a0eb82..fec06d8 100644
--- a/pymoo/constraints/from_bounds.py
+++ b/pymoo/constraints/from_bounds.py
@@ -18,10 +18,11 @@ class ConstraintsFromBounds(Meta, Problem):
 
     def do(self, X, return_values_of, *args, **kwargs):
 
-        out = self.__object__.do(X, return_values_of, *args, **kwargs)
+        values_of = list(dict.fromkeys([*return_values_of, "G"]))
+        out = self.__object__.do(X, values_of, *args, **kwargs)
 
-        # get the boundaries for normalization
-        xl, xu = self.bounds()
+        # get the boundaries for normalization (of the original problem - they might have been removed here)
+        xl, xu = self.__object__.bounds()
 
         # add the boundary constraint if enabled
         _G = anp.column_stack([xl - X, X - xu])
-- 
2.43.0


From d5f433fb8ee6824334edceae2977ccec639707fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 045/165] fix: DEX uses the dither and jitter it is configured
 with

---
 pymoo/operators/crossover/dex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/operators/crossover/dex.py b/pymoo/operators/crossover/dex.py
index b768ce1..e6d8063 100644
--- a/pymoo/operators/crossover/dex.py
+++ b/pymoo/operators/crossover/dex.py
@@ -100,7 +100,7 @@ class DEX(Crossover):
         F = self.F if self.F is not None else rnd_F(m, random_state=random_state)
 
         # prepare the out to be set
-        Xp = de_differential(X[:, m], F, random_state=random_state)
+        Xp = de_differential(X[:, m], F, dither=self.dither, jitter=self.jitter, random_state=random_state)
 
         # if the problem has boundaries to be considered
         if problem.has_bounds():
@@ -111,7 +111,7 @@ class DEX(Crossover):
                 F = rnd_F(m, random_state=random_state)
 
                 # actually execute the differential equation
-                Xp[m] = de_differential(X[:, m], F, random_state=random_state)
+                Xp[m] = de_differential(X[:, m], F, dither=self.dither, jitter=self.jitter, random_state=random_state)
 
             # if still infeasible do a random initialization
             Xp = repair_random_init(Xp, X[0], *problem.bounds(), random_state=random_state)
-- 
2.43.0


From 9b19e7337e40fc65a4c28e15db12e5b04ab41fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 046/165] fix: inversion mutation applies its probability once

---
 pymoo/operators/mutation/inversion.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pymoo/operators/mutation/inversion.py b/pymoo/operators/mutation/inversion.py
index 0a3f5c0..11f5b0d 100644
--- a/pymoo/operators/mutation/inversion.py
+++ b/pymoo/operators/mutation/inversion.py
@@ -28,14 +28,12 @@ class InversionMutation(Mutation):
         Args:
             prob: Probability to apply the mutation to the individual.
         """
-        super().__init__()
-        self.prob = prob
+        super().__init__(prob=prob)
 
     def _do(self, problem, X, random_state=None, **kwargs):
         Y = X.copy()
         for i, y in enumerate(X):
-            if random_state.random() < self.prob:
-                seq = random_sequence(len(y), random_state=random_state)
-                Y[i] = inversion_mutation(y, seq, inplace=True)
+            seq = random_sequence(len(y), random_state=random_state)
+            Y[i] = inversion_mutation(y, seq, inplace=True)
 
         return Y
-- 
2.43.0


From 16350b5f1990a87761f003d5f586fcb3e9facc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 047/165] fix: the parameter control of DE and of the
 controlled mating uses the random state of the algorithm

---
 pymoo/algorithms/soo/nonconvex/de.py | 2 +-
 pymoo/operators/control.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index d8eb143..744f6d1 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -93,7 +93,7 @@ class Variant(InfillCriterion):
         control.tell(pop=pop)
 
         # set the controlled parameter for the desired number of offsprings
-        control.do(n_offsprings)
+        control.do(n_offsprings, random_state=random_state)
 
         # find the different groups of selection schemes and order them by category
         sel, n_diffs = get(self.selection, self.n_diffs, size=n_offsprings)
diff --git a/pymoo/operators/control.py b/pymoo/operators/control.py
index 4b2d5dd..a39b368 100644
--- a/pymoo/operators/control.py
+++ b/pymoo/operators/control.py
@@ -166,7 +166,7 @@ class ParameterControlMating(InfillCriterion):
         # do the parameter control for the mating
         control = self.control
         control.tell(pop=pop)
-        control.do(n_matings)
+        control.do(n_matings, random_state=kwargs.get("random_state"))
 
         # if the parents for the mating are not provided directly - usually selection will be used
         if parents is None:
-- 
2.43.0


From 4b6c5ec4c9a121a1d1a04c76288244b6c62280bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 048/165] fix: the controlled mating hands every offspring the
 parameters of its own mating (offspring k comes from mating k modulo the
 number of matings)

---
 pymoo/operators/control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/control.py b/pymoo/operators/control.py
index a39b368..fbda42b 100644
--- a/pymoo/operators/control.py
+++ b/pymoo/operators/control.py
@@ -178,7 +178,7 @@ class ParameterControlMating(InfillCriterion):
 
         # now we have to consider during parameter control that a crossover can produce multiple offsprings
         for name, param in control.params.items():
-            param.set(np.repeat(param.get(), self.crossover.n_offsprings))
+            param.set(np.tile(param.get(), self.crossover.n_offsprings))
 
         # do the mutation on the offsprings created through crossover
         off = self.mutation(problem, off, **kwargs)
-- 
2.43.0


From beb3c2671a128318c15f768ed5c4471f71cd421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 049/165] fix: bounce back and periodic repair return NaN for
 variables with equal bounds

---
 pymoo/operators/repair/bounce_back.py   | 6 +++++-
 pymoo/operators/repair/bounds_repair.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pymoo/operators/repair/bounce_back.py b/pymoo/operators/repair/bounce_back.py
index 6cf33f9..041f367 100644
--- a/pymoo/operators/repair/bounce_back.py
+++ b/pymoo/operators/repair/bounce_back.py
@@ -23,8 +23,12 @@ def bounce_back(X, xl, xu):
     xl = np.repeat(xl[None, :], X.shape[0], axis=0)
     xu = np.repeat(xu[None, :], X.shape[0], axis=0)
 
-    # otherwise bounds back into the feasible space
+    # a variable without any freedom can only be at its bound
     _range = xu - xl
+    fixed = _range == 0
+    X[fixed] = xl[fixed]
+
+    # otherwise bounds back into the feasible space
     X[X < xl] = (xl + np.mod((xl - X), _range))[X < xl]
     X[X > xu] = (xu - np.mod((X - xu), _range))[X > xu]
 
diff --git a/pymoo/operators/repair/bounds_repair.py b/pymoo/operators/repair/bounds_repair.py
index 7b9c16e..d2cfa22 100644
--- a/pymoo/operators/repair/bounds_repair.py
+++ b/pymoo/operators/repair/bounds_repair.py
@@ -116,6 +116,10 @@ def repair_periodic(Xp, xl, xu):
 
     S = XU - XL
 
+    # a variable without any freedom can only be at its bound
+    I = np.where(S == 0)  # noqa: E741
+    Xp[I] = XL[I]
+
     I = np.where(Xp < XL)  # noqa: E741
     Xp[I] = XU[I] - (XL[I] - Xp[I]) % S[I]
 
-- 
2.43.0


From 4282a86a885f9c2c202af2a5332e5439cef87749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 050/165] fix: bounds repairs leave problems without bounds
 untouched instead of failing

---
 pymoo/operators/repair/bounds_repair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/operators/repair/bounds_repair.py b/pymoo/operators/repair/bounds_repair.py
index d2cfa22..128302a 100644
--- a/pymoo/operators/repair/bounds_repair.py
+++ b/pymoo/operators/repair/bounds_repair.py
@@ -180,6 +180,10 @@ class BoundsRepair(Repair):
 
         X = pop_or_X if is_array else pop_or_X.get("X")
 
+        # nothing can be out of bounds if the problem does not have any
+        if problem.xl is None and problem.xu is None:
+            return pop_or_X
+
         X = self.repair_out_of_bounds(problem, X, **kwargs)
 
         assert len(is_out_of_bounds_by_problem(problem, X)) == 0
-- 
2.43.0


From b32f12aa7477b9c25a62c2fb0216b4dbc0cd30ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 051/165] fix: fix: correlation criterion of LHS with a single
 variable

---
 pymoo/operators/sampling/lhs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/sampling/lhs.py b/pymoo/operators/sampling/lhs.py
index 678e698..922da21 100644
--- a/pymoo/operators/sampling/lhs.py
+++ b/pymoo/operators/sampling/lhs.py
@@ -30,7 +30,7 @@ def criterion_corr(X: np.ndarray) -> np.floating:
     Returns:
         Negative sum of squared correlations.
     """
-    M = np.corrcoef(X.T, rowvar=True)
+    M = np.atleast_2d(np.corrcoef(X.T, rowvar=True))
     return -np.sum(np.tril(M, -1) ** 2)
 
 
-- 
2.43.0


From 66d2bc1a760bbd7f347e377860591365141400a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 052/165] fix: fast_fill_random keeps track of the rows that
 still hold duplicates

---
 pymoo/operators/selection/rnd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/selection/rnd.py b/pymoo/operators/selection/rnd.py
index bb916f9..e722520 100644
--- a/pymoo/operators/selection/rnd.py
+++ b/pymoo/operators/selection/rnd.py
@@ -50,7 +50,7 @@ def fast_fill_random(X, N, columns=None, Xp=None, n_max_attempts=10, random_stat
             else:
                 X[rem, col] = random_state.permutation(N)[: len(rem)]
 
-            rem = np.where((X[rem, col][:, None] == D[rem]).any(axis=1))[0]
+            rem = rem[(X[rem, col][:, None] == D[rem]).any(axis=1)]
 
             if len(rem) == 0:
                 break
-- 
2.43.0


From ce94bb906be17ea36f15022e40fb09eb7bb4e24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 053/165] fix: apply the repair given to an algorithm to every
 solution it creates

---
 pymoo/algorithms/moo/cmopso.py          | 2 +-
 pymoo/algorithms/moo/nsde.py            | 2 +-
 pymoo/algorithms/soo/nonconvex/brkga.py | 1 +
 pymoo/algorithms/soo/nonconvex/es.py    | 3 ++-
 pymoo/algorithms/soo/nonconvex/isres.py | 3 ++-
 pymoo/algorithms/soo/nonconvex/pso.py   | 2 +-
 6 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pymoo/algorithms/moo/cmopso.py b/pymoo/algorithms/moo/cmopso.py
index babc38d..c7b105b 100644
--- a/pymoo/algorithms/moo/cmopso.py
+++ b/pymoo/algorithms/moo/cmopso.py
@@ -162,7 +162,7 @@ class CMOPSO(Algorithm):
         self.pop_size = pop_size
         self.max_velocity_rate = max_velocity_rate
         self.elite_size = elite_size
-        self.initialization = Initialization(sampling)
+        self.initialization = Initialization(sampling, repair=repair)
         self.initial_velocity = initial_velocity
         self.repair = repair
         self._cd = get_crowding_function("cd")
diff --git a/pymoo/algorithms/moo/nsde.py b/pymoo/algorithms/moo/nsde.py
index b34343a..e61a4a7 100644
--- a/pymoo/algorithms/moo/nsde.py
+++ b/pymoo/algorithms/moo/nsde.py
@@ -172,7 +172,7 @@ class NSDE(NSGA2):
         if survival is None:
             survival = RankAndCrowding()
 
-        mating = VariantDE(variant=variant, CR=CR, F=F, gamma=gamma, de_repair=de_repair)
+        mating = VariantDE(variant=variant, CR=CR, F=F, gamma=gamma, de_repair=de_repair, repair=kwargs.get("repair"))
 
         super().__init__(
             pop_size=pop_size,
diff --git a/pymoo/algorithms/soo/nonconvex/brkga.py b/pymoo/algorithms/soo/nonconvex/brkga.py
index 47c983c..694964f 100755
--- a/pymoo/algorithms/soo/nonconvex/brkga.py
+++ b/pymoo/algorithms/soo/nonconvex/brkga.py
@@ -142,6 +142,7 @@ class BRKGA(GeneticAlgorithm):
 
         # create the mutants randomly to fill the population with
         mutants = FloatRandomSampling().do(self.problem, self.n_mutants, algorithm=self, random_state=self.random_state)
+        mutants = self.repair(self.problem, mutants, random_state=self.random_state)
 
         # evaluate all the new solutions
         return Population.merge(off, mutants)
diff --git a/pymoo/algorithms/soo/nonconvex/es.py b/pymoo/algorithms/soo/nonconvex/es.py
index 61a1519..c09cf47 100644
--- a/pymoo/algorithms/soo/nonconvex/es.py
+++ b/pymoo/algorithms/soo/nonconvex/es.py
@@ -122,7 +122,8 @@ class ES(GeneticAlgorithm):
         # create the population to proceed further
         off = Population.new(X=Xp, sigma=sigmap)
 
-        return off
+        # repair the individuals if necessary - disabled if repair is NoRepair
+        return self.repair(self.problem, off, random_state=self.random_state)
 
     def _advance(self, infills=None, **kwargs):
 
diff --git a/pymoo/algorithms/soo/nonconvex/isres.py b/pymoo/algorithms/soo/nonconvex/isres.py
index dbce4fe..8cfd7d4 100644
--- a/pymoo/algorithms/soo/nonconvex/isres.py
+++ b/pymoo/algorithms/soo/nonconvex/isres.py
@@ -68,7 +68,8 @@ class ISRES(SRES):
         # create the population to proceed further
         off = Population.new(X=Xp, sigma=sigmap)
 
-        return off
+        # repair the individuals if necessary - disabled if repair is NoRepair
+        return self.repair(self.problem, off, random_state=self.random_state)
 
 
 parse_doc_string(ISRES.__init__)
diff --git a/pymoo/algorithms/soo/nonconvex/pso.py b/pymoo/algorithms/soo/nonconvex/pso.py
index 980a613..e0f33c2 100644
--- a/pymoo/algorithms/soo/nonconvex/pso.py
+++ b/pymoo/algorithms/soo/nonconvex/pso.py
@@ -164,7 +164,7 @@ class PSO(Algorithm):
         """
         super().__init__(output=output, **kwargs)
 
-        self.initialization = Initialization(sampling)
+        self.initialization = Initialization(sampling, repair=repair)
 
         self.pop_size = pop_size
         self.adaptive = adaptive
-- 
2.43.0


From bc77d6f15b7d002c7b3c3a48842539a40d0e331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 054/165] fix: EPPSO objects do not share one swarm and its
 parameter control

---
 pymoo/algorithms/soo/nonconvex/pso_ep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/pso_ep.py b/pymoo/algorithms/soo/nonconvex/pso_ep.py
index f43fdf5..8d4669b 100644
--- a/pymoo/algorithms/soo/nonconvex/pso_ep.py
+++ b/pymoo/algorithms/soo/nonconvex/pso_ep.py
@@ -177,13 +177,17 @@ class EPPSO(GeneticAlgorithm):
         self,
         pop_size=100,
         sampling=FloatRandomSampling(),
-        swarm=Swarm(),
+        swarm=None,
         topology="star",
         init_V="zero",
         output=SingleObjectiveOutput(),
         **kwargs,
     ):
 
+        # each algorithm needs its own swarm since its parameter control has a state
+        if swarm is None:
+            swarm = Swarm(repair=kwargs.get("repair"))
+
         super().__init__(
             pop_size=pop_size,
             sampling=sampling,
-- 
2.43.0


From 9c391b1646d6cefcc12d700c4a174d1e320b00d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 055/165] fix: HashDuplicateElimination compares the variables
 of individuals and not their identity

---
 pymoo/core/duplicate.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pymoo/core/duplicate.py b/pymoo/core/duplicate.py
index ff76312..b532a65 100644
--- a/pymoo/core/duplicate.py
+++ b/pymoo/core/duplicate.py
@@ -118,6 +118,10 @@ class ElementwiseDuplicateElimination(DefaultDuplicateElimination):
 
 
 def to_hash(x):
+    # the string representation of an array is not exact
+    if isinstance(x, np.ndarray):
+        x = x.tolist()
+
     try:
         h = hash(x)
     except:  # noqa: E722
@@ -139,12 +143,10 @@ class HashDuplicateElimination(DuplicateElimination):
 
         if other is not None:
             for o in other:
-                val = self.func(o)
-                H.add(self.func(val))
+                H.add(self.func(o.X))
 
         for i, ind in enumerate(pop):
-            val = self.func(ind)
-            h = self.func(val)
+            h = self.func(ind.X)
 
             if h in H:
                 is_duplicate[i] = True
-- 
2.43.0


From b0aa9cc3a62b76f892ce5e1361635cd88db640b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 056/165] fix: indices returned by duplicate elimination when
 an individual occurs twice

---
 pymoo/core/duplicate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymoo/core/duplicate.py b/pymoo/core/duplicate.py
index b532a65..58f8b8a 100644
--- a/pymoo/core/duplicate.py
+++ b/pymoo/core/duplicate.py
@@ -36,12 +36,13 @@ class DuplicateElimination:
                     pop = pop[~self._do(pop, arg, np.full(len(pop), False))]
 
         if return_indices:
-            no_duplicate, is_duplicate = [], []
-            H = set(pop)
+            # the same individual might occur more than once
+            no_duplicate, is_duplicate, k = [], [], 0
 
             for i, ind in enumerate(original):
-                if ind in H:
+                if k < len(pop) and ind is pop[k]:
                     no_duplicate.append(i)
+                    k += 1
                 else:
                     is_duplicate.append(i)
 
-- 
2.43.0


From c731dab2c7b534fd3fd5738a5747a12c23a3dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 057/165] fix: MixedVariableMating with its default duplicate
 elimination

---
 pymoo/core/mixed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/core/mixed.py b/pymoo/core/mixed.py
index 3a435c8..57acfe3 100644
--- a/pymoo/core/mixed.py
+++ b/pymoo/core/mixed.py
@@ -37,6 +37,10 @@ class MixedVariableMating(InfillCriterion):
         **kwargs,
     ) -> None:
 
+        # a boolean value chooses the default duplicate detection
+        if isinstance(eliminate_duplicates, bool):
+            eliminate_duplicates = MixedVariableDuplicateElimination() if eliminate_duplicates else None
+
         super().__init__(repair, eliminate_duplicates, n_max_iterations, **kwargs)
 
         if crossover is None:
-- 
2.43.0


From 34c04c9644ee8db9779fd7d9fcaa7ed7b1e8c011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 058/165] fix: fix: calc_pcd does not read the objectives of
 the first point if there is no point

---
 pymoo/functions/compiled/pruning_cd.pyx | 4 ++++
 pymoo/functions/standard/pruning_cd.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pymoo/functions/compiled/pruning_cd.pyx b/pymoo/functions/compiled/pruning_cd.pyx
index 7204409..0d1d6a7 100644
--- a/pymoo/functions/compiled/pruning_cd.pyx
+++ b/pymoo/functions/compiled/pruning_cd.pyx
@@ -26,6 +26,10 @@ def calc_pcd(double[:, :] X, int n_remove=0):
     N = X.shape[0]
     M = X.shape[1]
 
+    # without any point there are no extremes
+    if N == 0:
+        return np.full(N, HUGE_VAL)
+
     if n_remove <= (N - M):
         if n_remove < 0:
             n_remove = 0
diff --git a/pymoo/functions/standard/pruning_cd.py b/pymoo/functions/standard/pruning_cd.py
index 00fab95..c1f4dbd 100644
--- a/pymoo/functions/standard/pruning_cd.py
+++ b/pymoo/functions/standard/pruning_cd.py
@@ -16,6 +16,10 @@ def calc_pcd(X, n_remove=0):
     N = X.shape[0]
     M = X.shape[1]
 
+    # without any point there are no extremes
+    if N == 0:
+        return np.full(N, np.inf)
+
     if n_remove <= (N - M):
         if n_remove < 0:
             n_remove = 0
-- 
2.43.0


From caac1ad45c0ade5326054674ddabb082758dc934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 059/165] fix: fix: stochastic ranking draws the same random
 numbers in Python as in the compiled version

---
 pymoo/functions/standard/stochastic_ranking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/functions/standard/stochastic_ranking.py b/pymoo/functions/standard/stochastic_ranking.py
index be061ec..12e6371 100644
--- a/pymoo/functions/standard/stochastic_ranking.py
+++ b/pymoo/functions/standard/stochastic_ranking.py
@@ -38,8 +38,11 @@ def stochastic_ranking(f, phi, pr, I=None, random_state=None):  # noqa: E741
     for i in range(_lambda):
         at_least_one_swap = False
 
+        # the same random numbers as drawn by the compiled version
+        uu = random_state.random(size=_lambda)
+
         for j in range(_lambda - 1):
-            u = random_state.random()
+            u = uu[j]
 
             if u < pr or (phi[I[j]] == 0 and phi[I[j + 1]] == 0):
                 if f[I[j]] > f[I[j + 1]]:
-- 
2.43.0


From d3dc4588391c5afc07d29929285c9a139e7cdd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 060/165] fix: dominance degree sorting of no points in Python

---
 pymoo/functions/standard/non_dominated_sorting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index f29c48b..651f9a4 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -559,6 +559,9 @@ def dominance_degree_non_dominated_sort(
     Raises:
         ValueError: If strategy is invalid.
     """
+    # no fronts without any point
+    if len(f_scores) == 0 and strategy in ("efficient", "fast"):
+        return []
     if strategy == "efficient":
         return dda_ens(f_scores)
     if strategy == "fast":
-- 
2.43.0


From 17ed1c0cc43eb914ed7e09afa327720c1b186d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 061/165] fix: KKTPM leaves the ideal point as it is and
 supports problems without constraints

---
 pymoo/indicators/kktpm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymoo/indicators/kktpm.py b/pymoo/indicators/kktpm.py
index bac58d5..a76260a 100644
--- a/pymoo/indicators/kktpm.py
+++ b/pymoo/indicators/kktpm.py
@@ -33,7 +33,9 @@ class KKTPM:
         # if not provided take the one defined in the problem
         if z is None:
             z = problem.ideal_point()
-        z -= utopian_eps
+
+        # a new array to not modify the one provided or the one cached by the problem
+        z = z - utopian_eps
 
         # for convenience get the counts directly
         n_solutions, n_obj, n_ieq_constr = (
@@ -49,8 +51,9 @@ class KKTPM:
         for i in range(n_solutions):
             # get the corresponding values for this solution
             f, cv, df = F[i, :], CV[i], dF[i, :].swapaxes(1, 0)  # noqa: F841
+            g = G[i, :]
             if n_ieq_constr > 0:
-                g, dg = G[i, :], dG[i].T
+                dg = dG[i].T
 
             # if the solution that is provided is infeasible
             if cv > 0:
-- 
2.43.0


From dd3fe67ae5857814771fa4e6ed8bcda897128eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 062/165] fix: spacing of a single point

---
 pymoo/indicators/spacing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/indicators/spacing.py b/pymoo/indicators/spacing.py
index 872ac48..864186c 100644
--- a/pymoo/indicators/spacing.py
+++ b/pymoo/indicators/spacing.py
@@ -43,6 +43,10 @@ class SpacingIndicator(Indicator):
         # Get F dimensions
         n_points, n_obj = F.shape
 
+        # a single point has no neighbor
+        if n_points < 2:
+            return 0.0
+
         # knn
         D = squareform(pdist(F, metric="cityblock"))
         d = np.partition(D, 1, axis=1)[:, 1]
-- 
2.43.0


From 363b74f65675ec4bb7c5130fe0ad29d278e31085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 063/165] fix: R-Metric with weights, and with a delta which is
 also used for the Pareto front

---
 pymoo/indicators/rmetric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/indicators/rmetric.py b/pymoo/indicators/rmetric.py
index 25f3a0c..8d34b37 100644
--- a/pymoo/indicators/rmetric.py
+++ b/pymoo/indicators/rmetric.py
@@ -24,7 +24,7 @@ class RMetric(Indicator):
         Indicator.__init__(self)
         self.ref_points = ref_points
         self.problem = problem
-        w_ = np.ones(self.ref_points.shape[1]) if not w else w
+        w_ = np.ones(self.ref_points.shape[1]) if w is None else w
         self.w_points = self.ref_points + 2 * w_
         self.delta = delta
 
@@ -151,7 +151,7 @@ class RMetric(Indicator):
 
             # 5. R-Metric Computation
             target = self._preprocess(data=pf, ref_point=self.ref_points[i], w_point=self.w_points[i])
-            PF = self._trim(pf, target)
+            PF = self._trim(pf, target, range=self.delta)
             final_PF.extend(PF)
 
         translated = np.array(translated)
-- 
2.43.0


From 5408c3352d9ce44c07bcc93429fa1d475457716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 064/165] fix: running metric if the ideal and nadir point are
 equal in one objective

---
 pymoo/util/running_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/running_metric.py b/pymoo/util/running_metric.py
index fba919c..4aad501 100644
--- a/pymoo/util/running_metric.py
+++ b/pymoo/util/running_metric.py
@@ -50,8 +50,8 @@ class RunningMetric(Callback):
         norm = c_nadir - c_ideal
 
         # make sure all dimensions in ideal are strictly lower than in nadir
-        c_nadir[c_ideal == c_nadir] += 1e-16
         norm[c_ideal == c_nadir] = 1.0
+        c_nadir[c_ideal == c_nadir] += 1e-16
 
         # append the current optimum to the history
         history.append(dict(F=F, ideal=c_ideal, nadir=c_nadir))
-- 
2.43.0


From 58c37474829bf2e11e562524c115117336e5bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 065/165] fix: the perpendicular distance considers the ideal
 or utopian point it is given

---
 pymoo/decomposition/perp_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/decomposition/perp_dist.py b/pymoo/decomposition/perp_dist.py
index ddafbf1..7b6f3ae 100644
--- a/pymoo/decomposition/perp_dist.py
+++ b/pymoo/decomposition/perp_dist.py
@@ -10,5 +10,5 @@ class PerpendicularDistance(Decomposition):
         self.theta = theta
 
     def _do(self, F, weights, **kwargs):
-        _, d2 = load_function("calc_distance_to_weights")(F, weights)
+        _, d2 = load_function("calc_distance_to_weights")(F, weights, self.utopian_point)
         return d2
-- 
2.43.0


From 91a390e174c72b1098701cee432e31ffa201859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 066/165] fix: a decomposition respects the type it is created
 with

---
 pymoo/core/decomposition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/core/decomposition.py b/pymoo/core/decomposition.py
index fd13220..e41f7a6 100644
--- a/pymoo/core/decomposition.py
+++ b/pymoo/core/decomposition.py
@@ -28,6 +28,10 @@ class Decomposition:
 
         _F, _weights = to_1d_array_if_possible(F), to_1d_array_if_possible(weights)
 
+        # the type can also be set when the object is created
+        if _type == "auto":
+            _type = self._type
+
         if _type == "auto":
             if _F.ndim == 1 and _weights.ndim > 1:
                 _type = "one_to_many"
-- 
2.43.0


From c027a284118e028119b43b639919b162e29bdd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 067/165] fix: the compiled distances to weights and directions
 accept integers

---
 pymoo/functions/compiled/calc_perpendicular_distance.pyx | 4 +++-
 pymoo/functions/compiled/decomposition.pyx               | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymoo/functions/compiled/calc_perpendicular_distance.pyx b/pymoo/functions/compiled/calc_perpendicular_distance.pyx
index 884bce9..d12cc61 100644
--- a/pymoo/functions/compiled/calc_perpendicular_distance.pyx
+++ b/pymoo/functions/compiled/calc_perpendicular_distance.pyx
@@ -7,7 +7,9 @@ from libcpp.vector cimport vector
 
 
 
-def calc_perpendicular_distance(double[:,:] P, double[:,:] L):
+def calc_perpendicular_distance(P, L):
+    # integers are allowed as well
+    P, L = np.asarray(P, dtype=np.float64), np.asarray(L, dtype=np.float64)
     return np.array(c_calc_perpendicular_distance(P, L))
 
 
diff --git a/pymoo/functions/compiled/decomposition.pyx b/pymoo/functions/compiled/decomposition.pyx
index 747ad66..641e278 100644
--- a/pymoo/functions/compiled/decomposition.pyx
+++ b/pymoo/functions/compiled/decomposition.pyx
@@ -20,6 +20,9 @@ def pbi(double[:,:] F, double[:,:] weights, double[:] ideal_point, double theta,
 
 def calc_distance_to_weights(F, weights, utopian_point=None):
 
+    # integers are allowed as well
+    F, weights = np.asarray(F, dtype=np.float64), np.asarray(weights, dtype=np.float64)
+
     if utopian_point is None:
         utopian_point = np.zeros(F.shape[1])
 
-- 
2.43.0


From e89494e9004b225b19a9ccc4ebedb710dcbc05ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 068/165] fix: point selected with maximum distance is removed
 from the candidates

---
 pymoo/util/reference_direction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index 9954306..fd7741f 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -450,6 +450,6 @@ def select_points_with_maximum_distance(
 
         # add it to the selected and remove from not selected
         selected.append(int(I))
-        not_selected = [i for i, idx in enumerate(not_selected) if idx != index_in_not_selected]
+        not_selected.pop(int(index_in_not_selected))
 
     return selected
-- 
2.43.0


From b0818ba3c3ad4aa7ecf19ae2c8bae101184fe2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 069/165] fix: mapping onto the unit simplex leaves its input
 unchanged

---
 pymoo/util/reference_direction.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index fd7741f..6dbf734 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -372,8 +372,7 @@ def map_onto_unit_simplex(rnd: NDArray, method: str) -> NDArray:
     elif method == "kraemer":
         M = sys.maxsize
 
-        rnd *= M
-        rnd = rnd[:, : n_dim - 1]
+        rnd = rnd[:, : n_dim - 1] * M
         rnd = np.column_stack([np.zeros(n_points), rnd, np.full(n_points, M)])
 
         rnd = np.sort(rnd, axis=1)
-- 
2.43.0


From 8473c63162031111d511f84aff8e8bb418a880ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 070/165] fix: reduction-based reference directions with less
 points than objectives

---
 pymoo/util/ref_dirs/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/ref_dirs/reduction.py b/pymoo/util/ref_dirs/reduction.py
index 1858967..ca6ea6a 100644
--- a/pymoo/util/ref_dirs/reduction.py
+++ b/pymoo/util/ref_dirs/reduction.py
@@ -129,7 +129,7 @@ class ReductionBasedReferenceDirectionFactory(ReferenceDirectionFactory):
         X = np.vstack([E, rnd])
 
         I = select_points_with_maximum_distance(  # noqa: E741
-            X, self.n_points, selected=list(range(len(E)))
+            X, self.n_points, selected=list(range(len(E))), random_state=random_state
         )
         centroids = X[I].copy()
 
-- 
2.43.0


From 4049bcea15ae55296b4369690a786143d21c66ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 071/165] fix: k-means keeps the centroid of an empty cluster

---
 pymoo/util/ref_dirs/reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/util/ref_dirs/reduction.py b/pymoo/util/ref_dirs/reduction.py
index ca6ea6a..f144f9b 100644
--- a/pymoo/util/ref_dirs/reduction.py
+++ b/pymoo/util/ref_dirs/reduction.py
@@ -45,7 +45,8 @@ def kmeans(
             centroids_to_points[k].append(j)
 
         for j in range(n_ignore, len(centroids_to_points)):
-            centroids[j] = np.mean(X[centroids_to_points[j]], axis=0)
+            if len(centroids_to_points[j]) > 0:
+                centroids[j] = np.mean(X[centroids_to_points[j]], axis=0)
 
         project_onto_unit_simplex_recursive(centroids)
         centroids /= centroids.sum(axis=1)[:, None]
-- 
2.43.0


From 8002d7af88b64af03d4fb4ed6879e364fbff8ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 072/165] fix: incremental lattice without partitions is the
 center of the simplex

---
 pymoo/util/ref_dirs/incremental.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/ref_dirs/incremental.py b/pymoo/util/ref_dirs/incremental.py
index e086f12..4055877 100644
--- a/pymoo/util/ref_dirs/incremental.py
+++ b/pymoo/util/ref_dirs/incremental.py
@@ -29,6 +29,9 @@ def check_n_points(n_points, n_dim):
 
 
 def incremental_lattice(n_partitions, n_dim):
+    if n_partitions == 0:
+        return np.full((1, n_dim), 1 / n_dim)
+
     I = n_dim * np.eye(n_dim)  # noqa: E741
     W = np.zeros((1, n_dim))
     edgeW = W
@@ -39,8 +42,7 @@ def incremental_lattice(n_partitions, n_dim):
         edgeW = edgeW[np.any(edgeW == 0, axis=1)]
         W = np.vstack((W + 1, edgeW))
 
-    with np.errstate(invalid="ignore", divide="ignore"):
-        return W / (n_dim * n_partitions)
+    return W / (n_dim * n_partitions)
 
 
 class IncrementalReferenceDirectionFactory(ReferenceDirectionFactory):
-- 
2.43.0


From 984f44df31c0496ba874e76a12dab8806b07f2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 073/165] fix: energy solver returns only the points it was
 given if all are frozen

---
 pymoo/util/ref_dirs/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/ref_dirs/energy.py b/pymoo/util/ref_dirs/energy.py
index 04f910f..7764af6 100644
--- a/pymoo/util/ref_dirs/energy.py
+++ b/pymoo/util/ref_dirs/energy.py
@@ -113,7 +113,7 @@ class RieszEnergyReferenceDirectionFactory(ReferenceDirectionFactory):
 
         # if all points are frozen - simply return it
         if np.all(freeze):
-            return X
+            return X[:n_points]
 
         # initialize the optimizer for the run
         self.optimizer = Adam(alpha=0.005)
-- 
2.43.0


From 03b96d7648a2624cc84790f97a5e9a841b23bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:54 +0000
Subject: [PATCH 074/165] fix: closest point variances of sets without all
 corners

---
 pymoo/util/ref_dirs/performance.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pymoo/util/ref_dirs/performance.py b/pymoo/util/ref_dirs/performance.py
index 6faddc4..9a246af 100644
--- a/pymoo/util/ref_dirs/performance.py
+++ b/pymoo/util/ref_dirs/performance.py
@@ -55,7 +55,7 @@ def closest_point_variance(z: NDArray) -> float:
             z = np.vstack([z, row])
 
     D: NDArray = vectorized_cdist(z, z)  # type: ignore[assignment]
-    np.fill_diagonal(D, 1)
+    np.fill_diagonal(D, np.inf)
 
     return float(D.min(axis=1).var())
 
@@ -69,11 +69,10 @@ def closest_point_variance_mod(z: NDArray) -> float:
     Returns:
         The variance of k-th nearest neighbor distances.
     """
-    n_points, n_dim = z.shape
-
     for row in np.eye(z.shape[1]):
         if not np.any(np.all(row == z, axis=1)):
             z = np.vstack([z, row])
+    n_points, n_dim = z.shape
 
     D: NDArray = vectorized_cdist(z, z)  # type: ignore[assignment]
     np.fill_diagonal(D, np.inf)
-- 
2.43.0


From 0b433811393e5d7b59a4d14477ab5cc4971b815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:54 +0000
Subject: [PATCH 075/165] fix: reference directions found by a genetic
 algorithm

---
 pymoo/util/ref_dirs/genetic_algorithm.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pymoo/util/ref_dirs/genetic_algorithm.py b/pymoo/util/ref_dirs/genetic_algorithm.py
index de12150..5380c9d 100644
--- a/pymoo/util/ref_dirs/genetic_algorithm.py
+++ b/pymoo/util/ref_dirs/genetic_algorithm.py
@@ -1,7 +1,7 @@
 """Genetic algorithm-based reference direction generation."""
 
 from pymoo.algorithms.soo.nonconvex.ga import GA
-from pymoo.core.problem import Problem
+from pymoo.core.problem import ElementwiseProblem
 from pymoo.optimize import minimize
 from pymoo.util.reference_direction import (
     get_partition_closest_to_points,
@@ -29,7 +29,7 @@ class ReferenceDirectionGA(ReferenceDirectionFactory):
         ) = self.n_points, self.n_dim
         fun = self.fun
 
-        class MyProblem(Problem):
+        class MyProblem(ElementwiseProblem):
             def __init__(self):
                 self.n_points = n_points
                 self.n_dim = n_dim
@@ -40,7 +40,6 @@ class ReferenceDirectionGA(ReferenceDirectionFactory):
                     n_obj=1,
                     xl=0.0,
                     xu=1.0,
-                    elementwise_evaluation=True,
                 )
 
             def get_points(self, x):
@@ -59,8 +58,8 @@ class ReferenceDirectionGA(ReferenceDirectionFactory):
             problem,
             algorithm,
             termination=("n_gen", n_gen),
-            random_state=random_state,
-            verbose=True,
+            seed=int(random_state.integers(2**31 - 1)),
+            verbose=self.verbose,
         )
 
         ref_dirs = problem.get_points(res.X)
-- 
2.43.0


From ce3cfbf2c0979d4792cabf80dd300387b6f25ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 076/165] fix: normalization of integer values and with integer
 bounds

---
 pymoo/util/normalization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index 78ed451..63f62d8 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -41,9 +41,9 @@ class ZeroToOneNormalization(Normalization):
 
         # if not set simply fall back no nan values
         if xl is None:
-            xl = np.full_like(xu, np.nan)
+            xl = np.full(np.shape(xu), np.nan)
         if xu is None:
-            xu = np.full_like(xl, np.nan)
+            xu = np.full(np.shape(xl), np.nan)
 
         xl, xu = np.copy(xl).astype(float), np.copy(xu).astype(float)
 
@@ -73,7 +73,7 @@ class ZeroToOneNormalization(Normalization):
             return X
 
         # simple copy the input
-        N = np.copy(X)
+        N = np.array(X, dtype=float)
 
         # normalize between zero and one if neither of them is nan
         N[..., self.neither_nan] = (X[..., self.neither_nan] - self.xl[self.neither_nan]) / (
@@ -93,7 +93,7 @@ class ZeroToOneNormalization(Normalization):
         xl, xu, xl_only, xu_only = self.xl, self.xu, self.xl_only, self.xu_only
         neither_nan = self.neither_nan
 
-        X = N.copy()
+        X = np.array(N, dtype=float)
         X[..., neither_nan] = xl[neither_nan] + N[..., neither_nan] * (xu[neither_nan] - xl[neither_nan])
 
         X[..., xl_only] = N[..., xl_only] + xl[xl_only]
@@ -133,7 +133,7 @@ class SimpleZeroToOneNormalization(Normalization):
         denom = xu - xl
 
         # we can not divide by zero -> plus small epsilon
-        denom += (denom == 0) * 1e-32
+        denom = denom + (denom == 0) * 1e-32
 
         # normalize the actual values
         N = (X - xl) / denom
-- 
2.43.0


From a7081b97128a9212efb021898b5ee62f6b43441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 077/165] fix: normalized SPEA2 survival if an objective is
 constant

---
 pymoo/algorithms/moo/spea2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index c3cfe66..d1d70fb 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -71,7 +71,10 @@ class SPEA2Survival(Survival):
 
             ideal, nadir = self.norm.ideal_point, self.norm.nadir_point
 
-            _F = (F - ideal) / (nadir - ideal)
+            denom = nadir - ideal
+            denom[denom == 0] = 1e-12
+
+            _F = (F - ideal) / denom
             dists = vectorized_cdist(_F, _F, fill_diag_with_inf=True)
 
         # if no normalize is required simply use the F values from the population
-- 
2.43.0


From ef2fe81255dd8db2ee6d061e0db00005402b2015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 078/165] fix: R-NSGA-II distances if an objective is constant

---
 pymoo/algorithms/moo/rnsga2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rnsga2.py b/pymoo/algorithms/moo/rnsga2.py
index b21d46b..97a418f 100644
--- a/pymoo/algorithms/moo/rnsga2.py
+++ b/pymoo/algorithms/moo/rnsga2.py
@@ -184,7 +184,10 @@ class RankAndModifiedCrowdingSurvival(Survival):
 
 def calc_norm_pref_distance(A, B, weights, ideal, nadir):
     D = np.repeat(A, B.shape[0], axis=0) - np.tile(B, (A.shape[0], 1))
-    N = ((D / (nadir - ideal)) ** 2) * weights
+    denom = nadir - ideal
+    denom[denom == 0] = 1.0
+
+    N = ((D / denom) ** 2) * weights
     N = np.sqrt(np.sum(N, axis=1) * len(weights))
     return np.reshape(N, (A.shape[0], B.shape[0]))
 
-- 
2.43.0


From 88e942ca8e128d61dbdb457b82eabba2b6181bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 079/165] fix: order of the fallback points for the nadir point
 in R-NSGA-III

---
 pymoo/algorithms/moo/rnsga3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rnsga3.py b/pymoo/algorithms/moo/rnsga3.py
index 7dc697b..7450008 100644
--- a/pymoo/algorithms/moo/rnsga3.py
+++ b/pymoo/algorithms/moo/rnsga3.py
@@ -125,8 +125,8 @@ class AspirationPointSurvival(Survival):
             self.extreme_points,
             self.ideal_point,
             self.worst_point,
-            worst_of_population,
             worst_of_front,
+            worst_of_population,
         )
 
         I = np.concatenate(fronts)  # noqa: E741
-- 
2.43.0


From 3e5a3b0fdc98ba661d357bf7fc15998057749714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:51 +0000
Subject: [PATCH 080/165] fix: standardizing constant columns

---
 pymoo/util/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index 63f62d8..5995512 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -180,7 +180,7 @@ def standardize(x, return_bounds=False):
     std = np.std(x, axis=0)
 
     # standardize
-    val = (x - mean) / std
+    val = (x - mean) / np.where(std == 0, 1.0, std)
 
     if not return_bounds:
         return val
-- 
2.43.0


From eee7a54630d854ba399c31ec468bebe479696635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 081/165] fix: RVEA angle of a solution lying on a reference
 vector

---
 pymoo/algorithms/moo/rvea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index e64a674..ad69e0f 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -173,7 +173,7 @@ class APDSurvival(Survival):
         F_prime = F / dist_to_ideal[:, None]
 
         # calculate for each solution the acute angles to ref dirs
-        acute_angle = np.arccos(F_prime @ self.V.T)
+        acute_angle = np.arccos(np.clip(F_prime @ self.V.T, -1.0, 1.0))
         niches = acute_angle.argmin(axis=1)
 
         # assign to each reference direction the solution
-- 
2.43.0


From 4c8ff310417d7640a973c88a7da82d924efcb2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 082/165] fix: RVEA angle between reference vectors which
 coincide

---
 pymoo/algorithms/moo/rvea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index ad69e0f..655420d 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -110,7 +110,7 @@ class RVEA(GeneticAlgorithm):
 
 
 def calc_gamma(V):
-    gamma = np.arccos((-np.sort(-1 * V @ V.T))[:, 1])
+    gamma = np.arccos(np.clip((-np.sort(-1 * V @ V.T))[:, 1], -1.0, 1.0))
     gamma = np.maximum(gamma, 1e-64)
     return gamma
 
-- 
2.43.0


From 1fee221f22a5d9231b304141a596ea77e1e1fa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 083/165] fix: R-NSGA-III reference points if an objective is
 constant

---
 pymoo/algorithms/moo/rnsga3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rnsga3.py b/pymoo/algorithms/moo/rnsga3.py
index 7450008..0aa8916 100644
--- a/pymoo/algorithms/moo/rnsga3.py
+++ b/pymoo/algorithms/moo/rnsga3.py
@@ -140,7 +140,10 @@ class AspirationPointSurvival(Survival):
                 counter += 1
         last_front = fronts[-1]
 
-        unit_ref_points = (self.ref_points - self.ideal_point) / (self.nadir_point - self.ideal_point)
+        denom = self.nadir_point - self.ideal_point
+        denom[denom == 0] = 1e-12
+
+        unit_ref_points = (self.ref_points - self.ideal_point) / denom
         ref_dirs = get_ref_dirs_from_points(unit_ref_points, self.aspiration_ref_dirs, mu=self.mu)
         self.ref_dirs = denormalize(ref_dirs, self.ideal_point, self.nadir_point)
 
-- 
2.43.0


From 3bfc4247efe08af9ffa75e520e1f5a49d3354593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:46 +0000
Subject: [PATCH 084/165] fix: RVEA adaption of reference vectors if an
 objective is constant

---
 pymoo/algorithms/moo/rvea.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index 655420d..3dfe3f9 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -137,7 +137,10 @@ class APDSurvival(Survival):
 
     def adapt(self):
         if self.nadir is not None:
-            self.V = calc_V(calc_V(self.ref_dirs) * (self.nadir - self.ideal))
+            scale = self.nadir - self.ideal
+            scale[scale == 0] = 1e-12
+
+            self.V = calc_V(calc_V(self.ref_dirs) * scale)
             self.gamma = calc_gamma(self.V)
 
     def _do(
-- 
2.43.0


From 7adabf72a7d3bf9f865e91ef50366eff8ec9b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 085/165] fix: DF12 multiplied over the whole batch instead of
 per solution

---
 pymoo/problems/dynamic/df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/dynamic/df.py b/pymoo/problems/dynamic/df.py
index 003e9bd..3208b0d 100644
--- a/pymoo/problems/dynamic/df.py
+++ b/pymoo/problems/dynamic/df.py
@@ -333,7 +333,7 @@ class DF12(DF):
         x0 = x[:, 0].reshape(len(x), 1)
         tmp1 = x[:, 2:] - np.sin(self.time * x0)
         tmp2 = np.abs(np.sin(np.floor(k * (2 * x[:, 0:2] - r)) * np.pi / 2))
-        g = 1 + np.sum(tmp1**2, axis=1) + np.prod(tmp2)
+        g = 1 + np.sum(tmp1**2, axis=1) + np.prod(tmp2, axis=1)
 
         f1 = g * np.cos(0.5 * np.pi * x[:, 1]) * np.cos(0.5 * np.pi * x[:, 0])
         f2 = g * np.sin(0.5 * np.pi * x[:, 1]) * np.cos(0.5 * np.pi * x[:, 0])
-- 
2.43.0


From 1713fa581fc08c8da791b24ab3cf2a99fe7f607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 086/165] fix: Clutch declares the eight constraints it
 calculates

---
 pymoo/problems/multi/clutch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi/clutch.py b/pymoo/problems/multi/clutch.py
index cea0dcd..8115f0d 100644
--- a/pymoo/problems/multi/clutch.py
+++ b/pymoo/problems/multi/clutch.py
@@ -8,7 +8,7 @@ from pymoo.core.problem import Problem
 
 class Clutch(Problem):
     def __init__(self) -> None:
-        super().__init__(n_var=5, n_obj=2, n_ieq_constr=19, vtype=int)
+        super().__init__(n_var=5, n_obj=2, n_ieq_constr=8, vtype=int)
         # ri, ro, t, F, Xp
         # self.xl = np.array([60, 90, 1, 600, 2])
         self.xl: np.ndarray = np.array([0, 0, 0, 0, 0])
-- 
2.43.0


From 984be8264930ada013cc7f8731e75eba2557a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 087/165] fix: MultiObjectiveKnapsack declares its two
 objectives

---
 pymoo/problems/single/knapsack.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymoo/problems/single/knapsack.py b/pymoo/problems/single/knapsack.py
index f3c39f8..ba7b77c 100644
--- a/pymoo/problems/single/knapsack.py
+++ b/pymoo/problems/single/knapsack.py
@@ -28,6 +28,7 @@ class Knapsack(Problem):
 class MultiObjectiveKnapsack(Knapsack):
     def __init__(self, *args):
         super().__init__(*args)
+        self.n_obj = 2
 
     def _evaluate(self, x, out, *args, **kwargs):
         f1 = -np.sum(self.P * x, axis=1)
-- 
2.43.0


From 4e0f9fcebdcbfeffc77c94256e781f83f9185a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 088/165] fix: MW5, MW6, MW7 and MW11 returned NaN at the upper
 bound because of rounding

---
 pymoo/problems/multi/mw.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index f51b45d..2d8d12e 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -172,7 +172,7 @@ class MW5(MW):
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g1(X)
         f0 = g * X[:, 0]
-        f1 = g * np.sqrt(1.0 - np.power(f0 / g, 2.0))
+        f1 = g * np.sqrt(np.maximum(0.0, 1.0 - np.power(f0 / g, 2.0)))
 
         with np.errstate(divide="ignore"):
             atan = np.arctan(f1 / f0)
@@ -195,7 +195,7 @@ class MW6(MW):
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g2(X)
         f0 = g * X[:, 0]
-        f1 = g * np.sqrt(1.1 * 1.1 - np.power(f0 / g, 2.0))
+        f1 = g * np.sqrt(np.maximum(0.0, 1.1 * 1.1 - np.power(f0 / g, 2.0)))
 
         with np.errstate(divide="ignore"):
             atan = np.arctan(f1 / f0)
@@ -228,7 +228,7 @@ class MW7(MW):
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g3(X)
         f0 = g * X[:, 0]
-        f1 = g * np.sqrt(1 - np.power(f0 / g, 2))
+        f1 = g * np.sqrt(np.maximum(0.0, 1 - np.power(f0 / g, 2)))
 
         with np.errstate(divide="ignore"):
             atan = np.arctan(f1 / f0)
@@ -317,7 +317,7 @@ class MW11(MW):
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g3(X)
         f0 = g * X[:, 0]
-        f1 = g * np.sqrt(2.0 - np.power(f0 / g, 2.0))
+        f1 = g * np.sqrt(np.maximum(0.0, 2.0 - np.power(f0 / g, 2.0)))
 
         g0 = -1.0 * (3.0 - f0 * f0 - f1) * (3.0 - 2.0 * f0 * f0 - f1)
         g1 = (3.0 - 0.625 * f0 * f0 - f1) * (3.0 - 7.0 * f0 * f0 - f1)
-- 
2.43.0


From 5627afc5dd6bc951afe45c61bb07206cbfbd9319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 089/165] fix: the MW Pareto fronts overwrote the reference
 directions of the caller

---
 pymoo/problems/multi/mw.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index 2d8d12e..1c6e9a8 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -79,7 +79,7 @@ class MW1(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs, dtype=float)
         F[:, 1] = 1 - 0.85 * F[:, 0]
         length = np.sqrt(2) * F[:, 1] - np.sqrt(2) * F[:, 0]
         c = 1 - F[:, 0] - F[:, 1] + 0.5 * np.sin(2 * np.pi * length) ** 8
@@ -105,7 +105,7 @@ class MW2(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs, dtype=float)
         F[:, 1] = 1 - F[:, 0]
         return F
 
@@ -129,7 +129,7 @@ class MW3(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs, dtype=float)
         F[:, 1] = 1 - F[:, 0]
         invalid = (0.85 - F[:, 0] - F[:, 1] + 0.3 * np.sin(0.75 * np.pi * np.sqrt(2) * (F[:, 1] - F[:, 0])) ** 2) > 0
         while invalid.any():
@@ -213,7 +213,7 @@ class MW6(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs, dtype=float)
         F[:, 1] = 1 - F[:, 0]
         F = F / np.sqrt(np.sum(F**2, axis=1) / 1.21).reshape((-1, 1))
         length = np.cos(6 * np.arctan(F[:, 1] / F[:, 0]) ** 4) ** 10
@@ -355,7 +355,7 @@ class MW12(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs, dtype=float)
         F[:, 1] = 0.85 - 0.8 * F[:, 0] - 0.08 * np.abs(np.sin(3.2 * np.pi * F[:, 0]))
 
         invalid = (1 - 0.8 * F[:, 0] - F[:, 1] + 0.08 * np.sin(2 * np.pi * (F[:, 1] - F[:, 0] / 1.5))) * (
-- 
2.43.0


From 2546f37bf2c74cdea94a68fa4925c965c09dd99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 090/165] fix: the Pareto front of InvertedDTLZ1 raised an
 error

---
 pymoo/problems/many/dtlz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index 1fbc2a1..d575019 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -466,7 +466,7 @@ class InvertedDTLZ1(DTLZ1):
         Returns:
             Pareto front solutions.
         """
-        return self.problem.pareto_front(*args, **kwargs)
+        return 0.5 - super()._calc_pareto_front(*args, **kwargs)
 
 
 class ScaledProblem(Problem):
-- 
2.43.0


From 85f62e483c97a81acbbe4cf14f7654fe3a7652bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 091/165] fix: the Pareto front of convex DTLZ problems has
 default reference directions as for the others

---
 pymoo/problems/many/dtlz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index d575019..658e545 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -573,7 +573,7 @@ class ConvexProblem(Problem):
         self.problem._evaluate(x, out, **kwargs)
         out["F"] = anp.power(out["F"], self.get_power(self.n_obj))
 
-    def _calc_pareto_front(self, ref_dirs, *args, **kwargs):
+    def _calc_pareto_front(self, ref_dirs=None, *args, **kwargs):
         """Calculate Pareto front with convex transformation.
 
         Args:
-- 
2.43.0


From 89c806ee8943f5d20138888a21a62a236fb06bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 092/165] fix: the Pareto set of WFG problems with many
 position parameters raised an error

---
 pymoo/problems/many/wfg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/many/wfg.py b/pymoo/problems/many/wfg.py
index b1cc6d1..0f4fc95 100644
--- a/pymoo/problems/many/wfg.py
+++ b/pymoo/problems/many/wfg.py
@@ -119,7 +119,7 @@ class WFG(Problem):
     def _calc_pareto_set(self, n_points=500, *args, **kwargs):
         """Calculate the Pareto set with extremes and interior points."""
         extremes = self._calc_pareto_set_extremes()
-        interior = self._calc_pareto_set_interior(n_points - len(extremes))
+        interior = self._calc_pareto_set_interior(max(0, n_points - len(extremes)))
         return np.vstack([extremes, interior])
 
     def _calc_pareto_front(
-- 
2.43.0


From 77bd3e767db32279e7f4d12d62b8850408790e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 093/165] fix: the bounds of the TSP and the flowshop problem
 are those of the indices they are indexed with

---
 pymoo/problems/single/flowshop_scheduling.py | 2 +-
 pymoo/problems/single/traveling_salesman.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/problems/single/flowshop_scheduling.py b/pymoo/problems/single/flowshop_scheduling.py
index aafc778..251b43f 100644
--- a/pymoo/problems/single/flowshop_scheduling.py
+++ b/pymoo/problems/single/flowshop_scheduling.py
@@ -20,7 +20,7 @@ class FlowshopScheduling(ElementwiseProblem):
         n_machines, n_jobs = processing_times.shape
         self.records = processing_times
 
-        super().__init__(n_var=n_jobs, n_obj=1, xl=0, xu=n_machines, vtype=int, **kwargs)
+        super().__init__(n_var=n_jobs, n_obj=1, xl=0, xu=n_jobs - 1, vtype=int, **kwargs)
 
     def _evaluate(self, x: Any, out: Any, *args: Any, **kwargs: Any) -> Any:  # noqa: ARG002
         out["F"] = self.makespan(x)
diff --git a/pymoo/problems/single/traveling_salesman.py b/pymoo/problems/single/traveling_salesman.py
index 193b7e6..f74104a 100644
--- a/pymoo/problems/single/traveling_salesman.py
+++ b/pymoo/problems/single/traveling_salesman.py
@@ -22,7 +22,7 @@ class TravelingSalesman(ElementwiseProblem):
         self.cities = cities
         self.D = cdist(cities, cities)
 
-        super(TravelingSalesman, self).__init__(n_var=n_cities, n_obj=1, xl=0, xu=n_cities, vtype=int, **kwargs)
+        super(TravelingSalesman, self).__init__(n_var=n_cities, n_obj=1, xl=0, xu=n_cities - 1, vtype=int, **kwargs)
 
     def _evaluate(self, x, out, *args, **kwargs):
         out["F"] = self.get_route_length(x)
-- 
2.43.0


From 99326d39c49631b538e0d276510eb45deaa252c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:23 +0000
Subject: [PATCH 094/165] fix: the Pareto front of DTLZ7 contained dominated
 points

---
 pymoo/problems/many/dtlz.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index 658e545..532b5a2 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -412,11 +412,16 @@ class DTLZ7(DTLZ):
         # At the Pareto front: g* = 1, so f_M = (1+g*)*h = 2*h
         # h = n_obj - sum(f_i/(1+g*) * (1+sin(3pi*f_i))) = n_obj - sum(f_i/2*(1+sin(3pi*f_i)))
         # => f_M = 2*n_obj - sum(f_i*(1+sin(3pi*f_i)))
+        # A solution is only optimal if none of its f_i can be decreased without decreasing f_i*(1+sin(3pi*f_i))
+        f = np.linspace(0, 1, n_points * 20)
+        contrib = f * (1 + np.sin(3 * np.pi * f))
+        best_before = np.concatenate([[-np.inf], np.maximum.accumulate(contrib)[:-1]])
+        optimal = f[contrib > best_before]
+
         rng = np.random.default_rng(42)
-        F_first = rng.random((n_points * 20, self.n_obj - 1))
+        F_first = np.unique(rng.choice(optimal, (n_points * 20, self.n_obj - 1)), axis=0)
         F_last = 2 * self.n_obj - np.sum(F_first * (1 + np.sin(3 * np.pi * F_first)), axis=1)
-        valid = F_last >= 0
-        return np.column_stack([F_first[valid], F_last[valid]])
+        return np.column_stack([F_first, F_last])
 
     def _evaluate(self, x, out, *args, **kwargs) -> None:
         """Evaluate DTLZ7 problem.
-- 
2.43.0


From 6010dcb65379e9c9610d8d5e8e807b0b140d1141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:23 +0000
Subject: [PATCH 095/165] fix: the Pareto front of C3DTLZ1 was infeasible

---
 pymoo/problems/many/cdtlz.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pymoo/problems/many/cdtlz.py b/pymoo/problems/many/cdtlz.py
index dd08d79..7ebee9c 100644
--- a/pymoo/problems/many/cdtlz.py
+++ b/pymoo/problems/many/cdtlz.py
@@ -179,6 +179,24 @@ class C3DTLZ1(DTLZ1):
         super()._evaluate(x, out, *args, **kwargs)
         out["G"] = constraint_c3_linear(out["F"])
 
+    def _calc_pareto_front(self, ref_dirs=None, *args, **kwargs):
+        """Calculate Pareto front.
+
+        Args:
+            ref_dirs: Reference directions.
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Pareto front solutions.
+        """
+        if ref_dirs is None:
+            ref_dirs = get_ref_dirs(self.n_obj)
+        F = super()._calc_pareto_front(ref_dirs, *args, **kwargs)
+
+        # move the points along their direction to the boundary of the feasible region
+        return F / (F.sum(axis=1) + F.min(axis=1))[:, None]
+
 
 class C3DTLZ4(DTLZ4):
     """Constrained DTLZ4 problem with multiple spherical inequality constraints."""
-- 
2.43.0


From fabd47547e90b177b5371ef9fd701c1abcd88ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:23 +0000
Subject: [PATCH 096/165] fix: the Pareto fronts of the DC1DTLZ and DC3DTLZ
 problems contained infeasible points

---
 pymoo/problems/many/dcdtlz.py | 74 +++++++++++++++++++++++++++++++++++
 1 file changed, 74 insertions(+)

diff --git a/pymoo/problems/many/dcdtlz.py b/pymoo/problems/many/dcdtlz.py
index 0908e27..5712b29 100644
--- a/pymoo/problems/many/dcdtlz.py
+++ b/pymoo/problems/many/dcdtlz.py
@@ -1,5 +1,7 @@
 """Degenerate constrained DTLZ test problems (DC1DTLZ1, DC1DTLZ3, DC2DTLZ1, DC2DTLZ3, DC3DTLZ1, DC3DTLZ3)."""
 
+import numpy as np
+
 import pymoo.gradient.toolbox as anp
 
 from pymoo.problems.many.dtlz import DTLZ1, DTLZ3
@@ -52,6 +54,24 @@ def constraints_dc3(X, gx, a: int = 5, b: float = 0.5):
     return anp.column_stack([Ggx, Gx])
 
 
+def positions(F, norm):
+    """Get the position variables of points on the (unconstrained) Pareto front.
+
+    Args:
+        F: Points on the Pareto front.
+        norm: The order of the norm, which is 1 for DTLZ1 and 2 for DTLZ3.
+
+    Returns:
+        Values of the first (M-1) variables (zero if any value is possible).
+    """
+    X = []
+    for j in range(F.shape[1] - 1, 0, -1):
+        total = np.linalg.norm(F[:, : j + 1], ord=norm, axis=1)
+        ratio = np.clip(F[:, j] / np.where(total > 0, total, 1.0), 0.0, 1.0)
+        X.append(np.where(total > 0, 1 - ratio if norm == 1 else 2 / np.pi * np.arcsin(ratio), 0.0))
+    return np.column_stack(X)
+
+
 class DC1DTLZ1(DTLZ1):
     """Degenerate constrained DTLZ1 problem with one inequality constraint."""
 
@@ -78,6 +98,19 @@ class DC1DTLZ1(DTLZ1):
         super()._evaluate(x, out, *args, **kwargs)
         out["G"] = constraint_dc1(x)
 
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate the feasible part of the Pareto front.
+
+        Args:
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Pareto front solutions.
+        """
+        F = super()._calc_pareto_front(*args, **kwargs)
+        return F[constraint_dc1(positions(F, norm=1)) <= 0]
+
 
 class DC1DTLZ3(DTLZ3):
     """Degenerate constrained DTLZ3 problem with one inequality constraint."""
@@ -105,6 +138,19 @@ class DC1DTLZ3(DTLZ3):
         super()._evaluate(x, out, *args, **kwargs)
         out["G"] = constraint_dc1(x)
 
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate the feasible part of the Pareto front.
+
+        Args:
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Pareto front solutions.
+        """
+        F = super()._calc_pareto_front(*args, **kwargs)
+        return F[constraint_dc1(positions(F, norm=2)) <= 0]
+
 
 class DC2DTLZ1(DTLZ1):
     """Degenerate constrained DTLZ1 problem with two inequality constraints."""
@@ -191,6 +237,20 @@ class DC3DTLZ1(DTLZ1):
         out["F"] = self.obj_func(X_, g)
         out["G"] = constraints_dc3(X_, g)
 
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate the feasible part of the Pareto front.
+
+        Args:
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Pareto front solutions.
+        """
+        F = super()._calc_pareto_front(*args, **kwargs)
+        G = constraints_dc3(positions(F, norm=1), np.zeros(len(F)))
+        return F[np.all(G <= 0, axis=1)]
+
 
 class DC3DTLZ3(DTLZ3):
     """Degenerate constrained DTLZ3 problem with multiple inequality constraints."""
@@ -218,3 +278,17 @@ class DC3DTLZ3(DTLZ3):
         g = self.g1(X_M)
         out["F"] = self.obj_func(X_, g, alpha=1)
         out["G"] = constraints_dc3(X_, g)
+
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate the feasible part of the Pareto front.
+
+        Args:
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Pareto front solutions.
+        """
+        F = super()._calc_pareto_front(*args, **kwargs)
+        G = constraints_dc3(positions(F, norm=2), np.zeros(len(F)))
+        return F[np.all(G <= 0, axis=1)]
-- 
2.43.0


From d84da3d3570da3ae20104e9cdc22a3c6664e8132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 097/165] fix: replacing NaN values failed for scalar outputs
 of a single solution

---
 pymoo/core/problem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/core/problem.py b/pymoo/core/problem.py
index 9159435..9738482 100644
--- a/pymoo/core/problem.py
+++ b/pymoo/core/problem.py
@@ -197,14 +197,14 @@ class Problem:
             # copy it to a numpy array (it might be one of jax at this point)
             v = np.array(v)
 
-            # in case the input had only one dimension, then remove always the first dimension from each output
-            if only_single_value:
-                v = v[0]
-
             # if the NaN values should be replaced
             if self.replace_nan_values_by is not None:
                 v[np.isnan(v)] = self.replace_nan_values_by
 
+            # in case the input had only one dimension, then remove always the first dimension from each output
+            if only_single_value:
+                v = v[0]
+
             try:
                 out[k] = v.astype(np.float64)
             except:  # noqa: E722
-- 
2.43.0


From c3fc49c80a50f9e74910806868b424ca95e4a151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 098/165] fix: a single solution given as a dictionary could
 not be evaluated

---
 pymoo/core/problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/core/problem.py b/pymoo/core/problem.py
index 9738482..005709d 100644
--- a/pymoo/core/problem.py
+++ b/pymoo/core/problem.py
@@ -188,6 +188,8 @@ class Problem:
             assert X.shape[1] == self.n_var, f"Input dimension {X.shape[1]} are not equal to n_var {self.n_var}!"
         else:
             only_single_value = not (isinstance(X, list) or isinstance(X, np.ndarray))
+            if isinstance(X, dict):
+                X = [X]
 
         # this is where the actual evaluation takes place
         _out = self.do(X, return_values_of, *args, **kwargs)
-- 
2.43.0


From a79c6b1906dd3510c06718fce5184cd6896e19ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 099/165] fix: the Pareto set and front of OmniTest were empty
 for many variables

---
 pymoo/problems/multi/omnitest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi/omnitest.py b/pymoo/problems/multi/omnitest.py
index c416dcf..2e5c11f 100644
--- a/pymoo/problems/multi/omnitest.py
+++ b/pymoo/problems/multi/omnitest.py
@@ -33,7 +33,7 @@ class OmniTest(Problem):
     def _calc_pareto_set(self, n_pareto_points: int = 500) -> np.ndarray:
         # The Omni-test problem has 3^D Pareto subsets
         num_ps = int(3**self.n_var)
-        h = int(n_pareto_points / num_ps)
+        h = max(2, int(n_pareto_points / num_ps))
         PS = np.zeros((num_ps * h, self.n_var))
 
         candidates = np.array([np.linspace(2 * m + 1, 2 * m + 3 / 2, h) for m in range(3)])
-- 
2.43.0


From 3f46a361e204627becc57c301ef7b76d17e49007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 100/165] fix: the Pareto set of Himmelblau had three
 dimensions

---
 pymoo/problems/single/himmelblau.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pymoo/problems/single/himmelblau.py b/pymoo/problems/single/himmelblau.py
index c53735e..6e2722d 100644
--- a/pymoo/problems/single/himmelblau.py
+++ b/pymoo/problems/single/himmelblau.py
@@ -1,5 +1,7 @@
 """Himmelblau single-objective test problem."""
 
+import numpy as np
+
 from pymoo.core.problem import Problem
 
 
@@ -14,9 +16,11 @@ class Himmelblau(Problem):
         return 0
 
     def _calc_pareto_set(self):
-        return [
-            [3.0, 2.0],
-            [-2.805118, 3.131312],
-            [-3.779310, -3.283186],
-            [3.584428, -1.848126],
-        ]
+        return np.array(
+            [
+                [3.0, 2.0],
+                [-2.805118, 3.131312],
+                [-3.779310, -3.283186],
+                [3.584428, -1.848126],
+            ]
+        )
-- 
2.43.0


From 5c29a6f427057a1be73b1d3bd6e9f99abd928fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:37 +0000
Subject: [PATCH 101/165] fix: the Pareto set of the pressure vessel problem
 did not match its optimum

---
 pymoo/problems/single/pressure_vessel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/single/pressure_vessel.py b/pymoo/problems/single/pressure_vessel.py
index 0b56a3d..0bd03ab 100644
--- a/pymoo/problems/single/pressure_vessel.py
+++ b/pymoo/problems/single/pressure_vessel.py
@@ -29,4 +29,4 @@ class PressureVessel(Problem):
         return 5.8853e03
 
     def _calc_pareto_set(self):
-        return [13, 7, 42.0984456, 176.6366]
+        return [12.450698, 6.154387, 40.319619, 200.0]
-- 
2.43.0


From 6f4f171fdf9483e0c3268f5619d7d762585cce0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:37 +0000
Subject: [PATCH 102/165] fix: the declared optimum of G18 was not the best one

---
 pymoo/problems/single/g.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pymoo/problems/single/g.py b/pymoo/problems/single/g.py
index 4c44159..1bf4e0c 100644
--- a/pymoo/problems/single/g.py
+++ b/pymoo/problems/single/g.py
@@ -754,15 +754,15 @@ class G18(G):
 
     def _calc_pareto_set(self):
         return [
-            -0.9890005492667746,
-            0.1479118418638228,
-            -0.6242897641574451,
-            -0.7811841737429015,
-            -0.9876159387318453,
-            0.1504778305249072,
-            -0.6225959783340022,
-            -0.782543417629948,
-            0.0,
+            -0.657776192427943163,
+            -0.153418773482438542,
+            0.323413871675240938,
+            -0.946257611651304398,
+            -0.657776194376798906,
+            -0.753213434632691414,
+            0.323413874123576972,
+            -0.346462947962331735,
+            0.59979466285217542,
         ]
 
 
-- 
2.43.0


From b9140f645a5227f5d10a71ea541d0fe0cc6e2408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 103/165] fix: no Pareto front instead of an exception if the
 optimum of a G problem is not known

---
 pymoo/problems/single/g.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymoo/problems/single/g.py b/pymoo/problems/single/g.py
index 1bf4e0c..01bccad 100644
--- a/pymoo/problems/single/g.py
+++ b/pymoo/problems/single/g.py
@@ -16,7 +16,13 @@ from pymoo.util.misc import at_least_2d_array
 
 class G(Problem):
     def _calc_pareto_front(self):
-        ps = at_least_2d_array(self._calc_pareto_set(), extend_as="r")
+        ps = self._calc_pareto_set()
+
+        # the optimum is not known for all configurations, e.g. the number of variables of G2
+        if ps is None:
+            return None
+
+        ps = at_least_2d_array(ps, extend_as="r")
         return self.evaluate(ps, return_as_dictionary=True)["F"].min(axis=0)
 
 
-- 
2.43.0


From 3e8c5ea4ff9139a892532d3b235eff524d1d8c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 104/165] fix: dominated points in the Pareto front of WFG2

---
 pymoo/problems/many/wfg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/problems/many/wfg.py b/pymoo/problems/many/wfg.py
index 0f4fc95..c73cd05 100644
--- a/pymoo/problems/many/wfg.py
+++ b/pymoo/problems/many/wfg.py
@@ -9,6 +9,7 @@ from pymoo.problems.many import generic_sphere, get_ref_dirs
 from pymoo.functions import load_function
 from pymoo.util.misc import powerset
 from pymoo.util import default_random_state
+from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 
 
 class WFG(Problem):
@@ -143,6 +144,9 @@ class WFG(Problem):
             )
             pf = np.vstack([pf, _pf])
 
+            # not every point of the surface is optimal if it is disconnected (WFG2)
+            pf = pf[NonDominatedSorting().do(pf, only_non_dominated_front=True)]
+
             ideal, nadir = pf.min(axis=0), pf.max(axis=0)
 
             N = (pf - ideal) / (nadir - ideal)
-- 
2.43.0


From 92011d16ebd9a990455454af3c30913775a72b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 105/165] fix: gradients of outputs put together by numpy were
 silently zero with autograd

---
 pymoo/gradient/grad_autograd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/gradient/grad_autograd.py b/pymoo/gradient/grad_autograd.py
index a4fca86..4dbcfad 100644
--- a/pymoo/gradient/grad_autograd.py
+++ b/pymoo/gradient/grad_autograd.py
@@ -120,6 +120,10 @@ def autograd_vectorized_value_and_grad(f, x):  # type: ignore[name-defined]
     end = {k: v for k, v in end.items() if v is not None}
 
     for name, val in end.items():
+        # if the output was put together by numpy, it is an array of traced values
+        if isinstance(val, np.ndarray) and val.dtype == object:
+            val = anp.array(val.tolist())
+
         v = val
         if hasattr(v, "_value"):
             v = np.array(v._value)
-- 
2.43.0


From 5e50d19b225a7bab8090f4f05f1433c7d7aadccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 106/165] fix: gradients of element-wise problems with lists or
 constants as outputs

---
 pymoo/gradient/grad_autograd.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pymoo/gradient/grad_autograd.py b/pymoo/gradient/grad_autograd.py
index 4dbcfad..c6c8012 100644
--- a/pymoo/gradient/grad_autograd.py
+++ b/pymoo/gradient/grad_autograd.py
@@ -82,6 +82,19 @@ def autograd_elementwise_value_and_grad(f, x):  # type: ignore[name-defined]
         val = out[name]
 
         if val is not None:
+            # the output can be a list of values or put together by numpy
+            if isinstance(val, (list, tuple)):
+                val = anp.array(val)
+            elif isinstance(val, np.ndarray) and val.dtype == object:
+                val = anp.array(val.tolist())
+
+            # a constant does not depend on the variables
+            if not isbox(val):
+                val = np.atleast_1d(val)
+                out[name] = val
+                jac[name] = np.zeros(val.shape + x.shape)
+                continue
+
             if len(val.shape) == 0:
                 val = anp.array([val])
 
-- 
2.43.0


From 9ec3370875ee5772860bf65716577fba26bb533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 107/165] fix: the gradient backend stayed active if the
 evaluation fails

---
 pymoo/gradient/automatic.py | 44 ++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/pymoo/gradient/automatic.py b/pymoo/gradient/automatic.py
index 18b53a6..7057f3f 100644
--- a/pymoo/gradient/automatic.py
+++ b/pymoo/gradient/automatic.py
@@ -16,17 +16,19 @@ class ElementwiseEvaluationFunctionWithGradient(ElementwiseEvaluationFunction):
         f = super().__call__
 
         activate(self.backend)
-        if self.backend == "jax":
-            from pymoo.gradient.grad_jax import jax_elementwise_value_and_grad
+        try:
+            if self.backend == "jax":
+                from pymoo.gradient.grad_jax import jax_elementwise_value_and_grad
 
-            out, grad = jax_elementwise_value_and_grad(f, x)
-        elif self.backend == "autograd":
-            from pymoo.gradient.grad_autograd import autograd_elementwise_value_and_grad
+                out, grad = jax_elementwise_value_and_grad(f, x)
+            elif self.backend == "autograd":
+                from pymoo.gradient.grad_autograd import autograd_elementwise_value_and_grad
 
-            out, grad = autograd_elementwise_value_and_grad(f, x)
-        else:
-            raise Exception("Unknown backend %s" % self.backend)
-        deactivate()
+                out, grad = autograd_elementwise_value_and_grad(f, x)
+            else:
+                raise Exception("Unknown backend %s" % self.backend)
+        finally:
+            deactivate()
 
         for k, v in grad.items():
             out["d" + k] = np.array(v)
@@ -69,17 +71,19 @@ class AutomaticDifferentiation(Meta, Problem):
         f = F(self.__object__)
 
         activate(self.backend)
-        if self.backend == "jax":
-            from pymoo.gradient.grad_jax import jax_vectorized_value_and_grad
-
-            out, grad = jax_vectorized_value_and_grad(f, x)
-        elif self.backend == "autograd":
-            from pymoo.gradient.grad_autograd import autograd_vectorized_value_and_grad
-
-            out, grad = autograd_vectorized_value_and_grad(f, x)
-        else:
-            raise Exception("Unknown backend %s" % self.backend)
-        deactivate()
+        try:
+            if self.backend == "jax":
+                from pymoo.gradient.grad_jax import jax_vectorized_value_and_grad
+
+                out, grad = jax_vectorized_value_and_grad(f, x)
+            elif self.backend == "autograd":
+                from pymoo.gradient.grad_autograd import autograd_vectorized_value_and_grad
+
+                out, grad = autograd_vectorized_value_and_grad(f, x)
+            else:
+                raise Exception("Unknown backend %s" % self.backend)
+        finally:
+            deactivate()
 
         for k, v in grad.items():
             out["d" + k] = v
-- 
2.43.0


From 1f9f4efbf2b5e80bb32ffcac615eb9b9613f21f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 108/165] fix: complex step gradient of a subset of the outputs
 raised a KeyError

---
 pymoo/gradient/grad_complex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/gradient/grad_complex.py b/pymoo/gradient/grad_complex.py
index 811c947..abf744a 100644
--- a/pymoo/gradient/grad_complex.py
+++ b/pymoo/gradient/grad_complex.py
@@ -43,7 +43,9 @@ class ComplexNumberGradient(Meta, Problem):
         for i, x in enumerate(X):
             grad = calc_complex_gradient(self.__object__, vals_not_grad, x, self.eps, *args, **kwargs)
 
+            # values can be set by the problem without a gradient being requested
             for name, value in grad.items():
-                out["d" + name][i] = value
+                if "d" + name in out:
+                    out["d" + name][i] = value
 
         return out
-- 
2.43.0


From d8b4e5c60b7230e4470b1555adbf61e91ffcfaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 109/165] fix: MOPSO_CD kept and reported infeasible solutions
 as optimal

---
 pymoo/algorithms/moo/mopso_cd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 812f1bd..4557457 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -173,10 +173,8 @@ class MOPSO_CD(Algorithm):
         else:
             combined = pop
 
-        # Find non-dominated solutions
-        F = combined.get("F")
-        I = self.nds.do(F, only_non_dominated_front=True)  # noqa: E741
-        non_dominated = combined[I]
+        # Find the feasible non-dominated solutions (or the least infeasible ones)
+        non_dominated = self.archive._find_opt(combined)
 
         # Apply archive size limit using crowding distance
         if len(non_dominated) > self.archive_size:
-- 
2.43.0


From 1b64e02d313d823b749fc82d8b6707c8b8dba5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 110/165] fix: choices of different types keep their type when
 sampled and mated

---
 pymoo/core/mixed.py    | 15 +++++++++------
 pymoo/core/variable.py | 12 +++++++++++-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/pymoo/core/mixed.py b/pymoo/core/mixed.py
index 57acfe3..53aa25c 100644
--- a/pymoo/core/mixed.py
+++ b/pymoo/core/mixed.py
@@ -23,6 +23,14 @@ from pymoo.operators.selection.rnd import RandomSelection
 from pymoo.util.display.single import SingleObjectiveOutput
 
 
+def to_array(values, dtype):
+    """Create an one-dimensional array (also if the values itself are sequences)."""
+    ret = np.empty(len(values), dtype=dtype)
+    for k, e in enumerate(values):
+        ret[k] = e
+    return ret
+
+
 class MixedVariableMating(InfillCriterion):
     """Mating strategy for mixed-variable problems."""
 
@@ -110,12 +118,7 @@ class MixedVariableMating(InfillCriterion):
 
             _parents = [
                 [
-                    Individual(
-                        X=np.array(
-                            [parent.X[var] for var in list_of_vars],
-                            dtype="O" if clazz is Choice else None,
-                        )
-                    )
+                    Individual(X=to_array([parent.X[var] for var in list_of_vars], clazz.vtype))
                     for parent in parents
                 ]
                 for parents in pop
diff --git a/pymoo/core/variable.py b/pymoo/core/variable.py
index bdc4abe..30a2abc 100644
--- a/pymoo/core/variable.py
+++ b/pymoo/core/variable.py
@@ -244,7 +244,17 @@ class Choice(Variable):
         Returns:
             Array of shape (n,) containing sampled choices.
         """
-        return random_state.choice(self.options, size=n)
+        options = list(self.options)
+
+        # only options of the same basic type become an array of that type (others would be converted)
+        if len({type(e) for e in options}) == 1 and isinstance(options[0], (bool, int, float, str, np.generic)):
+            values = np.array(options)
+        else:
+            values = np.empty(len(options), dtype=object)
+            for k, e in enumerate(options):
+                values[k] = e
+
+        return values[random_state.choice(len(options), size=n)]
 
 
 def get(
-- 
2.43.0


From 3691be5e3f044b68265f922da45c9ac263520fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 111/165] fix: joblib and ray runners can be copied and
 pickled; joblib results returned as generator are consumed and in order

---
 pymoo/parallelization/joblib.py | 25 +++++++++++++++++++++++--
 pymoo/parallelization/ray.py    | 13 ++++++++++++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/pymoo/parallelization/joblib.py b/pymoo/parallelization/joblib.py
index ef47624..e0de79e 100644
--- a/pymoo/parallelization/joblib.py
+++ b/pymoo/parallelization/joblib.py
@@ -1,6 +1,11 @@
 """Joblib-based parallelization for pymoo."""
 
 
+def evaluate_with_index(f, k, x):
+    """Evaluate a solution and return the result together with its index."""
+    return k, f(x)
+
+
 class JoblibParallelization:
     """Parallelization using joblib.
 
@@ -21,7 +26,23 @@ class JoblibParallelization:
 
     def __call__(self, f, X):
         with self.joblib.Parallel(n_jobs=self.n_jobs, **self.kwargs) as parallel:
-            return parallel(self.joblib.delayed(f)(x) for x in X)
+            results = parallel(self.joblib.delayed(evaluate_with_index)(f, k, x) for k, x in enumerate(X))
+
+            # the results can be a generator (which might not be in order)
+            results = sorted(results, key=lambda e: e[0])
+
+        return [out for _, out in results]
 
     def __getstate__(self):
-        return self.__dict__.copy()
+        state = self.__dict__.copy()
+
+        # a module can neither be copied nor pickled
+        state.pop("joblib", None)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+
+        import joblib
+
+        self.joblib = joblib
diff --git a/pymoo/parallelization/ray.py b/pymoo/parallelization/ray.py
index 943dad3..b4cc8f6 100644
--- a/pymoo/parallelization/ray.py
+++ b/pymoo/parallelization/ray.py
@@ -26,4 +26,15 @@ class RayParallelization:
         return self.ray.get(futures)
 
     def __getstate__(self):
-        return self.__dict__.copy()
+        state = self.__dict__.copy()
+
+        # a module can neither be copied nor pickled
+        state.pop("ray", None)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+
+        import ray
+
+        self.ray = ray
-- 
2.43.0


From 1e604a128d6837835aa5b08f17fa8bb60fc06303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 112/165] fix: values set only for some solutions stay in their
 own row in an elementwise evaluation

---
 pymoo/core/problem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/problem.py b/pymoo/core/problem.py
index 005709d..40ce077 100644
--- a/pymoo/core/problem.py
+++ b/pymoo/core/problem.py
@@ -251,10 +251,14 @@ class Problem:
         # execute the runner
         elems = self.elementwise_runner(f, X)
 
+        # values which are only set for some solutions are None for all others
+        elems = list(elems)
+        optional = {k for elem in elems for k in elem} - set(default_shape(self, len(X)))
+
         # for each evaluation call
         for elem in elems:
             # for each key stored for this evaluation
-            for k, v in elem.items():
+            for k, v in {**dict.fromkeys(optional), **elem}.items():
                 # if the element does not exist in out yet -> create it
                 if out.get(k, None) is None:
                     out[k] = []
-- 
2.43.0


From d92013e85e5fb32224b24b07a650719794d532f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 113/165] fix: high trade-off points use the given epsilon,
 respect a given number of neighbours, leave warnings enabled and do not fail
 without outliers

---
 pymoo/core/decision_making.py | 12 ++++++++++--
 pymoo/mcdm/high_tradeoff.py   | 14 +++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/pymoo/core/decision_making.py b/pymoo/core/decision_making.py
index 0a49f39..fb6129f 100644
--- a/pymoo/core/decision_making.py
+++ b/pymoo/core/decision_making.py
@@ -1,7 +1,7 @@
 """Decision making indicators for multi-objective optimization."""
 
 import numpy as np
-from scipy.spatial.ckdtree import cKDTree
+from scipy.spatial import cKDTree
 
 from pymoo.core.indicator import Indicator
 
@@ -29,8 +29,12 @@ class NeighborFinder:
             self.n_min_neigbors = min(2 * n_dim, _ - 1)
 
         # disable the minimum neighbor variable
+        elif n_min_neigbors is None:
+            self.n_min_neigbors = 0
+
+        # otherwise there can not be more neighbors than other solutions
         else:
-            self.n_min_neigbors = np.inf
+            self.n_min_neigbors = min(n_min_neigbors, _ - 1)
 
         # either choose epsilon
         self.epsilon = epsilon
@@ -84,6 +88,10 @@ def find_outliers_upper_tail(mu):
     )[0]
     mu = mu[I]
 
+    # there is no outlier if no value is left or all values are equal
+    if len(mu) == 0 or mu.max() == mu.min():
+        return None
+
     # calculate mean and sigma
     mean, sigma = mu.mean(), mu.std()
 
diff --git a/pymoo/mcdm/high_tradeoff.py b/pymoo/mcdm/high_tradeoff.py
index a19fa46..4107931 100644
--- a/pymoo/mcdm/high_tradeoff.py
+++ b/pymoo/mcdm/high_tradeoff.py
@@ -1,7 +1,5 @@
 """High tradeoff points decision making."""
 
-import warnings
-
 import numpy as np
 
 from pymoo.core.decision_making import (
@@ -19,7 +17,7 @@ class HighTradeoffPoints(DecisionMaking):
     def _do(self, F, **kwargs):
         n, m = F.shape
 
-        neighbors_finder = NeighborFinder(F, epsilon=0.125, n_min_neigbors="auto", consider_2d=False)
+        neighbors_finder = NeighborFinder(F, epsilon=self.epsilon, n_min_neigbors="auto", consider_2d=False)
 
         mu = np.full(n, -np.inf)
 
@@ -35,10 +33,12 @@ class HighTradeoffPoints(DecisionMaking):
             sacrifice = np.maximum(0, diff).sum(axis=1)
             gain = np.maximum(0, -diff).sum(axis=1)
 
-            warnings.filterwarnings("ignore")
-            tradeoff = sacrifice / gain
+            with np.errstate(divide="ignore", invalid="ignore"):
+                tradeoff = sacrifice / gain
 
-            # otherwise find the one with the smalled one
-            mu[i] = np.nanmin(tradeoff)
+            # otherwise find the one with the smalled one (not a number if it has the same values)
+            tradeoff = tradeoff[~np.isnan(tradeoff)]
+            if len(tradeoff) > 0:
+                mu[i] = tradeoff.min()
 
         return find_outliers_upper_tail(mu)
-- 
2.43.0


From f9f5fdf58fd14169770b70cc6bfcd952e0d82129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 114/165] fix: pseudo weights with constant objectives and for
 the nadir point

---
 pymoo/mcdm/pseudo_weights.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pymoo/mcdm/pseudo_weights.py b/pymoo/mcdm/pseudo_weights.py
index 8c70543..ba2530d 100644
--- a/pymoo/mcdm/pseudo_weights.py
+++ b/pymoo/mcdm/pseudo_weights.py
@@ -19,13 +19,18 @@ class PseudoWeights(DecisionMaking):
             nadir = F.max(axis=0)
 
         # normalized distance to the worst solution
-        pseudo_weights = (nadir - F) / (nadir - ideal)
+        norm = np.where(nadir == ideal, 1.0, nadir - ideal)
+        pseudo_weights = (nadir - F) / norm
 
-        # normalize weights to sum up to one
-        pseudo_weights = pseudo_weights / np.sum(pseudo_weights, axis=1)[:, None]
+        # normalize weights to sum up to one (which is not possible for the worst solution itself)
+        total = np.sum(pseudo_weights, axis=1)
+        is_worst = total == 0
+        pseudo_weights = pseudo_weights / np.where(is_worst, 1.0, total)[:, None]
 
         # search for the closest individual having this pseudo weights
-        I = np.argmin(np.sum(np.abs(pseudo_weights - self.weights), axis=1))  # noqa: E741
+        dist = np.sum(np.abs(pseudo_weights - self.weights), axis=1)
+        dist[is_worst] = np.inf
+        I = np.argmin(dist)  # noqa: E741
 
         if return_pseudo_weights:
             return I, pseudo_weights
-- 
2.43.0


From d64bc8870636cf18c3537ab6cb5af80c8dc131ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 115/165] fix: compromise programming returns the solution
 closest to the ideal point

---
 pymoo/mcdm/compromise_programming.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pymoo/mcdm/compromise_programming.py b/pymoo/mcdm/compromise_programming.py
index 321ba85..4a0871a 100644
--- a/pymoo/mcdm/compromise_programming.py
+++ b/pymoo/mcdm/compromise_programming.py
@@ -1,5 +1,8 @@
 """Compromise programming decision making method."""
 
+import numpy as np
+from scipy.spatial.distance import cdist
+
 from pymoo.core.decision_making import DecisionMaking
 from pymoo.util.normalization import normalize
 
@@ -27,12 +30,7 @@ class CompromiseProgramming(DecisionMaking):
         Returns:
             Compromise solution index.
         """
-        F, _, ideal_point, nadir_point = normalize(
-            F,
-            xl=self.ideal_point,
-            xu=self.nadir_point,
-            estimate_bounds_if_none=True,
-            return_bounds=True,
-        )
-
-        return None
+        F = normalize(F, xl=self.ideal, xu=self.nadir, estimate_bounds_if_none=True)
+
+        # the solution closest to the ideal point (which is the origin after the normalization)
+        return cdist(F, np.zeros((1, F.shape[1])), metric=self.metric)[:, 0].argmin()
-- 
2.43.0


From bfed3a6cb8bb17f3bb578b3c86bec183e3a57c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 116/165] fix: ZeroToOne evaluates the solutions in the
 original space and has the corresponding fronts

---
 pymoo/problems/zero_to_one.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pymoo/problems/zero_to_one.py b/pymoo/problems/zero_to_one.py
index 14ef424..872fbb6 100644
--- a/pymoo/problems/zero_to_one.py
+++ b/pymoo/problems/zero_to_one.py
@@ -14,13 +14,21 @@ class ZeroToOne(Meta, Problem):
         self.xl, self.xu = np.zeros(self.n_var), np.ones(self.n_var)
 
     def do(self, X, return_values_of, *args, **kwargs):
-        Xp = self.normalize(X)
+        # the solutions in the original space of the problem
+        Xp = self.denormalize(X)
 
-        out = super().do(Xp, return_values_of, *args, **kwargs)
-        out["__X__"] = X
+        out = self.__object__.do(Xp, return_values_of, *args, **kwargs)
+        out["__X__"] = Xp
 
         return out
 
+    def pareto_front(self, *args, **kwargs):
+        return self.__object__.pareto_front(*args, **kwargs)
+
+    def pareto_set(self, *args, **kwargs):
+        ps = self.__object__.pareto_set(*args, **kwargs)
+        return self.normalize(ps) if ps is not None else None
+
     def denormalize(self, x):
         return denormalize(x, self.__object__.xl, self.__object__.xu)
 
-- 
2.43.0


From bf621bff57063cb9c7e28cb9f9d4663bda90df63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 117/165] fix: MultiToSingleObjective for a single solution and
 without keyword arguments

---
 pymoo/problems/multi_to_single.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymoo/problems/multi_to_single.py b/pymoo/problems/multi_to_single.py
index 87dd7ca..b071160 100644
--- a/pymoo/problems/multi_to_single.py
+++ b/pymoo/problems/multi_to_single.py
@@ -2,6 +2,8 @@
 
 from typing import Any
 
+import numpy as np
+
 from pymoo.core.meta import Meta
 from pymoo.core.problem import Problem
 
@@ -18,12 +20,12 @@ class MultiToSingleObjective(Meta, Problem):
     def __init__(self, problem: Any, decomposition: Any, kwargs: dict | None = None) -> None:
         super().__init__(problem)
         self.decomposition = decomposition
-        self.kwargs = kwargs if not None else dict()  # noqa: E712
+        self.kwargs = kwargs if kwargs is not None else dict()
         self.n_obj = 1
 
     def do(self, X: Any, return_values_of: Any, *args: Any, **kwargs: Any) -> dict:
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
         F = out["F"]
         out["__F__"] = F
-        out["F"] = self.decomposition.do(F, **self.kwargs)[:, None]
+        out["F"] = np.reshape(self.decomposition.do(F, **self.kwargs), (len(F), 1))
         return out
-- 
2.43.0


From 6c109bfb03c6073b845493d62a9db82f492e6b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 118/165] fix: constraints being empty but available if they
 became a penalty

---
 pymoo/constraints/as_penalty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index 1f94b89..568b69c 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -36,7 +36,7 @@ class ConstraintsAsPenalty(Meta, Problem):
         # set the penalized objective values
         out["F"] = F + self.penalty * np.reshape(CV, (-1, 1))
 
-        del out["G"]
-        del out["H"]
+        # the problem has no constraints anymore
+        out["G"], out["H"] = np.zeros((len(X), 0)), np.zeros((len(X), 0))
 
         return out
-- 
2.43.0


From 934f9bd51ff7712ca1c629f57e80ca0def78f978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 119/165] fix: ConstraintsAsObjective provides empty
 constraints, and its front, ideal and nadir point belong to the wrapped
 problem

---
 pymoo/constraints/as_obj.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index 0d22524..679b5ee 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -24,6 +24,9 @@ class ConstraintsAsObjective(Meta, Problem):
         self.n_ieq_constr = 0
         self.n_eq_constr = 0
 
+        # the points being cached have another number of objectives
+        self.cache = {}
+
     def do(self, X, return_values_of, *args, **kwargs):
         # the constraints are always necessary to calculate the constraint violation
         values_of = list(dict.fromkeys([*return_values_of, "F", "G", "H"]))
@@ -44,13 +47,13 @@ class ConstraintsAsObjective(Meta, Problem):
         else:
             out["F"] = anp.column_stack([CV])
 
-        del out["G"]
-        del out["H"]
+        # the problem has no constraints anymore
+        out["G"], out["H"] = np.zeros((len(X), 0)), np.zeros((len(X), 0))
 
         return out
 
     def pareto_front(self, *args, **kwargs):
-        pf = super().pareto_front(*args, **kwargs)
+        pf = self.__object__.pareto_front(*args, **kwargs)
         if pf is not None:
             cv = np.zeros((len(pf), 1))
             pf = np.column_stack([cv, pf]) if self.append else cv[:1]
-- 
2.43.0


From 66c3ec945440def632f7941c53520919786468c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 120/165] fix: StaticProblem returns the given values if the
 problem is a wrapper

---
 pymoo/problems/static.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/problems/static.py b/pymoo/problems/static.py
index 07eae2c..435c16b 100644
--- a/pymoo/problems/static.py
+++ b/pymoo/problems/static.py
@@ -12,6 +12,10 @@ class StaticProblem(Meta, Problem):
         # the values are provided for all solutions at once (even if the problem itself is elementwise)
         self.elementwise = False
 
+    def do(self, *args, **kwargs):
+        # the values are given already - do not apply the transformation of a problem being wrapped
+        return Problem.do(self, *args, **kwargs)
+
     def _evaluate(self, _, out, *args, **kwargs):
         for K, V in self.kwargs.items():
             out[K] = V
-- 
2.43.0


From 1148d94be10a53fb9d39fe1f289cfcf10ed574e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 121/165] fix: decompose if the objectives are provided as a
 list of columns

---
 pymoo/problems/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymoo/problems/util.py b/pymoo/problems/util.py
index 6d85427..21465d3 100644
--- a/pymoo/problems/util.py
+++ b/pymoo/problems/util.py
@@ -15,7 +15,13 @@ def decompose(problem, decomposition, weights, return_copy=True):
 
     def _evaluate(self, x, out, *args, **kwargs):
         self._multi_evaluate(x, out, *args, **kwargs)
-        out["F"] = decomposition.do(out["F"], weights, _type="many_to_one")
+        F = out["F"]
+
+        # make sure there is one row for each solution (a list contains the columns)
+        if not self.elementwise:
+            F = np.column_stack(F) if isinstance(F, list) else np.reshape(F, (len(x), -1))
+
+        out["F"] = decomposition.do(F, weights, _type="many_to_one")
 
     problem._evaluate = types.MethodType(_evaluate, problem)
     problem.n_obj = 1
-- 
2.43.0


From a65e9ccbcecfd7c7e3f87a50e20cefc6cbeaa7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 122/165] fix: LineSearchProblem uses the bounds of the
 original problem

---
 pymoo/algorithms/base/line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/base/line.py b/pymoo/algorithms/base/line.py
index 07cd012..d0fcc9c 100644
--- a/pymoo/algorithms/base/line.py
+++ b/pymoo/algorithms/base/line.py
@@ -56,7 +56,7 @@ class LineSearchProblem(Meta, Problem):
 
         x = self.point.X + alpha * self.direction
         if self.strict_bounds:
-            x = set_to_bounds_if_outside(x, self.xl, self.xu)
+            x = set_to_bounds_if_outside(x, *self.__object__.bounds())
         out["__X__"] = x
 
         super()._evaluate(x, out, *args, **kwargs)
-- 
2.43.0


From f4aed0078c380df906f46acb601a92e1d7735749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 123/165] fix: the front of a dynamic problem if the time is
 set explicitly

---
 pymoo/problems/dyn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/problems/dyn.py b/pymoo/problems/dyn.py
index accf656..f863ad3 100644
--- a/pymoo/problems/dyn.py
+++ b/pymoo/problems/dyn.py
@@ -63,6 +63,9 @@ class DynamicTestProblem(DynamicProblem, ABC):
         """
         self._time = value
 
+        # remove the cache of the problem to recreate ps and pf
+        self.__dict__["cache"] = {}
+
 
 class TimeSimulation(Callback):
     """Callback to update time in dynamic problems during optimization."""
-- 
2.43.0


From fa5361016e7e546dbd2b624f7166d97491b8661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 124/165] fix: get_params is breadth-first, visits every object
 once and ignores the original object of a wrapper

---
 pymoo/core/parameters.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pymoo/core/parameters.py b/pymoo/core/parameters.py
index 7c04814..2d90b70 100644
--- a/pymoo/core/parameters.py
+++ b/pymoo/core/parameters.py
@@ -1,5 +1,8 @@
 """Parameter management utilities for accessing and manipulating Variable objects."""
 
+from collections import deque
+from types import ModuleType
+
 from pymoo.core.variable import Variable
 
 
@@ -48,12 +51,12 @@ def get_params_bfs(obj, flag, only_active):
     """
     ret = {}
 
-    q = [(None, obj)]
+    q = deque([(None, obj)])
 
-    visited = set()
+    visited, objects = set(), {}
 
     while len(q) > 0:
-        prefix, obj = q.pop()
+        prefix, obj = q.popleft()
 
         if isinstance(obj, Variable):
             if obj not in visited and obj.flag == flag and (not only_active or obj.active):
@@ -71,9 +74,21 @@ def get_params_bfs(obj, flag, only_active):
             # add it to have been visited
             visited.add(obj)
 
-        else:
+        # only instances have parameters
+        elif not isinstance(obj, (type, ModuleType)):
             data = get_data(obj)
-            for key in data:
+
+            # objects can refer to each other (or be used multiple times)
+            if id(data) in objects:
+                continue
+            objects[id(data)] = data
+
+            # the attributes being added last come first (parameters are sampled in the order they are listed)
+            for key in reversed(list(data)):
+                # ignore the original object a wrapper has been created from
+                if key in ["__object__", "__super__"]:
+                    continue
+
                 new_prefix = [key] if prefix is None else prefix + [key]
                 entry = (new_prefix, data[key])
                 q.append(entry)
-- 
2.43.0


From eaf2e6be1b1bd7c607bb8910704c41bf7f63b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 125/165] fix: parameters of operators stored by variable type
 can be set, and as_value for nested parameters

---
 pymoo/core/parameters.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pymoo/core/parameters.py b/pymoo/core/parameters.py
index 2d90b70..14d93d8 100644
--- a/pymoo/core/parameters.py
+++ b/pymoo/core/parameters.py
@@ -89,7 +89,10 @@ def get_params_bfs(obj, flag, only_active):
                 if key in ["__object__", "__super__"]:
                     continue
 
-                new_prefix = [key] if prefix is None else prefix + [key]
+                # a class being used as a key is represented by its name
+                name = key.__name__ if isinstance(key, type) else key
+
+                new_prefix = [name] if prefix is None else prefix + [name]
                 entry = (new_prefix, data[key])
                 q.append(entry)
 
@@ -160,8 +163,12 @@ def set_params(obj, params, as_value=True):
     data = get_data(obj)
 
     for k, v in params.items():
+        # a class being used as a key is represented by its name
+        if k not in data:
+            k = next((key for key in data if isinstance(key, type) and key.__name__ == k), k)
+
         if isinstance(v, dict):
-            set_params(data[k], v)
+            set_params(data[k], v, as_value=as_value)
         else:
             if as_value:
                 data[k].set(v)
-- 
2.43.0


From aa3265f95bcac8eba37b224fdb5de08cf8971ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 126/165] fix: performance of hyper-parameters if no feasible
 solution has been found

---
 pymoo/algorithms/hyperparameters.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/hyperparameters.py b/pymoo/algorithms/hyperparameters.py
index 0ad0daf..d3c4c92 100644
--- a/pymoo/algorithms/hyperparameters.py
+++ b/pymoo/algorithms/hyperparameters.py
@@ -44,7 +44,9 @@ class SingleObjectiveSingleRun:
     def __init__(self, problem, **kwargs):
         super().__init__()
         self.problem = problem
-        self.kwargs = kwargs
+
+        # a performance is also necessary if no feasible solution has been found
+        self.kwargs = {"return_least_infeasible": True, **kwargs}
 
     def __call__(self, algorithm):
         ret = minimize(self.problem, algorithm, **self.kwargs)
@@ -80,7 +82,9 @@ class MultiRun:
     ):
         super().__init__()
         self.problem = problem
-        self.kwargs = kwargs
+
+        # a performance is also necessary if no feasible solution has been found
+        self.kwargs = {"return_least_infeasible": True, **kwargs}
 
         if seeds is None:
             if n_runs is None:
-- 
2.43.0


From eadc8695edfa629d393b369adf04ef729f3a51aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:36 +0000
Subject: [PATCH 127/165] fix: CMOPSO repairs the new positions before they are
 mutated

---
 pymoo/algorithms/moo/cmopso.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/algorithms/moo/cmopso.py b/pymoo/algorithms/moo/cmopso.py
index c7b105b..1d41d3b 100644
--- a/pymoo/algorithms/moo/cmopso.py
+++ b/pymoo/algorithms/moo/cmopso.py
@@ -202,6 +202,9 @@ class CMOPSO(Algorithm):
 
         # create the offspring population
         off = Population.new(X=Xp, V=Vp)
+
+        # the mutation is only defined for values within the bounds
+        off = self.repair(self.problem, off)
         off = self.mutation(self.problem, off, random_state=self.random_state)
         off = self.repair(self.problem, off)
 
-- 
2.43.0


From a57d241103faa69738e0ea5827e49d6777d97757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 128/165] fix: NelderMead sorts the initial simplex, which its
 steps rely on

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index bbd5f96..8c1914d 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -145,7 +145,10 @@ class NelderMead(LocalSearch):
 
     def _next(self):
         if not self.is_simplex_initialized:
-            self.pop = yield self._initialize_simplex()
+            pop = yield self._initialize_simplex()
+
+            # the steps rely on a simplex which is sorted from the best to the worst
+            self.pop = FitnessSurvival().do(self.problem, pop, n_survive=len(pop))
             self.is_simplex_initialized = True
         else:
             yield from self._step()
-- 
2.43.0


From b8ce571b53bdee9cc1583b2a1c8a1da1f360a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 129/165] fix: SRES does not lose the best solution found
 through the stochastic ranking

---
 pymoo/algorithms/soo/nonconvex/sres.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymoo/algorithms/soo/nonconvex/sres.py b/pymoo/algorithms/soo/nonconvex/sres.py
index e7212c7..8af5fae 100644
--- a/pymoo/algorithms/soo/nonconvex/sres.py
+++ b/pymoo/algorithms/soo/nonconvex/sres.py
@@ -7,6 +7,7 @@ from pymoo.core.population import Population, calc_cv
 from pymoo.core.survival import Survival
 from pymoo.docs import parse_doc_string
 from pymoo.functions import load_function
+from pymoo.util.optimum import filter_optimum
 
 
 class StochasticRankingSurvival(Survival):
@@ -50,6 +51,10 @@ class SRES(ES):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
+        # the best solution might not survive the stochastic ranking, but should still be found in the optimum
+        pop = infills if self.opt is None else Population.merge(self.opt, infills)
+        self.opt = filter_optimum(pop, least_infeasible=True)
+
         self.pop = self.survival.do(
             self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
         )
-- 
2.43.0


From 3a52b8ef715ebae9f9e6ac0b989af4ed6c1f3c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 130/165] fix: DNSGA2 version B mutates with the algorithm's
 random state, and nothing if none is selected

---
 pymoo/algorithms/moo/dnsga2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/dnsga2.py b/pymoo/algorithms/moo/dnsga2.py
index 6bef2a4..7f4bab7 100644
--- a/pymoo/algorithms/moo/dnsga2.py
+++ b/pymoo/algorithms/moo/dnsga2.py
@@ -54,7 +54,8 @@ class DNSGA2(NSGA2):
 
             # replace by mutations of existing solutions (this occurs inplace)
             elif self.version == "B":
-                self.mating.mutation(self.problem, pop[I])
+                if len(I) > 0:
+                    self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
             else:
                 raise Exception(f"Unknown version of D-NSGA-II: {self.version}")
 
-- 
2.43.0


From b462c5ce48e144d63991d270496684110bae09fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 131/165] fix: KGB runs do not share one pareto set history

---
 pymoo/algorithms/moo/kgb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/kgb.py b/pymoo/algorithms/moo/kgb.py
index 98b8dfc..06945a8 100755
--- a/pymoo/algorithms/moo/kgb.py
+++ b/pymoo/algorithms/moo/kgb.py
@@ -23,7 +23,7 @@ class KGB(NSGA2):
         perc_diversity=0.3,
         c_size=13,
         eps=0.0,
-        ps={},
+        ps=None,
         perturb_dev=0.1,
         save_ps=False,
         **kwargs,
@@ -37,7 +37,7 @@ class KGB(NSGA2):
         self.save_ps = save_ps
 
         self.C_SIZE = c_size
-        self.ps = ps
+        self.ps = ps if ps is not None else {}
         self.nr_rand_solutions = 50 * self.pop_size
         self.t = 0
 
-- 
2.43.0


From d34094c5f835ddcf79709c5884675b399cbbc967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 132/165] fix: KGB keeps the predicted centroids within the
 bounds

---
 pymoo/algorithms/moo/kgb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/kgb.py b/pymoo/algorithms/moo/kgb.py
index 06945a8..222abe0 100755
--- a/pymoo/algorithms/moo/kgb.py
+++ b/pymoo/algorithms/moo/kgb.py
@@ -251,7 +251,9 @@ class KGB(NSGA2):
             # calculate sum over cluster
             centroid_points.append(np.sum(solution_cluster[:, i]))
 
-        return [x / length for x in centroid_points]
+        # the mean can leave the bounds by rounding
+        centroid = np.array(centroid_points) / length
+        return np.clip(centroid, self.problem.xl, self.problem.xu).tolist()
 
     def check_boundaries(self, pop):
         """Check and fix the boundaries of the given population.
-- 
2.43.0


From 1eb5feddcbf46b9b5700d28620aa38ac89f3593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 133/165] fix: PINSGA2 accepts the ranks as its prompt shows
 them and requires one per solution

---
 pymoo/algorithms/moo/pinsga2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index 709cd6f..0311938 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -126,7 +126,8 @@ class PINSGA2(GeneticAlgorithm):
         if raw_ranks == "":
             ranks = []
         else:
-            ranks = [int(raw_rank) for raw_rank in raw_ranks.split()]
+            # the ranks can be separated by commas, as shown in the prompt, or by blanks
+            ranks = [int(raw_rank) for raw_rank in raw_ranks.replace(",", " ").split()]
 
         return ranks
 
@@ -212,7 +213,8 @@ class PINSGA2(GeneticAlgorithm):
         while ranks_invalid:
             fc = F.shape[0]
 
-            if len(ranks) > 0 and max(ranks) <= fc and min(ranks) >= 1:
+            # each of the solutions needs a rank
+            if len(ranks) == fc and max(ranks) <= fc and min(ranks) >= 1:
                 ranks_invalid = False
 
             else:
-- 
2.43.0


From e322b3cb34d174f026a1d56cad57d0113f122bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 134/165] fix: PINSGA2 uses the solution that was ranked second

---
 pymoo/algorithms/moo/pinsga2.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index 0311938..40bf2f3 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -337,7 +337,7 @@ class PINSGA2(GeneticAlgorithm):
                 if vf_res.fit:
                     self.vf_res = vf_res
                     self.vf_plot_flag = True
-                    self.v2 = self.vf_res.vf(eta_F[dm_ranks[1] - 1] * -1).item()
+                    self.v2 = self.vf_res.vf(eta_F[np.argsort(dm_ranks, kind="stable")[1]] * -1).item()
                     break
 
                 else:
@@ -353,11 +353,11 @@ class PINSGA2(GeneticAlgorithm):
                     else:
                         self._warn("Removing the second best preferred solution from the fit.")
 
-                        # ranks start at 1, not zero
-                        rank_to_remove = dm_ranks[1]
-                        eta_F = np.delete(eta_F, rank_to_remove - 1, axis=0)
+                        to_remove = np.argsort(dm_ranks, kind="stable")[1]
+                        rank_to_remove = dm_ranks[to_remove]
 
-                        dm_ranks = np.concatenate(([dm_ranks[0]], dm_ranks[2:]))
+                        eta_F = np.delete(eta_F, to_remove, axis=0)
+                        dm_ranks = np.delete(dm_ranks, to_remove)
 
                         # update the ranks, since we just removed one
                         dm_ranks[dm_ranks > rank_to_remove] = dm_ranks[dm_ranks > rank_to_remove] - 1
-- 
2.43.0


From 7d4dd94930595566408f5da67312040526414285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 135/165] fix: DIRECT keeps the centre of a variable whose
 bounds are equal

---
 pymoo/algorithms/soo/nonconvex/direct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index 313d565..9fd6136 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -8,7 +8,7 @@ from pymoo.core.individual import Individual
 from pymoo.core.population import Population
 from pymoo.util.display.single import SingleObjectiveOutput
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
-from pymoo.util.normalization import normalize, denormalize
+from pymoo.util.normalization import normalize
 from pymoo.util.optimum import filter_optimum
 
 
@@ -49,7 +49,7 @@ class DIRECT(LocalSearch):
     def _setup(self, problem, **kwargs):
 
         xl, xu = problem.bounds()
-        X = denormalize(0.5 * np.ones(problem.n_var), xl, xu)
+        X = xl + 0.5 * (xu - xl)
 
         x0 = Individual(X=X)
         x0.set("xl", xl)
-- 
2.43.0


From d6640e8234ded9e7ef7312934fcd6f10c50a4f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 136/165] fix: NelderMead sets contracted and shrunk points to
 the bounds

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index 8c1914d..2516480 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -212,6 +212,7 @@ class NelderMead(LocalSearch):
             # -------------------------------------------------------------------------------------------
 
             x_contract_outside = centroid + self.gamma * (x_reflect - centroid)
+            x_contract_outside = set_to_bounds_if_outside_by_problem(self.problem, x_contract_outside)
             contract_outside = yield Individual(X=x_contract_outside)
 
             if is_better(contract_outside, reflect):
@@ -226,6 +227,7 @@ class NelderMead(LocalSearch):
             # -------------------------------------------------------------------------------------------
 
             x_contract_inside = centroid - self.gamma * (x_reflect - centroid)
+            x_contract_inside = set_to_bounds_if_outside_by_problem(self.problem, x_contract_inside)
             contract_inside = yield Individual(X=x_contract_inside)
 
             if is_better(contract_inside, pop[n + 1]):
@@ -240,6 +242,7 @@ class NelderMead(LocalSearch):
         if shrink:
             x_best, x_others = pop[0].X, pop[1:].get("X")
             x_shrink = x_best + self.delta * (x_others - x_best)
+            x_shrink = set_to_bounds_if_outside_by_problem(self.problem, x_shrink)
             pop[1:] = yield Population.new(X=x_shrink)
 
         self.pop = FitnessSurvival().do(self.problem, pop, n_survive=len(pop))
-- 
2.43.0


From f110da8f62a030effe4275ec0de8fb9ce760a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 137/165] fix: a plot without anything added is drawn once only

---
 pymoo/core/plot.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/plot.py b/pymoo/core/plot.py
index e0b3cdf..058ff18 100644
--- a/pymoo/core/plot.py
+++ b/pymoo/core/plot.py
@@ -72,6 +72,9 @@ class Plot:
         # the data to plot
         self.to_plot = []
 
+        # whether the data have been drawn already
+        self.drawn = False
+
         # whether to plot a legend or apply tight layout
         self.legend = legend
         self.tight_layout = tight_layout
@@ -116,6 +119,7 @@ class Plot:
 
         # actually call the class
         self._do()
+        self.drawn = True
 
         # convert the axes to a list
         axes = np.array(self.ax).flatten()
@@ -152,6 +156,7 @@ class Plot:
     def reset(self):
         self.fig = plt.figure(figsize=self.figsize)
         self.ax = None
+        self.drawn = False
         return self
 
     def add(self, F, **kwargs):
@@ -168,7 +173,7 @@ class Plot:
         return self
 
     def plot_if_not_done_yet(self):
-        if self.ax is None:
+        if not self.drawn:
             self.do()
 
     def show(self, **kwargs):
-- 
2.43.0


From c6ffaa3f3611c65a226b12f14a6461a77b792e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 138/165] fix: numbers in the display are never cut off

---
 pymoo/util/display/column.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/display/column.py b/pymoo/util/display/column.py
index e183820..02215d7 100644
--- a/pymoo/util/display/column.py
+++ b/pymoo/util/display/column.py
@@ -1,5 +1,7 @@
 """Column display formatting for algorithm output."""
 
+import numbers
+
 import numpy as np
 
 
@@ -32,7 +34,11 @@ class Column:
 
 def number_to_text(number, width):
     if number >= 10 or number * 1e5 < 1:
-        return f"%.{width - 7}E" % number
+        text = f"%.{width - 7}E" % number
+        # a sign or an exponent of three digits must not push digits of the exponent out of the column
+        if len(text) > width:
+            text = f"%.{max(0, 2 * width - 7 - len(text))}E" % number
+        return text
     else:
         return f"%.{width - 3}f" % number
 
@@ -44,7 +50,8 @@ def format_text(value, width, truncate):
         else:
             text = str(value)
 
-        if truncate and len(text) > width:
+        # a number which is cut off would be read as another one
+        if truncate and len(text) > width and not isinstance(value, numbers.Number):
             text = text[:width]
     else:
         text = "-"
-- 
2.43.0


From d47f7d86451d0a6207ec26000f666742893e6ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 139/165] fix: the progress bar is never longer than its width

---
 pymoo/util/display/progress.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/util/display/progress.py b/pymoo/util/display/progress.py
index 08541ba..09e80e3 100644
--- a/pymoo/util/display/progress.py
+++ b/pymoo/util/display/progress.py
@@ -40,6 +40,9 @@ class ProgressBar:
             *args: Additional positional arguments.
             **kwargs: Additional keyword arguments.
         """
+        # the budget can be exceeded by the last iteration, which still is no more than all of it
+        value = min(value, 1.0)
+
         if self.non_decreasing:
             self._max = max(self._max, value)
             value = self._max
-- 
2.43.0


From 16c3f59fe71d4009eb71b3d5be9eb1be22ae511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 140/165] fix: create_vf and its methods honour verbose and
 accept the GA

---
 pymoo/util/value_functions.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index f34c003..99446d5 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -30,9 +30,9 @@ def create_vf(
 ):
 
     if vf == "linear":
-        return create_linear_vf(P, ranks, delta, eps_max, method, verbose)
+        return create_linear_vf(P, ranks, delta, eps_max, method, verbose=verbose)
     elif vf == "poly":
-        return create_poly_vf(P, ranks, delta, eps_max, method, verbose)
+        return create_poly_vf(P, ranks, delta, eps_max, method, verbose=verbose)
 
     else:
         raise ValueError("Value function '%d' not supported." % vf)
@@ -52,18 +52,18 @@ def create_poly_vf(
 
     if method == "trust-constr" or method == "SLSQP":
         return create_vf_scipy_poly(P, ranks, delta, eps_max, method=method, verbose=verbose, max_iter=max_iter)
-    elif method == "ES":
+    elif method == "ES" or method == "GA":
         return create_vf_pymoo_poly(P, ranks, delta, eps_max, method=method, verbose=verbose)
     else:
         raise ValueError("Optimization method %s not supported" % method)
 
 
-def create_linear_vf(P, ranks, delta=0.1, eps_max=1000, method="trust-constr", max_iter=None):
+def create_linear_vf(P, ranks, delta=0.1, eps_max=1000, method="trust-constr", max_iter=None, verbose=False):
 
     if method == "trust-constr" or method == "SLSQP":
-        return create_vf_scipy_linear(P, ranks, delta, eps_max, method, max_iter=max_iter)
-    elif method == "ES":
-        return create_vf_pymoo_linear(P, ranks, delta, eps_max, method)
+        return create_vf_scipy_linear(P, ranks, delta, eps_max, method, verbose=verbose, max_iter=max_iter)
+    elif method == "ES" or method == "GA":
+        return create_vf_pymoo_linear(P, ranks, delta, eps_max, method, verbose=verbose)
     else:
         raise ValueError("Optimization method %s not supported" % method)
 
-- 
2.43.0


From aa3c5435a981b7477ba2ae7fc61bf4200c4e5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 141/165] fix: the value functions do not sort the ranks of the
 caller

---
 pymoo/util/value_functions.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index 99446d5..98fc89d 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -89,7 +89,7 @@ def create_vf_scipy_poly(P, ranks, delta, eps_max, method="trust-constr", verbos
         ineq_ub.append(0)
 
     P_sorted = _sort_P(P, ranks)
-    ranks.sort()
+    ranks = sorted(ranks)
 
     constr = NonlinearConstraint(_build_constr_poly(P_sorted, poly_vf, ranks, delta), ineq_lb, ineq_ub)
 
@@ -149,7 +149,7 @@ def create_vf_scipy_linear(P, ranks, delta, eps_max, method="trust-constr", verb
 
     # Sort P
     P_sorted = _sort_P(P, ranks)
-    ranks.sort()
+    ranks = sorted(ranks)
 
     # Inequality constraints
     lb = [-np.inf] * (P.shape[0] - 1)
@@ -600,12 +600,10 @@ class OptimizeLinearVF(Problem):
 
         self.P = _sort_P(P, ranks)
 
-        self.ranks = ranks
-        self.ranks.sort()
+        self.ranks = sorted(ranks)
 
         self.vf = vf
 
-        self.ranks = ranks
         self.delta = delta
 
         super().__init__(
@@ -692,8 +690,7 @@ class OptimizePolyVF(Problem):
 
         self.P = _sort_P(P, ranks)
 
-        self.ranks = ranks
-        self.ranks.sort()
+        self.ranks = sorted(ranks)
 
         self.vf = vf
 
-- 
2.43.0


From e35cb1fb35021b91716c6d25fa7fcf9d2aa7a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 142/165] fix: no feasible result of the GA is no value
 function

---
 pymoo/util/value_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index 98fc89d..fc28bc7 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -638,8 +638,9 @@ def _validate_vf(res, verbose):
     message = ""
 
     if isinstance(res, pymoo.core.result.Result):
-        success = np.all(res.G <= 0)
-        epsilon = res.X[-1]
+        # no solution satisfies the constraints
+        success = res.X is not None and np.all(res.G <= 0)
+        epsilon = res.X[-1] if res.X is not None else -1000
         if not success:
             message = "Constraints not met\n"
         if epsilon < 0:
-- 
2.43.0


From 5a8b43dbed09427872e21e358fba161eb60d218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 143/165] fix: results of SLSQP are validated without
 constr_violation

---
 pymoo/util/value_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index fc28bc7..8a9dbf7 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -647,10 +647,12 @@ def _validate_vf(res, verbose):
             message = message + "Epsilon negative\n"
 
     elif isinstance(res, OptimizeResult):
-        success = res.success and res.constr_violation <= 0
+        # SLSQP does not provide the violation, but it is not successful if the constraints are not met
+        violation = res.get("constr_violation", 0.0)
+        success = res.success and violation <= 0
         epsilon = res.x[-1]
 
-        if not (res.constr_violation <= 0):
+        if not (violation <= 0):
             message = "Constraints not met."
         else:
             message = res.message
-- 
2.43.0


From 8a372613402925c4acbd62dce752b21506f5335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 144/165] fix: VFDominator accepts a single row

---
 pymoo/util/vf_dominator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/vf_dominator.py b/pymoo/util/vf_dominator.py
index e782ff3..0692a45 100644
--- a/pymoo/util/vf_dominator.py
+++ b/pymoo/util/vf_dominator.py
@@ -76,8 +76,8 @@ class VFDominator:
             vf = self.algorithm.vf_res.vf
 
             # How much does the DM value each solution?
-            F_vf = vf(F * -1)[:, np.newaxis]
-            _F_vf = vf(_F * -1)[:, np.newaxis]
+            F_vf = np.atleast_1d(vf(F * -1))[:, np.newaxis]
+            _F_vf = np.atleast_1d(vf(_F * -1))[:, np.newaxis]
 
             # We want to compare each solution to the others
             Lv = np.repeat(F_vf, m, axis=0)
-- 
2.43.0


From 19f963f86e0e07168688e7a1377d1150ab6d4295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:33 +0000
Subject: [PATCH 145/165] fix: the preference relation of VFDominator is
 symmetric

---
 pymoo/util/vf_dominator.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pymoo/util/vf_dominator.py b/pymoo/util/vf_dominator.py
index 0692a45..dfa1576 100644
--- a/pymoo/util/vf_dominator.py
+++ b/pymoo/util/vf_dominator.py
@@ -83,15 +83,13 @@ class VFDominator:
             Lv = np.repeat(F_vf, m, axis=0)
             Rv = np.tile(_F_vf, (n, 1))
 
-            # Which values are greater than (better) V2?
-            gtv2 = np.reshape(Lv < v2, (n, m))
-            # Which values are less than (worst) V2?
-            ltv2 = np.reshape(Rv > v2, (n, m))
+            # If you are greater (better) than V2, you dominate all those who are smaller (worse) than V2
+            better = np.reshape(np.logical_and(Lv > v2, Rv < v2), (n, m))
+            worse = np.reshape(np.logical_and(Lv < v2, Rv > v2), (n, m))
 
-            # If you are greater than V2, you dominate all those who are smaller than V2
-            split_by_v2 = np.logical_and(gtv2, ltv2)
-
-            dom = np.logical_or(dom, split_by_v2)
+            # this holds for both sides of the comparison, otherwise it depends on the order of the solutions
+            non_dom = np.logical_or(np.logical_and(non_dom, np.logical_not(worse)), better)
+            dom = np.logical_or(np.logical_and(dom, np.logical_not(better)), worse)
 
         M = non_dom * 1 + dom * -1
 
-- 
2.43.0


From fffc414f9eda657e68e83adc2ded79365d58f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:33 +0000
Subject: [PATCH 146/165] fix: FitnessLandscape draws problems with one
 variable

---
 pymoo/visualization/fitness_landscape.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymoo/visualization/fitness_landscape.py b/pymoo/visualization/fitness_landscape.py
index 66e9a7c..5c9c937 100644
--- a/pymoo/visualization/fitness_landscape.py
+++ b/pymoo/visualization/fitness_landscape.py
@@ -2,7 +2,6 @@
 
 import numpy as np
 
-import pymoo.visualization.util
 from pymoo.core.plot import Plot
 from pymoo.util.misc import all_combinations
 
@@ -62,7 +61,7 @@ class FitnessLandscape(Plot):
 
             X = np.linspace(problem.xl[0], problem.xu[0], num=n_samples)[:, None]
             Z = problem.evaluate(X, return_values_of=["F"])
-            pymoo.visualization.util.plot(X, Z)
+            self.ax.plot(X, Z)
             self.ax.set_xlabel("x")
             self.ax.set_ylabel("f(x)")
 
-- 
2.43.0


From 53535bf97c7b322fbbba5f39cd64dd578940f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:33 +0000
Subject: [PATCH 147/165] fix: Heatmap without solution labels

---
 pymoo/visualization/heatmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/visualization/heatmap.py b/pymoo/visualization/heatmap.py
index baaf53c..07ba3fd 100644
--- a/pymoo/visualization/heatmap.py
+++ b/pymoo/visualization/heatmap.py
@@ -74,8 +74,8 @@ class Heatmap(Plot):
         self.ax.set_xticklabels(self.get_labels())
 
         # no solution labels should be used
-        if self.solution_labels is None:
-            pass
+        if self.solution_labels is None or self.solution_labels is False:
+            self.solution_labels = None
 
         # if true, just use a number for each solution
         elif isinstance(self.solution_labels, bool) and self.solution_labels:
-- 
2.43.0


From a35b743626b5a3d2aa13e5926cd39c7ca7942cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:33 +0000
Subject: [PATCH 148/165] fix: plots draw on their own axes

---
 pymoo/visualization/pcp.py  | 3 +--
 pymoo/visualization/util.py | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pymoo/visualization/pcp.py b/pymoo/visualization/pcp.py
index 329a750..b569fea 100644
--- a/pymoo/visualization/pcp.py
+++ b/pymoo/visualization/pcp.py
@@ -4,7 +4,6 @@ import numpy as np
 
 from pymoo.core.plot import Plot
 from pymoo.util.misc import set_if_none, set_if_none_from_tuples
-from pymoo.visualization.matplotlib import plt
 from pymoo.visualization.util import normalize, parse_bounds
 
 
@@ -59,7 +58,7 @@ class PCP(Plot):
             set_if_none(_kwargs, "color", self.colors[k % len(self.colors)])
 
             for i in range(len(F)):
-                plt.plot(np.arange(F.shape[1]), F[i, :], **_kwargs)
+                self.ax.plot(np.arange(F.shape[1]), F[i, :], **_kwargs)
 
         # Plot the parallel coordinate axes
         for i in range(self.n_dim):
diff --git a/pymoo/visualization/util.py b/pymoo/visualization/util.py
index 05d1245..676ba5c 100644
--- a/pymoo/visualization/util.py
+++ b/pymoo/visualization/util.py
@@ -37,12 +37,12 @@ def get_uniform_points_around_circle(n: int) -> np.ndarray:  # noqa: ANN101
 def plot_circle(ax, center: float = 0, radius: float = 1, **kwargs) -> None:  # noqa: ANN001
     P = get_circle_points(5000)
     P = (P + center) * radius
-    plt.plot(P[:, 0], P[:, 1], **kwargs)
+    ax.plot(P[:, 0], P[:, 1], **kwargs)
 
 
 def plot_radar_line(ax, x, **kwargs) -> None:  # noqa: ANN001
     x = np.vstack([x, x[0]])
-    plt.plot(x[:, 0], x[:, 1], **kwargs)
+    ax.plot(x[:, 0], x[:, 1], **kwargs)
 
 
 def plot_axes_arrow(ax, X, extend_factor: float = 1.0, **kwargs) -> None:  # noqa: ANN001
@@ -52,7 +52,7 @@ def plot_axes_arrow(ax, X, extend_factor: float = 1.0, **kwargs) -> None:  # noq
 
 def plot_axes_lines(ax, X, extend_factor: float = 1.0, **kwargs) -> None:  # noqa: ANN001
     for x, y in X:
-        plt.plot([0, x * extend_factor], [0, y * extend_factor], **kwargs)
+        ax.plot([0, x * extend_factor], [0, y * extend_factor], **kwargs)
 
 
 def plot_polygon(ax, x, **kwargs) -> None:  # noqa: ANN001
-- 
2.43.0


From ee4d3075e11e42c9363c56e5fe9516b3c09913a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:33 +0000
Subject: [PATCH 149/165] fix: Scatter keeps its mode when it is drawn again

---
 pymoo/visualization/scatter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/visualization/scatter.py b/pymoo/visualization/scatter.py
index 075f9a1..509474c 100644
--- a/pymoo/visualization/scatter.py
+++ b/pymoo/visualization/scatter.py
@@ -13,6 +13,7 @@ def plot_1d(sc) -> None:
     ax = sc.ax
 
     for k, (F, kwargs) in enumerate(sc.to_plot):
+        kwargs = dict(kwargs)
         func = getattr(ax, kwargs.pop("mode"))
         func(F, np.zeros_like(F), **kwargs)
         ax.set_xlabel(labels[0])
@@ -24,6 +25,7 @@ def plot_2d(sc):  # noqa: ANN001, ANN201
     ax = sc.ax
 
     for k, (F, kwargs) in enumerate(sc.to_plot):
+        kwargs = dict(kwargs)
         func = getattr(ax, kwargs.pop("mode"))
         func(F[:, 0], F[:, 1], **kwargs)
         ax.set_xlabel(labels[0])
@@ -38,6 +40,7 @@ def plot_3d(sc, angle) -> None:  # noqa: ANN001
     ax = sc.ax
 
     for k, (F, kwargs) in enumerate(sc.to_plot):
+        kwargs = dict(kwargs)
         # here alo `plot_trisurf` is allowed
         func = getattr(ax, kwargs.pop("mode"))
         func(F[:, 0], F[:, 1], F[:, 2], **kwargs)
@@ -59,6 +62,7 @@ def plot_pairwise(sc) -> None:  # noqa: ANN001
     labels = sc.get_labels()
 
     for k, (F, kwargs) in enumerate(sc.to_plot):
+        kwargs = dict(kwargs)
         assert F.shape[1] >= 2, "A pairwise sc plot needs at least two dimensions."
         mode = kwargs.pop("mode")
 
-- 
2.43.0


From 383b510fbb47c1661a6e89a09fc1423e2ca9af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:33 +0000
Subject: [PATCH 150/165] fix: the surface plotted for a problem is not
 transposed

---
 pymoo/visualization/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/visualization/util.py b/pymoo/visualization/util.py
index 676ba5c..88ac72e 100644
--- a/pymoo/visualization/util.py
+++ b/pymoo/visualization/util.py
@@ -274,7 +274,7 @@ def plot_problem_surface(
     elif problem.n_var == 2 and problem.n_obj == 1:
         X_range = np.linspace(problem.xl[0], problem.xu[0], num=n_samples)
         Y_range = np.linspace(problem.xl[1], problem.xu[1], num=n_samples)
-        X, Y = np.meshgrid(X_range, Y_range)
+        X, Y = np.meshgrid(X_range, Y_range, indexing="ij")
 
         A = np.zeros((n_samples * n_samples, 2))
         counter = 0
-- 
2.43.0


From 97e2371f4be5092afa64aa2b7469d35b51ad9765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 151/165] fix: epsilon constraint handling must also reach
 solutions evaluated by the user

---
 pymoo/constraints/adaptive.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pymoo/constraints/adaptive.py b/pymoo/constraints/adaptive.py
index 048bcef..c6e33c9 100644
--- a/pymoo/constraints/adaptive.py
+++ b/pymoo/constraints/adaptive.py
@@ -72,12 +72,20 @@ class AdaptiveConstraintHandling(MetaAlgorithm):
     def _adapt_constraint_handling(self, config, infills=None, **kwargs):
         pass
 
+    def _attach_config(self, infills):
+        # also solutions not evaluated by the algorithm's evaluator (ask and tell) must follow the constraint handling
+        if infills is not None:
+            infills = Population.create(infills) if isinstance(infills, Individual) else infills
+            infills.apply(lambda ind: ind.set("config", self.config))
+
     def _initialize_advance(self, infills=None, **kwargs):
+        self._attach_config(infills)
         copy_to_dict(self.adapted_config, self.config)
         super()._initialize_advance(infills=infills, **kwargs)
         copy_to_dict(self.default_config, self.config)
 
     def _advance(self, infills=None, **kwargs):
+        self._attach_config(infills)
         copy_to_dict(self.adapted_config, self.config)
         super()._advance(infills=infills, **kwargs)
         copy_to_dict(self.default_config, self.config)
-- 
2.43.0


From 2d19e37cdfde78df66ed0c5461a28eca6878a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:40 +0000
Subject: [PATCH 152/165] fix: differential evolution with fewer offsprings
 must choose its targets from the whole population

---
 pymoo/algorithms/soo/nonconvex/de.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index 744f6d1..604af94 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -272,10 +272,11 @@ class DE(GeneticAlgorithm):
         FitnessSurvival().do(self.problem, self.pop, return_indices=True)
 
     def _infill(self):
+        # create one trial for each member of the population (the target)
         infills = self.mating.do(
             self.problem,
             self.pop,
-            self.n_offsprings,
+            len(self.pop),
             algorithm=self,
             random_state=self.random_state,
         )
-- 
2.43.0


From e31562549ae87dadc551bb06c6886d3eab3de5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:55 +0000
Subject: [PATCH 153/165] fix: SciPy optimizers must respect equality
 constraints, problems without bounds and count every evaluation

---
 pymoo/vendor/vendor_scipy.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pymoo/vendor/vendor_scipy.py b/pymoo/vendor/vendor_scipy.py
index 24ecf76..6ec43f6 100644
--- a/pymoo/vendor/vendor_scipy.py
+++ b/pymoo/vendor/vendor_scipy.py
@@ -15,7 +15,7 @@ import warnings
 import numpy as np
 
 from pymoo.algorithms.base.local import LocalSearch
-from pymoo.core.individual import Individual, constr_to_cv
+from pymoo.core.individual import Individual
 from pymoo.core.population import Population
 
 from pymoo.termination.max_gen import MaximumGenerationTermination
@@ -62,7 +62,8 @@ class Optimizer(LocalSearch):
 
             xl, xu = self.problem.bounds()
             if self.with_bounds:
-                bounds = np.column_stack([xl, xu])
+                if self.problem.has_bounds():
+                    bounds = np.column_stack([xl, xu])
             else:
                 if xl is not None or xu is not None:
                     raise Exception(f"Error: Boundary constraints can not be handled by {self.method}")
@@ -71,19 +72,25 @@ class Optimizer(LocalSearch):
         constr = []
         if self.use_constr:
 
-            constr = [LinearConstraint(np.eye(self.problem.n_var), xl, xu)]
+            if bounds is not None:
+                constr = [LinearConstraint(np.eye(self.problem.n_var), xl, xu)]
 
             if problem.has_constraints():
 
                 if self.with_constr:
-                    def fun_constr(x):
-                        g = problem.evaluate(x, return_values_of=["G"])
-                        cv = constr_to_cv(g)
-                        return cv
 
-                    non_lin_constr = NonlinearConstraint(fun_constr, -float("inf"), 0)
+                    def fun_ieq(x):
+                        evaluator.n_eval += 1
+                        return problem.evaluate(x, return_values_of=["G"])
 
-                    constr.append(non_lin_constr)
+                    def fun_eq(x):
+                        evaluator.n_eval += 1
+                        return problem.evaluate(x, return_values_of=["H"])
+
+                    if problem.n_ieq_constr > 0:
+                        constr.append(NonlinearConstraint(fun_ieq, -float("inf"), 0))
+                    if problem.n_eq_constr > 0:
+                        constr.append(NonlinearConstraint(fun_eq, 0, 0))
 
                 else:
                     raise Exception(f"Error: Constraint handling is not supported by {self.method}")
-- 
2.43.0


From 7031a048df8556b9240f6920105a9cd9722e0fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:55 +0000
Subject: [PATCH 154/165] fix: Wolfe line search must end and return a step
 fulfilling the conditions

---
 pymoo/algorithms/soo/univariate/wolfe.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/wolfe.py b/pymoo/algorithms/soo/univariate/wolfe.py
index abafb25..fce9eca 100644
--- a/pymoo/algorithms/soo/univariate/wolfe.py
+++ b/pymoo/algorithms/soo/univariate/wolfe.py
@@ -46,12 +46,12 @@ class WolfeSearch(Algorithm):
 
         def zoom(alpha_low, alpha_high, max_iter=100):
 
-            while True:
+            for _ in range(max_iter):
                 _alpha = (alpha_high.get("alpha") + alpha_low.get("alpha")) / 2
                 _point = Individual(X=_alpha)
                 evaluator.eval(problem, _point, evaluate_values_of=["F", "CV"])
 
-                if _point.F[0] > sol_F + self.c1 * _alpha * sol_dF @ direction or _point.F[0] > alpha_low.F[0]:
+                if _point.F[0] > sol_F + self.c1 * _alpha * sol_dF @ direction or _point.F[0] >= alpha_low.F[0]:
                     alpha_high = _point
                 else:
                     evaluator.eval(problem, _point, evaluate_values_of=["dF"])
@@ -65,6 +65,9 @@ class WolfeSearch(Algorithm):
 
                     alpha_low = _point
 
+            # the best point with a sufficient decrease if the interval got too small
+            return alpha_low
+
         last = sol
 
         alpha = 1.0
@@ -78,7 +81,7 @@ class WolfeSearch(Algorithm):
             F, dF, _F = last.F[0], last.get("dF")[0], current.F[0]  # noqa: F841
 
             # if the wolfe condition is violate we have found our upper bound
-            if _F > sol_F + self.c1 * sol_dF @ direction or (i > 1 and F >= _F):
+            if _F > sol_F + self.c1 * alpha * sol_dF @ direction or (i > 1 and _F >= F):
                 return zoom(last, current)
 
             # for the other condition we need the gradient information
@@ -95,7 +98,7 @@ class WolfeSearch(Algorithm):
             last = current
             current = Individual(X=alpha)
 
-        return current
+        return last
 
 
 def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, evaluator=None):
@@ -109,12 +112,12 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
 
     def zoom(alpha_low, alpha_high, max_iter=100):
 
-        while True:
+        for _ in range(max_iter):
             _alpha = (alpha_high.get("alpha") + alpha_low.get("alpha")) / 2
             _point = Individual(X=sol.X + _alpha * direction, alpha=_alpha)
             evaluator.eval(problem, _point, evaluate_values_of=["F", "CV"])
 
-            if _point.F[0] > sol_F + c1 * _alpha * sol_dF @ direction or _point.F[0] > alpha_low.F[0]:
+            if _point.F[0] > sol_F + c1 * _alpha * sol_dF @ direction or _point.F[0] >= alpha_low.F[0]:
                 alpha_high = _point
             else:
                 evaluator.eval(problem, _point, evaluate_values_of=["dF"])
@@ -128,6 +131,9 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
 
                 alpha_low = _point
 
+        # the best point with a sufficient decrease if the interval got too small
+        return alpha_low
+
     last = sol
 
     alpha = 1.0
@@ -141,7 +147,7 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
         F, dF, _F = last.F[0], last.get("dF")[0], current.F[0]  # noqa: F841
 
         # if the wolfe condition is violate we have found our upper bound
-        if _F > sol_F + c1 * sol_dF @ direction or (i > 1 and F >= _F):
+        if _F > sol_F + c1 * alpha * sol_dF @ direction or (i > 1 and _F >= F):
             return zoom(last, current)
 
         # for the other condition we need the gradient information
@@ -158,4 +164,4 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
         last = current
         current = Individual(X=sol.X + alpha * direction, alpha=alpha)
 
-    return current
+    return last
-- 
2.43.0


From 27f1182338184c068e02d6777855dbed8c99274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:55 +0000
Subject: [PATCH 155/165] fix: the limit of evaluations must reach the SciPy
 optimizers under the right option

---
 pymoo/vendor/vendor_scipy.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pymoo/vendor/vendor_scipy.py b/pymoo/vendor/vendor_scipy.py
index 6ec43f6..f487db2 100644
--- a/pymoo/vendor/vendor_scipy.py
+++ b/pymoo/vendor/vendor_scipy.py
@@ -27,6 +27,10 @@ from pymoo.termination.max_gen import MaximumGenerationTermination
 # ---------------------------------------------------------------------------------------------------------
 
 
+# the name of the option limiting the number of function evaluations (not available for the other methods)
+MAX_EVALS_OPTION = {"Nelder-Mead": "maxfev", "Powell": "maxfev", "L-BFGS-B": "maxfun", "TNC": "maxfun", "COBYLA": "maxiter"}
+
+
 class Optimizer(LocalSearch):
 
     def __init__(self, method, with_bounds=False, with_constr=False, require_jac=False,
@@ -40,6 +44,9 @@ class Optimizer(LocalSearch):
         self.use_constr = use_constr
         self.estm_gradients = estm_gradients
 
+        # the maximum number of function evaluations (if provided as termination)
+        self.max_evals = None
+
         self.options = {
             'maxiter': int(1e8),  # because of C code interfacing this can not be inf
             'disp': disp}
@@ -48,7 +55,7 @@ class Optimizer(LocalSearch):
         if isinstance(self.termination, MaximumGenerationTermination):
             self.options["maxiter"] = self.termination.n_max_gen
         elif isinstance(self.termination, MaximumFunctionCallTermination):
-            self.options["maxfev"] = self.termination.n_max_evals
+            self.max_evals = self.termination.n_max_evals
 
         self.termination = NoTermination()
         self.return_least_infeasible = True
@@ -122,6 +129,11 @@ class Optimizer(LocalSearch):
         # the starting solution found by sampling beforehand
         x0 = self.opt[0].X
 
+        # the limit of function evaluations, besides the ones used already and the one of the final solution
+        name = MAX_EVALS_OPTION.get(self.method)
+        if self.max_evals is not None and name is not None:
+            self.options[name] = max(1, self.max_evals - evaluator.n_eval - 1)
+
         # actually run the optimization
         if not self.show_warnings:
             warnings.simplefilter("ignore")
-- 
2.43.0


From fba15419dead791db097fcc5ad79318ba26956f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:55 +0000
Subject: [PATCH 156/165] fix: bracket search must use the interval given to
 the constructor

---
 pymoo/algorithms/base/bracket.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/base/bracket.py b/pymoo/algorithms/base/bracket.py
index d202030..d88fc5a 100644
--- a/pymoo/algorithms/base/bracket.py
+++ b/pymoo/algorithms/base/bracket.py
@@ -11,10 +11,14 @@ class BracketSearch(Algorithm):
         super().__init__(**kwargs)
         self.a, self.b = a, b
 
+        # the bounds of the interval if they are provided already
+        self.bracket = (a, b)
+
     def _setup(self, problem, a=None, b=None, **kwargs):
         msg = "Only problems with one variable, one objective and no constraints can be solved!"
         assert problem.n_var == 1 and not problem.has_constraints() and problem.n_obj == 1, msg
-        self.a, self.b = a, b
+        self.a = a if a is not None else self.bracket[0]
+        self.b = b if b is not None else self.bracket[1]
 
     def _initialize_infill(self):
 
@@ -31,7 +35,7 @@ class BracketSearch(Algorithm):
 
         # take care of the upper bound - make sure it is an individual and make sure it is evaluated
         if self.b is None:
-            assert xl is not None, "Either provide a right bound or set the xu attribute in the problem."
+            assert xu is not None, "Either provide a right bound or set the xu attribute in the problem."
             self.b = Individual(X=xu)
 
         if self.b.F is None:
-- 
2.43.0


From 6aac99a497e3707062cb99bba9c00305dcf8e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:28 +0000
Subject: [PATCH 157/165] fix: exponential search must be performed when the
 algorithm is run

---
 pymoo/algorithms/soo/univariate/exp.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/exp.py b/pymoo/algorithms/soo/univariate/exp.py
index 1407a1c..3f603f0 100644
--- a/pymoo/algorithms/soo/univariate/exp.py
+++ b/pymoo/algorithms/soo/univariate/exp.py
@@ -3,7 +3,6 @@
 import numpy as np
 
 from pymoo.core.algorithm import Algorithm
-from pymoo.core.individual import Individual
 from pymoo.core.population import Population
 from pymoo.core.replacement import is_better
 from pymoo.termination.default import DefaultSingleObjectiveTermination
@@ -13,6 +12,7 @@ class ExponentialSearch(Algorithm):
     def __init__(self, delta=0.05, **kwargs):
         super().__init__(**kwargs)
         self.termination = DefaultSingleObjectiveTermination()
+        self.delta = delta
         self.alpha = delta
         self.point = None
 
@@ -20,26 +20,28 @@ class ExponentialSearch(Algorithm):
         msg = "Only problems with one variable, one objective and no constraints can be solved!"
         assert problem.n_var == 1 and not problem.has_constraints() and problem.n_obj == 1, msg
         self.point = x0
+        self.alpha = self.delta
 
     def _initialize_infill(self):
-        self.step_size = self.alpha
-
         if self.point is None:
             return Population.new(X=np.copy(self.problem.xl[None, :]))
         else:
             return Population.create(self.point)
 
-    def step(self):
-        alpha, max_alpha = self.alpha, self.problem.xu[0]
+    def _initialize_advance(self, infills=None, **kwargs):
+        self.point = infills[0]
+        self.start = np.copy(self.point.X)
 
-        if alpha > max_alpha:
-            alpha = max_alpha
+    def _infill(self):
+        # never go beyond the upper bound
+        X = np.minimum(self.start + self.alpha, self.problem.xu)
+        return Population.new(X=X[None, :])
 
-        infill = Individual(X=np.array([alpha]))
-        self.evaluator.eval(self.problem, infill)
-        self.pop = Population.merge(self.pop, infill)[-10:]
+    def _advance(self, infills=None, **kwargs):
+        infill = infills[0]
+        self.pop = Population.merge(self.pop, infills)[-10:]
 
-        if is_better(self.point, infill, eps=0.0) or alpha == max_alpha:
+        if is_better(self.point, infill, eps=0.0) or infill.X[0] >= self.problem.xu[0]:
             self.termination.force_termination = True
             return
 
-- 
2.43.0


From 61e427e98a6fab592a885406f9846c5de529e464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:57 +0000
Subject: [PATCH 158/165] fix: Nelder-Mead must use the given scale of the
 initial simplex

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index 2516480..29c4038 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -140,7 +140,7 @@ class NelderMead(LocalSearch):
         self.alpha, self.beta, self.gamma, self.delta = self.func_params(self.problem)
 
     def _initialize_simplex(self):
-        simplex = pop_from_array_or_individual(initialize_simplex(self.problem, self.x0.X, scale=0.05))
+        simplex = pop_from_array_or_individual(initialize_simplex(self.problem, self.x0.X, scale=self.init_simplex_scale))
         return Population.merge(self.x0, simplex)
 
     def _next(self):
-- 
2.43.0


From fd30095d95d729fc06119e0ec4cd4a9975b0b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:39 +0000
Subject: [PATCH 159/165] fix: CMA-ES must evaluate the solutions if they are
 not evaluated as a batch

---
 pymoo/vendor/vendor_cmaes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/vendor/vendor_cmaes.py b/pymoo/vendor/vendor_cmaes.py
index 5862d0b..2a76528 100644
--- a/pymoo/vendor/vendor_cmaes.py
+++ b/pymoo/vendor/vendor_cmaes.py
@@ -402,10 +402,10 @@ class MyCMAEvolutionStrategy(CMAEvolutionStrategy):
                     length_normalizer = self.N**0.5 / self.mahalanobis_norm(x - xmean)  # self.const.chiN < N**0.5, the constant here is irrelevant (absorbed by kappa)
                     # print(self.N**0.5 / self.mahalanobis_norm(x - xmean))
                     # self.more_to_write += [length_normalizer * 1e-3, length_normalizer * self.mahalanobis_norm(x - xmean) * 1e2]
-                    if kappa == 1:
-                        f = yield x
-                    else:
-                        f = yield xmean + kappa * length_normalizer * (x - xmean)
+                if kappa == 1:
+                    f = yield x
+                else:
+                    f = yield xmean + kappa * length_normalizer * (x - xmean)
 
                 if is_feasible(x, f) and evaluations > 1:
                     if kappa == 1:
-- 
2.43.0


From 7f75edaaf17f3d11ac4c814696a783d21379d4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:39 +0000
Subject: [PATCH 160/165] fix: DIRECT must only divide potentially optimal
 cells

---
 pymoo/algorithms/soo/nonconvex/direct.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index 9fd6136..fd7bf18 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -75,7 +75,8 @@ class DIRECT(LocalSearch):
         # get the length of the interval of each solution
         nxl, nxu = norm_bounds(pop, self.problem)
         length = (nxu - nxl) / 2
-        val = length.mean(axis=1)
+        # (cells of the same size must not differ because of floating point issues)
+        val = np.round(length.mean(axis=1), 12)
 
         # (a) non-dominated set with respect to interval
         obj = np.column_stack([-val, F])
@@ -111,7 +112,7 @@ class DIRECT(LocalSearch):
             if len(candidates) > self.n_max_candidates:
                 candidates = RankAndCrowdingSurvival().do(
                     self.problem,
-                    pop,
+                    candidates,
                     n_survive=self.n_max_candidates,
                     algorithm=self,
                     random_state=self.random_state,
-- 
2.43.0


From f57556f41ebdd4e2d6bd10ce7bba592e7b602911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:41 +0000
Subject: [PATCH 161/165] fix: swapping two rows must not duplicate one of them

---
 pymoo/util/misc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pymoo/util/misc.py b/pymoo/util/misc.py
index eb65273..5fed476 100644
--- a/pymoo/util/misc.py
+++ b/pymoo/util/misc.py
@@ -51,9 +51,7 @@ def swap(M: Any, a: int, b: int) -> None:
         a: Index of first row.
         b: Index of second row.
     """
-    tmp = M[a]
-    M[a] = M[b]
-    M[b] = tmp
+    M[[a, b]] = M[[b, a]]
 
 
 def repair(X: Any, xl: Any, xu: Any) -> Any:
-- 
2.43.0


From 4fca70837c07bb52ad2b959a88a7e594e0b612b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:41 +0000
Subject: [PATCH 162/165] fix: randomized quicksort must use the random state
 given

---
 pymoo/util/randomized_argsort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/randomized_argsort.py b/pymoo/util/randomized_argsort.py
index 117b058..2aa5e86 100644
--- a/pymoo/util/randomized_argsort.py
+++ b/pymoo/util/randomized_argsort.py
@@ -14,7 +14,7 @@ def randomized_argsort(A, method="numpy", order="ascending", random_state=None):
         I = P[I]  # noqa: E741
 
     elif method == "quicksort":
-        I = quicksort(A)  # noqa: E741
+        I = quicksort(A, random_state=random_state)  # noqa: E741
 
     else:
         raise Exception("Randomized sort method not known.")
-- 
2.43.0


From 2b1526e42fd356c85152cd5f3739201f455f3c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:43 +0000
Subject: [PATCH 163/165] fix: setting up MOPSO_CD does not evaluate solutions
 that are never used

---
 pymoo/algorithms/moo/mopso_cd.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 4557457..f023c12 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -86,9 +86,6 @@ class MOPSO_CD(Algorithm):
         self.pbest = self.pop.copy()  # Personal bests
         self.pbest_f = np.full((self.pop_size, problem.n_obj), np.inf)  # Initialize with inf
 
-        # Evaluate initial population to set personal best objectives
-        self.evaluator.eval(self.problem, self.pop)
-
     def _initialize_infill(self):
         """Initialize the population and velocities."""
         # Initialize population using sampling
-- 
2.43.0


From e7900c05c77e08e48df6348d8248a2e8ea5ce12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:36 +0000
Subject: [PATCH 164/165] fix: a shallow copy of an individual does not share
 what has been evaluated

---
 pymoo/core/individual.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/core/individual.py b/pymoo/core/individual.py
index e85b115..19bed82 100644
--- a/pymoo/core/individual.py
+++ b/pymoo/core/individual.py
@@ -555,6 +555,10 @@ class Individual:
         for k, v in D.items():
             obj.__dict__[k] = v
 
+        # a shallow copy shares the values, but not what has been evaluated or stored
+        if not deep:
+            obj.evaluated, obj.data = set(other.evaluated), dict(other.data)
+
         return obj
 
 
-- 
2.43.0


From 3dfbb9b8226afd206db533e5535e3aaf68a2e7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:01 +0000
Subject: [PATCH 165/165] fix: the result returned by the last tell includes
 its solutions in the archive

---
 pymoo/core/algorithm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 105aa4b..9d1db47 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -231,6 +231,10 @@ class Algorithm:
             if val is None or val:
                 self._post_advance()
 
+        # add the infill solutions to an archive
+        if self.archive is not None and infills is not None:
+            self.archive = self.archive.add(infills)
+
         # if the algorithm has terminated, then do the finalization steps and return the result
         if self.termination.has_terminated():  # type: ignore
             self.finalize()
@@ -240,10 +244,6 @@ class Algorithm:
         else:
             ret = self.opt  # type: ignore
 
-        # add the infill solutions to an archive
-        if self.archive is not None and infills is not None:
-            self.archive = self.archive.add(infills)
-
         return ret
 
     def result(self) -> Result:
-- 
2.43.0

