From 79291b1a3e8fcfb148ee9da3b19ab4b91eb989dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 01/72] fix: Gaussian mutation repairs out-of-bounds values
 with the run's own random state

The bound repair fell back to a fresh, unseeded generator, so a seeded run using GM
was not reproducible.
---
 pymoo/operators/mutation/gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/mutation/gauss.py b/pymoo/operators/mutation/gauss.py
index 57417f4..4d1b324 100644
--- a/pymoo/operators/mutation/gauss.py
+++ b/pymoo/operators/mutation/gauss.py
@@ -31,7 +31,7 @@ def mut_gauss(X, xl, xu, sigma, prob, random_state=None):
 
     Xp[mut] = random_state.normal(X[mut], sigma * (_xu - _xl))
 
-    Xp = repair_random_init(Xp, X, xl, xu)
+    Xp = repair_random_init(Xp, X, xl, xu, random_state=random_state)
 
     return Xp
 
-- 
2.43.0


From f633c50b5b563e5c38defffda32b92c9361b445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 02/72] fix: DEX repairs out-of-bounds values with the run's
 own random state

---
 pymoo/operators/crossover/dex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/crossover/dex.py b/pymoo/operators/crossover/dex.py
index 71ce93c..b768ce1 100644
--- a/pymoo/operators/crossover/dex.py
+++ b/pymoo/operators/crossover/dex.py
@@ -114,7 +114,7 @@ class DEX(Crossover):
                 Xp[m] = de_differential(X[:, m], F, random_state=random_state)
 
             # if still infeasible do a random initialization
-            Xp = repair_random_init(Xp, X[0], *problem.bounds())
+            Xp = repair_random_init(Xp, X[0], *problem.bounds(), random_state=random_state)
 
         if self.variant == "bin":
             M = mut_binomial(
-- 
2.43.0


From 36a92c8d78551b8d85d0a8a81eb09fb385e3240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 03/72] fix: break tournament ties of NSGA-III, U-NSGA-III and
 NicheGA with the run's random state

The comparison was called without a random state and drew from OS entropy whenever two
competitors were equal, so seeded runs differed.
---
 pymoo/algorithms/moo/nsga3.py                | 1 +
 pymoo/algorithms/moo/unsga3.py               | 1 +
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 4 +++-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/nsga3.py b/pymoo/algorithms/moo/nsga3.py
index 6bcfd31..f54b6fd 100644
--- a/pymoo/algorithms/moo/nsga3.py
+++ b/pymoo/algorithms/moo/nsga3.py
@@ -40,6 +40,7 @@ def comp_by_cv_then_random(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible just set random
diff --git a/pymoo/algorithms/moo/unsga3.py b/pymoo/algorithms/moo/unsga3.py
index 2c79694..c88becf 100644
--- a/pymoo/algorithms/moo/unsga3.py
+++ b/pymoo/algorithms/moo/unsga3.py
@@ -39,6 +39,7 @@ def comp_by_rank_and_ref_line_dist(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible
diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 727e76c..2979bed 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -60,7 +60,7 @@ class NicheTermination(DefaultTermination):
 # =========================================================================================================
 
 
-def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
+def comp_by_cv_and_clearing_fitness(pop, P, random_state=None, **kwargs):
     S = np.full(P.shape[0], np.nan)
 
     for i in range(P.shape[0]):
@@ -75,6 +75,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # first compare by the round the individual was selected
@@ -90,6 +91,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                     pop[b].get("rank"),
                     method="smaller_is_better",
                     return_random_if_equal=True,
+                    random_state=random_state,
                 )
 
     return S[:, None].astype(int)
-- 
2.43.0


From 8ace34697c29fa92cc95eb3230153043add9b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 04/72] fix: parameter control draws from the run's random
 state

---
 pymoo/algorithms/soo/nonconvex/de.py |  2 +-
 pymoo/operators/control.py           | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index d8eb143..744f6d1 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -93,7 +93,7 @@ class Variant(InfillCriterion):
         control.tell(pop=pop)
 
         # set the controlled parameter for the desired number of offsprings
-        control.do(n_offsprings)
+        control.do(n_offsprings, random_state=random_state)
 
         # find the different groups of selection schemes and order them by category
         sel, n_diffs = get(self.selection, self.n_diffs, size=n_offsprings)
diff --git a/pymoo/operators/control.py b/pymoo/operators/control.py
index 4b2d5dd..2b6bcf3 100644
--- a/pymoo/operators/control.py
+++ b/pymoo/operators/control.py
@@ -158,7 +158,7 @@ class ParameterControlMating(InfillCriterion):
         self.mutation = mutation
         self.control = control(self)
 
-    def _do(self, problem, pop, n_offsprings, parents=None, **kwargs):
+    def _do(self, problem, pop, n_offsprings, parents=None, random_state=None, **kwargs):
 
         # how many parents need to be select for the mating - depending on number of offsprings remaining
         n_matings = math.ceil(n_offsprings / self.crossover.n_offsprings)
@@ -166,22 +166,29 @@ class ParameterControlMating(InfillCriterion):
         # do the parameter control for the mating
         control = self.control
         control.tell(pop=pop)
-        control.do(n_matings)
+        control.do(n_matings, random_state=random_state)
 
         # if the parents for the mating are not provided directly - usually selection will be used
         if parents is None:
             # select the parents for the mating - just an index array
-            parents = self.selection.do(problem, pop, n_matings, n_parents=self.crossover.n_parents, **kwargs)
+            parents = self.selection.do(
+                problem,
+                pop,
+                n_matings,
+                n_parents=self.crossover.n_parents,
+                random_state=random_state,
+                **kwargs,
+            )
 
         # do the crossover using the parents index and the population - additional data provided if necessary
-        off = self.crossover(problem, parents, **kwargs)
+        off = self.crossover(problem, parents, random_state=random_state, **kwargs)
 
         # now we have to consider during parameter control that a crossover can produce multiple offsprings
         for name, param in control.params.items():
             param.set(np.repeat(param.get(), self.crossover.n_offsprings))
 
         # do the mutation on the offsprings created through crossover
-        off = self.mutation(problem, off, **kwargs)
+        off = self.mutation(problem, off, random_state=random_state, **kwargs)
 
         # finally attach the parameters back to the offsprings
         control.advance(off)
-- 
2.43.0


From 39fc7643bf05342ba0b7ac494fed11fcd4eeebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 05/72] fix: PatternSearch randomises its variable order with
 the run's random state

---
 pymoo/algorithms/soo/nonconvex/pattern.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/pattern.py b/pymoo/algorithms/soo/nonconvex/pattern.py
index aa0dd66..02a22ed 100644
--- a/pymoo/algorithms/soo/nonconvex/pattern.py
+++ b/pymoo/algorithms/soo/nonconvex/pattern.py
@@ -77,7 +77,9 @@ class PatternSearch(LocalSearch):
             self._rho = self.init_rho**self.n_not_improved
 
             # explore around the current center - try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._center, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._center, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         # if we have found a direction in the last iteration to be worth following
         else:
@@ -94,7 +96,9 @@ class PatternSearch(LocalSearch):
             self._sign = calc_sign(self._direction)
 
             # explore around the current center to try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._trial, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._trial, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         self.pop = Population.create(self._center, self._explr)
 
-- 
2.43.0


From ec492907c54d0c5f96f55697d3a94ce5debb8183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 06/72] fix: SRES and ISRES rank stochastically with the run's
 random state

---
 pymoo/algorithms/soo/nonconvex/sres.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/sres.py b/pymoo/algorithms/soo/nonconvex/sres.py
index 99b3708..e7212c7 100644
--- a/pymoo/algorithms/soo/nonconvex/sres.py
+++ b/pymoo/algorithms/soo/nonconvex/sres.py
@@ -50,7 +50,9 @@ class SRES(ES):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
-        self.pop = self.survival.do(self.problem, infills, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(SRES.__init__)
-- 
2.43.0


From 3ebf0ab7e8be0ac7ae12e2738f3f3b1d28df54b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 07/72] fix: D-NSGA-II-B mutates with the run's random state

---
 pymoo/algorithms/moo/dnsga2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/dnsga2.py b/pymoo/algorithms/moo/dnsga2.py
index 6bef2a4..954a0ee 100644
--- a/pymoo/algorithms/moo/dnsga2.py
+++ b/pymoo/algorithms/moo/dnsga2.py
@@ -54,7 +54,7 @@ class DNSGA2(NSGA2):
 
             # replace by mutations of existing solutions (this occurs inplace)
             elif self.version == "B":
-                self.mating.mutation(self.problem, pop[I])
+                self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
             else:
                 raise Exception(f"Unknown version of D-NSGA-II: {self.version}")
 
-- 
2.43.0


From d1907b298049880f703f0325b6c54c80711d748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 08/72] fix: constrained rank and crowding breaks ties with the
 run's random state

---
 .../operators/survival/rank_and_crowding/classes.py  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pymoo/operators/survival/rank_and_crowding/classes.py b/pymoo/operators/survival/rank_and_crowding/classes.py
index 8db7899..1f38810 100644
--- a/pymoo/operators/survival/rank_and_crowding/classes.py
+++ b/pymoo/operators/survival/rank_and_crowding/classes.py
@@ -129,7 +129,7 @@ class ConstrRankAndCrowding(Survival):
         self.ranking = RankAndCrowding(nds=nds, crowding_func=crowding_func)
 
     def _do(  # type: ignore[override]
-        self, problem, pop, *args, n_survive=None, **kwargs
+        self, problem, pop, *args, n_survive=None, random_state=None, **kwargs
     ) -> Population:
         """Select survivors handling constraints and infeasibility.
 
@@ -138,6 +138,7 @@ class ConstrRankAndCrowding(Survival):
             pop: Population.
             *args: Additional positional arguments.
             n_survive: Number of individuals to survive.
+            random_state: Random state for reproducibility.
             **kwargs: Additional keyword arguments.
 
         Returns:
@@ -165,6 +166,7 @@ class ConstrRankAndCrowding(Survival):
                     pop[feas],
                     *args,
                     n_survive=min(len(feas), n_survive),
+                    random_state=random_state,
                     **kwargs,
                 )
 
@@ -192,7 +194,9 @@ class ConstrRankAndCrowding(Survival):
                     if len(survivors) + len(front) > n_survive:
                         # Obtain CV of front
                         CV = pop[infeas][front].get("CV").flatten()
-                        I = randomized_argsort(CV, order="ascending", method="numpy")  # noqa: E741
+                        I = randomized_argsort(  # noqa: E741
+                            CV, order="ascending", method="numpy", random_state=random_state
+                        )
                         I = I[: (n_survive - len(survivors))]  # noqa: E741
 
                     # Otherwise take the whole front unsorted
@@ -203,6 +207,8 @@ class ConstrRankAndCrowding(Survival):
                     survivors = Population.merge(survivors, pop[infeas][front[I]])
 
         else:
-            survivors = self.ranking.do(problem, pop, *args, n_survive=n_survive, **kwargs)
+            survivors = self.ranking.do(
+                problem, pop, *args, n_survive=n_survive, random_state=random_state, **kwargs
+            )
 
         return survivors
-- 
2.43.0


From 33924118a5dd08fb324acadc35c9caa9adb41dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 09/72] fix: DIRECT selects its candidates with the run's
 random state

---
 pymoo/algorithms/soo/nonconvex/direct.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index 9e67415..fd0ad1f 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -109,7 +109,11 @@ class DIRECT(LocalSearch):
         else:
             if len(candidates) > self.n_max_candidates:
                 candidates = RankAndCrowdingSurvival().do(
-                    self.problem, pop, n_survive=self.n_max_candidates, algorithm=self
+                    self.problem,
+                    pop,
+                    n_survive=self.n_max_candidates,
+                    algorithm=self,
+                    random_state=self.random_state,
                 )
 
             return candidates
-- 
2.43.0


From a26a6c51d05783fc48a5833789826cd671d82156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 10/72] fix: truncate archives with the run's random state

Archive truncation (random, or by a survival that draws) used OS entropy, so a seeded run
with a full archive, CMOPSO and MOPSO-CD were not reproducible.
---
 pymoo/algorithms/moo/cmopso.py |  4 ++--
 pymoo/core/algorithm.py        |  2 +-
 pymoo/util/archive.py          | 12 ++++++------
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pymoo/algorithms/moo/cmopso.py b/pymoo/algorithms/moo/cmopso.py
index babc38d..1fe01c8 100644
--- a/pymoo/algorithms/moo/cmopso.py
+++ b/pymoo/algorithms/moo/cmopso.py
@@ -192,7 +192,7 @@ class CMOPSO(Algorithm):
             raise Exception("Unknown velocity initialization.")
 
         self.pop.set("V", init_V)
-        self.elites = self.elites.add(self.pop)
+        self.elites = self.elites.add(self.pop, random_state=self.random_state)
 
     def _infill(self):
         (X, V) = self.pop.get("X", "V")
@@ -211,7 +211,7 @@ class CMOPSO(Algorithm):
         assert infills is not None, "This algorithm uses the AskAndTell interface thus 'infills' must to be provided."
 
         particles = Population.merge(self.pop, infills)
-        self.elites = self.elites.add(particles)
+        self.elites = self.elites.add(particles, random_state=self.random_state)
         self.pop = self.survival.do(self.problem, particles, n_survive=self.pop_size)
 
 
diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 2c9f20b..73b13c6 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -242,7 +242,7 @@ class Algorithm:
 
         # add the infill solutions to an archive
         if self.archive is not None and infills is not None:
-            self.archive = self.archive.add(infills)
+            self.archive = self.archive.add(infills, random_state=self.random_state)
 
         return ret
 
diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index b362e4a..9d92a1e 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -9,7 +9,7 @@ from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 
 
 class Truncation:
-    def __call__(self, sols, k):
+    def __call__(self, sols, k, random_state=None):
         pass
 
 
@@ -32,8 +32,8 @@ class SurvivalTruncation(Truncation):
 
         self.problem = problem
 
-    def __call__(self, sols, k):
-        return self.survival.do(self.problem, sols, n_survive=k)
+    def __call__(self, sols, k, random_state=None):
+        return self.survival.do(self.problem, sols, n_survive=k, random_state=random_state)
 
 
 class Archive(Population):
@@ -68,7 +68,7 @@ class Archive(Population):
         self.truncation = truncation
         self.duplicate_elimination = duplicate_elimination
 
-    def add(self, sols):
+    def add(self, sols, random_state=None):
 
         if len(self) > 0:
             sols = merge(self, sols)
@@ -79,7 +79,7 @@ class Archive(Population):
             opt = self.duplicate_elimination.do(opt)
 
         if self.max_size and len(opt) > self.max_size:
-            opt = self.truncation(opt, self.truncate_size)
+            opt = self.truncation(opt, self.truncate_size, random_state=random_state)
 
         cls = self.__class__
         obj = cls.__new__(cls, individuals=opt, **self.view(Archive).__dict__)
@@ -90,7 +90,7 @@ class Archive(Population):
 
 
 class VoidArchive(Archive):
-    def add(self, sols):
+    def add(self, sols, random_state=None):
         return self
 
 
-- 
2.43.0


From 961fc5664816893d6af57c22a28495c919b94327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 11/72] fix: give every SPEA2 instance its own survival

The default survival was one object shared by all instances and carries the normalisation
points, so a second run saw those of the first (different results, or an exception when the
number of objectives differs).
---
 pymoo/algorithms/moo/spea2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index 29d7f64..4e7d4cd 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -175,7 +175,7 @@ class SPEA2(GeneticAlgorithm):
         selection=TournamentSelection(spea_binary_tournament),
         crossover=SBX(),
         mutation=PM(),
-        survival=SPEA2Survival(normalize=True),
+        survival=None,
         eliminate_duplicates=True,
         n_offsprings=None,
         output=MultiObjectiveOutput(),
@@ -196,6 +196,10 @@ class SPEA2(GeneticAlgorithm):
             **kwargs: {kwargs}
 
         """
+        # the survival keeps track of normalization points and thus must not be shared between instances
+        if survival is None:
+            survival = SPEA2Survival(normalize=True)
+
         super().__init__(
             pop_size=pop_size,
             sampling=sampling,
-- 
2.43.0


From a1e405ec2ab82b28522b54120df17922ca74896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 12/72] fix: give every KGB instance its own knowledge pool

The mutable default was shared by all instances in the process.
---
 pymoo/algorithms/moo/kgb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/kgb.py b/pymoo/algorithms/moo/kgb.py
index 98b8dfc..06945a8 100755
--- a/pymoo/algorithms/moo/kgb.py
+++ b/pymoo/algorithms/moo/kgb.py
@@ -23,7 +23,7 @@ class KGB(NSGA2):
         perc_diversity=0.3,
         c_size=13,
         eps=0.0,
-        ps={},
+        ps=None,
         perturb_dev=0.1,
         save_ps=False,
         **kwargs,
@@ -37,7 +37,7 @@ class KGB(NSGA2):
         self.save_ps = save_ps
 
         self.C_SIZE = c_size
-        self.ps = ps
+        self.ps = ps if ps is not None else {}
         self.nr_rand_solutions = 50 * self.pop_size
         self.t = 0
 
-- 
2.43.0


From 29bc41c5616d53f13d8808d928b4c5d9a39216d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 13/72] fix: give every EPPSO instance its own swarm mating

The default carries the controlled parameters of the current iteration and was shared by all
instances in the process.
---
 pymoo/algorithms/soo/nonconvex/pso_ep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/pso_ep.py b/pymoo/algorithms/soo/nonconvex/pso_ep.py
index f43fdf5..ba755a5 100644
--- a/pymoo/algorithms/soo/nonconvex/pso_ep.py
+++ b/pymoo/algorithms/soo/nonconvex/pso_ep.py
@@ -177,7 +177,7 @@ class EPPSO(GeneticAlgorithm):
         self,
         pop_size=100,
         sampling=FloatRandomSampling(),
-        swarm=Swarm(),
+        swarm=None,
         topology="star",
         init_V="zero",
         output=SingleObjectiveOutput(),
@@ -187,7 +187,7 @@ class EPPSO(GeneticAlgorithm):
         super().__init__(
             pop_size=pop_size,
             sampling=sampling,
-            mating=swarm,
+            mating=swarm if swarm is not None else Swarm(),
             init_V=init_V,
             n_offsprings=None,
             eliminate_duplicates=NoDuplicateElimination(),
-- 
2.43.0


From bf6c0aa1a6aae60573fb77124af43fbe0b28bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 14/72] fix: CMAES evaluates designs one by one when
 parallelize is off instead of looping forever

---
 pymoo/vendor/vendor_cmaes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/vendor/vendor_cmaes.py b/pymoo/vendor/vendor_cmaes.py
index a9f86b7..377890e 100644
--- a/pymoo/vendor/vendor_cmaes.py
+++ b/pymoo/vendor/vendor_cmaes.py
@@ -389,10 +389,10 @@ class MyCMAEvolutionStrategy(CMAEvolutionStrategy):
                     length_normalizer = self.N**0.5 / self.mahalanobis_norm(x - xmean)  # self.const.chiN < N**0.5, the constant here is irrelevant (absorbed by kappa)
                     # print(self.N**0.5 / self.mahalanobis_norm(x - xmean))
                     # self.more_to_write += [length_normalizer * 1e-3, length_normalizer * self.mahalanobis_norm(x - xmean) * 1e2]
-                    if kappa == 1:
-                        f = yield x
-                    else:
-                        f = yield xmean + kappa * length_normalizer * (x - xmean)
+                if kappa == 1:
+                    f = yield x
+                else:
+                    f = yield xmean + kappa * length_normalizer * (x - xmean)
 
                 if is_feasible(x, f) and evaluations > 1:
                     if kappa == 1:
-- 
2.43.0


From cc5177507fcc7593101cd2d4c8c040e4b866b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 15/72] fix: QuadraticInterpolationSearch takes the midpoint of
 its bracket

---
 pymoo/algorithms/soo/univariate/quadr_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/quadr_interp.py b/pymoo/algorithms/soo/univariate/quadr_interp.py
index 7cfd49e..3a5e312 100644
--- a/pymoo/algorithms/soo/univariate/quadr_interp.py
+++ b/pymoo/algorithms/soo/univariate/quadr_interp.py
@@ -35,7 +35,7 @@ class QuadraticInterpolationSearch(BracketSearch):
         a, b = self.a, self.b
 
         # set c to be directly in the middle between the two brackets
-        c = Individual(X=(b.X - a.X) / 2)
+        c = Individual(X=(a.X + b.X) / 2)
 
         # create a population with all three individuals
         pop = Population.create(a, b, c)
@@ -55,7 +55,7 @@ class QuadraticInterpolationSearch(BracketSearch):
             else:
                 b = c
 
-            c = Individual(X=(b.X - a.X) / 2)
+            c = Individual(X=(a.X + b.X) / 2)
             self.evaluator.eval(self.problem, c, algorithm=self)
             self.infills = c
 
-- 
2.43.0


From e5d00b4d4543ce477fd1429f086a20c336cd6c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 16/72] fix: AGE-MOEA2 does not divide by zero when a solution
 coincides with the ideal point

---
 pymoo/algorithms/moo/age2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/algorithms/moo/age2.py b/pymoo/algorithms/moo/age2.py
index 373c6d9..e15c83f 100644
--- a/pymoo/algorithms/moo/age2.py
+++ b/pymoo/algorithms/moo/age2.py
@@ -73,6 +73,9 @@ class AGEMOEA2(GeneticAlgorithm):
 @jit(nopython=True, fastmath=True)
 def project_on_manifold(point, p):
     dist = np.sum(point[point > 0] ** p) ** (1 / p)
+    # a point without any positive component (e.g. the ideal point itself) has no direction to be projected along
+    if dist == 0:
+        return point.copy()
     return np.multiply(point, 1 / dist)
 
 
-- 
2.43.0


From 20ad46f741ad89b6a92c9400e55c9ea0277fd053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 17/72] fix: nearest-neighbor crowding survives fronts with few
 unique points

---
 .../survival/rank_and_crowding/metrics.py          | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pymoo/operators/survival/rank_and_crowding/metrics.py b/pymoo/operators/survival/rank_and_crowding/metrics.py
index a43de7f..4d11762 100644
--- a/pymoo/operators/survival/rank_and_crowding/metrics.py
+++ b/pymoo/operators/survival/rank_and_crowding/metrics.py
@@ -62,13 +62,16 @@ class FunctionalDiversity(CrowdingDiversity):
             # index the unique points of the array
             _F = F[is_unique]
 
-            _d = self.function(_F, **kwargs)
+            _d = self._calc(_F, **kwargs)
 
             d = np.zeros(n_points)
             d[is_unique] = _d
 
         return d
 
+    def _calc(self, F, **kwargs):
+        return self.function(F, **kwargs)
+
 
 class FuncionalDiversityMNN(FunctionalDiversity):
     def _do(self, F, **kwargs):
@@ -81,6 +84,15 @@ class FuncionalDiversityMNN(FunctionalDiversity):
         else:
             return super()._do(F, **kwargs)
 
+    def _calc(self, F, **kwargs):
+        # without duplicates there can be fewer points left than neighbors to be considered
+        n_points, n_obj = F.shape
+
+        if n_points <= max(2, n_obj):
+            return np.full(n_points, np.inf)
+
+        return super()._calc(F, **kwargs)
+
 
 def calc_crowding_distance(F, **kwargs):
     n_points, n_obj = F.shape
-- 
2.43.0


From 9f41859f3a89c0b1ec4a2032b3b0662dfb0b2004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 18/72] fix: CMA-ES samples with the run's random state instead
 of NumPy's global one

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 5460da9..891a7bf 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -164,8 +164,9 @@ class CMAES(LocalSearch):
             self.norm = NoNormalization()
             self.options["bounds"] = [xl, xu]
 
-        seed = kwargs.get("seed", self.seed)
-        self.options["seed"] = seed
+        # sample with the random state of this run and leave NumPy's global one alone
+        self.options["randn"] = StandardNormal(self.random_state)
+        self.options["seed"] = np.nan
 
         if isinstance(self.termination, MaximumGenerationTermination):
             self.options["maxiter"] = self.termination.n_max_gen
@@ -270,7 +271,8 @@ class SimpleCMAES(LocalSearch):
         else:
             self.norm = NoNormalization()
             self.opts["bounds"] = [xl, xu]
-        self.opts["seed"] = self.seed
+        self.opts["randn"] = StandardNormal(self.random_state)
+        self.opts["seed"] = np.nan
 
     def _initialize_advance(self, infills=None, **kwargs):
         super()._initialize_advance(infills, **kwargs)
@@ -296,6 +298,16 @@ class SimpleCMAES(LocalSearch):
         self.opt = filter_optimum(pop, least_infeasible=True)
 
 
+class StandardNormal:
+    """The `randn` function used by CMA-ES drawing from a random state."""
+
+    def __init__(self, random_state):
+        self.random_state = random_state
+
+    def __call__(self, *size):
+        return self.random_state.standard_normal(size)
+
+
 class BIPOPCMAES(CMAES):
     def __init__(self, restarts=4, **kwargs):
         super().__init__(restarts=restarts, bipop=True, **kwargs)
-- 
2.43.0


From 95c94f414347eaaca34b27348932a9f4e6a09d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 19/72] fix: archives keep their settings when pickled

---
 pymoo/util/archive.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index 9d92a1e..9315a0a 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -68,6 +68,16 @@ class Archive(Population):
         self.truncation = truncation
         self.duplicate_elimination = duplicate_elimination
 
+    def __reduce__(self):
+        # a NumPy array does not pickle the attributes of a sub-class by itself
+        func, args, state = super().__reduce__()
+        return func, args, (state, self.__dict__.copy())
+
+    def __setstate__(self, state):
+        array, attributes = state
+        super().__setstate__(array)
+        self.__dict__.update(attributes)
+
     def add(self, sols, random_state=None):
 
         if len(self) > 0:
-- 
2.43.0


From c8468e196f6da0b62eaeb8634780f90a7a9b4c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 20/72] fix: functions with a default random state can be
 pickled by reference

---
 pymoo/util/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/util/__init__.py b/pymoo/util/__init__.py
index 91f6efa..033b64d 100644
--- a/pymoo/util/__init__.py
+++ b/pymoo/util/__init__.py
@@ -1,5 +1,6 @@
 """Utility functions and decorators for pymoo."""
 
+import functools
 from typing import Any, Callable, Optional, TypeVar
 
 import numpy as np
@@ -26,6 +27,8 @@ def default_random_state(func_or_seed: Optional[Any] = None, *, seed: Optional[i
     """
 
     def decorator(func: F, default_seed: Optional[int] = None) -> Callable[..., Any]:
+        # keep the name of the function, otherwise objects referring to it can not be pickled
+        @functools.wraps(func)
         def wrapper(*args: Any, random_state: Any = None, **kwargs: Any) -> Any:
             if random_state is None:
                 seed_to_use = kwargs.pop("seed", default_seed)
-- 
2.43.0


From 8b0286df4c59a84bb0476e13b3a717ae3eb42353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 21/72] fix: a CMA-ES copy refuses to continue instead of
 terminating silently

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 891a7bf..2597700 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -212,6 +212,9 @@ class CMAES(LocalSearch):
         if infills is None:
             self.termination.force_termination = True
 
+        elif self.es is None:
+            raise Exception("CMA-ES can not be continued from a copy or checkpoint, because its internal state is not stored.")
+
         else:
             # set infeasible individual's objective values to np.nan - then CMAES can handle it
             for ind in infills:
@@ -241,7 +244,7 @@ class CMAES(LocalSearch):
 
     def __setstate__(self, state):
         self.__dict__.update(state)
-        self.ers = None
+        self.es = None
 
 
 class SimpleCMAES(LocalSearch):
-- 
2.43.0


From ea47023f8ece7ef6d0eca86671a6f085588ac694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 22/72] fix: PINSGA2 fits value functions with SLSQP

---
 pymoo/util/value_functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index f34c003..0af75cc 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -648,10 +648,13 @@ def _validate_vf(res, verbose):
             message = message + "Epsilon negative\n"
 
     elif isinstance(res, OptimizeResult):
-        success = res.success and res.constr_violation <= 0
+        # SLSQP does not report the constraint violation, but is only successful if the constraints are met
+        constr_violation = res.get("constr_violation", 0.0 if res.success else np.inf)
+
+        success = res.success and constr_violation <= 0
         epsilon = res.x[-1]
 
-        if not (res.constr_violation <= 0):
+        if not (constr_violation <= 0):
             message = "Constraints not met."
         else:
             message = res.message
-- 
2.43.0


From 0d5821cf871ef02a3aa91b8bf2898d85f11a8cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 23/72] fix: PINSGA2 discards a value function fit without
 feasible solution

---
 pymoo/util/value_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index 0af75cc..da7149d 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -639,6 +639,10 @@ def _validate_vf(res, verbose):
 
     message = ""
 
+    # if no feasible solution has been found at all there is no value function
+    if isinstance(res, pymoo.core.result.Result) and res.X is None:
+        return False
+
     if isinstance(res, pymoo.core.result.Result):
         success = np.all(res.G <= 0)
         epsilon = res.X[-1]
-- 
2.43.0


From b140e6369ae6b6b13dc83fa507ffcf9a91aa3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 24/72] fix: MOPSO-CD does not evaluate a throwaway population
 during setup

---
 pymoo/algorithms/moo/mopso_cd.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 812f1bd..93df891 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -80,15 +80,6 @@ class MOPSO_CD(Algorithm):
         xl, xu = problem.bounds()
         self.v_max = self.max_velocity_rate * (xu - xl)
 
-        # Initialize particles, velocities, and personal bests
-        self.pop = self.sampling.do(problem, self.pop_size, random_state=self.random_state)
-        self.velocities = self.random_state.uniform(-self.v_max, self.v_max, (self.pop_size, problem.n_var))
-        self.pbest = self.pop.copy()  # Personal bests
-        self.pbest_f = np.full((self.pop_size, problem.n_obj), np.inf)  # Initialize with inf
-
-        # Evaluate initial population to set personal best objectives
-        self.evaluator.eval(self.problem, self.pop)
-
     def _initialize_infill(self):
         """Initialize the population and velocities."""
         # Initialize population using sampling
-- 
2.43.0


From c46a5b7478f867503881143c6b23882cf1f9b8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 25/72] fix: adaptive constraint handling reports the
 evaluations it makes

---
 pymoo/constraints/adaptive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymoo/constraints/adaptive.py b/pymoo/constraints/adaptive.py
index fff6017..bc610ff 100644
--- a/pymoo/constraints/adaptive.py
+++ b/pymoo/constraints/adaptive.py
@@ -43,6 +43,7 @@ class AttachConfigEvaluator(Evaluator):
             count_evals=count_evals,
             **kwargs,
         )
+        self.n_eval = self.wrapped.n_eval
         pop.apply(lambda ind: ind.set("config", self.config))
         return pop
 
-- 
2.43.0


From 711cd5aef1d7b247bc7bdcccbf06bc6ff3f85782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 26/72] fix: CMA-ES keeps the sequence a seed stands for

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 2597700..c784e73 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -164,8 +164,8 @@ class CMAES(LocalSearch):
             self.norm = NoNormalization()
             self.options["bounds"] = [xl, xu]
 
-        # sample with the random state of this run and leave NumPy's global one alone
-        self.options["randn"] = StandardNormal(self.random_state)
+        # sample from a stream of this run and leave NumPy's global one alone
+        self.options["randn"] = StandardNormal(kwargs.get("seed", self.seed), self.random_state)
         self.options["seed"] = np.nan
 
         if isinstance(self.termination, MaximumGenerationTermination):
@@ -274,7 +274,7 @@ class SimpleCMAES(LocalSearch):
         else:
             self.norm = NoNormalization()
             self.opts["bounds"] = [xl, xu]
-        self.opts["randn"] = StandardNormal(self.random_state)
+        self.opts["randn"] = StandardNormal(self.seed, self.random_state)
         self.opts["seed"] = np.nan
 
     def _initialize_advance(self, infills=None, **kwargs):
@@ -302,13 +302,19 @@ class SimpleCMAES(LocalSearch):
 
 
 class StandardNormal:
-    """The `randn` function used by CMA-ES drawing from a random state."""
+    """The `randn` function used by CMA-ES, drawing from a stream of its own.
 
-    def __init__(self, random_state):
-        self.random_state = random_state
+    For a given seed it yields the numbers ``np.random.randn`` does after ``np.random.seed(seed)``,
+    without touching NumPy's global state.
+    """
+
+    def __init__(self, seed, random_state):
+        if seed is None:
+            seed = random_state.integers(0, 2**31)
+        self.random = np.random.RandomState(seed)
 
     def __call__(self, *size):
-        return self.random_state.standard_normal(size)
+        return self.random.randn(*size)
 
 
 class BIPOPCMAES(CMAES):
-- 
2.43.0


From 5969540f00224034692761510d8181eafd8f3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 27/72] fix: MOPSO-CD draws the same numbers as before

---
 pymoo/algorithms/moo/mopso_cd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 93df891..bc327af 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -80,6 +80,12 @@ class MOPSO_CD(Algorithm):
         xl, xu = problem.bounds()
         self.v_max = self.max_velocity_rate * (xu - xl)
 
+        # Initialize particles, velocities, and personal bests
+        self.pop = self.sampling.do(problem, self.pop_size, random_state=self.random_state)
+        self.velocities = self.random_state.uniform(-self.v_max, self.v_max, (self.pop_size, problem.n_var))
+        self.pbest = self.pop.copy()  # Personal bests
+        self.pbest_f = np.full((self.pop_size, problem.n_obj), np.inf)  # Initialize with inf
+
     def _initialize_infill(self):
         """Initialize the population and velocities."""
         # Initialize population using sampling
-- 
2.43.0


From 2cf298f9fc7d7c504c56004c8976f813157aa140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 28/72] fix: crowding by pruning stays within its arrays

---
 pymoo/functions/compiled/pruning_cd.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pymoo/functions/compiled/pruning_cd.pyx b/pymoo/functions/compiled/pruning_cd.pyx
index fb7c1b7..3c37e12 100644
--- a/pymoo/functions/compiled/pruning_cd.pyx
+++ b/pymoo/functions/compiled/pruning_cd.pyx
@@ -108,7 +108,7 @@ cdef c_calc_pcd(double[:, :] X, int[:, :] I, int n_remove, int N, int M, cpp_set
         n_removed = n_removed + 1
 
         # Get items to be recalculated
-        calc_items = c_get_calc_items(I, k, M, N)
+        calc_items = c_get_calc_items(I, k, M, N - n_removed + 1)
         for n in extremes:
             calc_items.erase(n)
 
@@ -117,7 +117,7 @@ cdef c_calc_pcd(double[:, :] X, int[:, :] I, int n_remove, int N, int M, cpp_set
                 X,
                 I,
                 D,
-                N, M,
+                N - n_removed, M,
                 calc_items,
             )
 
@@ -149,6 +149,11 @@ cdef c_calc_pcd_iter(
 
                 if i == I[n, m]:
 
+                    # The first and the last element have no neighbor on one side
+                    if n == 0 or n == N - 1:
+                        D[i, m] = HUGE_VAL
+                        continue
+
                     l = I[n - 1, m]
                     u = I[n + 1, m]
 
@@ -188,10 +193,13 @@ cdef cpp_set[int] c_get_calc_items(
             if I[n, m] == k:
 
                 # Add to set of items to be recalculated
-                calc_items.insert(I[n - 1, m])
-                calc_items.insert(I[n + 1, m])
+                if n > 0:
+                    calc_items.insert(I[n - 1, m])
+                if n < N - 1:
+                    calc_items.insert(I[n + 1, m])
 
                 # Remove element from sorted array
                 I[n:-1, m] = I[n + 1:, m]
+                break
 
     return calc_items
-- 
2.43.0


From 340d266b6cf2b9c54788e29275dc8b83ce3adb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 29/72] fix: nearest-neighbor crowding does not look up a
 missing neighbor

---
 pymoo/functions/compiled/mnn.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/functions/compiled/mnn.pyx b/pymoo/functions/compiled/mnn.pyx
index 1f754cd..a727939 100644
--- a/pymoo/functions/compiled/mnn.pyx
+++ b/pymoo/functions/compiled/mnn.pyx
@@ -207,7 +207,7 @@ cdef c_calc_mnn_iter(
                 continue
 
             # Replace at least the last neighbor
-            elif (D[i, j] <= D[i, Mnn[i, M-1]]) or (Mnn[i, M-1] == -1):
+            elif (Mnn[i, M-1] == -1) or (D[i, j] <= D[i, Mnn[i, M-1]]):
 
                 # Iterate over current values
                 for m in range(M):
-- 
2.43.0


From df10206ba03fdcfbe9774d584921771c1d9af320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 30/72] fix: joblib and ray runners can be copied and pickled

---
 pymoo/parallelization/joblib.py | 11 ++++++++++-
 pymoo/parallelization/ray.py    | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pymoo/parallelization/joblib.py b/pymoo/parallelization/joblib.py
index ef47624..97cd6f5 100644
--- a/pymoo/parallelization/joblib.py
+++ b/pymoo/parallelization/joblib.py
@@ -24,4 +24,13 @@ class JoblibParallelization:
             return parallel(self.joblib.delayed(f)(x) for x in X)
 
     def __getstate__(self):
-        return self.__dict__.copy()
+        # modules can neither be copied nor pickled
+        state = self.__dict__.copy()
+        state.pop("joblib", None)
+        return state
+
+    def __setstate__(self, state):
+        import joblib
+
+        self.__dict__.update(state)
+        self.joblib = joblib
diff --git a/pymoo/parallelization/ray.py b/pymoo/parallelization/ray.py
index 943dad3..1506347 100644
--- a/pymoo/parallelization/ray.py
+++ b/pymoo/parallelization/ray.py
@@ -26,4 +26,13 @@ class RayParallelization:
         return self.ray.get(futures)
 
     def __getstate__(self):
-        return self.__dict__.copy()
+        # modules can neither be copied nor pickled
+        state = self.__dict__.copy()
+        state.pop("ray", None)
+        return state
+
+    def __setstate__(self, state):
+        import ray
+
+        self.__dict__.update(state)
+        self.ray = ray
-- 
2.43.0


From 6bbb0457bac6bf3ed5836a86eeb5697fb3c25b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 31/72] fix: an individual forgets its constraint violation
 when its constraint values change

---
 pymoo/core/individual.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymoo/core/individual.py b/pymoo/core/individual.py
index d35cf3d..da2576c 100644
--- a/pymoo/core/individual.py
+++ b/pymoo/core/individual.py
@@ -207,6 +207,9 @@ class Individual:
         """
         self._G = value
 
+        # a constraint violation calculated from other values does not hold anymore
+        self._CV = None
+
     @property
     def H(self) -> np.ndarray:
         """Get the equality constraint vector for an individual.
@@ -225,6 +228,9 @@ class Individual:
         """
         self._H = value
 
+        # a constraint violation calculated from other values does not hold anymore
+        self._CV = None
+
     @property
     def CV(self) -> np.ndarray:
         """Get the constraint violation vector from cache or calculate it.
-- 
2.43.0


From fc6f26b748fdd757e5a217ad190bebb3149e5269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 32/72] fix: C-TAEA terminates when the initial population is
 smaller than the reference directions

---
 pymoo/algorithms/moo/ctaea.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index 9eb6b73..ce27ef1 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -207,10 +207,13 @@ class CADASurvival:
         niche_Hd, FV = self._associate(Hd)
         niche_CA, _ = self._associate(pop)
 
+        # the population can be smaller than the set of reference directions if it was provided
+        n_survive = min(n_survive, len(Hd))
+
         itr = 1
         S = []
         while len(S) < n_survive:
-            for i in range(n_survive):
+            for i in range(len(self.ref_dirs)):
                 (current_ca,) = np.where(niche_CA == i)
                 if len(current_ca) < itr:
                     for _ in range(itr - len(current_ca)):
-- 
2.43.0


From 81f67d2faf49890a945810e13687a181fd650982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 33/72] fix: a wall clock set back does not crash a
 time-limited run

---
 pymoo/termination/max_time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/termination/max_time.py b/pymoo/termination/max_time.py
index 7f9fd76..14e7b8a 100644
--- a/pymoo/termination/max_time.py
+++ b/pymoo/termination/max_time.py
@@ -17,5 +17,6 @@ class TimeBasedTermination(Termination):
             raise Exception("Either provide the time as a string or an integer.")
 
     def _update(self, algorithm):
-        elapsed = time.time() - algorithm.start_time
+        # the wall clock can be set back while the algorithm is running
+        elapsed = max(0.0, time.time() - algorithm.start_time)
         return elapsed / self.max_time
-- 
2.43.0


From ee57fc28fffe741a8b01c8e94d466f94a738e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 34/72] fix: a function value target that is zero or negative
 terminates exactly when it is reached

---
 pymoo/termination/fmin.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pymoo/termination/fmin.py b/pymoo/termination/fmin.py
index 4b1043e..a12b257 100644
--- a/pymoo/termination/fmin.py
+++ b/pymoo/termination/fmin.py
@@ -14,4 +14,14 @@ class MinimumFunctionValueTermination(Termination):
         if not any(opt.get("feas")):
             return 0.0
         else:
-            return self.fmin / opt.get("F").min()
+            f = opt.get("F").min()
+
+            # the target has been reached
+            if f <= self.fmin:
+                return 1.0
+
+            # the ratio is a measure of progress only if both are positive (it then is less than one)
+            if self.fmin > 0:
+                return self.fmin / f
+            else:
+                return 0.0
-- 
2.43.0


From 4c503acf2f11f7c65007518ed70237964cedebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 35/72] fix: terminating when feasible neither crashes when the
 violation grows nor stops before it is zero

---
 pymoo/termination/cv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/termination/cv.py b/pymoo/termination/cv.py
index 383066e..dadcfcd 100644
--- a/pymoo/termination/cv.py
+++ b/pymoo/termination/cv.py
@@ -45,4 +45,8 @@ class UntilFeasibleTermination(Termination):
             else:
                 self.initial_cv = cv
 
-        return 1 - cv / self.initial_cv
+        if cv <= 0:
+            return 1.0
+
+        # not feasible yet (the violation of the optimum can be larger than in the beginning)
+        return max(0.0, min(1 - cv / self.initial_cv, 1 - 1e-16))
-- 
2.43.0


From 5edbd7ffda23b5bd6840c83a352ab8cc84ae904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 36/72] fix: an indicator threshold reached in the first
 iteration terminates the run

---
 pymoo/termination/indicator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/termination/indicator.py b/pymoo/termination/indicator.py
index 8a7f562..a1a53a0 100644
--- a/pymoo/termination/indicator.py
+++ b/pymoo/termination/indicator.py
@@ -39,6 +39,10 @@ class IndicatorTermination(Termination):
         self._max = max(self._max, v)
         _min, _max = self._min, self._max
 
+        # the threshold has been reached (possibly in the very first iteration)
+        if (v <= threshold) if self.goal == "minimize" else (v >= threshold):
+            return 1.0
+
         # depending on the goal either set the percentage
         if self.goal == "minimize":
             perc = 1 - (v - threshold) / (_max - threshold)
-- 
2.43.0


From d6302c56e4c5436b1dbe58e4fc9722f618134b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 37/72] fix: normalizing integers does not truncate the
 normalized values

---
 pymoo/util/normalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index 78ed451..d767719 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -72,8 +72,8 @@ class ZeroToOneNormalization(Normalization):
         if X is None or (self.xl is None and self.xu is None):
             return X
 
-        # simple copy the input
-        N = np.copy(X)
+        # simple copy the input (integers can not hold normalized values)
+        N = X.astype(float) if np.asarray(X).dtype.kind in "iub" else np.copy(X)
 
         # normalize between zero and one if neither of them is nan
         N[..., self.neither_nan] = (X[..., self.neither_nan] - self.xl[self.neither_nan]) / (
-- 
2.43.0


From ba6b239313521028c58393f4bff5d0d563b19ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 38/72] fix: the result returned by the last tell contains the
 archive of the last iteration

---
 pymoo/core/algorithm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 73b13c6..a4b0396 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -231,6 +231,10 @@ class Algorithm:
             if val is None or val:
                 self._post_advance()
 
+        # add the infill solutions to an archive
+        if self.archive is not None and infills is not None:
+            self.archive = self.archive.add(infills, random_state=self.random_state)
+
         # if the algorithm has terminated, then do the finalization steps and return the result
         if self.termination.has_terminated():  # type: ignore
             self.finalize()
@@ -240,10 +244,6 @@ class Algorithm:
         else:
             ret = self.opt  # type: ignore
 
-        # add the infill solutions to an archive
-        if self.archive is not None and infills is not None:
-            self.archive = self.archive.add(infills, random_state=self.random_state)
-
         return ret
 
     def result(self) -> Result:
-- 
2.43.0


From f6b6c91933f391cbf0f24e9ef52cd5c248020c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 39/72] fix: callbacks in a collection are initialized and
 notified

---
 pymoo/core/callback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/callback.py b/pymoo/core/callback.py
index 3676ba3..cbd3a83 100644
--- a/pymoo/core/callback.py
+++ b/pymoo/core/callback.py
@@ -41,4 +41,4 @@ class CallbackCollection(Callback):
         self.callbacks: tuple[Callback, ...] = args
 
     def update(self, algorithm: "Algorithm") -> None:
-        [callback.update(algorithm) for callback in self.callbacks]
+        [callback(algorithm) for callback in self.callbacks]
-- 
2.43.0


From 12fd2996b477fd5fe91dac88392877bf7c37a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 40/72] fix: a run goes on after an error in a callback, in the
 display or in recording the history

---
 pymoo/core/algorithm.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index a4b0396..07e8b5b 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -221,19 +221,21 @@ class Algorithm:
             self.is_initialized = True
 
             # always advance to the next iteration after initialization
-            self._post_advance()
+            val = True
 
         else:
             # call the implementation of the advance method - if the infill is not None
             val = self._advance(infills=infills, **kwargs)
 
+        try:
             # always advance to the next iteration - except if the algorithm returns False
             if val is None or val:
                 self._post_advance()
 
-        # add the infill solutions to an archive
-        if self.archive is not None and infills is not None:
-            self.archive = self.archive.add(infills, random_state=self.random_state)
+        finally:
+            # add the infill solutions to an archive
+            if self.archive is not None and infills is not None:
+                self.archive = self.archive.add(infills, random_state=self.random_state)
 
         # if the algorithm has terminated, then do the finalization steps and return the result
         if self.termination.has_terminated():  # type: ignore
@@ -316,22 +318,27 @@ class Algorithm:
         # update the current termination condition of the algorithm
         self.termination.update(self)  # type: ignore
 
-        # display the output if defined by the algorithm
-        self.display(self)
+        # the iteration is over, even if reporting it fails
+        try:
+            # display the output if defined by the algorithm
+            self.display(self)
 
-        if self.save_history:
-            _hist, _callback, _display = self.history, self.callback, self.display
+            if self.save_history:
+                _hist, _callback, _display = self.history, self.callback, self.display
 
-            self.history, self.callback, self.display = None, None, None  # type: ignore
-            obj = copy.deepcopy(self)
+                self.history, self.callback, self.display = None, None, None  # type: ignore
+                try:
+                    obj = copy.deepcopy(self)
+                finally:
+                    self.history, self.callback, self.display = _hist, _callback, _display
 
-            self.history, self.callback, self.display = _hist, _callback, _display
-            self.history.append(obj)
+                self.history.append(obj)
 
-        # if a callback function is provided it is called after each iteration
-        self.callback(self)
+            # if a callback function is provided it is called after each iteration
+            self.callback(self)
 
-        self.n_iter += 1  # type: ignore
+        finally:
+            self.n_iter += 1  # type: ignore
 
     # =========================================================================================================
     # TO BE OVERWRITTEN
-- 
2.43.0


From f741b125745d662e1c806500341c24e01cd1f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 41/72] fix: a multi-objective archive can be created without a
 limit

---
 pymoo/util/archive.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index 9315a0a..26371e6 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -36,6 +36,13 @@ class SurvivalTruncation(Truncation):
         return self.survival.do(self.problem, sols, n_survive=k, random_state=random_state)
 
 
+def truncate_to(max_size, truncate_size):
+    # an archive without a limit is never truncated
+    if max_size is None or truncate_size is None:
+        return max_size
+    return min(max_size, truncate_size)
+
+
 class Archive(Population):
     def __new__(
         cls,
@@ -48,7 +55,7 @@ class Archive(Population):
 
         obj = super().__new__(cls, individuals)
         obj.max_size = max_size
-        obj.truncate_size = min(max_size, truncate_size) if truncate_size is not None else max_size
+        obj.truncate_size = truncate_to(max_size, truncate_size)
         obj.truncation = truncation
         obj.duplicate_elimination = duplicate_elimination
 
@@ -64,7 +71,7 @@ class Archive(Population):
         duplicate_elimination = getattr(obj, "duplicate_elimination", DefaultDuplicateElimination(epsilon=1e-32))
 
         self.max_size = max_size
-        self.truncate_size = min(max_size, truncate_size) if truncate_size is not None else max_size
+        self.truncate_size = truncate_to(max_size, truncate_size)
         self.truncation = truncation
         self.duplicate_elimination = duplicate_elimination
 
-- 
2.43.0


From a3a58f28aadb8de5e8dd55556dc6e4773d156c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:42 +0000
Subject: [PATCH 42/72] fix: designs with mixed variables can be kept in an
 archive

---
 pymoo/core/duplicate.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pymoo/core/duplicate.py b/pymoo/core/duplicate.py
index ff76312..974dccd 100644
--- a/pymoo/core/duplicate.py
+++ b/pymoo/core/duplicate.py
@@ -71,6 +71,17 @@ class DefaultDuplicateElimination(DuplicateElimination):
         return D
 
     def _do(self, pop, other, is_duplicate):
+        X = self.func(pop)
+
+        # there is no distance between designs with variables of different types - they are equal or not
+        if len(X) > 0 and isinstance(X[0], dict):
+            found = list(self.func(other)) if other is not None else []
+            for i, x in enumerate(X):
+                is_duplicate[i] = x in found
+                if other is None:
+                    found.append(x)
+            return is_duplicate
+
         D = self.calc_dist(pop, other)
         D[np.isnan(D)] = np.inf
 
-- 
2.43.0


From 839d13d8920c5f81d204ceb0070073ff05472ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 43/72] fix: a choice is one of its options, not a copy
 converted to another type

---
 pymoo/core/variable.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/variable.py b/pymoo/core/variable.py
index bdc4abe..dfd0693 100644
--- a/pymoo/core/variable.py
+++ b/pymoo/core/variable.py
@@ -244,7 +244,15 @@ class Choice(Variable):
         Returns:
             Array of shape (n,) containing sampled choices.
         """
-        return random_state.choice(self.options, size=n)
+        # do not let NumPy convert options of different types to a common one
+        if len({type(option) for option in self.options}) > 1:
+            options = np.empty(len(self.options), dtype=object)
+            for k, option in enumerate(self.options):
+                options[k] = option
+        else:
+            options = np.array(self.options)
+
+        return options[random_state.choice(len(options), size=n)]
 
 
 def get(
-- 
2.43.0


From 3992d2c014c85f9e386fb9ce951a2ec5aaacdc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 44/72] fix: golden section and quadratic interpolation search
 hand the designs they evaluate over to the run

---
 pymoo/algorithms/soo/univariate/golden.py     | 38 +++++++++----------
 .../algorithms/soo/univariate/quadr_interp.py | 27 ++++++++-----
 2 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/golden.py b/pymoo/algorithms/soo/univariate/golden.py
index 69222ed..f970987 100644
--- a/pymoo/algorithms/soo/univariate/golden.py
+++ b/pymoo/algorithms/soo/univariate/golden.py
@@ -24,11 +24,9 @@ class GoldenSectionSearch(BracketSearch):
         # create a population with all four individuals
         pop = Population.create(a, c, d, b)
 
-        self.pop, self.infills = pop, pop
-
         return pop
 
-    def _advance(self, **kwargs):
+    def _infill(self):
 
         # all the elements in the interval
         a, c, d, b = self.pop
@@ -36,27 +34,27 @@ class GoldenSectionSearch(BracketSearch):
         # the golden ratio (precomputed constant)
         R = self.R
 
-        # if the left solution is better than the right
+        # if the left solution is better than the right - the next individual is left of it
         if c.F[0] < d.F[0]:
-            # make the right to be the new right bound and the left becomes the right
-            a, b = a, d
-            d = c
+            return Population.create(Individual(X=d.X - R * (d.X - a.X)))
+
+        # if the right solution is better than the left - the next individual is right of it
+        else:
+            return Population.create(Individual(X=c.X + R * (b.X - c.X)))
+
+    def _advance(self, infills=None, **kwargs):
 
-            # create a new left individual and evaluate
-            c = Individual(X=b.X - R * (b.X - a.X))
-            self.evaluator.eval(self.problem, c, algorithm=self)
-            self.infills = c
+        # all the elements in the interval and the new individual
+        a, c, d, b = self.pop
+        new = infills[0]
+
+        # make the right to be the new right bound and the left becomes the right
+        if c.F[0] < d.F[0]:
+            a, c, d, b = a, new, c, d
 
-        # if the right solution is better than the left
+        # make the left to be the new left bound and the right becomes the left
         else:
-            # make the left to be the new left bound and the right becomes the left
-            a, b = c, b
-            c = d
-
-            # create a new right individual and evaluate
-            d = Individual(X=a.X + R * (b.X - a.X))
-            self.evaluator.eval(self.problem, d, algorithm=self)
-            self.infills = d
+            a, c, d, b = c, d, new, b
 
         # update the population with all the four individuals
         self.pop = Population.create(a, c, d, b)
diff --git a/pymoo/algorithms/soo/univariate/quadr_interp.py b/pymoo/algorithms/soo/univariate/quadr_interp.py
index 3a5e312..ab0148c 100644
--- a/pymoo/algorithms/soo/univariate/quadr_interp.py
+++ b/pymoo/algorithms/soo/univariate/quadr_interp.py
@@ -42,7 +42,7 @@ class QuadraticInterpolationSearch(BracketSearch):
 
         return pop
 
-    def _advance(self, **kwargs):
+    def _bracket(self):
 
         # all the elements in the interval
         a, b, c = self.pop
@@ -51,19 +51,28 @@ class QuadraticInterpolationSearch(BracketSearch):
         if c.F[0] >= a.F[0] or c.F[0] >= b.F[0]:
             # choose the left side if a smaller than b, or the right side otherwise
             if a.F[0] <= b.F[0]:
-                a = c
+                return c, b, None
             else:
-                b = c
+                return a, c, None
 
-            c = Individual(X=(a.X + b.X) / 2)
-            self.evaluator.eval(self.problem, c, algorithm=self)
-            self.infills = c
+        return a, b, c
 
+    def _infill(self):
+        a, b, c = self._bracket()
+
+        if c is None:
+            return Population.create(Individual(X=(a.X + b.X) / 2))
         else:
-            d = quadr_interp(a, b, c)
-            self.evaluator.eval(self.problem, d, algorithm=self)
-            self.infills = d
+            return Population.create(quadr_interp(a, b, c))
+
+    def _advance(self, infills=None, **kwargs):
+        a, b, c = self._bracket()
+        d = infills[0]
 
+        if c is None:
+            c = d
+
+        else:
             # swap c and d -> make sure d is always on the right of c -> a, c, d, b
             if c.X[0] > d.X[0]:
                 c, d = d, c
-- 
2.43.0


From 9fc1e6be9b0dabdd28a4b70f8b1e0a0d57ed340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 45/72] fix: quadratic interpolation search stays within its
 bracket

---
 pymoo/algorithms/soo/univariate/quadr_interp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/quadr_interp.py b/pymoo/algorithms/soo/univariate/quadr_interp.py
index ab0148c..2455f3a 100644
--- a/pymoo/algorithms/soo/univariate/quadr_interp.py
+++ b/pymoo/algorithms/soo/univariate/quadr_interp.py
@@ -7,8 +7,8 @@ from pymoo.core.population import Population
 
 def quadr_interp_equ(xa, fa, xb, fb, xc, fc):
     g1 = (fc - fa) / (xc - xa)
-    g2 = ((fb - fc) / (xb - xc) - g1) * (xb - xa)
-    xd = 0.5 * ((xa - xb) - g1 / g2)
+    g2 = ((fb - fc) / (xb - xc) - g1) / (xb - xa)
+    xd = 0.5 * ((xa + xc) - g1 / g2)
     return xd
 
 
@@ -51,9 +51,9 @@ class QuadraticInterpolationSearch(BracketSearch):
         if c.F[0] >= a.F[0] or c.F[0] >= b.F[0]:
             # choose the left side if a smaller than b, or the right side otherwise
             if a.F[0] <= b.F[0]:
-                return c, b, None
-            else:
                 return a, c, None
+            else:
+                return c, b, None
 
         return a, b, c
 
-- 
2.43.0


From 88d7ecf022abcaef72001e1449de38b509edb81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 46/72] fix: adding no solutions to an empty archive does not
 crash

---
 pymoo/util/archive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index 26371e6..fcc3c55 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -87,8 +87,9 @@ class Archive(Population):
 
     def add(self, sols, random_state=None):
 
-        if len(self) > 0:
-            sols = merge(self, sols)
+        sols = merge(self, sols)
+        if len(sols) == 0:
+            return self
 
         opt = self._find_opt(sols)
 
-- 
2.43.0


From beaa5b93b476aecc5ec0d768457e5c3a1853b57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 47/72] fix: C-TAEA does not report infeasible designs as
 optimal when feasible ones were found

---
 pymoo/algorithms/moo/ctaea.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index ce27ef1..d77fc9c 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -19,6 +19,7 @@ from pymoo.util.display.multi import MultiObjectiveOutput
 from pymoo.util.dominator import Dominator
 from pymoo.util.misc import has_feasible, random_permutations
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
+from pymoo.util.optimum import filter_optimum
 
 
 # =========================================================================================================
@@ -153,7 +154,7 @@ class CADASurvival:
             F = S.get("F")
             fronts, rank = NonDominatedSorting().do(F, return_rank=True)
             S.set("rank", rank)
-            self.opt = S[fronts[0]]
+            self.opt = filter_optimum(S, least_infeasible=True)
             return S
         else:  # Too many feasible individuals
             F = Sc.get("F")
-- 
2.43.0


From 727c8ac8dc965152e69446524f27d43cf82ab909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:34 +0000
Subject: [PATCH 48/72] fix: NicheGA does not report infeasible niches as
 optimal when feasible ones were found

---
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 2979bed..eb53330 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -17,7 +17,7 @@ from pymoo.termination.xtol import DesignSpaceTermination
 from pymoo.util.clearing import EpsilonClearing
 from pymoo.util.display.column import Column
 from pymoo.util.display.single import SingleObjectiveOutput
-from pymoo.util.misc import norm_eucl_dist
+from pymoo.util.misc import has_feasible, norm_eucl_dist
 
 
 # =========================================================================================================
@@ -231,6 +231,10 @@ class NicheGA(GA):
     def _set_optimum(self, **kwargs):
         if self.return_all_opt:
             self.opt = self.pop[self.pop.get("iter") == 1]
+
+            # a niche without a feasible solution is not optimal if there are feasible ones
+            if has_feasible(self.opt):
+                self.opt = self.opt[self.opt.get("feas")]
         else:
             super()._set_optimum()
 
-- 
2.43.0


From 77bfabf69fdff88b6dc68848bede52db50a6c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 49/72] fix: RVEA does not report infeasible designs as optimal
 when feasible ones were found

---
 pymoo/algorithms/moo/rvea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index e3186bd..20a357d 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -100,7 +100,7 @@ class RVEA(GeneticAlgorithm):
         if not has_feasible(self.pop):
             self.opt = self.pop[[np.argmin(self.pop.get("CV"))]]
         else:
-            self.opt = self.pop
+            self.opt = self.pop[self.pop.get("feas")]
 
 
 # ---------------------------------------------------------------------------------------------------------
-- 
2.43.0


From d6d0fa40443faecc027df85b01a00f3d5c9d20c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 50/72] fix: Nelder-Mead sorts the initial simplex, its best
 design is not lost

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index bbd5f96..45764d8 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -145,7 +145,8 @@ class NelderMead(LocalSearch):
 
     def _next(self):
         if not self.is_simplex_initialized:
-            self.pop = yield self._initialize_simplex()
+            simplex = yield self._initialize_simplex()
+            self.pop = FitnessSurvival().do(self.problem, simplex, n_survive=len(simplex))
             self.is_simplex_initialized = True
         else:
             yield from self._step()
-- 
2.43.0


From b82c92f3ace688e439e0ce06f19efff5cb2efd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 51/72] fix: BRKGA does not take a feasible design for a
 duplicate of an infeasible one

---
 pymoo/algorithms/soo/nonconvex/brkga.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/brkga.py b/pymoo/algorithms/soo/nonconvex/brkga.py
index 00159b3..20ddc39 100755
--- a/pymoo/algorithms/soo/nonconvex/brkga.py
+++ b/pymoo/algorithms/soo/nonconvex/brkga.py
@@ -22,6 +22,11 @@ from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 # =========================================================================================================
 
 
+def fitness_values(pop):
+    # with equal objective values a feasible solution is no duplicate of an infeasible one
+    return np.column_stack([pop.get("F"), pop.get("CV")])
+
+
 class EliteSurvival(Survival):
     def __init__(self, n_elites, eliminate_duplicates=None):
         super().__init__(False)
@@ -31,10 +36,10 @@ class EliteSurvival(Survival):
     def _do(self, problem, pop, n_survive=None, algorithm=None, **kwargs):
 
         if isinstance(self.eliminate_duplicates, bool) and self.eliminate_duplicates:
-            pop = DefaultDuplicateElimination(func=lambda p: p.get("F")).do(pop)
+            pop = DefaultDuplicateElimination(func=fitness_values).do(pop)
 
         elif isinstance(self.eliminate_duplicates, DuplicateElimination):
-            _, no_candidates, candidates = DefaultDuplicateElimination(func=lambda pop: pop.get("F")).do(
+            _, no_candidates, candidates = DefaultDuplicateElimination(func=fitness_values).do(
                 pop, return_indices=True
             )
             _, _, is_duplicate = self.eliminate_duplicates.do(
-- 
2.43.0


From 91a1efc21e2fa92f25e08d511907f49c0d64e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 52/72] fix: SPEA2 survival does not select at random if an
 objective is constant

---
 pymoo/algorithms/moo/spea2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index 4e7d4cd..03de192 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -71,7 +71,10 @@ class SPEA2Survival(Survival):
 
             ideal, nadir = self.norm.ideal_point, self.norm.nadir_point
 
-            _F = (F - ideal) / (nadir - ideal)
+            denom = nadir - ideal
+            denom[denom == 0] = 1e-12
+
+            _F = (F - ideal) / denom
             dists = vectorized_cdist(_F, _F, fill_diag_with_inf=True)
 
         # if no normalize is required simply use the F values from the population
-- 
2.43.0


From e9824dc255ffa153d3f61d8e760e5312e22572dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 53/72] fix: NoCrossover does not hand out the parents
 themselves as offspring

---
 pymoo/operators/crossover/nox.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pymoo/operators/crossover/nox.py b/pymoo/operators/crossover/nox.py
index 82146a1..eb15bec 100644
--- a/pymoo/operators/crossover/nox.py
+++ b/pymoo/operators/crossover/nox.py
@@ -1,5 +1,7 @@
 """No-crossover (pass-through) operator."""
 
+from copy import deepcopy
+
 from pymoo.core.crossover import Crossover
 from pymoo.core.population import Population
 
@@ -10,7 +12,11 @@ class NoCrossover(Crossover):
             n_offsprings = n_parents
         super().__init__(n_parents, n_offsprings, prob, **kwargs)
 
-    def do(self, problem, pop, *args, random_state, **kwargs):
+    def do(self, problem, pop, parents=None, *args, random_state, **kwargs):
+        # if a parents with array with mating indices is provided -> transform the input first
+        if parents is not None:
+            pop = [pop[mating] for mating in parents]
+
         offsprings = []
         for parents in pop:
             if self.n_offsprings < self.n_parents:
@@ -24,4 +30,6 @@ class NoCrossover(Crossover):
                 offsprings.extend(parents)
                 extra = self.n_offsprings - self.n_parents
                 offsprings.extend(random_state.choice(parents, size=extra, replace=True))
-        return Population.create(*offsprings)
+
+        # the offsprings are new individuals - changing them later on must not change the parents
+        return Population.new(X=[deepcopy(ind.X) for ind in offsprings])
-- 
2.43.0


From 90ced87ef6e857ea7346a296fca3acda7e5c7fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 54/72] fix: LHS stays in bounds when a draw is at the very end
 of its range

---
 pymoo/operators/sampling/lhs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/operators/sampling/lhs.py b/pymoo/operators/sampling/lhs.py
index 678e698..ddc10b7 100644
--- a/pymoo/operators/sampling/lhs.py
+++ b/pymoo/operators/sampling/lhs.py
@@ -75,7 +75,8 @@ def sampling_lhs(
             if _score > score:
                 X, score = _X, _score
 
-    return xl + X * (xu - xl)
+    # a sample at the very end of the unit interval may exceed the upper bound because of rounding
+    return np.minimum(xl + X * (xu - xl), xu)
 
 
 @default_random_state
-- 
2.43.0


From a299a625d7dc918cd5ed84f4a185233711430d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 55/72] fix: repairs keep variables that are fixed by their
 bounds where they are

---
 pymoo/operators/repair/bounce_back.py   | 6 ++++++
 pymoo/operators/repair/bounds_repair.py | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/pymoo/operators/repair/bounce_back.py b/pymoo/operators/repair/bounce_back.py
index 6cf33f9..5f982cb 100644
--- a/pymoo/operators/repair/bounce_back.py
+++ b/pymoo/operators/repair/bounce_back.py
@@ -25,6 +25,12 @@ def bounce_back(X, xl, xu):
 
     # otherwise bounds back into the feasible space
     _range = xu - xl
+
+    # there is nowhere to bounce to if a variable is fixed
+    fixed = _range == 0
+    X[fixed] = xl[fixed]
+    _range[fixed] = 1.0
+
     X[X < xl] = (xl + np.mod((xl - X), _range))[X < xl]
     X[X > xu] = (xu - np.mod((X - xu), _range))[X > xu]
 
diff --git a/pymoo/operators/repair/bounds_repair.py b/pymoo/operators/repair/bounds_repair.py
index 7b9c16e..b82afa3 100644
--- a/pymoo/operators/repair/bounds_repair.py
+++ b/pymoo/operators/repair/bounds_repair.py
@@ -116,6 +116,11 @@ def repair_periodic(Xp, xl, xu):
 
     S = XU - XL
 
+    # there is no period if a variable is fixed
+    fixed = S == 0
+    Xp[fixed] = XL[fixed]
+    S[fixed] = 1.0
+
     I = np.where(Xp < XL)  # noqa: E741
     Xp[I] = XU[I] - (XL[I] - Xp[I]) % S[I]
 
-- 
2.43.0


From 73b90bbc5626d16d23cf96c7c9c7a570c5ebabc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 56/72] fix: normalization keeps variables that are fixed by
 their bounds where they are

---
 pymoo/util/normalization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index d767719..a44a88a 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -48,7 +48,8 @@ class ZeroToOneNormalization(Normalization):
         xl, xu = np.copy(xl).astype(float), np.copy(xu).astype(float)
 
         # if both are equal then set the upper bound to none (always the 0 or lower bound will be returned then)
-        xu[xl == xu] = np.nan
+        self.fixed = xl == xu
+        xu[self.fixed] = np.nan
 
         # store the lower and upper bounds
         self.xl, self.xu = xl, xu
@@ -98,6 +99,8 @@ class ZeroToOneNormalization(Normalization):
 
         X[..., xl_only] = N[..., xl_only] + xl[xl_only]
 
+        X[..., self.fixed] = xl[self.fixed]
+
         X[..., xu_only] = xu[xu_only] - (1.0 - N[..., xu_only])
 
         return X
-- 
2.43.0


From 373bd56f64818ab48d94002f0d9b5873c8c296dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 57/72] fix: an interrupted download or a power loss leaves
 neither a partial nor an empty data file

The temporary file was renamed into place without being synced, a KeyboardInterrupt or a failing close left it behind.
---
 pymoo/util/remote.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pymoo/util/remote.py b/pymoo/util/remote.py
index cc3d71b..6a7f364 100644
--- a/pymoo/util/remote.py
+++ b/pymoo/util/remote.py
@@ -73,16 +73,19 @@ class Remote:
         os.makedirs(dirname(dest), exist_ok=True)
         url = self.server + "/".join(args)
         tmp_fd, tmp = tempfile.mkstemp(dir=dirname(dest), suffix=".part")
-        os.close(tmp_fd)
         try:
-            with urllib.request.urlopen(url, timeout=DOWNLOAD_TIMEOUT) as resp:
-                data = resp.read()
-            with open(tmp, "wb") as out:
-                out.write(data)
+            with open(tmp_fd, "wb") as out:
+                with urllib.request.urlopen(url, timeout=DOWNLOAD_TIMEOUT) as resp:
+                    out.write(resp.read())
+                # the content has to be on the disk before the name is
+                out.flush()
+                os.fsync(out.fileno())
             os.replace(tmp, dest)  # atomic on the same filesystem
-        except Exception as e:
+        except BaseException as e:
             if exists(tmp):
                 os.remove(tmp)
+            if not isinstance(e, Exception):
+                raise
             raise OSError(
                 f"pymoo could not download required data from {url}: {e}. "
                 f"Check your network connection, or pre-fetch the file and point "
-- 
2.43.0


From 6d2467f989978637dc173b2409ce4d602fe8183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 58/72] fix: OmniOptimizer does not loop forever if the
 population is a single design

---
 pymoo/algorithms/moo/omni.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/algorithms/moo/omni.py b/pymoo/algorithms/moo/omni.py
index 80bc761..a13ca3a 100644
--- a/pymoo/algorithms/moo/omni.py
+++ b/pymoo/algorithms/moo/omni.py
@@ -334,6 +334,10 @@ class NeighborBasedTournamentSelection(Selection):
         pairs = np.empty((n_winners, 2), dtype=int)
         count = 0
 
+        # a single solution has no neighbor and can only compete with itself
+        if n == 1:
+            pairs[:], count = 0, n_winners
+
         while count < n_winners:
             # a fresh random order of all solutions for this pass
             remaining = list(random_state.permutation(n))
-- 
2.43.0


From b67d18124d8e31e493e5914a0484d593000768f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:07 +0000
Subject: [PATCH 59/72] fix: hash duplicate elimination compares the designs

By default it hashed the Individual objects, which are never equal; a function given was applied to its own result, and different values with the same hash were taken for duplicates.
---
 pymoo/core/duplicate.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pymoo/core/duplicate.py b/pymoo/core/duplicate.py
index 974dccd..5c3c179 100644
--- a/pymoo/core/duplicate.py
+++ b/pymoo/core/duplicate.py
@@ -128,12 +128,23 @@ class ElementwiseDuplicateElimination(DefaultDuplicateElimination):
         return is_duplicate
 
 
+def default_key(ind):
+    x = ind.X
+    if isinstance(x, np.ndarray):
+        return tuple(x.tolist())
+    elif isinstance(x, dict):
+        return tuple((k, x[k]) for k in sorted(x))
+    return x
+
+
 def to_hash(x):
     try:
-        h = hash(x)
+        hash(x)
+        # the value itself because different values can have the same hash
+        h = x
     except:  # noqa: E722
         try:
-            h = hash(str(x))
+            h = str(x)
         except:  # noqa: E722
             raise Exception("Hash could not be calculated. Please use another duplicate elimination.")
 
@@ -141,7 +152,7 @@ def to_hash(x):
 
 
 class HashDuplicateElimination(DuplicateElimination):
-    def __init__(self, func=to_hash) -> None:
+    def __init__(self, func=default_key) -> None:
         super().__init__()
         self.func = func
 
@@ -150,12 +161,10 @@ class HashDuplicateElimination(DuplicateElimination):
 
         if other is not None:
             for o in other:
-                val = self.func(o)
-                H.add(self.func(val))
+                H.add(to_hash(self.func(o)))
 
         for i, ind in enumerate(pop):
-            val = self.func(ind)
-            h = self.func(val)
+            h = to_hash(self.func(ind))
 
             if h in H:
                 is_duplicate[i] = True
-- 
2.43.0


From 488b622443207f5f8919fd807bc92e995012f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:31 +0000
Subject: [PATCH 60/72] fix: C-TAEA ends if no new design can be found

---
 pymoo/algorithms/moo/ctaea.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index d77fc9c..a467818 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -307,7 +307,7 @@ class CTAEA(GeneticAlgorithm):
 
     def _infill(self):
         Hm = Population.merge(self.pop, self.da)
-        return self.mating.do(
+        off = self.mating.do(
             self.problem,
             Hm,
             n_offsprings=self.n_offsprings,
@@ -315,6 +315,12 @@ class CTAEA(GeneticAlgorithm):
             random_state=self.random_state,
         )
 
+        # if the mating could not generate any new offspring (duplicate elimination might make that happen)
+        if len(off) == 0:
+            self.termination.force_termination = True
+
+        return off
+
     def _advance(self, infills=None, **kwargs):
         assert infills is not None, "This algorithms uses the AskAndTell interface thus infills must to be provided."
         pop = Population.merge(self.pop, infills)
-- 
2.43.0


From 7f9030d01502024329640093177652e5175318e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:36 +0000
Subject: [PATCH 61/72] fix: setting the time of a dynamic problem discards
 what was cached for the time before

---
 pymoo/problems/dyn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/problems/dyn.py b/pymoo/problems/dyn.py
index accf656..4049867 100644
--- a/pymoo/problems/dyn.py
+++ b/pymoo/problems/dyn.py
@@ -63,6 +63,9 @@ class DynamicTestProblem(DynamicProblem, ABC):
         """
         self._time = value
 
+        # what has been cached belongs to the time before
+        self.__dict__["cache"] = {}
+
 
 class TimeSimulation(Callback):
     """Callback to update time in dynamic problems during optimization."""
-- 
2.43.0


From 9c36dc3944b89f9d2d0b047d938a246eb30aebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 62/72] fix: mutating an empty population returns an empty
 population

---
 pymoo/core/mutation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/core/mutation.py b/pymoo/core/mutation.py
index ac0d159..337d59a 100644
--- a/pymoo/core/mutation.py
+++ b/pymoo/core/mutation.py
@@ -24,6 +24,10 @@ class Mutation(Operator):
 
         n_mut = len(pop)
 
+        # there is nothing to be mutated
+        if n_mut == 0:
+            return pop
+
         # get the variables to be mutated
         X = pop.get("X")
 
-- 
2.43.0


From 6ae53959074713e1341fd35d1f995ae77c743c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 63/72] fix: a fixed variable does not make the normalized
 distance undefined

---
 pymoo/util/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/util/misc.py b/pymoo/util/misc.py
index 6af885c..d79cbaa 100644
--- a/pymoo/util/misc.py
+++ b/pymoo/util/misc.py
@@ -180,7 +180,9 @@ def func_norm_euclidean_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]:
     Returns:
         Distance function.
     """
-    return lambda a, b: np.sqrt((((a - b) / (xu - xl)) ** 2).sum(axis=1))
+    # a variable which is fixed does not contribute to the distance
+    norm = np.where(xu > xl, xu - xl, 1.0)
+    return lambda a, b: np.sqrt((((a - b) / norm) ** 2).sum(axis=1))
 
 
 def norm_eucl_dist_by_bounds(A: Any, B: Any, xl: Any, xu: Any, **kwargs: Any) -> Any:
-- 
2.43.0


From 8f8f66664815cc233ffeea657d3ce17b54a01ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 64/72] fix: infinite objective values do not make the change
 of the objective space undefined

---
 pymoo/termination/ftol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/termination/ftol.py b/pymoo/termination/ftol.py
index e63488c..1c74d5c 100644
--- a/pymoo/termination/ftol.py
+++ b/pymoo/termination/ftol.py
@@ -92,7 +92,9 @@ class MultiObjectiveSpaceTermination(DeltaToleranceTermination):
             delta_f,
         )
 
-        return max(delta_ideal, delta_nadir, delta_f)
+        # with infinite values in the front the difference is not defined
+        delta = np.array([delta_ideal, delta_nadir, delta_f])
+        return np.inf if np.isnan(delta).any() else delta.max()
 
 
 class MultiObjectiveSpaceTerminationWithRenormalization(MultiObjectiveSpaceTermination):
-- 
2.43.0


From 4221d8dd01d86329f0572e22808dede99b0f9922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 65/72] fix: constraints as objective or penalty with several
 objectives or missing constraints

---
 pymoo/constraints/as_obj.py     | 12 +++++++-----
 pymoo/constraints/as_penalty.py | 10 +++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index 8488224..d4fdb7a 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -31,24 +31,26 @@ class ConstraintsAsObjective(Meta, Problem):
         F, G, H = from_dict(out, "F", "G", "H")
 
         # store a backup of the values in out
-        out["__F__"], out["__G__"], out["__H__"] = F, G, H
+        out.update({name: v for name, v in [("__F__", F), ("__G__", G), ("__H__", H)] if v is not None})
 
         # calculate the total constraint violation (here normalization shall be already included)
-        CV = calc_cv(G=G, H=H, config=self.config)
+        CV = calc_cv(G=G, H=H, config=self.config) if G is not None or H is not None else np.zeros(len(X))
 
         # append the constraint violation as objective
         if self.append:
             out["F"] = anp.column_stack([CV, F])
         else:
-            out["F"] = CV
+            out["F"] = CV[:, None]
 
-        del out["G"]
-        del out["H"]
+        out.pop("G", None)
+        out.pop("H", None)
 
         return out
 
     def pareto_front(self, *args, **kwargs):
         pf = super().pareto_front(*args, **kwargs)
+        if pf is not None and not self.append:
+            return np.zeros((1, 1))
         if pf is not None:
             pf = np.column_stack([np.zeros(len(pf)), pf])
         return pf
diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index cf779f6..5a8ea6d 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -26,15 +26,15 @@ class ConstraintsAsPenalty(Meta, Problem):
         F, G, H = from_dict(out, "F", "G", "H")
 
         # store a backup of the values in out
-        out["__F__"], out["__G__"], out["__H__"] = F, G, H
+        out.update({name: v for name, v in [("__F__", F), ("__G__", G), ("__H__", H)] if v is not None})
 
         # calculate the total constraint violation (here normalization shall be already included)
-        CV = calc_cv(G=G, H=H)
+        CV = calc_cv(G=G, H=H) if G is not None or H is not None else np.zeros(len(X))
 
         # set the penalized objective values
-        out["F"] = F + self.penalty * np.reshape(CV, F.shape)
+        out["F"] = F + self.penalty * CV[:, None]
 
-        del out["G"]
-        del out["H"]
+        out.pop("G", None)
+        out.pop("H", None)
 
         return out
-- 
2.43.0


From e3560202399a1370aa29a8088fbc5ece246336b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 66/72] fix: constraints from bounds of problems without own
 constraints or without bounds

---
 pymoo/constraints/from_bounds.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymoo/constraints/from_bounds.py b/pymoo/constraints/from_bounds.py
index 9a0eb82..fda4428 100644
--- a/pymoo/constraints/from_bounds.py
+++ b/pymoo/constraints/from_bounds.py
@@ -20,13 +20,14 @@ class ConstraintsFromBounds(Meta, Problem):
 
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
 
-        # get the boundaries for normalization
-        xl, xu = self.bounds()
+        # get the boundaries of the original problem (they might have been removed from this one)
+        xl, xu = self.__object__.bounds()
 
         # add the boundary constraint if enabled
         _G = anp.column_stack([xl - X, X - xu])
 
-        out["G"] = anp.column_stack([out["G"], _G])
+        G = out.get("G")
+        out["G"] = anp.column_stack([G, _G]) if G is not None else _G
 
         if "dG" in out:
             _dG = np.zeros((len(X), 2 * self.n_var, self.n_var))
-- 
2.43.0


From e642bd77037a1a185e8766d3569e212572e65dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 67/72] fix: the unit box problem evaluates the wrapped problem
 at the design meant

---
 pymoo/problems/zero_to_one.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/problems/zero_to_one.py b/pymoo/problems/zero_to_one.py
index 14ef424..3de4e4e 100644
--- a/pymoo/problems/zero_to_one.py
+++ b/pymoo/problems/zero_to_one.py
@@ -14,9 +14,9 @@ class ZeroToOne(Meta, Problem):
         self.xl, self.xu = np.zeros(self.n_var), np.ones(self.n_var)
 
     def do(self, X, return_values_of, *args, **kwargs):
-        Xp = self.normalize(X)
+        Xp = self.denormalize(X)
 
-        out = super().do(Xp, return_values_of, *args, **kwargs)
+        out = self.__object__.do(Xp, return_values_of, *args, **kwargs)
         out["__X__"] = X
 
         return out
-- 
2.43.0


From c3b3dbe8a6b495ac6f7e7b63301b0c9f237644bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 68/72] fix: decomposition of a problem to a single objective
 for batches of any size

---
 pymoo/problems/multi_to_single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi_to_single.py b/pymoo/problems/multi_to_single.py
index 87dd7ca..60059ea 100644
--- a/pymoo/problems/multi_to_single.py
+++ b/pymoo/problems/multi_to_single.py
@@ -18,7 +18,7 @@ class MultiToSingleObjective(Meta, Problem):
     def __init__(self, problem: Any, decomposition: Any, kwargs: dict | None = None) -> None:
         super().__init__(problem)
         self.decomposition = decomposition
-        self.kwargs = kwargs if not None else dict()  # noqa: E712
+        self.kwargs = {"_type": "many_to_one", **(kwargs or {})}
         self.n_obj = 1
 
     def do(self, X: Any, return_values_of: Any, *args: Any, **kwargs: Any) -> dict:
-- 
2.43.0


From c42153bf2fe81ac7d6c526a05cabedc3b400bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 69/72] fix: the complex step gradient reports only what was
 requested

---
 pymoo/gradient/grad_complex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/gradient/grad_complex.py b/pymoo/gradient/grad_complex.py
index 811c947..2a3e1e0 100644
--- a/pymoo/gradient/grad_complex.py
+++ b/pymoo/gradient/grad_complex.py
@@ -44,6 +44,8 @@ class ComplexNumberGradient(Meta, Problem):
             grad = calc_complex_gradient(self.__object__, vals_not_grad, x, self.eps, *args, **kwargs)
 
             for name, value in grad.items():
+                if out.get("d" + name) is None:
+                    out["d" + name] = np.zeros((len(X), *value.shape))
                 out["d" + name][i] = value
 
         return out
-- 
2.43.0


From a14d03c43835f537a2af677f52ca87a86836eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 70/72] fix: automatic differentiation of lists and constant
 outputs

---
 pymoo/gradient/grad_autograd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pymoo/gradient/grad_autograd.py b/pymoo/gradient/grad_autograd.py
index a4fca86..72f8681 100644
--- a/pymoo/gradient/grad_autograd.py
+++ b/pymoo/gradient/grad_autograd.py
@@ -82,8 +82,13 @@ def autograd_elementwise_value_and_grad(f, x):  # type: ignore[name-defined]
         val = out[name]
 
         if val is not None:
-            if len(val.shape) == 0:
-                val = anp.array([val])
+            if isinstance(val, (list, tuple)) or len(np.shape(val)) == 0:
+                val = anp.array(val if isinstance(val, (list, tuple)) else [val])
+
+            # a value which does not depend on the variables at all
+            if not isbox(val):
+                out[name], jac[name] = np.array(val), np.zeros((len(val), len(x)))
+                continue
 
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
-- 
2.43.0


From 1bee84b9a907dbab3097fe75d85a85829d803f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 71/72] fix: the backend of automatic differentiation belongs
 to the evaluating thread and is given back on failure

---
 pymoo/gradient/__init__.py         | 31 ++++++++++++++++++++++-
 pymoo/gradient/automatic.py        | 40 ++++++++++++++----------------
 pymoo/gradient/toolbox/__init__.py |  8 +++---
 3 files changed, 53 insertions(+), 26 deletions(-)

diff --git a/pymoo/gradient/__init__.py b/pymoo/gradient/__init__.py
index e0051ca..6b87d15 100644
--- a/pymoo/gradient/__init__.py
+++ b/pymoo/gradient/__init__.py
@@ -1,6 +1,10 @@
 """Gradient computation tools and automatic differentiation backends."""
 
-__all__ = ["activate", "deactivate"]
+import threading
+from contextlib import contextmanager
+from typing import Iterator
+
+__all__ = ["activate", "deactivate", "current", "using"]
 
 BACKENDS = {
     "numpy": "numpy",
@@ -10,6 +14,9 @@ BACKENDS = {
 
 active_backend = "numpy"
 
+# what the current thread is using temporarily (takes precedence over the active backend)
+_local = threading.local()
+
 
 def activate(name: str) -> None:
     """Activate a gradient computation backend.
@@ -29,3 +36,25 @@ def activate(name: str) -> None:
 def deactivate() -> None:
     """Deactivate gradient computation, reverting to numpy backend."""
     activate("numpy")
+
+
+def current() -> str:
+    """The name of the backend being used by the current thread."""
+    return getattr(_local, "backend", None) or active_backend
+
+
+@contextmanager
+def using(name: str) -> Iterator[None]:
+    """Use a backend for the time of a differentiation, by the current thread only and also if it fails.
+
+    Args:
+        name: Backend name ('numpy', 'autograd', or 'jax').
+    """
+    if name not in BACKENDS:
+        raise ValueError(f"Unknown backend: {name}. Choose from: {list(BACKENDS.keys())}")
+    before = getattr(_local, "backend", None)
+    _local.backend = name
+    try:
+        yield
+    finally:
+        _local.backend = before
diff --git a/pymoo/gradient/automatic.py b/pymoo/gradient/automatic.py
index 18b53a6..1e896b8 100644
--- a/pymoo/gradient/automatic.py
+++ b/pymoo/gradient/automatic.py
@@ -4,7 +4,7 @@ import numpy as np
 
 from pymoo.core.meta import Meta
 from pymoo.core.problem import Problem, ElementwiseEvaluationFunction
-from pymoo.gradient import activate, deactivate
+from pymoo.gradient import using
 
 
 class ElementwiseEvaluationFunctionWithGradient(ElementwiseEvaluationFunction):
@@ -15,18 +15,17 @@ class ElementwiseEvaluationFunctionWithGradient(ElementwiseEvaluationFunction):
     def __call__(self, x):
         f = super().__call__
 
-        activate(self.backend)
-        if self.backend == "jax":
-            from pymoo.gradient.grad_jax import jax_elementwise_value_and_grad
+        with using(self.backend):
+            if self.backend == "jax":
+                from pymoo.gradient.grad_jax import jax_elementwise_value_and_grad
 
-            out, grad = jax_elementwise_value_and_grad(f, x)
-        elif self.backend == "autograd":
-            from pymoo.gradient.grad_autograd import autograd_elementwise_value_and_grad
+                out, grad = jax_elementwise_value_and_grad(f, x)
+            elif self.backend == "autograd":
+                from pymoo.gradient.grad_autograd import autograd_elementwise_value_and_grad
 
-            out, grad = autograd_elementwise_value_and_grad(f, x)
-        else:
-            raise Exception("Unknown backend %s" % self.backend)
-        deactivate()
+                out, grad = autograd_elementwise_value_and_grad(f, x)
+            else:
+                raise Exception("Unknown backend %s" % self.backend)
 
         for k, v in grad.items():
             out["d" + k] = np.array(v)
@@ -68,18 +67,17 @@ class AutomaticDifferentiation(Meta, Problem):
 
         f = F(self.__object__)
 
-        activate(self.backend)
-        if self.backend == "jax":
-            from pymoo.gradient.grad_jax import jax_vectorized_value_and_grad
+        with using(self.backend):
+            if self.backend == "jax":
+                from pymoo.gradient.grad_jax import jax_vectorized_value_and_grad
 
-            out, grad = jax_vectorized_value_and_grad(f, x)
-        elif self.backend == "autograd":
-            from pymoo.gradient.grad_autograd import autograd_vectorized_value_and_grad
+                out, grad = jax_vectorized_value_and_grad(f, x)
+            elif self.backend == "autograd":
+                from pymoo.gradient.grad_autograd import autograd_vectorized_value_and_grad
 
-            out, grad = autograd_vectorized_value_and_grad(f, x)
-        else:
-            raise Exception("Unknown backend %s" % self.backend)
-        deactivate()
+                out, grad = autograd_vectorized_value_and_grad(f, x)
+            else:
+                raise Exception("Unknown backend %s" % self.backend)
 
         for k, v in grad.items():
             out["d" + k] = v
diff --git a/pymoo/gradient/toolbox/__init__.py b/pymoo/gradient/toolbox/__init__.py
index 7e700c0..7614379 100644
--- a/pymoo/gradient/toolbox/__init__.py
+++ b/pymoo/gradient/toolbox/__init__.py
@@ -9,16 +9,16 @@ class LazyBackend:
     """Lazy backend that always uses the current active backend."""
 
     def __getattr__(self, name: str) -> Any:
-        from pymoo.gradient import active_backend, BACKENDS
+        from pymoo.gradient import current, BACKENDS
 
-        backend_module = importlib.import_module(BACKENDS[active_backend])
+        backend_module = importlib.import_module(BACKENDS[current()])
         return getattr(backend_module, name)
 
     def __dir__(self) -> list[str]:
         """Support for tab completion and introspection."""
-        from pymoo.gradient import active_backend, BACKENDS
+        from pymoo.gradient import current, BACKENDS
 
-        backend_module = importlib.import_module(BACKENDS[active_backend])
+        backend_module = importlib.import_module(BACKENDS[current()])
         return dir(backend_module)
 
 
-- 
2.43.0


From d1557d3fa2071e5816b97f558c697009b833352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:54 +0000
Subject: [PATCH 72/72] fix: designs evaluated elsewhere follow the adaptive
 constraint handling

---
 pymoo/constraints/adaptive.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pymoo/constraints/adaptive.py b/pymoo/constraints/adaptive.py
index bc610ff..00705b7 100644
--- a/pymoo/constraints/adaptive.py
+++ b/pymoo/constraints/adaptive.py
@@ -69,12 +69,20 @@ class AdaptiveConstraintHandling(MetaAlgorithm):
     def _adapt_constraint_handling(self, config, infills=None, **kwargs):
         pass
 
+    def _attach(self, infills):
+        # designs that have been evaluated elsewhere follow the constraint handling as well
+        if infills is not None:
+            for ind in infills:
+                ind.set("config", self.config)
+
     def _initialize_advance(self, infills=None, **kwargs):
+        self._attach(infills)
         copy_to_dict(self.adapted_config, self.config)
         super()._initialize_advance(infills=infills, **kwargs)
         copy_to_dict(self.default_config, self.config)
 
     def _advance(self, infills=None, **kwargs):
+        self._attach(infills)
         copy_to_dict(self.adapted_config, self.config)
         super()._advance(infills=infills, **kwargs)
         copy_to_dict(self.default_config, self.config)
-- 
2.43.0

