From aeabe675141cc86c5582a3caf6e82b3889046e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 01/41] fix: LUCB picks two distinct arms, and survives a tie
 of all estimates

The leader and the challenger were looked up among all arms, so an arm sharing
the bound value could be drawn twice in a round (its 2u units were recorded as
u), and select_arms crashed when every arm had the same estimate, e.g. while no
arm has enough samples yet.
---
 causal_effect_bandits/bandits.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index da69ce9..62c2135 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -398,14 +398,18 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
       return np.random.choice(self._arms, size=2, replace=False)
 
     best_arm_mask = [v == lowest_var for v in var_ests]
+    if all(best_arm_mask):  # there are no remaining arms to compare against
+      return np.random.choice(self._arms, size=2, replace=False)
 
     # Select the arm in this set with the highest ucb
     high_ucb = max(ucbs[best_arm_mask])
-    high_ucb_mask = [u == high_ucb for u in ucbs]
+    high_ucb_mask = [b and u == high_ucb for b, u in zip(best_arm_mask, ucbs)]
 
     # Also select the arm with the lowest lcb of the remaining arms
     low_lcb = min(lcbs[[not i for i in best_arm_mask]])
-    low_lcb_mask = [l == low_lcb for l in lcbs]
+    low_lcb_mask = [
+        not b and l == low_lcb for b, l in zip(best_arm_mask, lcbs)
+    ]
 
     # We will pick between these two arms
     u_index = np.random.choice(np.arange(self._num_arms)[high_ucb_mask])
-- 
2.43.0


From ebbd7a30454854c33ad4019869a52d8d040d45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 02/41] fix: select_arms on arms without an estimate chooses at
 random

collect_bounds multiplies the cost with the estimate, so the None test that
follows it was never reached.
---
 causal_effect_bandits/bandits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 62c2135..b6c4272 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -387,9 +387,9 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
     Returns:
       A list of arms selected by the algorithm.
     """
-    lcbs, ucbs, var_ests = self.collect_bounds()
-    if any([v is None for v in var_ests]):
+    if any([a.var_est is None for a in self._arms]):
       return np.random.choice(self._arms, 2, replace=False)  # choose at random
+    lcbs, ucbs, var_ests = self.collect_bounds()
     lowest_var = min(var_ests)
     if np.isnan(lowest_var):
       print(
-- 
2.43.0


From ebfc175562e1e6427ba624580b19d5cecd2d9a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 03/41] fix: successive elimination never eliminates every arm

An interval of width zero made the best arm eliminate itself, and no arm was
returned.
---
 causal_effect_bandits/bandits.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index b6c4272..644a3f9 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -530,10 +530,12 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
           if low_var_mask[i]
       ])
 
-      # We now eliminate all arms with lcbs that are larger than lowest_ucb.
+      # We now eliminate all arms with lcbs that are not below lowest_ucb. The
+      # arm that lowest_ucb belongs to always remains.
       new_candidate_arms = []
-      for arm in candidate_arms:
-        if lcb_by_arm[arm][-1] < lowest_ucb:
+      for i, arm in enumerate(candidate_arms):
+        is_best = low_var_mask[i] and ucb_by_arm[arm][-1] == lowest_ucb
+        if is_best or lcb_by_arm[arm][-1] < lowest_ucb:
           new_candidate_arms.append(arm)
       candidate_arms = new_candidate_arms
 
-- 
2.43.0


From 043a7a5786f4ab824ef554026abb595bd2cbfe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 04/41] fix: successive elimination does not return an
 eliminated arm at sample_limit

---
 causal_effect_bandits/bandits.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 644a3f9..fc36358 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -491,10 +491,11 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
     while len(candidate_arms) > 1:
       epoch += 1
       if total_samples > self.sample_limit:
-        _, _, var_ests = self.collect_bounds()
-        # Select the arms with the lowest var estimates.
-        candidate_arms = self._select_arms_with_mask(
-            [v == min(var_ests) for v in var_ests])
+        # Select the remaining arms with the lowest var estimates.
+        var_ests = [arm.cost * arm.var_est for arm in candidate_arms]
+        candidate_arms = [
+            a for a, v in zip(candidate_arms, var_ests) if v == min(var_ests)
+        ]
         break
 
       for arm in candidate_arms:
-- 
2.43.0


From 4a478bda283f4c31841d221b66cf6fc784ef44e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 05/41] fix: sample_limit=None means no limit, as documented

---
 causal_effect_bandits/bandits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index fc36358..c3c547b 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -120,6 +120,8 @@ class BAIBanditAlgorithm:
     if error_tol < 0.0:
       raise ValueError(f"error_tol={error_tol}; must be nonnegative.")
     self.error_tol = error_tol
+    if sample_limit is None:
+      sample_limit = np.inf
     if confidence is None and np.isinf(sample_limit):
       raise ValueError(
           "Either the confidence or the number of rounds must be specified")
-- 
2.43.0


From a12c547421d3b3c713b8550e049badb53c644818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 06/41] fix: error_tol is the allowed suboptimality of the
 returned arm

It was required as an additional gap, so that two arms within error_tol of each
other could never be told apart instead of either being acceptable.
---
 causal_effect_bandits/bandits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index c3c547b..b59cfc0 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -169,7 +169,7 @@ class BAIBanditAlgorithm:
     remaining_lcbs = [
         lcbs[i] for i in range(len(self._arms)) if i != min_var_arm
     ]
-    return (ucbs[min_var_arm] < min(remaining_lcbs) - self.error_tol,
+    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,
             [self._arms[min_var_arm]])
 
   def _select_arms_with_mask(self, boolean_mask):
-- 
2.43.0


From 05e95b0632fbf3edc7a24016edf525a4d1202c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 07/41] fix: reset restores the initial confidence interval

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 6d7d320..bcdd489 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -93,7 +93,7 @@ class VarianceEstimatorArm:
 
   def reset(self) -> None:
     """Resets the arm to its default state."""
-    self._ci = (None, None)
+    self._ci = (-np.inf, np.inf)
     self._eta.reset()
     self._ate = None
     self._var_est = None
-- 
2.43.0


From 18943ccdb8e542b8dbf46eb3f194333988f31b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 08/41] fix: VarianceEstimatorArm.update counted the pull
 through a read-only property

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index bcdd489..144d54e 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -88,7 +88,7 @@ class VarianceEstimatorArm:
     """
     del new_data, delta  # for subclassing
     self._ci = (0, np.inf)  # default ci.
-    self.num_pulled += 1
+    self._num_pulled += 1
     return self._ci
 
   def reset(self) -> None:
-- 
2.43.0


From 0688b838bd5f2ce74c108254f3ffdf4a77a5d0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 09/41] fix: stable_splits=False resplits all the data instead
 of dropping the old data

---
 causal_effect_bandits/arms.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 144d54e..8c69d7c 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -213,7 +213,10 @@ class SampleSplittingArm(VarianceEstimatorArm):
         for i in range(2):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(2)
+        all_data = self._split_data[0]
+        all_data.append(self._split_data[1])
+        all_data.append(self._data_transformer(new_data))
+        self._split_data = all_data.k_fold(2)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
@@ -340,8 +343,11 @@ class BootstrapArm(VarianceEstimatorArm):
         for i in range(self.n_splits):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(
-            self.n_splits)
+        all_data = self._split_data[0]
+        for split in self._split_data[1:]:
+          all_data.append(split)
+        all_data.append(self._data_transformer(new_data))
+        self._split_data = all_data.k_fold(self.n_splits)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
-- 
2.43.0


From a8c7aeda2b09d651e20cfd943ac2bea07ca6f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 10/41] fix: BootstrapArm reports the number of units it has
 seen

The inherited 0 made the bandits feed it the head of the dataset every round.
---
 causal_effect_bandits/arms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 8c69d7c..130f137 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -380,3 +380,9 @@ class BootstrapArm(VarianceEstimatorArm):
     self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
 
     return self._ci
+
+  def get_num_units(self) -> int:
+    """Returns the number of units seen by this arm."""
+    if self._split_data is None:
+      return 0
+    return sum(len(data) for data in self._split_data)
-- 
2.43.0


From aacc91b0e5543da86a1401f31f98984ffc9d5cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 11/41] fix: BootstrapArm returned nan instead of [0, inf)
 without enough samples

---
 causal_effect_bandits/arms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 130f137..525d7f3 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -352,6 +352,13 @@ class BootstrapArm(VarianceEstimatorArm):
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
 
+    # Without enough units in every group, return [0, np.inf).
+    if not self._eta.has_enough_samples():
+      self._ci = (0, np.inf)
+      self._ate = np.nan
+      self._var_est = np.inf
+      return self._ci
+
     if self.n_bootstraps == 0:
       n_bootstraps = int(np.ceil(4 / delta))
     else:
-- 
2.43.0


From 0afb06d532c71fd878b5a7acdd290548de148dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 12/41] fix: LinearRegressionParameter.reset kept the fitted
 model

---
 causal_effect_bandits/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index f9a953d..ccaa459 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -875,6 +875,9 @@ class LinearRegressionParameter(NuisanceParameter):
     self._model = np.zeros(((n_features + 1), (n_features + 1)))
     self.l_reg = l_reg
 
+  def reset(self):
+    self.__init__(self._cov_dim, self.l_reg)
+
   def fit(self, d: data.ExpData):
     """Fits eta to the provided experimental d.
 
-- 
2.43.0


From 6611e84e0b805b379a153f71e654f56d40419288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 13/41] fix: LinearParameterBinaryTreatment.fit crashed on data
 with an empty group

---
 causal_effect_bandits/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index ccaa459..492c4fc 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -195,7 +195,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
 
     self.recent_data = d
 
-    if treat_data == 0 or cont_data == 0:
+    if not treat_data or not cont_data:
       logging.warning(
           "Nuisance parameter was fit on data not including treatment and control"
       )
-- 
2.43.0


From 94afd49666b48bd55edb6352fa82a4d10006010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 14/41] fix: set_to_truth makes the nuisance parameter usable

Without an earlier fit every score was nan, and LinearParameterBinaryTreatment
never told an arm that it has enough samples.
---
 causal_effect_bandits/parameters.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 492c4fc..4d7378a 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -273,6 +273,10 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
     self.treat_response.coef_ = data_gen.beta
     self.cont_response.coef_ = data_gen.beta
     self.cont_response.intercept_ = 0
+    self._has_been_fit = True
+
+  def has_enough_samples(self) -> bool:
+    return self._has_been_fit
 
 
 class Predictor(Protocol):
@@ -470,8 +474,11 @@ class AIPW(NuisanceParameter):
       raise ValueError(("The DataGenerator is not a LinearDataGenerator and is "
                         "not identifiable in this model"))
     self.response.coef_ = np.r_[data_gen.tau, data_gen.beta]
+    self.response.intercept_ = 0
     self.propensity.coef_ = data_gen.gamma.reshape(1, self._cov_dim)
     self.propensity.intercept_ = 0
+    self.propensity.classes_ = np.array([0, 1])
+    self._has_been_fit = True
 
   def has_enough_samples(self) -> bool:
     return self._has_been_fit
-- 
2.43.0


From 54e3c8f98483fcd7bae408748c8d5ab47789fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 15/41] fix: TabularCPD.fit forgets the support of earlier fits

A value of X that is only in earlier data divided by zero, and values of Z that
are only in earlier data kept probability mass.
---
 causal_effect_bandits/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 51fd892..a8f5c40 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -346,6 +346,8 @@ class TabularCPD:
     default_fn = lambda: collections.defaultdict(lambda: 0.0)
     self.table = collections.defaultdict(default_fn)
     self.x_marginal = collections.defaultdict(lambda: 0.0)
+    self.x_values = {}
+    self.z_values = {}
     for xi, zi in zip(x, z):
       self.table[xi.tobytes()][
           zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
-- 
2.43.0


From 56b9d753bfb66bebdd87c06b931e0e073849265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 16/41] fix: TabularCPD.fit produces probabilities

With three or more values of Z the rows could sum to more than 1 or hold
negative entries, and with a single value the row summed to 1 - min_prob.
---
 causal_effect_bandits/data.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index a8f5c40..d331f58 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -359,30 +359,30 @@ class TabularCPD:
     # we could use a better one, e.g. Good-Turning.
     support_size_estimate = len(self.z_values)
     self.min_prob = 1 / support_size_estimate / self.min_ratio_to_uniform
-    if self.min_prob > 1:
-      self.min_prob = .2
+    self.min_prob = min(self.min_prob, 1 / support_size_estimate)
 
     # Next, we normalize the probabilities for every x
     for x_key in self.x_values:
       x_table = self.table[x_key]
       num_samples = sum(x_table.values())
       self.x_marginal[x_key] = num_samples / self.n_units
-      non_violating_z = []
-      total_violations = 0
       for z_key in self.z_values:
         x_table[z_key] = x_table[z_key] / num_samples
-        if x_table[z_key] < self.min_prob:
+      # Raise the probabilities below min_prob, and take what they gain equally
+      # from the others so that P(Z|x = x_key) sums to 1. This could push more
+      # of them below min_prob.
+      non_violating_z = list(self.z_values)
+      violating_z = [z for z in non_violating_z if x_table[z] < self.min_prob]
+      while violating_z:
+        non_violating_z = [z for z in non_violating_z if z not in violating_z]
+        total_violations = 0
+        for z_key in violating_z:
           total_violations += self.min_prob - x_table[z_key]
           x_table[z_key] = self.min_prob
-        elif x_table[z_key] > 1 - self.min_prob:
-          total_violations += x_table[z_key] - (1 - self.min_prob)
-          x_table[z_key] = 1 - self.min_prob
-        else:
-          non_violating_z.append(z_key)
-      # Now, we adjust non_violating_z to make P(Z|x = x_key) sum to 1
-      for z_key in non_violating_z:
-        x_table[z_key] = (
-            x_table[z_key] - total_violations / len(non_violating_z))
+        for z_key in non_violating_z:
+          x_table[z_key] = (
+              x_table[z_key] - total_violations / len(non_violating_z))
+        violating_z = [z for z in non_violating_z if x_table[z] < self.min_prob]
 
   def x_support(self):
     return list(self.x_values.values())
-- 
2.43.0


From 6fcf003029d52b4e699b2df6d398cbe127bbd79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 17/41] fix: TabularCPD.predict does not add the queried values
 to the table

Printing the table after a query for an unseen value raised a KeyError.
---
 causal_effect_bandits/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index d331f58..713b4d2 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -408,7 +408,8 @@ class TabularCPD:
     z = np.asarray(z)
 
     for zi, xi in zip(z, x):
-      probs.append(self.table[xi.tobytes()][zi.tobytes()])
+      x_table = self.table.get(xi.tobytes(), {})
+      probs.append(x_table.get(zi.tobytes(), 0.0))
     return np.array(probs)
 
   def __str__(self):
-- 
2.43.0


From 2883e45f0178a569f9b7f7bf6ead829d9f3ebb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 18/41] fix: front-door f_1 looked up the first coordinate of Z
 instead of Z

It was identically zero for a Z of more than one dimension.
---
 causal_effect_bandits/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 4d7378a..bc7cbeb 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -754,8 +754,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
                          np.tile(z,
                                  (len(d), 1))]))  # mu_y(z, X=1), z in support
       f_1 += mu_yzx_i * (
-          self.cov_given_exp.predict(np.array([1]), z) -
-          self.cov_given_exp.predict(np.array([0]), z))
+          self.cov_given_exp.predict(np.array([1]), [z]) -
+          self.cov_given_exp.predict(np.array([0]), [z]))
 
       f_3 += (
           self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-- 
2.43.0


From eaf7b0df6f6372120c0ea6b999e40dddd885cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 19/41] fix: front-door estimator ignored P(Z|X) for treatments
 that are not of dtype int

---
 causal_effect_bandits/parameters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index bc7cbeb..ecd5295 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -627,7 +627,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     self.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
     self.exp_prob = np.clip(
         np.mean(d.exp), self._min_overlap, 1 - self._min_overlap)
-    self.cov_given_exp.fit(d.exp, d.cov)
+    # The table is indexed by the bytes of integer treatments.
+    self.cov_given_exp.fit(np.asarray(d.exp, dtype=int), d.cov)
 
     self._has_been_fit = True
 
@@ -731,7 +732,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     mu_y_zx = self.y_response.predict(np.array(np.c_[d.exp, d.cov]))
     p_z_x1 = self.cov_given_exp.predict(np.ones(n_units, dtype=int), d.cov)
     p_z_x0 = self.cov_given_exp.predict(np.zeros(n_units, dtype=int), d.cov)
-    p_z_x = self.cov_given_exp.predict(d.exp, d.cov)
+    exp = np.asarray(d.exp, dtype=int)
+    p_z_x = self.cov_given_exp.predict(exp, d.cov)
 
     p_z_x1 = np.clip(p_z_x1, self._min_overlap, 1 - self._min_overlap)
     p_z_x0 = np.clip(p_z_x0, self._min_overlap, 1 - self._min_overlap)
-- 
2.43.0


From 11dbcc4f19283199cc4369ab7b5d94295b6375d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 20/41] fix: front-door score estimates the front-door effect

The last term has to subtract E[f_2(Z)|X], that is weight mu_Y(z', x') with
P(z'|x_i). It was weighted with P(z_i|x'), with which the mean of the score is
not the average treatment effect even when every nuisance parameter is correct:
on example_scm.frontdoor_scm() the estimated effect was twice the true one.
---
 causal_effect_bandits/parameters.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index ecd5295..1f2eab5 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -558,7 +558,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_x' mu_Y(x',X)(P(Z=x'|X=1) - P(Z=x'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{t'} mu_Y(Z,t')f(t')
-        - sum_{x', t'} mu_Y(x', t')P(Z|t')P(t')
+        - sum_{x', t'} mu_Y(x', t')P(x'|X)P(t')
       }
 
   We assume a binary X. We thus need to estimate two densities, P(Z|X=1) and
@@ -694,7 +694,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       4:  W(z_i) = (z_i / P(X=1) - (1-z_i) / P(X=0))),
       5:  f_1(x_i) = sum_z' mu_Y(z',x_i)(P(Z=z'|X=1) - P(Z=z'|X=0)),
       6:  f_2(z_i) = sum_{x'} mu_Y(z_i,x') P(X=x'),
-      7:  f_3(z_i) = sum_{z', x'} mu_Y(z', x') P(z_i|X=x') P(X=x'),
+      7:  f_3(x_i) = sum_{z', x'} mu_Y(z', x') P(Z=z'|x_i) P(X=x'),
     )
 
     The corresponding phi function is
@@ -703,7 +703,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_z' mu_Y(z',X)(P(Z=z'|X=1) - P(Z=z'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{x'} mu_Y(Z,x')P(x')
-        - sum_{z', x'} mu_Y(z', x')P(Z|x')P(x')
+        - sum_{z', x'} mu_Y(z', x')P(z'|X)P(x')
       }
     Which translates to
      phi(W,eta) =
@@ -760,9 +760,10 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
           self.cov_given_exp.predict(np.array([0]), [z]))
 
       f_3 += (
-          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-          + self.y_response.predict([np.insert(z, 0, 0)]) *
-          (1 - self.exp_prob) * p_z_x0)
+          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob +
+          self.y_response.predict([np.insert(z, 0, 0)]) *
+          (1 - self.exp_prob)) * self.cov_given_exp.predict(
+              exp, np.tile(z, (len(d), 1)))
 
     w = d.exp / self.exp_prob - (1 - d.exp) / (1 - self.exp_prob)
 
@@ -791,7 +792,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       4:  W(x_i) = (x_i / P(X=1) - (1-x_i) / P(X=0))),
       5:  f_1(x_i) = sum_z' mu_Y(z',x_i)(P(Z=z'|X=1) - P(Z=z'|X=0)),
       6:  f_2(z_i) = sum_{x'} mu_Y(z_i,x') P(X=x'),
-      7:  f_3(z_i) = sum_{z', x'} mu_Y(z', x') P(Z=z_i|X=x') P(X=x'),
+      7:  f_3(x_i) = sum_{z', x'} mu_Y(z', x') P(Z=z'|x_i) P(X=x'),
     )
 
     The corresponding phi function is
@@ -800,7 +801,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_z' mu_Y(z',X)(P(Z=z'|X=1) - P(Z=z'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{x'} mu_Y(Z,x')P(x')
-        - sum_{z', x'} mu_Y(z', x')P(Z|x')P(x')
+        - sum_{z', x'} mu_Y(z', x')P(z'|X)P(x')
       }
     Which translates to
      phi(W,eta) =
-- 
2.43.0


From c1f5fd42b9c6f8daeb2dde7a3fa0980091816bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 21/41] fix: compute_treatment_effect called a method that does
 not exist

It also left the model intervened on when sampling failed.
---
 causal_effect_bandits/scm.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index a70a02b..b0dad0b 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -114,15 +114,16 @@ class SCM(data.DataGenerator):
       An estimate of the ATE of the SCM.
     """
     old_t_cpd = self.cpds[self.treatment_variable]
-    treatment_cpd = lambda n, parents: self.deterministic_cpd(n, 1)
-    self.cpds[self.treatment_variable] = treatment_cpd
-    treatment_sample = self.generate(n_samples)
-
-    control_cpd = lambda n, parents: self.deterministic_cpd(n, 0)
-    self.cpds[self.treatment_variable] = control_cpd
-    control_sample = self.generate(n_samples)
-
-    self.cpds[self.treatment_variable] = old_t_cpd
+    try:
+      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)
+      self.cpds[self.treatment_variable] = treatment_cpd
+      treatment_sample = self.generate(n_samples)
+
+      control_cpd = lambda n, parents: deterministic_cpd(n, 0)
+      self.cpds[self.treatment_variable] = control_cpd
+      control_sample = self.generate(n_samples)
+    finally:
+      self.cpds[self.treatment_variable] = old_t_cpd
     return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)
 
 
-- 
2.43.0


From 659a59ac064079a3181b79fb7bde4bdf792b027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 22/41] fix: categorical_conditioning removed an entry of the
 caller's list

---
 causal_effect_bandits/scm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index b0dad0b..3999f01 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -151,7 +151,7 @@ def categorical_conditioning(parents, conditioning_on_idx, distributions):
         "Treatment_idx is greater than the number of distributions.")
   # Remove treatment_idx from parents
   distribution_indices = parents[conditioning_on_idx]
-  del parents[conditioning_on_idx]
+  parents = [p for i, p in enumerate(parents) if i != conditioning_on_idx]
 
   samples = []
   for i, d in enumerate(distribution_indices):
-- 
2.43.0


From 3e4bcd74b6d3ec9b94b498893edd31d769a3060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 23/41] fix: a rejected ExpData.append left columns of
 different lengths behind

---
 causal_effect_bandits/data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 713b4d2..6f382b9 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -68,15 +68,16 @@ class ExpData:
     """Appends the new data."""
     if new_data.n_features != self.n_features:
       raise ValueError("The new data has incompatible shape")
-    self.cov = np.r_[self.cov, new_data.cov]
+    cov, exp, rsp = np.r_[self.cov, new_data.cov], self.exp, self.rsp
     if self.exp is not None:
       if new_data.exp is None:
         raise ValueError("new_data.exp is missing but expected")
-      self.exp = np.r_[self.exp, new_data.exp]
+      exp = np.r_[self.exp, new_data.exp]
     if self.rsp is not None:
       if new_data.rsp is None:
         raise ValueError("new_data.rsp is missing but expected")
-      self.rsp = np.r_[self.rsp, new_data.rsp]
+      rsp = np.r_[self.rsp, new_data.rsp]
+    self.cov, self.exp, self.rsp = cov, exp, rsp
 
     self.n_units = self.cov.shape[0]
 
-- 
2.43.0


From 867dc6fdeabc81661e501083a76b142447d64c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 24/41] fix: DataGenerator.generate passed the number of
 columns as a dtype

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 6f382b9..7cbf358 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -222,7 +222,7 @@ class DataGenerator:
 
   def generate(self, n_samples: int):
     return ExpData(
-        np.zeros(n_samples, 1),
+        np.zeros((n_samples, 1)),
         np.zeros(n_samples),
         np.zeros(n_samples),
     )
-- 
2.43.0


From e6a1468d644fbedf053b813ec3d079b3cac1d11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 25/41] fix: LinearDataGenerator uses the noise that it has
 validated

It drew a second sample from noise_model, whose length was not checked.
---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 7cbf358..5c78151 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -281,7 +281,7 @@ class LinearDataGenerator(DataGenerator):
       raise ValueError(
           f"noise_model's output is {len(noise)} but should be {n_samples}.")
 
-    y = x.dot(self._beta) + self._tau * t + self._noise_model(n_samples)
+    y = x.dot(self._beta) + self._tau * t + noise
     return ExpData(x, t, y)
 
   @property
-- 
2.43.0


From c848b722b693bb0725e70b40f80c56a22c3250d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 26/41] fix: the paper's arms read the columns of their
 adjustment set

The masks assume the covariates are ordered Z_0, ..., Z_M, V_1, ..., V_M, but
V_i and Z_i were interleaved, so every back-door arm adjusted for other
variables than its name and cost say.
---
 causal_effect_bandits/paper_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index cb15e16..69a81c9 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -481,8 +481,6 @@ def generate_example_from_cpd(
   for i in range(1, num_back_door_paths + 1):
     var_names.append('V' + str(i))
     var_names.append('Z' + str(i))
-    cov_variables.append('V' + str(i))
-    cov_variables.append('Z' + str(i))
     parents['V' + str(i)] = []
     parents['Z' + str(i)] = ['V' + str(i)]
     parents['Y'].append('Z' + str(i))
@@ -490,6 +488,11 @@ def generate_example_from_cpd(
 
   var_names.extend(['X', 'Z0', 'Y'])
 
+  # The columns of the covariates are Z_0, ..., Z_M, V_1, ..., V_M.
+  for name in ['Z', 'V']:
+    for i in range(1, num_back_door_paths + 1):
+      cov_variables.append(name + str(i))
+
   scm_gen = scm.SCM(
       'Section 5 SCM',
       var_names,
-- 
2.43.0


From 38c6951010b15e0b1793503f6095d2ce7d80b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 27/41] fix: components of a random nonlinear function are
 sampled separately

They all used one seed, so that they were the same function.
---
 causal_effect_bandits/nonlinear_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/nonlinear_utils.py b/causal_effect_bandits/nonlinear_utils.py
index ca3b31f..edbd495 100644
--- a/causal_effect_bandits/nonlinear_utils.py
+++ b/causal_effect_bandits/nonlinear_utils.py
@@ -80,12 +80,13 @@ def generate_random_nd_function(
   x = np.array(list(itertools.product(*[x1d] * dim))) * (max_x - min_x) + min_x
   # Choose a random starting state
   fns = []
+  if seed is None:
+    seed = np.random.randint(10000)
+  random_state = np.random.RandomState(seed)
   for _ in range(out_dim):
     fns.append(gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha))
-    if seed is None:
-      seed = np.random.randint(10000)
     # Sample from a prior
-    y = fns[-1].sample_y(x, 1, random_state=seed)
+    y = fns[-1].sample_y(x, 1, random_state=random_state)
     # Fit the GP to this prior
     fns[-1].fit(x, y)
 
-- 
2.43.0


From 2996902012e10b8dcf90e86e0c556849a408bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 28/41] fix: the seed determines the mechanisms of the Section
 5.2 example

---
 causal_effect_bandits/paper_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index 69a81c9..e87ddd7 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -197,7 +197,7 @@ def get_section_5_2_cpds(
 
   beta = [.2 * rng.standard_normal(size=(z_dim[0]))]
   for i in range(1, num_back_door_paths + 1):
-    strength = np.random.uniform(.1, 1.9)
+    strength = rng.uniform(.1, 1.9)
     # V
     mu_v.append(0 * rng.standard_normal(size=v_dim[i]))
     cov_v.append(1 * np.identity(v_dim[i]))
@@ -266,6 +266,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=rng.integers(10000),
             alpha=1e0))
 
   # f_y should have shape (n_units,1)
@@ -281,6 +282,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=rng.integers(10000),
             alpha=1e0))
 
   # f_x should have shape (n_units,1)
@@ -325,6 +327,7 @@ def get_section_5_2_cpds(
         min_x=-1,
         max_x=1,
         n_points=10,
+        seed=rng.integers(10000),
         alpha=1e0)
     cpds['V' + str(i)] = make_v_cpd(mean=mu_v[i], cov=cov_v[i])
     cpds['Z' + str(i)] = make_z_cpd(f=f_z, mean=mu_z[i], cov=cov_z[i])
-- 
2.43.0


From 5536df70ff142c98ec47025bda9824b49ec419bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 29/41] fix: variances of the response that the example models
 report

---
 causal_effect_bandits/example_scm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/example_scm.py b/causal_effect_bandits/example_scm.py
index 829bf68..9722c29 100644
--- a/causal_effect_bandits/example_scm.py
+++ b/causal_effect_bandits/example_scm.py
@@ -46,7 +46,8 @@ def back_door_scm():
   mu_x = .5 + alpha * p
   var_x = mu_x * (1 - mu_x)
   mu_y = tau * mu_x + beta * mu_z
-  var_y = 1 + tau**2 * var_x + beta**2 * var_z
+  # Cov(Z, X) = alpha * var_z
+  var_y = (1 + tau**2 * var_x + beta**2 * var_z + 2 * tau * beta * alpha * var_z)
 
   # populate the CPDs
   def y_cpd(_, parents):
@@ -121,8 +122,8 @@ def frontdoor_scm():
   pz1u0 = (g(beta) / 2 + 1 / 4) * (1 - p)
   pz0u1 = ((1 - g(beta)) * g(alpha_1) + (1 - g(alpha_1)) / 2) * p
   # Take the expectation of Y^2 by hand.
-  mu_y2 = 1 + (gamma**2 +
-               alpha_2**2) * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
+  mu_y2 = 1 + (gamma +
+               alpha_2)**2 * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
   var_y = mu_y2 - mu_y**2
 
   # populate the CPDs
-- 
2.43.0


From 364abb89af91883296e58c9890eee17b7f09563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 30/41] fix: the width of a confidence sequence is infinite for
 singular designs

---
 causal_effect_bandits/parameters.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 1f2eab5..1160ae5 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -391,7 +391,9 @@ class AIPW(NuisanceParameter):
     radius = np.sqrt(numerator - denominator)
 
     norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
-    w, _ = np.linalg.eig(norm_matrix)
+    w = np.linalg.eigvalsh(norm_matrix)
+    if min(w) <= 0:  # the units do not span all directions
+      return np.inf
     mu_radius = radius / np.sqrt(min(w))
 
     eta_radius = mu_radius
@@ -661,7 +663,9 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     radius = np.sqrt(numerator - denominator)
 
     norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
-    w, _ = np.linalg.eig(norm_matrix)
+    w = np.linalg.eigvalsh(norm_matrix)
+    if min(w) <= 0:  # the units do not span all directions
+      return np.inf
     mu_radius = radius / np.sqrt(min(w))
 
     def uniform_boundary(n, delta):
-- 
2.43.0


From 92af2ba48e05a06471962fe7577016881b5621e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 31/41] fix: an AIPW parameter can be fitted after set_to_truth

The intercept of a logistic regression is an array; with a scalar, the next
(warm started) fit failed.
---
 causal_effect_bandits/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 1160ae5..2ee1c73 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -478,7 +478,7 @@ class AIPW(NuisanceParameter):
     self.response.coef_ = np.r_[data_gen.tau, data_gen.beta]
     self.response.intercept_ = 0
     self.propensity.coef_ = data_gen.gamma.reshape(1, self._cov_dim)
-    self.propensity.intercept_ = 0
+    self.propensity.intercept_ = np.zeros(1)
     self.propensity.classes_ = np.array([0, 1])
     self._has_been_fit = True
 
-- 
2.43.0


From 20100cd7624f46993dc0a0763d77e6d367a778a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 32/41] fix: the terms of a mechanism may have different dtypes

The sums were accumulated in place in an array that may be of integer type,
or that may belong to the caller's function.
---
 causal_effect_bandits/scm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index 3999f01..fa7619d 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -180,7 +180,7 @@ def normal_cpd(parents, betas, mean, cov):
   n_units = len(parents[0])
   total_mean = parents[0].dot(betas[0])
   for i in range(1, len(parents)):
-    total_mean += parents[i].dot(betas[i])
+    total_mean = total_mean + parents[i].dot(betas[i])
   if total_mean.ndim == 1:  # Y is univariate
     return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)
   else:
@@ -235,7 +235,7 @@ def transformed_normal_cpd(parents, betas, fns, mean, cov):
     raise ValueError("parents and fns should be the same length.")
   total_mean = fns[0](parents[0].dot(betas[0]))
   for i in range(1, len(parents)):
-    total_mean += fns[i](parents[i].dot(betas[i]))
+    total_mean = total_mean + fns[i](parents[i].dot(betas[i]))
 
   # infer whether the output should be 1 or 2 dim from mean
   if np.ndim(mean) == 0:  # we should return (n_units,) array
@@ -303,7 +303,7 @@ def logistic_linear_bernoulli_cpd(parents, gammas):
   def f(parents):
     params = 0
     for i in range(len(parents)):
-      params += parents[i].dot(gammas[i])
+      params = params + parents[i].dot(gammas[i])
     return params
 
   return logistic_bernoulli_cpd(parents, f)
-- 
2.43.0


From a026a81be05d5112a8fecd40975c5837b7425394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 33/41] fix: means of the documented shape (d, 1) are accepted

---
 causal_effect_bandits/scm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index fa7619d..a572622 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -206,11 +206,13 @@ def add_gaussian_noise(x, mean, cov):
                         x.shape[1] == 1):  # variable is one-dimensional
     if np.ndim(mean) > 1:
       raise ValueError("The dimensions of x and mean are not compatible")
-    return x.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
+    return x.flatten() + np.random.normal(
+        mean, np.sqrt(np.ravel(cov)), size=n_units)
   else:  # variable is multi-dimensional
-    if x.shape[1] != len(mean):
+    if x.shape[1] != np.size(mean):
       raise ValueError("The dimensions of x and mean are not compatible")
-    return x + np.random.multivariate_normal(mean, cov, size=n_units)
+    return x + np.random.multivariate_normal(
+        np.ravel(mean), cov, size=n_units)
 
 
 def transformed_normal_cpd(parents, betas, fns, mean, cov):
@@ -270,7 +272,8 @@ def structural_equation_with_noise(parents, f, mean, cov):
   if np.ndim(mean) < 1:  # the output is a scalar
     return f_out.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
   else:
-    return f_out + np.random.multivariate_normal(mean, cov, size=n_units)
+    return f_out + np.random.multivariate_normal(
+        np.ravel(mean), cov, size=n_units)
 
 
 def logistic_bernoulli_cpd(parents, f):
-- 
2.43.0


From 29e93b5adeef488e5bedea1743715c895d955886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 34/41] fix: treated units of small integer types are counted
 without overflow

---
 causal_effect_bandits/parameters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 2ee1c73..022343c 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -353,8 +353,9 @@ class AIPW(NuisanceParameter):
 
     self.recent_data = d
 
-    if sum(d.exp) < self._min_units or sum(d.exp) > n_units - self._min_units:
-      message = (f"{sum(d.exp)} treatment units of {n_units} total units is not"
+    n_treated = np.sum(d.exp)
+    if n_treated < self._min_units or n_treated > n_units - self._min_units:
+      message = (f"{n_treated} treatment units of {n_units} total units is not"
                  " enough units in control or treatment to fit eta.")
       logging.warning(message)
       return
@@ -621,9 +622,10 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
 
     self.recent_data = d
 
-    if sum(d.exp) < self._min_units or sum(d.exp) > d.n_units - self._min_units:
+    n_treated = np.sum(d.exp)
+    if n_treated < self._min_units or n_treated > d.n_units - self._min_units:
       print(
-          f"---Frontdoor: {sum(d.exp)} treatment units of {d.n_units} total units "
+          f"---Frontdoor: {n_treated} treatment units of {d.n_units} total units "
           "is not enough units in control or treatment to fit eta.")
       return
     self.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
-- 
2.43.0


From aca5043560eb1d8a8df209b20905b51c5c8d9755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 35/41] fix: linear regression on small integer types does not
 overflow

---
 causal_effect_bandits/parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 022343c..28a62d6 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -905,7 +905,7 @@ class LinearRegressionParameter(NuisanceParameter):
     """
     if d.n_units < 1:  # not enough data to fit
       return
-    data_matrix = np.array(np.c_[d.exp, d.cov])
+    data_matrix = np.array(np.c_[d.exp, d.cov], dtype=float)
 
     self._model = np.linalg.inv(data_matrix.transpose().dot(data_matrix) +
                                 self.l_reg *
@@ -927,7 +927,8 @@ class LinearRegressionParameter(NuisanceParameter):
     Returns:
       np.array of shape (d.n_units, )
     """
-    xzy = np.c_[d.exp, d.cov].transpose().dot(np.diag(d.rsp))
+    data_matrix = np.array(np.c_[d.exp, d.cov], dtype=float)
+    xzy = data_matrix.transpose().dot(np.diag(d.rsp))
     return eta.dot(xzy)[0, :]
 
   def calculate_score(self, d: data.ExpData) -> np.ndarray:
-- 
2.43.0


From 73db8c2ad1f418368b08862b2bafd9c43d58ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 36/41] fix: confidence sequences for small integer types do
 not overflow

---
 causal_effect_bandits/parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 28a62d6..2414e1a 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -380,7 +380,7 @@ class AIPW(NuisanceParameter):
     Returns:
       The width of a confidence sequence
     """
-    x = self.recent_data.cov
+    x = np.asarray(self.recent_data.cov, dtype=float)
     d = self._cov_dim
     v = x.transpose().dot(x)
 
@@ -652,7 +652,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     Returns:
       The width of a confidence sequence
     """
-    x = np.array(np.c_[self.recent_data.exp, self.recent_data.cov])
+    x = np.array(
+        np.c_[self.recent_data.exp, self.recent_data.cov], dtype=float)
     d = self._cov_dim + 1
     v = x.transpose().dot(x)
 
-- 
2.43.0


From defabebfc146d72ad2d43d8e5bac720fd51b8182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 37/41] fix: TabularCPD treats -0.0 and 0.0 as the same value

---
 causal_effect_bandits/data.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 5c78151..7f38711 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -297,6 +297,12 @@ class LinearDataGenerator(DataGenerator):
     return self._gamma
 
 
+def _without_negative_zeros(values):
+  """Returns an array in which values that are equal have equal bytes."""
+  values = np.asarray(values)
+  return values + 0 if values.dtype.kind == "f" else values
+
+
 class TabularCPD:
   """Estimates a tabular CPD.
 
@@ -338,8 +344,8 @@ class TabularCPD:
       z: an np.ndarray of z observations of size (n_units, n_features). Should
         have finite support.
     """
-    x = np.asarray(x)
-    z = np.asarray(z)
+    x = _without_negative_zeros(x)
+    z = _without_negative_zeros(z)
 
     if len(x) != len(z):
       raise ValueError("z and x must be the same length")
@@ -405,8 +411,8 @@ class TabularCPD:
       A list of conditional probabilities of z|x.
     """
     probs = []
-    x = np.asarray(x)
-    z = np.asarray(z)
+    x = _without_negative_zeros(x)
+    z = _without_negative_zeros(z)
 
     for zi, xi in zip(z, x):
       x_table = self.table.get(xi.tobytes(), {})
-- 
2.43.0


From be1820ece783e729ded81d21a08a0c4291455da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 38/41] fix: compute the log determinants of confidence widths
 without overflow

The determinant of the regularised Gram matrix of many covariates, or of
covariates with large values, is not a finite float, and a power of a small
rho is zero; the width was then infinite.
---
 causal_effect_bandits/parameters.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 2414e1a..dc1070e 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -384,8 +384,10 @@ class AIPW(NuisanceParameter):
     d = self._cov_dim
     v = x.transpose().dot(x)
 
-    numerator = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(d)))
-    denominator = sub_g * np.log(rho**d * delta**2)
+    # The determinants may be beyond the range of floats.
+    _, logdet = np.linalg.slogdet(sub_g * v + rho * np.identity(d))
+    numerator = sub_g * logdet
+    denominator = sub_g * (d * np.log(rho) + 2 * np.log(delta))
     if numerator <= denominator:  # not enough samples have been reached
       return np.inf
 
@@ -658,8 +660,10 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     v = x.transpose().dot(x)
 
     delta = delta / 3  # we are making three confidence sequences
-    numerator = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(d)))
-    denominator = sub_g * np.log(rho**d * delta**2)
+    # The determinants may be beyond the range of floats.
+    _, logdet = np.linalg.slogdet(sub_g * v + rho * np.identity(d))
+    numerator = sub_g * logdet
+    denominator = sub_g * (d * np.log(rho) + 2 * np.log(delta))
     if numerator <= denominator:  # not enough samples have been reached
       return np.inf
 
-- 
2.43.0


From 33b4cfe848fac663fdbc37a07d86beae55fd8b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 39/41] fix: BootstrapArm estimates with the nuisance parameter
 fitted on its training fold, not on the last resample

---
 causal_effect_bandits/arms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 525d7f3..041273a 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -381,7 +381,9 @@ class BootstrapArm(VarianceEstimatorArm):
     ci_high = b_samples[int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1]
     self._ci = (ci_low, ci_high)
 
-    # Use the second split to learn the ATE and variance
+    # Use the second split to learn the ATE and variance, with the nuisance
+    # parameter fitted on the first split instead of on the last resample.
+    self._eta.fit(self._split_data[0])
     self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))
 
     self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
-- 
2.43.0


From 9ab4e2a034b043a88c310e70ed19e130bcd7db0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 40/41] fix: TabularCPD's supports changed when the caller
 overwrote the arrays it was fitted on

---
 causal_effect_bandits/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 7f38711..bc22d97 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -298,8 +298,8 @@ class LinearDataGenerator(DataGenerator):
 
 
 def _without_negative_zeros(values):
-  """Returns an array in which values that are equal have equal bytes."""
-  values = np.asarray(values)
+  """Returns a copy in which values that are equal have equal bytes."""
+  values = np.array(values)
   return values + 0 if values.dtype.kind == "f" else values
 
 
-- 
2.43.0


From 62da7e6582fbde801ea7eff0da0042a702d13473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 41/41] fix: confidence widths changed when the data of the
 latest fit were changed afterwards

---
 causal_effect_bandits/parameters.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index dc1070e..8e3e6e5 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -19,6 +19,7 @@
 #    hash/b8102d1fa5df93e62cf26cd4400a0727-Abstract.html
 """Contains the class definitions for the estimators."""
 
+import copy
 from typing import Tuple
 
 from absl import logging
@@ -193,7 +194,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
         cont_data.append(x)
         cont_labels.append(d.rsp[i])
 
-    self.recent_data = d
+    self.recent_data = copy.deepcopy(d)  # d may change after the fit
 
     if not treat_data or not cont_data:
       logging.warning(
@@ -351,7 +352,7 @@ class AIPW(NuisanceParameter):
       raise ValueError(
           f"Data has {d.n_features} dimension but {self._cov_dim} was expected")
 
-    self.recent_data = d
+    self.recent_data = copy.deepcopy(d)  # d may change after the fit
 
     n_treated = np.sum(d.exp)
     if n_treated < self._min_units or n_treated > n_units - self._min_units:
@@ -622,7 +623,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       raise ValueError(
           f"Data has {d.n_features} dimension but {self._cov_dim} was expected")
 
-    self.recent_data = d
+    self.recent_data = copy.deepcopy(d)  # d may change after the fit
 
     n_treated = np.sum(d.exp)
     if n_treated < self._min_units or n_treated > d.n_units - self._min_units:
@@ -916,7 +917,7 @@ class LinearRegressionParameter(NuisanceParameter):
                                 self.l_reg *
                                 np.identity(self._cov_dim + 1)) * d.n_units
     self._has_been_fit = True
-    self.recent_data = d
+    self.recent_data = copy.deepcopy(d)  # d may change after the fit
 
   def transform(self, d: data.ExpData):
     return self._model
-- 
2.43.0

