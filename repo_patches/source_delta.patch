From 8ed0f4a1ebac0cc1f18381c6865c09d09476b365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 01/25] fix: write SaveLogger backups atomically

Opening the backup file for writing truncated the previous backup before the
new one was complete, so a crash, a full disk or an unpicklable learner during
a save lost both; a failed dump also dropped the learner's inference cache.
---
 pystruct/utils/logging.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index 2ab5a95..e3d77cd 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -1,3 +1,5 @@
+import os
+
 try:
     import cPickle as pickle
 except ImportError:
@@ -54,15 +56,28 @@ class SaveLogger(object):
 
     def save(self, learner, file_name):
         """Save the model to location specified in file_name."""
-        with open(file_name, "wb") as f:
-            if hasattr(learner, 'inference_cache_'):
-                # don't store the large inference cache!
-                learner.inference_cache_, tmp = (None,
-                                                 learner.inference_cache_)
-                pickle.dump(learner, f, -1)
-                learner.inference_cache_ = tmp
-            else:
-                pickle.dump(learner, f, -1)
+        # Write to a temporary file and move it in place when it is complete,
+        # so that a crash or a full disk never destroys the previous backup.
+        tmp_name = file_name + ".tmp"
+        try:
+            with open(tmp_name, "wb") as f:
+                if hasattr(learner, 'inference_cache_'):
+                    # don't store the large inference cache!
+                    learner.inference_cache_, tmp = (None,
+                                                     learner.inference_cache_)
+                    try:
+                        pickle.dump(learner, f, -1)
+                    finally:
+                        learner.inference_cache_ = tmp
+                else:
+                    pickle.dump(learner, f, -1)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmp_name, file_name)
+        except BaseException:
+            if os.path.exists(tmp_name):
+                os.remove(tmp_name)
+            raise
 
     def load(self):
         """Load the model stoed in file_name and return it."""
-- 
2.43.0


From 64acb538f1d2bff81697dcd0eb36640faec5adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 02/25] fix: SaveLogger with '%d' in the file name failed on
 the final save

'%d' % 'final' raised TypeError at the end of every fit.
---
 pystruct/utils/logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index e3d77cd..0bbb424 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -49,7 +49,8 @@ class SaveLogger(object):
         if iteration == 'final' or not iteration % self.save_every:
             file_name = self.file_name
             if "%d" in file_name:
-                file_name = file_name % iteration
+                # iteration may be the string 'final'
+                file_name = file_name.replace("%d", str(iteration))
             if self.verbose > 0:
                 print("saving %s to file %s" % (learner, file_name))
             self.save(learner, file_name)
-- 
2.43.0


From bf5e0a6f6c3584a82615c4dbf69aabbba27b0a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 03/25] fix: NSlackSSVM.fit crashed when stopped before the
 first QP

'objective' and 'verbose' were unbound when ctrl+c arrived during the first
batch or when the first pass found no constraint, warm-starting a fresh learner
or one whose fit was stopped before the QP raised, and ctrl+c during the
training loss computation left the objective curves with different lengths.
---
 pystruct/learners/n_slack_ssvm.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 675ca70..63ccd0d 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -270,16 +270,25 @@ class NSlackSSVM(BaseSSVM):
         self.w = np.zeros(self.model.size_joint_feature)
         n_samples = len(X)
         stopping_criterion = False
+        # dual objective without any constraints
+        objective = 0.
+        if constraints is None or not hasattr(self, 'last_active'):
+            # nothing to continue from
+            self.objective_curve_ = []
+            self.primal_objective_curve_ = []
+            self.timestamps_ = [time()]
         if constraints is None:
             # fresh start
             constraints = [[] for i in range(n_samples)]
             self.last_active = [[] for i in range(n_samples)]
-            self.objective_curve_ = []
-            self.primal_objective_curve_ = []
-            self.timestamps_ = [time()]
         else:
             # warm start
-            objective = self._solve_n_slack_qp(constraints, n_samples)
+            n_constraints = [len(sample) for sample in constraints]
+            if n_constraints != [len(sample) for sample
+                                 in getattr(self, 'last_active', [])]:
+                self.last_active = [np.zeros(n) for n in n_constraints]
+            if np.any(n_constraints):
+                objective = self._solve_n_slack_qp(constraints, n_samples)
         try:
             # catch ctrl+c to stop training
             # we have to update at least once after going through the dataset
@@ -340,12 +349,12 @@ class NSlackSSVM(BaseSSVM):
                                                            n_samples)
                         new_constraints += new_constraints_batch
 
-                self.objective_curve_.append(objective)
                 self._compute_training_loss(X, Y, iteration)
 
                 primal_objective = (self.C
                                     * slack_sum
                                     + np.sum(self.w ** 2) / 2)
+                self.objective_curve_.append(objective)
                 self.primal_objective_curve_.append(primal_objective)
 
                 if self.verbose > 0:
@@ -390,7 +399,7 @@ class NSlackSSVM(BaseSSVM):
         if self.verbose and self.n_jobs == 1:
             print("calls to inference: %d" % self.model.inference_calls)
 
-        if verbose:
+        if self.verbose:
             print("Computing final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
-- 
2.43.0


From 3438cbd79f95281f81bb4c59b103afd220096f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 04/25] fix: OneSlackSSVM could not be stopped or warm-started
 safely

ctrl+c (or a failing QP solver) before the first QP left 'objective' unbound,
during the QP left a constraint without dual variables (AssertionError in the
next warm start), during a cache update left samples without cached
constraints; curves ended up with different lengths. warm_start=True on a
converged learner raised UnboundLocalError.
---
 pystruct/learners/one_slack_ssvm.py | 39 ++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 4944b28..db41fc0 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -314,19 +314,27 @@ class OneSlackSSVM(BaseSSVM):
                 or self.inference_cache_ is None):
             self.inference_cache_ = [[] for y in Y_hat]
 
+        new_entries = []
         for sample, x, y, y_hat in zip(self.inference_cache_, X, Y, Y_hat):
             already_there = [self.constraint_equal(y_hat, cache[2])
                              for cache in sample]
             if np.any(already_there):
+                new_entries.append(None)
                 continue
-            if len(sample) > self.inference_cache:
-                sample.pop(0)
             # we computed both of these before, but summed them up immediately
             # this makes it a little less efficient in the caching case.
             # the idea is that if we cache, inference is way more expensive
             # and this doesn't matter much.
-            sample.append((self.model.joint_feature(x, y_hat),
-                           self.model.loss(y, y_hat), y_hat))
+            new_entries.append((self.model.joint_feature(x, y_hat),
+                                self.model.loss(y, y_hat), y_hat))
+
+        # only touch the cache when we have something for every sample
+        for sample, entry in zip(self.inference_cache_, new_entries):
+            if entry is None:
+                continue
+            if len(sample) > self.inference_cache:
+                sample.pop(0)
+            sample.append(entry)
 
     def _constraint_from_cache(self, X, Y, joint_feature_gt, constraints):
         if (not getattr(self, 'inference_cache_', False) or
@@ -334,6 +342,9 @@ class OneSlackSSVM(BaseSSVM):
             if self.verbose > 10:
                 print("Empty cache.")
             raise NoConstraint
+        if not (all(self.inference_cache_) and self.objective_curve_):
+            # a previous fit was stopped before it got anywhere
+            raise NoConstraint
         gap = self.primal_objective_curve_[-1] - self.objective_curve_[-1]
         if (self.cache_tol == 'auto' and gap < self.cache_tol_):
             # do inference if gap has become to small
@@ -451,6 +462,12 @@ class OneSlackSSVM(BaseSSVM):
         else:
             constraints = self.constraints_
 
+        # dual objective of the constraints we start from
+        if warm_start and warm_start != "soft" and self.objective_curve_:
+            objective = self.objective_curve_[-1]
+        else:
+            objective = 0.
+        self.constraints_ = constraints
         self.last_slack_ = -1
 
         # get the joint_feature of the ground truth
@@ -503,11 +520,14 @@ class OneSlackSSVM(BaseSSVM):
                 primal_objective = (self.C * len(X)
                                     * max(last_slack, 0)
                                     + np.sum(self.w ** 2) / 2)
-                self.primal_objective_curve_.append(primal_objective)
-                self.cached_constraint_.append(cached_constraint)
 
-                objective = self._solve_1_slack_qp(constraints,
-                                                   n_samples=len(X))
+                try:
+                    objective = self._solve_1_slack_qp(constraints,
+                                                       n_samples=len(X))
+                finally:
+                    # if we were stopped, forget the constraint that did not
+                    # make it into the solution
+                    del constraints[len(self.alphas):]
 
                 # update cache tolerance if cache_tol is auto:
                 if self.cache_tol == "auto" and not cached_constraint:
@@ -525,7 +545,8 @@ class OneSlackSSVM(BaseSSVM):
                 # we only do this here because we didn't add the gt to the
                 # constraints, which makes the dual behave a bit oddly
                 self.objective_curve_.append(objective)
-                self.constraints_ = constraints
+                self.primal_objective_curve_.append(primal_objective)
+                self.cached_constraint_.append(cached_constraint)
                 if self.logger is not None:
                     self.logger(self, iteration)
 
-- 
2.43.0


From a6952da856d9d5d7512f4e5997be50f13adbeb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 05/25] fix: OneSlackSSVM inference cache crashed on recurring
 fractional solutions

np.all(a, b) takes b as the axis.
---
 pystruct/learners/one_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index db41fc0..a79f13e 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -298,7 +298,7 @@ class OneSlackSSVM(BaseSSVM):
                         and all(np.all(_pw1 == _pw2) for _pw1, _pw2
                                 in zip(pw_m_1, pw_m_2))
                 else:
-                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1, pw_m_2)
+                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1 == pw_m_2)
             else:
                 # NOTE original code was possibly comparing array and scalar
                 # return np.all(y_1[0] == y_2[0]) and np.all(y_1[1] == y_2[1])
-- 
2.43.0


From 195c560708f0bbe5080bcd1e611990d78c70d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 06/25] fix: OneSlackSSVM inference cache with rescale_C, and
 its size

Caching failed for models with rescale_C, and kept one constraint more than
inference_cache per sample.
---
 pystruct/learners/one_slack_ssvm.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index a79f13e..d716da7 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -325,14 +325,18 @@ class OneSlackSSVM(BaseSSVM):
             # this makes it a little less efficient in the caching case.
             # the idea is that if we cache, inference is way more expensive
             # and this doesn't matter much.
-            new_entries.append((self.model.joint_feature(x, y_hat),
-                                self.model.loss(y, y_hat), y_hat))
+            if getattr(self.model, 'rescale_C', False):
+                joint_feature = self.model.joint_feature(x, y_hat, y)
+            else:
+                joint_feature = self.model.joint_feature(x, y_hat)
+            new_entries.append((joint_feature, self.model.loss(y, y_hat),
+                                y_hat))
 
         # only touch the cache when we have something for every sample
         for sample, entry in zip(self.inference_cache_, new_entries):
             if entry is None:
                 continue
-            if len(sample) > self.inference_cache:
+            if len(sample) >= self.inference_cache:
                 sample.pop(0)
             sample.append(entry)
 
-- 
2.43.0


From 7c27e1288151e3a2a79c9f4a767995155393a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 07/25] fix: FrankWolfeSSVM refit, early stop and
 check_dual_every=0

A second fit kept w but reset the dual variables, so it converged to a wrong
solution; ctrl+c before the first dual check raised IndexError and
check_dual_every=0 an UnboundLocalError.
---
 pystruct/learners/frankwolfe_ssvm.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index a74375e..2bc69a5 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -205,6 +205,7 @@ class FrankWolfeSSVM(BaseSSVM):
         l_mat = np.zeros(n_samples)
         l = 0.0
         k = 0
+        dual_gap = np.inf
 
         rng = check_random_state(self.random_state)
         for iteration in range(self.max_iter):
@@ -290,8 +291,9 @@ class FrankWolfeSSVM(BaseSSVM):
             self.model.initialize(X, Y)
         self.objective_curve_, self.primal_objective_curve_ = [], []
         self.timestamps_ = [time()]
-        self.w = getattr(self, "w", np.zeros(self.model.size_joint_feature))
-        self.l = getattr(self, "l", 0)
+        # the dual variables start at zero, so w and l have to, too
+        self.w = np.zeros(self.model.size_joint_feature)
+        self.l = 0.
         try:
             if self.batch_mode:
                 self._frank_wolfe_batch(X, Y)
@@ -303,7 +305,12 @@ class FrankWolfeSSVM(BaseSSVM):
             print("Calculating final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
-        self.objective_curve_.append(self.objective_curve_[-1])
+        if self.objective_curve_:
+            self.objective_curve_.append(self.objective_curve_[-1])
+        else:
+            # stopped before the dual was computed for the first time
+            self.objective_curve_.append(-0.5 * np.sum(self.w ** 2)
+                                         + self.l * len(X) * self.C)
         if self.logger is not None:
             self.logger(self, 'final')
         return self
-- 
2.43.0


From 2611aff96f291a869f0dd6bfb301146a7584f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 08/25] fix: FrankWolfeSSVM with BinaryClf and with rescale_C
 models

batch_joint_feature takes the true labels only for rescale_C models, and needs
them there.
---
 pystruct/learners/frankwolfe_ssvm.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 2bc69a5..542e81c 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -126,13 +126,19 @@ class FrankWolfeSSVM(BaseSSVM):
         self.sample_method = sample_method
         self.random_state = random_state
 
+    def _batch_joint_feature(self, X, Y, Y_true):
+        if getattr(self.model, 'rescale_C', False):
+            return self.model.batch_joint_feature(X, Y, Y_true)
+        return self.model.batch_joint_feature(X, Y)
+
     def _calc_dual_gap(self, X, Y):
         n_samples = len(X)
         # FIXME don't calculate this again
-        joint_feature_gt = self.model.batch_joint_feature(X, Y, Y)
+        joint_feature_gt = self._batch_joint_feature(X, Y, Y)
         Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                           relaxed=True)
-        djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+        djoint_feature = (joint_feature_gt
+                          - self._batch_joint_feature(X, Y_hat, Y))
         ls = np.sum(self.model.batch_loss(Y, Y_hat))
         ws = djoint_feature * self.C
         l_rescaled = self.l * n_samples * self.C
@@ -153,12 +159,13 @@ class FrankWolfeSSVM(BaseSSVM):
         """
         l = 0.0
         n_samples = float(len(X))
-        joint_feature_gt = self.model.batch_joint_feature(X, Y, Y)
+        joint_feature_gt = self._batch_joint_feature(X, Y, Y)
 
         for iteration in range(self.max_iter):
             Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                               relaxed=True)
-            djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+            djoint_feature = (joint_feature_gt
+                              - self._batch_joint_feature(X, Y_hat, Y))
             ls = np.mean(self.model.batch_loss(Y, Y_hat))
             ws = djoint_feature * self.C
 
-- 
2.43.0


From 2d8ca4916f7b0b6904de7882173f69ea4c136414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 09/25] fix: StructuredPerceptron(average=-1) returned w=0 when
 stopped early

ctrl+c at the start of an epoch replaced w by the empty average. Also raise
NotImplementedError instead of calling NotImplemented.
---
 pystruct/learners/structured_perceptron.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index e130fc5..07a1cd9 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -104,10 +104,11 @@ class StructuredPerceptron(BaseSSVM):
             if self.average is True:
                 self.average = 0
             elif self.average < -1:
-                raise NotImplemented("The only negative value for averaging "
-                                     "implemented at the moment is `-1`. Try "
-                                     "`max_iter - k` but be aware of the "
-                                     "possibility of early stopping.")
+                raise NotImplementedError(
+                    "The only negative value for averaging "
+                    "implemented at the moment is `-1`. Try "
+                    "`max_iter - k` but be aware of the "
+                    "possibility of early stopping.")
             w_bar = np.zeros(size_joint_feature)
             n_obs = 0
         self.loss_curve_ = []
@@ -116,9 +117,9 @@ class StructuredPerceptron(BaseSSVM):
             for iteration in range(self.max_iter):
                 if self.average == -1:
                     # By resetting at every iteration we effectively get
-                    # averaging over the last one.
+                    # averaging over the last one.  The first observation
+                    # replaces w_bar; until then keep the last average.
                     n_obs = 0
-                    w_bar.fill(0)
                 effective_lr = ((iteration + self.decay_t0) **
                                 self.decay_exponent)
                 losses = 0
-- 
2.43.0


From ee0d30e67c3dc6fbb83dee50efbfc35d321a1dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 10/25] fix: SubgradientLatentSSVM with n_jobs > 1 raised
 AttributeError

---
 pystruct/learners/subgradient_latent_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 1522e76..55b7e9b 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -176,7 +176,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
                     if self.n_jobs == -1:
                         n_jobs = cpu_count()
                     else:
-                        n_jobs = self.j_jobs
+                        n_jobs = self.n_jobs
 
                     n_batches = int(np.ceil(float(len(X)) / n_jobs))
                     slices = gen_even_slices(n_samples, n_batches)
-- 
2.43.0


From a4530e9ba8cc313f55f9199083da909b39a38474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:19 +0000
Subject: [PATCH 11/25] fix: SubgradientLatentSSVM compared labels with latent
 states

model.loss of a latent model expects latent states for both arguments; the
objective, parallel training and score passed the observed labels.
---
 pystruct/learners/subgradient_latent_ssvm.py | 8 ++------
 pystruct/utils/inference.py                  | 2 +-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 55b7e9b..d8a09f0 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -262,12 +262,8 @@ class SubgradientLatentSSVM(SubgradientSSVM):
         score : float
             Average of 1 - loss over training examples.
         """
-        if hasattr(self.model, 'batch_loss'):
-            losses = self.model.batch_loss(
-                Y, self.model.batch_inference(X, self.w))
-        else:
-            losses = [self.model.loss(y, self.model.inference(y, self.w))
-                      for y, y_pred in zip(Y, self.predict(X))]
+        losses = [self.model.base_loss(y, y_pred)
+                  for y, y_pred in zip(Y, self.predict(X))]
         max_losses = [self.model.max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
diff --git a/pystruct/utils/inference.py b/pystruct/utils/inference.py
index 9265d99..f30eee5 100644
--- a/pystruct/utils/inference.py
+++ b/pystruct/utils/inference.py
@@ -95,7 +95,7 @@ def find_constraint_latent(model, x, y, w, relaxed=True):
     joint_feature = model.joint_feature
     delta_joint_feature = joint_feature(x, h) - joint_feature(x, h_hat)
 
-    loss = model.loss(y, h_hat)
+    loss = model.loss(h, h_hat)
     slack = max(loss - np.dot(w, delta_joint_feature), 0)
     return h_hat, delta_joint_feature, slack, loss
 
-- 
2.43.0


From a1c73184ef316424584c4aae0457e79f8fb0bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 12/25] fix: timestamps_ after a warm start

Warm-started SubgradientSSVM turned timestamps_ into large negative numbers;
the cutting plane solvers counted the time between the fits.
---
 pystruct/learners/n_slack_ssvm.py            | 3 +++
 pystruct/learners/one_slack_ssvm.py          | 4 ++++
 pystruct/learners/subgradient_latent_ssvm.py | 2 +-
 pystruct/learners/subgradient_ssvm.py        | 5 +++--
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 63ccd0d..ec3027e 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -277,6 +277,9 @@ class NSlackSSVM(BaseSSVM):
             self.objective_curve_ = []
             self.primal_objective_curve_ = []
             self.timestamps_ = [time()]
+        elif len(self.timestamps_) > 1:
+            # continue counting training time where we stopped
+            self.timestamps_[0] = time() - self.timestamps_[-1]
         if constraints is None:
             # fresh start
             constraints = [[] for i in range(n_samples)]
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index d716da7..8a9e46b 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -466,6 +466,10 @@ class OneSlackSSVM(BaseSSVM):
         else:
             constraints = self.constraints_
 
+        if warm_start and len(self.timestamps_) > 1:
+            # continue counting training time where we stopped
+            self.timestamps_[0] = time() - self.timestamps_[-1]
+
         # dual objective of the constraints we start from
         if warm_start and warm_start != "soft" and self.objective_curve_:
             objective = self.objective_curve_[-1]
diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index d8a09f0..7000d4e 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -142,7 +142,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
                 self.learning_rate_ = self.C * len(X)
             else:
                 self.learning_rate_ = self.learning_rate
-        else:
+        elif len(self.timestamps_) > 1:
             # hackety hack
             self.timestamps_[0] = time() - self.timestamps_[-1]
         w = self.w.copy()
diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index ed4ce46..e1b7f79 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -188,8 +188,9 @@ class SubgradientSSVM(BaseSSVM):
                 self.learning_rate_ = self.C * len(X)
             else:
                 self.learning_rate_ = self.learning_rate
-        else:
-            self.timestamps_ = (np.array(self.timestamps_) - time()).tolist()
+        elif len(self.timestamps_) > 1:
+            # continue counting training time where we stopped
+            self.timestamps_[0] = time() - self.timestamps_[-1]
         try:
             # catch ctrl+c to stop training
             for iteration in range(self.max_iter):
-- 
2.43.0


From d5e2ae2d2a98decc116c1cc9adef0985fca66a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 13/25] fix: loss_curve_ kept the entries of previous fits

---
 pystruct/learners/frankwolfe_ssvm.py         | 1 +
 pystruct/learners/n_slack_ssvm.py            | 1 +
 pystruct/learners/one_slack_ssvm.py          | 1 +
 pystruct/learners/ssvm.py                    | 5 +++++
 pystruct/learners/subgradient_latent_ssvm.py | 1 +
 pystruct/learners/subgradient_ssvm.py        | 1 +
 6 files changed, 10 insertions(+)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 542e81c..26a8875 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -297,6 +297,7 @@ class FrankWolfeSSVM(BaseSSVM):
         if initialize:
             self.model.initialize(X, Y)
         self.objective_curve_, self.primal_objective_curve_ = [], []
+        self._reset_loss_curve()
         self.timestamps_ = [time()]
         # the dual variables start at zero, so w and l have to, too
         self.w = np.zeros(self.model.size_joint_feature)
diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index ec3027e..1364ed5 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -274,6 +274,7 @@ class NSlackSSVM(BaseSSVM):
         objective = 0.
         if constraints is None or not hasattr(self, 'last_active'):
             # nothing to continue from
+            self._reset_loss_curve()
             self.objective_curve_ = []
             self.primal_objective_curve_ = []
             self.timestamps_ = [time()]
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 8a9e46b..2186ae9 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -449,6 +449,7 @@ class OneSlackSSVM(BaseSSVM):
             constraints = []
             self.objective_curve_, self.primal_objective_curve_ = [], []
             self.cached_constraint_ = []
+            self._reset_loss_curve()
             self.alphas = []  # dual solutions
             # append constraint given by ground truth to make our life easier
             constraints.append((np.zeros(self.model.size_joint_feature), 0))
diff --git a/pystruct/learners/ssvm.py b/pystruct/learners/ssvm.py
index 35a1d56..5133ece 100644
--- a/pystruct/learners/ssvm.py
+++ b/pystruct/learners/ssvm.py
@@ -83,6 +83,11 @@ class BaseSSVM(BaseEstimator):
         max_losses = [self.model.max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
+    def _reset_loss_curve(self):
+        # forget the losses of a previous fit
+        if hasattr(self, 'loss_curve_'):
+            del self.loss_curve_
+
     def _compute_training_loss(self, X, Y, iteration):
         # optionally compute training loss for output / training curve
         if (self.show_loss_every != 0
diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 7000d4e..a6ac8ec 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -138,6 +138,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
                 0, 1, size=self.model.size_joint_feature))
             self.timestamps_ = [time()]
             self.objective_curve_ = []
+            self._reset_loss_curve()
             if self.learning_rate == "auto":
                 self.learning_rate_ = self.C * len(X)
             else:
diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index e1b7f79..22f6850 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -183,6 +183,7 @@ class SubgradientSSVM(BaseSSVM):
         w = self.w.copy()
         if not warm_start:
             self.objective_curve_ = []
+            self._reset_loss_curve()
             self.timestamps_ = [time()]
             if self.learning_rate == "auto":
                 self.learning_rate_ = self.C * len(X)
-- 
2.43.0


From c8a5e949c969dc2e0b5dabcd582381968ed4c946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 14/25] fix: setting C of LatentSSVM overwrote w, and fit
 returned None

---
 pystruct/learners/latent_structured_svm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index a5c4fa3..0eb9d66 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -125,6 +125,7 @@ class LatentSSVM(BaseSSVM):
             ws.append(w)
             if self.logger is not None:
                 self.logger(self, iteration)
+        return self
 
     def predict(self, X):
         prediction = self.base_ssvm.predict(X)
@@ -179,7 +180,7 @@ class LatentSSVM(BaseSSVM):
 
     @C.setter
     def C(self, C_):
-        self.base_ssvm.w = C_
+        self.base_ssvm.C = C_
 
     @property
     def n_jobs(self):
-- 
2.43.0


From d509054d17fbd645acf074081f7b2a8c563f7914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 15/25] fix: LP inference is not thread-safe and can leave
 cvxopt silenced

The global option show_progress was saved and restored around the solver call:
two threads could restore each other's value, and an exception skipped it.
---
 pystruct/inference/linear_programming.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pystruct/inference/linear_programming.py b/pystruct/inference/linear_programming.py
index abd24b1..a041fca 100644
--- a/pystruct/inference/linear_programming.py
+++ b/pystruct/inference/linear_programming.py
@@ -85,11 +85,9 @@ def lp_general_graph(unaries, edges, edge_weights):
     b_[:n_nodes] = 1    # ones for unary summation constraints
     b = cvxopt.matrix(b_)
 
-    # don't be verbose.
-    show_progress_backup = cvxopt.solvers.options.get('show_progress', False)
-    cvxopt.solvers.options['show_progress'] = False
-    result = cvxopt.solvers.lp(c, G, h, A, b)
-    cvxopt.solvers.options['show_progress'] = show_progress_backup
+    # don't be verbose. Use a copy, as the global options are shared.
+    options = dict(cvxopt.solvers.options, show_progress=False)
+    result = cvxopt.solvers.lp(c, G, h, A, b, options=options)
 
     x = np.array(result['x'])
     unary_variables = x[:n_nodes * n_states].reshape(n_nodes, n_states)
-- 
2.43.0


From 040d7c7a9a95d5af25c7883158fe16e34f03fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 16/25] fix: learners changed cvxopt's global options

Fitting a cutting plane learner left feastol and show_progress changed for
every other user of cvxopt in the process, including LP inference.
---
 pystruct/learners/n_slack_ssvm.py   | 8 ++++----
 pystruct/learners/one_slack_ssvm.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 1364ed5..2bbab94 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -173,16 +173,17 @@ class NSlackSSVM(BaseSSVM):
         h = cvxopt.matrix(np.hstack((tmp1, tmp2, zero_constr)))
 
         # solve QP model
-        cvxopt.solvers.options['feastol'] = 1e-5
+        options = dict(cvxopt.solvers.options, feastol=1e-5,
+                       show_progress=self.verbose > 3)
         try:
-            solution = cvxopt.solvers.qp(P, q, G, h)
+            solution = cvxopt.solvers.qp(P, q, G, h, options=options)
         except ValueError:
             solution = {'status': 'error'}
         if solution['status'] != "optimal":
             print("regularizing QP!")
             P = cvxopt.matrix(np.dot(joint_feature_matrix, joint_feature_matrix.T)
                               + 1e-8 * np.eye(joint_feature_matrix.shape[0]))
-            solution = cvxopt.solvers.qp(P, q, G, h)
+            solution = cvxopt.solvers.qp(P, q, G, h, options=options)
             if solution['status'] != "optimal":
                 raise ValueError("QP solver failed. Try regularizing your QP.")
 
@@ -264,7 +265,6 @@ class NSlackSSVM(BaseSSVM):
         """
         if self.verbose:
             print("Training n-slack dual structural SVM")
-        cvxopt.solvers.options['show_progress'] = self.verbose > 3
         if initialize:
             self.model.initialize(X, Y)
         self.w = np.zeros(self.model.size_joint_feature)
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 2186ae9..72115d8 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -187,16 +187,17 @@ class OneSlackSSVM(BaseSSVM):
         b = cvxopt.matrix([C])
 
         # solve QP model
-        cvxopt.solvers.options['feastol'] = 1e-5
+        options = dict(cvxopt.solvers.options, feastol=1e-5,
+                       show_progress=self.verbose > 3)
         try:
-            solution = cvxopt.solvers.qp(P, q, G, h, A, b)
+            solution = cvxopt.solvers.qp(P, q, G, h, A, b, options=options)
         except ValueError:
             solution = {'status': 'error'}
         if solution['status'] != "optimal":
             print("regularizing QP!")
             P = cvxopt.matrix(np.dot(joint_feature_matrix, joint_feature_matrix.T)
                               + 1e-8 * np.eye(joint_feature_matrix.shape[0]))
-            solution = cvxopt.solvers.qp(P, q, G, h, A, b)
+            solution = cvxopt.solvers.qp(P, q, G, h, A, b, options=options)
             if solution['status'] != "optimal":
                 raise ValueError("QP solver failed. Try regularizing your QP.")
 
@@ -434,7 +435,6 @@ class OneSlackSSVM(BaseSSVM):
         """
         if self.verbose:
             print("Training 1-slack dual structural SVM")
-        cvxopt.solvers.options['show_progress'] = self.verbose > 3
         if initialize:
             self.model.initialize(X, Y)
 
-- 
2.43.0


From 43d27e7ce1dad0ec96c4f035aa5c626d70dc748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 17/25] fix: BinaryClf.loss_augmented_inference returned label
 0 on ties

With a score exactly on the margin np.sign gives 0, which is no label and
made joint_feature raise during training (seen with FrankWolfeSSVM).
---
 pystruct/models/unstructured_svm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index d3c1451..878d6fb 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -121,10 +121,11 @@ class BinaryClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
-        return np.sign(np.dot(x, w) - y)
+        # not np.sign: a score exactly on the margin is no third label
+        return 2 * (np.dot(x, w) - y >= 0) - 1
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
-        return np.sign(np.dot(X, w) - Y)
+        return 2 * (np.dot(X, w) - Y >= 0) - 1
 
     def batch_loss(self, Y, Y_hat):
         return Y != Y_hat
-- 
2.43.0


From 9ebbd35039aaaa8a4eab1bfb0927c05a5bea977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 18/25] fix: SubgradientSSVM mini-batches with rescale_C models
 raised ValueError

---
 pystruct/learners/subgradient_ssvm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index 22f6850..0bd4ba5 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -303,8 +303,14 @@ class SubgradientSSVM(BaseSSVM):
                 Y_b = Y[batch]
                 Y_hat = self.model.batch_loss_augmented_inference(
                     X_b, Y_b, w, relaxed=True)
-                delta_joint_feature = (self.model.batch_joint_feature(X_b, Y_b)
-                                       - self.model.batch_joint_feature(X_b, Y_hat))
+                if getattr(self.model, 'rescale_C', False):
+                    delta_joint_feature = (
+                        self.model.batch_joint_feature(X_b, Y_b, Y_b)
+                        - self.model.batch_joint_feature(X_b, Y_hat, Y_b))
+                else:
+                    delta_joint_feature = (
+                        self.model.batch_joint_feature(X_b, Y_b)
+                        - self.model.batch_joint_feature(X_b, Y_hat))
                 loss = np.sum(self.model.batch_loss(Y_b, Y_hat))
 
                 violation = np.maximum(0, loss - np.dot(w, delta_joint_feature))
-- 
2.43.0


From ac5d1844054780815729ed79ee0b118f625d0dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 19/25] fix: training on read-only (memory-mapped) data raised
 ValueError

joblib hands large arrays to its workers as read-only memory maps; the Cython
helpers only take writable buffers.
---
 pystruct/models/crf.py                              | 6 ++++--
 pystruct/models/node_type_edge_feature_graph_crf.py | 3 ++-
 pystruct/models/unstructured_svm.py                 | 5 ++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index ba46682..51ae0c0 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -56,8 +56,10 @@ class CRF(StructuredModel):
         """
         we define it as a method so that subclasses can specialize it.
         """
-        loss_augment_unaries(unary_potentials, np.asarray(y),
-                             self.class_weight)
+        # the data is read-only when joblib maps it into a worker's memory,
+        # which the Cython buffers don't accept
+        loss_augment_unaries(unary_potentials, np.require(y, requirements="W"),
+                             np.require(self.class_weight, requirements="W"))
 
     def loss_augmented_inference(self, x, y, w, relaxed=False,
                                  return_energy=False):
diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index de1e770..ebaeea7 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -436,5 +436,6 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
             n_y = unary_potentials.shape[0]
             # label 0 must correspond to 1st weight
             y_typ = a_y[i_start:i_start+n_y] - self._l_type_startindex[typ]
-            loss_augment_unaries(unary_potentials, y_typ, class_weight)
+            loss_augment_unaries(unary_potentials, y_typ,
+                                 np.require(class_weight, requirements="W"))
             i_start += n_y
diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 878d6fb..58a2ed7 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -248,7 +248,10 @@ class MultiClassClf(StructuredModel):
             # implementation
             assert(X.shape[0] == Y.shape[0])
             assert(X.shape[1] == self.n_features)
-            crammer_singer_joint_feature(X, Y, result)
+            # Cython buffers have to be writable, memory-mapped data is not
+            crammer_singer_joint_feature(np.require(X, requirements="W"),
+                                         np.require(Y, requirements="W"),
+                                         result)
         return result.ravel()
 
     def inference(self, x, w, relaxed=None, return_energy=False):
-- 
2.43.0


From ab992400bc39538ff009d5138aa359d71035686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 20/25] fix: OneSlackSSVM with n_jobs > 1 and MultiClassClf
 raised AttributeError

---
 pystruct/models/unstructured_svm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 58a2ed7..6e700d9 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -234,6 +234,8 @@ class MultiClassClf(StructuredModel):
         return result.ravel()
 
     def batch_joint_feature(self, X, Y, Y_true=None):
+        # parallel inference gives a list of labels
+        Y = np.asarray(Y)
         result = np.zeros((self.n_states, self.n_features))
         if self.rescale_C:
             if Y_true is None:
-- 
2.43.0


From 42d106f049b9bccf238b280e5b8c345d2ac16112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:14 +0000
Subject: [PATCH 21/25] fix: generate_bars crashed when label 1 did not occur

For some seeds every bar is vertical, so that Y contains the labels 0 and 2
only; the number of classes was then taken to be two, and building X raised
IndexError.
---
 pystruct/datasets/synthetic_grids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/datasets/synthetic_grids.py b/pystruct/datasets/synthetic_grids.py
index 2bc4008..f7bc8fe 100644
--- a/pystruct/datasets/synthetic_grids.py
+++ b/pystruct/datasets/synthetic_grids.py
@@ -115,7 +115,8 @@ def generate_bars(n_samples=5, noise=5, bars_size=3, total_size=8,
                     Y[i, t, l:l + bars_size] = 1
 
     Y_flips = Y.copy()
-    n_classes = len(np.unique(Y))
+    # a label may be missing from Y, but not from the range of labels
+    n_classes = Y.max() + 1
     for y in Y_flips:
         flips = np.random.randint(total_size, size=[noise, 2])
         y[flips[:, 0], flips[:, 1]] = np.random.randint(n_classes, size=noise)
-- 
2.43.0


From 728bdbb8e601bf27327bb86386113c1f579c4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:59 +0000
Subject: [PATCH 22/25] fix: setInferenceException had no effect

TypedCRF stored the flag, but nobody passed it on to the inference.
---
 pystruct/models/crf.py       | 13 ++++++++++---
 pystruct/models/typed_crf.py |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index 51ae0c0..c975dd9 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -117,7 +117,12 @@ class CRF(StructuredModel):
 
         return inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                   self.inference_method, relaxed=relaxed,
-                                  return_energy=return_energy)
+                                  return_energy=return_energy,
+                                  **self._get_inference_kwargs())
+
+    def _get_inference_kwargs(self):
+        # additional arguments for the inference method
+        return {}
 
     def inference(self, x, w, relaxed=False, return_energy=False,
                   constraints=None):
@@ -176,10 +181,12 @@ class CRF(StructuredModel):
                                       self.inference_method,
                                       relaxed=relaxed,
                                       return_energy=return_energy,
-                                      constraints=constraints)
+                                      constraints=constraints,
+                                      **self._get_inference_kwargs())
         else:
             return inference_dispatch(unary_potentials, pairwise_potentials,
                                       edges,
                                       self.inference_method,
                                       relaxed=relaxed,
-                                      return_energy=return_energy)
+                                      return_energy=return_energy,
+                                      **self._get_inference_kwargs())
diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 1c0d940..a7d9ce0 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -169,6 +169,9 @@ class TypedCRF(CRF):
         self.inference_exception = bRaiseExceptionWhenInferenceNotSuccessful
         return self.inference_exception
 
+    def _get_inference_kwargs(self):
+        return {'inference_exception': self.inference_exception}
+
     # -------------- INTERNAL STUFF --------------------------
     def _set_size_joint_feature(self):
         """
-- 
2.43.0


From 8bf4d118446189ebe812c3439489fd04106544f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:04 +0000
Subject: [PATCH 23/25] fix: NSlackSSVM compared typed marginals as plain
 arrays

Relaxed inference on a graph with several node types answers with one array
of marginals per type; comparing two such lists raised ValueError.
---
 pystruct/learners/n_slack_ssvm.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 2bbab94..a4212d1 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -204,14 +204,22 @@ class NSlackSSVM(BaseSSVM):
         self.w = np.dot(a, joint_feature_matrix)
         return -solution['primal objective']
 
+    def _same_labeling(self, y, y_old):
+        if isinstance(y, list) or isinstance(y_old, list):
+            # marginals of a graph with several node types: one array per type
+            return (isinstance(y, list) and isinstance(y_old, list)
+                    and all(np.array_equal(marg, marg_old)
+                            for marg, marg_old in zip(y, y_old)))
+        return np.all(y == y_old)
+
     def _check_bad_constraint(self, y_hat, slack, old_constraints):
         if slack < 1e-5:
             return True
         y_hat_plain = unwrap_pairwise(y_hat)
 
         already_active = np.any([True for y__, _, _ in old_constraints
-                                 if np.all(y_hat_plain ==
-                                           unwrap_pairwise(y__))])
+                                 if self._same_labeling(y_hat_plain,
+                                                        unwrap_pairwise(y__))])
         if already_active:
             return True
 
-- 
2.43.0


From e3c0ad7ae89b55106efd62fefed17c2f38d712ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 24/25] fix: keep OneSlackSSVM's constraints and solution in
 step when it is stopped at any line

---
 pystruct/learners/one_slack_ssvm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 72115d8..35bb699 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -204,6 +204,8 @@ class OneSlackSSVM(BaseSSVM):
         # Lagrange multipliers
         a = np.ravel(solution['x'])
         self.old_solution = solution
+        # when we are stopped while pruning, w is up to date already
+        self.w = np.dot(a, joint_feature_matrix)
         self.prune_constraints(constraints, a)
 
         # Support vectors have non zero lagrange multipliers
@@ -211,7 +213,6 @@ class OneSlackSSVM(BaseSSVM):
         if self.verbose > 1:
             print("%d support vectors out of %d points" % (np.sum(sv),
                                                            n_constraints))
-        self.w = np.dot(a, joint_feature_matrix)
         # we needed to flip the sign to make the dual into a minimization
         # model
         return -solution['primal objective']
@@ -236,8 +237,8 @@ class OneSlackSSVM(BaseSSVM):
 
             for idx in reversed(inactive):
                 # if we don't reverse, we'll mess the indices up
-                del constraints[idx]
                 del self.alphas[idx]
+                del constraints[idx]
 
     def _check_bad_constraint(self, violation, djoint_feature_mean, loss,
                               old_constraints, break_on_bad, tol=None):
@@ -522,7 +523,6 @@ class OneSlackSSVM(BaseSSVM):
 
                 self.timestamps_.append(time() - self.timestamps_[0])
                 self._compute_training_loss(X, Y, iteration)
-                constraints.append((djoint_feature, loss_mean))
 
                 # compute primal objective
                 last_slack = -np.dot(self.w, djoint_feature) + loss_mean
@@ -531,6 +531,7 @@ class OneSlackSSVM(BaseSSVM):
                                     + np.sum(self.w ** 2) / 2)
 
                 try:
+                    constraints.append((djoint_feature, loss_mean))
                     objective = self._solve_1_slack_qp(constraints,
                                                        n_samples=len(X))
                 finally:
-- 
2.43.0


From 9965a3ed7387c497c95591f913dbe7bd58e3013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 25/25] fix: plot_learning works for all learners and from the
 first iteration on

The perceptron has no objective_curve_, a checkpoint of the first iteration (or
a training stopped in it) has a single entry and made inds[-1] fail, and the
training error was never aligned with time when max_iter was a multiple of
show_loss_every.
---
 pystruct/plot_learning.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pystruct/plot_learning.py b/pystruct/plot_learning.py
index 4f69a0a..a5e0c5b 100755
--- a/pystruct/plot_learning.py
+++ b/pystruct/plot_learning.py
@@ -43,14 +43,19 @@ def plot_learning(ssvm, time=True):
     print(ssvm)
     if hasattr(ssvm, 'base_ssvm'):
         ssvm = ssvm.base_ssvm
-    print("Iterations: %d" % len(ssvm.objective_curve_))
-    print("Objective: %f" % ssvm.objective_curve_[-1])
+    # not all learners have an objective, and it might not have been computed
+    objective_curve = getattr(ssvm, 'objective_curve_', [])
+    n_entries = len(objective_curve)
+    print("Iterations: %d" % n_entries)
+    if n_entries:
+        print("Objective: %f" % objective_curve[-1])
     inference_run = None
     if hasattr(ssvm, 'cached_constraint_'):
-        inference_run = ~np.array(ssvm.cached_constraint_)
-        print("Gap: %f" %
-              (np.array(ssvm.primal_objective_curve_)[inference_run][-1] -
-               ssvm.objective_curve_[-1]))
+        inference_run = ~np.array(ssvm.cached_constraint_, dtype=bool)
+        if inference_run.any():
+            print("Gap: %f" %
+                  (np.array(ssvm.primal_objective_curve_)[inference_run][-1] -
+                   objective_curve[-1]))
     if hasattr(ssvm, "loss_curve_"):
         n_plots = 2
         fig, axes = plt.subplots(1, 2)
@@ -60,23 +65,23 @@ def plot_learning(ssvm, time=True):
         axes = [axes]
     if time and hasattr(ssvm, 'timestamps_'):
         print("loading timestamps")
-        inds = np.array(ssvm.timestamps_)
-        inds = inds[2:len(ssvm.objective_curve_) + 1] / 60.
-        inds = np.hstack([inds, [inds[-1]]])
+        # an entry is plotted at the next time stamp, if there is one
+        inds = np.array(ssvm.timestamps_[1:]) / 60.
+        inds = inds[np.minimum(np.arange(n_entries) + 1, len(inds) - 1)]
         axes[0].set_xlabel('training time (min)')
     else:
-        inds = np.arange(len(ssvm.objective_curve_))
+        inds = np.arange(n_entries)
         axes[0].set_xlabel('QP iterations')
 
     axes[0].set_title("Objective")
-    axes[0].plot(inds, ssvm.objective_curve_, label="dual")
+    axes[0].plot(inds, objective_curve, label="dual")
     axes[0].set_yscale('log')
     if hasattr(ssvm, "primal_objective_curve_"):
         axes[0].plot(inds, ssvm.primal_objective_curve_,
                      label="cached primal" if inference_run is not None
                      else "primal")
     if inference_run is not None:
-        inference_run = inference_run[:len(ssvm.objective_curve_)]
+        inference_run = inference_run[:n_entries]
         axes[0].plot(inds[inference_run],
                      np.array(ssvm.primal_objective_curve_)[inference_run],
                      'o', label="primal")
@@ -88,7 +93,8 @@ def plot_learning(ssvm, time=True):
             axes[1].set_xlabel('QP iterations')
 
         try:
-            axes[1].plot(inds[::ssvm.show_loss_every], ssvm.loss_curve_)
+            loss_inds = inds[::ssvm.show_loss_every]
+            axes[1].plot(loss_inds[:len(ssvm.loss_curve_)], ssvm.loss_curve_)
         except:
             axes[1].plot(ssvm.loss_curve_)
 
-- 
2.43.0

