From e50638b7afa00d8062b192a71bc68fa0ddef1bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:23 +0000
Subject: [PATCH 01/33] fix: normalise the inner average per sample when the
 dual loss is summed

With reduction='sum' the log of the number of zeta samples was substracted
once for the whole batch instead of once per xi, so the summed loss was not
the sum of the per-sample log-average-exp terms.
---
 skwdro/solvers/_dual_interfaces/dual_loss.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/dual_loss.py b/skwdro/solvers/_dual_interfaces/dual_loss.py
index 0270bf1..ebbff87 100644
--- a/skwdro/solvers/_dual_interfaces/dual_loss.py
+++ b/skwdro/solvers/_dual_interfaces/dual_loss.py
@@ -1,3 +1,4 @@
+import math
 from typing import Optional
 
 import torch as pt
@@ -126,10 +127,11 @@ class _DualFormulation(_SampleDisplacer):
                 integrand /= self.epsilon  # -> (n_samples, m, 1)
 
             # Expectation on the zeta samples (collapse 1st dim)
+            # The log of the number of samples is substracted for each xi, before
+            # the outer reduction
             second_term = self.reduce_loss_batch(
-                pt.logsumexp(integrand, 0)
-            )  # -> (m, 1)
-            second_term -= pt.log(pt.tensor(zeta.size(0)))  # -> (m, 1)
+                pt.logsumexp(integrand, 0) - math.log(zeta.size(0))
+            )  # (m, 1) -> reduced
             return first_term + self.epsilon * second_term  # (1,)
         elif self.rho.isnan().any():
             return pt.tensor(pt.nan, requires_grad=True)
-- 
2.43.0


From fd0ae3a45845dba3287068eff8547f11a9a9359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:23 +0000
Subject: [PATCH 02/33] fix: evaluate the presampled dual loss at rho=0 with
 stored samples

The forward pass reusing the stored zeta samples fed a 3D batch of losses to
the reduction and failed its shape assertion.
---
 skwdro/solvers/oracle_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 0fd4ec4..d56b032 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -526,7 +526,7 @@ class DualPreSampledLoss(_DualLoss):
                         # (1, m, d') or None
                         xi_labels.unsqueeze(0) if xi_labels is not None else None
                     )  # (1, m, 1)
-                    primal_loss = self.reduce_loss_batch(batched_pl)
+                    primal_loss = self.reduce_loss_batch(batched_pl.squeeze(0))
                     return first_term + primal_loss
                 else:
                     # Reuse the same samples as last forward pass
-- 
2.43.0


From 148d6d34f849e84dc0b2ff1a027f9894bb5d8644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:37 +0000
Subject: [PATCH 03/33] fix: snapshot the monitored parameters in the
 optimality conditions

The dual multiplier was remembered by reference, so its progress between two
iterations was always measured as zero. The remembered model parameters also
kept their autograd graph alive, which made used conditions impossible to
deepcopy (hence to clone estimators).
---
 skwdro/solvers/optim_cond.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index ac34ee9..3deecee 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -141,13 +141,14 @@ class OptCondTorch:
         )
 
         def flattheta() -> pt.Tensor:
-            return self.get_flat_param(dual_loss.primal_loss)
+            return self.get_flat_param(dual_loss.primal_loss).detach()
 
         def flatgrad() -> pt.Tensor:
             return self.get_flat_grad(dual_loss.primal_loss)
 
         def lam() -> pt.Tensor:
-            return dual_loss.lam
+            # The parameter is updated in place, so snapshot its value
+            return dual_loss.lam.detach().clone()
 
         def lamgrad() -> pt.Tensor:
             return maybe_flatten_grad_else_raise(dual_loss._lam)
-- 
2.43.0


From 0d91edbeb9f31d10e04b56ad871b9667f49081e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:06 +0000
Subject: [PATCH 04/33] fix: draw the initial parameters of the entropic
 solvers from random_state

The models were initialised from the global torch generator before it was
seeded by the sampler, so two fits of the same estimator on the same data gave
different results.
---
 skwdro/linear_models/_linear_regression.py   | 3 +++
 skwdro/linear_models/_logistic_regression.py | 3 +++
 skwdro/operations_research/_newsvendor.py    | 3 +++
 skwdro/operations_research/_portfolio.py     | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 7656530..4f88905 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -179,6 +179,9 @@ class LinearRegression(BaseEstimator, RegressorMixin):
                 self.opt_cond = OptCondTorch(2)
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
+            if self.random_state is not None:
+                # Make the initial parameters a function of the random state
+                pt.manual_seed(self.random_state)
             _wdro_loss = dualize_primal_loss(
                 nn.MSELoss(reduction="none"),
                 nn.Linear(d, 1),
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 0283a74..d87b454 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -269,6 +269,9 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             loss = (
                 BiDiffSoftMarginLoss if _bilat else nn.CrossEntropyLoss
             )(reduction='none')
+            if self.random_state is not None:
+                # Make the initial parameters a function of the random state
+                pt.manual_seed(self.random_state)
             self.wdro_loss_ = dualize_primal_loss(
                 loss,
                 nn.Linear(
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 28dd544..cdeac5e 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -155,6 +155,9 @@ class NewsVendor(BaseEstimator):
             if self.opt_cond is None:
                 self.opt_cond = OptCondTorch(2)
 
+            if self.random_state is not None:
+                # Make the initial parameters a function of the random state
+                pt.manual_seed(self.random_state)
             self._wdro_loss = dualize_primal_loss(
                 CustomNewsvendorLoss(self.k, self.u),
                 None,
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 612e549..a5a7419 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -216,6 +216,9 @@ class Portfolio(BaseEstimator):
             if self.opt_cond is None:
                 self.opt_cond = OptCondTorch(2)
 
+            if self.random_state is not None:
+                # Make the initial parameters a function of the random state
+                pt.manual_seed(self.random_state)
             self._wdro_loss = dualize_primal_loss(
                 SimplePortfolio(m, risk_aversion=self.eta_,
                                 risk_level=self.alpha_),
-- 
2.43.0


From f3441a34e650e200ba351908d515fd808b467838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:05 +0000
Subject: [PATCH 05/33] fix: forget the optimality conditions' memory between
 solves

A condition instance shared by several fits (such as the default argument of
the estimators) kept the reference gradients and parameters of the first one,
so the stopping iteration of a fit depended on the fits made before it.
---
 skwdro/solvers/entropic_dual_torch.py |  2 ++
 skwdro/solvers/optim_cond.py          | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 92999c2..082e660 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -97,6 +97,8 @@ def solve_dual_wdro(loss: _DualLoss, p_hat: Distribution, opt: OptCondTorch):
     optim_ = optim_presample if loss.presample else optim_postsample
 
     opt_cond: OptCondTorch = opt
+    # The same instance may be shared between solves (e.g. default arguments)
+    opt_cond.reset()
 
     losses = optim_(optimizer, xi, xi_labels, loss, opt_cond)
     theta = detach_tensor(loss.theta)
diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index 3deecee..0a29acb 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -118,6 +118,16 @@ class OptCondTorch:
         self.delta_l_1: Optional[pt.Tensor] = None
         self.delta_t_1: Optional[pt.Tensor] = None
 
+    def reset(self) -> None:
+        r"""
+        Forgets everything remembered from previous iterations, to monitor a new
+        optimization run.
+        """
+        self.l_mem = self.t_mem = None
+        self.l_0 = self.t_0 = None
+        self.l_grad_0 = self.t_grad_0 = None
+        self.delta_l_1 = self.delta_t_1 = None
+
     def __call__(self, dual_loss: BaseDualLoss, it_number: int) -> bool:
         r"""
         This object can be called on a dual loss object to check its current
-- 
2.43.0


From c7379b5676cbed354301e2a786b213c96d238858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:21 +0000
Subject: [PATCH 06/33] fix: honour fit_intercept=False in the entropic linear
 regression

The model always had a bias, whatever the value of fit_intercept. Without
intercept, intercept_ is now zero as for the dedicated solver.
---
 skwdro/linear_models/_linear_regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 4f88905..e3b9c06 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -184,7 +184,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
                 pt.manual_seed(self.random_state)
             _wdro_loss = dualize_primal_loss(
                 nn.MSELoss(reduction="none"),
-                nn.Linear(d, 1),
+                nn.Linear(d, 1, bias=self.fit_intercept),
                 pt.tensor(self.rho),
                 pt.Tensor(emp.samples_x),
                 pt.Tensor(emp.samples_y),
@@ -210,6 +210,8 @@ class LinearRegression(BaseEstimator, RegressorMixin):
                 _wdro_loss.primal_loss.transform.weight)  # type: ignore
             self.intercept_ = maybe_detach_tensor(
                 _wdro_loss.primal_loss.transform.bias)  # type: ignore
+            if self.intercept_ is None:
+                self.intercept_ = np.zeros(1)
         elif self.solver == "dedicated":
             self.coef_, self.intercept_, self.dual_var_ = spS.WDROLinRegSpecificSolver(
                 rho=self.rho,
-- 
2.43.0


From 75646d9aef0ca3bc880b4d4199b2ed0cebb7ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:27 +0000
Subject: [PATCH 07/33] fix: return valid class probabilities and labels from
 LogisticRegression

predict_proba failed without intercept, returned a (1, 2n) array for a single
feature, and returned raw logits in the multiclass case. predict returned a
column in the multiclass case instead of the documented (n_samples,) shape.
---
 skwdro/linear_models/_logistic_regression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index d87b454..4b1796c 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -314,7 +314,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                 .weight
                 .detach()
                 .cpu()
-                .squeeze()
+                .squeeze(0)
                 .numpy()
             )
 
@@ -386,12 +386,12 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
         X = check_array(X)
 
         if not hasattr(self, "wdro_loss_") or len(self.classes_) <= 2:
-            p = expit(X.dot(self.coef_) + self.intercept_)
+            p = self.predict_proba_2Class(X)
             return np.vstack((1 - p, p)).T
         else:
             return self.wdro_loss_.primal_loss.transform(
                 pt.from_numpy(X).to(self.wdro_loss_.rho)
-            ).detach().cpu().numpy()
+            ).softmax(dim=-1).detach().cpu().numpy()
 
     def predict(self, X):
         """ Robust prediction.
@@ -422,7 +422,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             _p = proba >= np.max(proba, axis=1, keepdims=True)
             out = self.le_.inverse_transform(
                 _p.astype('uint8')
-            )
+            ).ravel()
         else:
             raise ValueError(
                 "The label encoder type {type(self.le_)} is not supported."
-- 
2.43.0


From d0a377be1acedafc6dadba6df5ade5e26b85dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:45 +0000
Subject: [PATCH 08/33] fix: stop swapping the pre and post sampling solvers of
 Portfolio

solver='entropic_torch_post' built a pre-sampled dual loss, and
solver='entropic_torch_pre' a post-sampled one.
---
 skwdro/operations_research/_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index a5a7419..6606573 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -226,7 +226,7 @@ class Portfolio(BaseEstimator):
                 pt.tensor(self.rho_),
                 pt.Tensor(emp.samples),
                 None,
-                "post" not in self.solver,
+                "pre" not in self.solver,
                 self.cost,
                 self.n_zeta_samples,
                 self.random_state,
-- 
2.43.0


From 8bf682022b969f5c4658d4f65816921855e08fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:45 +0000
Subject: [PATCH 09/33] fix: use the dual of the ground norm in the dedicated
 portfolio solver

The dual norm was deduced from the power of the transport cost instead of the
type of its norm, e.g. 't-NC-1-2' was solved with the l1 norm.
---
 skwdro/operations_research/_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 6606573..271b969 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -174,7 +174,7 @@ class Portfolio(BaseEstimator):
         emp = EmpiricalDistributionWithoutLabels(m=N, samples=X)
 
         self.cost_ = cost_from_str(self.cost)  # NormCost(1, 1., "L1 cost")
-        p = self.cost_.power
+        p = self.cost_.p
 
         # Setup values C and d that define the polyhedron of xi_maj
         if (self.C is None or self.d is None):
-- 
2.43.0


From 2f3c7c413f78e34a12ee6f5da3f125103cb55b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:45 +0000
Subject: [PATCH 10/33] fix: let entropic Portfolio estimators score double
 precision data

The data were forwarded to the single precision model without conversion, so
eval and score failed on the default numpy floating point type.
---
 skwdro/operations_research/_portfolio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 271b969..5b7acaa 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -289,7 +289,9 @@ class Portfolio(BaseEstimator):
         assert self.is_fitted_  # We have to fit before evaluating
 
         if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+            return self._wdro_loss.primal_loss.forward(
+                pt.from_numpy(X).to(self._wdro_loss.rho)
+            ).mean()
         elif self.solver == "dedicated":
             return -np.mean(X, axis=0) @ self.coef_
         else:
-- 
2.43.0


From 6640619d5cca66fe6e369f278b3c0fb6d9c88a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:06 +0000
Subject: [PATCH 11/33] fix: let Weber estimators be evaluated and scored

The evaluation never handed the weights of the samples to the loss, which
requires them, so eval and score always failed.
---
 skwdro/operations_research/_weber.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index 2bfe8cd..3f36a31 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -174,13 +174,12 @@ class Weber(BaseEstimator):
         ----------
         X : array-like, shape (n_samples_test,m)
             The testing input samples.
-        y : None
-            The prediction. Always None for a Portfolio estimator.
+        y : array-like, shape (n_samples_test,), optional
+            The weights of the testing samples (uniform by default).
         '''
-        del y
-        return -self.eval(X)
+        return -self.eval(X, y)
 
-    def eval(self, X):
+    def eval(self, X, y=None):
         '''
         Evaluates the loss with the theta obtained from the fit function.
 
@@ -188,15 +187,21 @@ class Weber(BaseEstimator):
         ----------
         X : array-like, shape (n_samples_test,m)
             The testing input samples.
+        y : array-like, shape (n_samples_test,), optional
+            The weights of the testing samples (uniform by default).
         '''
 
         # Check that X has correct shape
         X = check_array(X)
+        y = np.ones(len(X)) if y is None else np.asarray(y)
 
         assert self.is_fitted_  # We have to fit before evaluating
 
         if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+            return self._wdro_loss.primal_loss.forward(
+                pt.from_numpy(X).to(self._wdro_loss.rho),
+                pt.from_numpy(y).to(self._wdro_loss.rho).reshape(-1, 1)
+            ).mean()
         elif self.solver == "dedicated":
             return -np.mean(X, axis=0) @ self.coef_
         else:
-- 
2.43.0


From 28f252073ff8f93bd016eb5f8426ff1d4b7ba104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:57 +0000
Subject: [PATCH 12/33] fix: recentre the labelled samplers' densities for
 importance sampling

The log-density of the displaced reference distribution ignored its new centre
for samplers with labels, so the importance sampling correction vanished and
the robust loss was biased.
---
 skwdro/base/samplers/torch/base_samplers.py   | 11 +++++++---
 skwdro/base/samplers/torch/classif_sampler.py | 21 +++++++++++++++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/skwdro/base/samplers/torch/base_samplers.py b/skwdro/base/samplers/torch/base_samplers.py
index d354928..2427861 100644
--- a/skwdro/base/samplers/torch/base_samplers.py
+++ b/skwdro/base/samplers/torch/base_samplers.py
@@ -213,9 +213,14 @@ class LabeledSampler(BaseSampler, ABC):
             zeta_labels: Optional[pt.Tensor]
     ) -> pt.Tensor:
         assert zeta_labels is not None and xi_labels is not None
-        # TODO: FIX
-        lp_zeta = self._format_logprobs(self.data_s, zeta)
-        lp_zeta_labels = self._format_logprobs(self.labels_s, zeta_labels)
+        lp_zeta = self._format_logprobs(
+            self.data_s, zeta - xi + self.data_s.mean
+        )
+        labels_mean = self.labels_s.mean
+        lp_zeta_labels = self._format_logprobs(
+            self.labels_s,
+            zeta_labels - xi_labels.reshape(-1, *labels_mean.size()) + labels_mean
+        )
         lp = lp_zeta + lp_zeta_labels
         return lp
 
diff --git a/skwdro/base/samplers/torch/classif_sampler.py b/skwdro/base/samplers/torch/classif_sampler.py
index 2766e9b..5a57627 100644
--- a/skwdro/base/samplers/torch/classif_sampler.py
+++ b/skwdro/base/samplers/torch/classif_sampler.py
@@ -214,6 +214,27 @@ class ClassificationNormalBernouilliSampler(LabeledSampler, IsOptionalCovariance
         assert isinstance(zeta_labels, pt.Tensor)
         return zeta_labels
 
+    def log_prob_recentered(
+        self,
+        xi: pt.Tensor,
+        xi_labels: Optional[pt.Tensor],
+        zeta: pt.Tensor,
+        zeta_labels: Optional[pt.Tensor]
+    ) -> pt.Tensor:
+        """
+        Overrides the translation of the labels, because the switching labels
+        take their values in :math:`\\{-y, y\\}`.
+        """
+        assert zeta_labels is not None and xi_labels is not None
+        recentered_labels = dst.TransformedDistribution(
+            self.labels_s.base_dist,
+            dst.transforms.AffineTransform(loc=-xi_labels, scale=2 * xi_labels)
+        )
+        lp_zeta = self._format_logprobs(
+            self.data_s, zeta - xi + self.data_s.mean
+        )
+        return lp_zeta + self._format_logprobs(recentered_labels, zeta_labels)
+
     def reset_mean(
         self,
         xi: pt.Tensor,
-- 
2.43.0


From 40a6cf35337a10093315bb54f2b7b3771a73cd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:53 +0000
Subject: [PATCH 13/33] fix: leave the primal model as it was after importance
 sampling

Computing the displacement of the samples marked every parameter as trainable,
including those frozen by the user, and put every submodule in training mode.
---
 skwdro/solvers/_dual_interfaces/_impsamp_interface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index d8a7812..f5144d3 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -107,6 +107,7 @@ class _SampleDisplacer(_SampledDualLoss):
         disps: (1, m, d), (1, m, d')
         """
         model = self.primal_loss
+        modes = [(module, module.training) for module in model.modules()]
         model.eval()  # Deactivate batch-norms & dropouts
         thetas = {k: v.detach() for k, v in model.named_parameters()}
         _internal_states = {k: v.detach() for k, v in model.named_buffers()}
@@ -155,7 +156,8 @@ class _SampleDisplacer(_SampledDualLoss):
             )
         )
         psg = per_sample_grad_func(xi, xi_labels, thetas, _internal_states)
-        model.train()
+        for module, mode in modes:
+            module.training = mode
         assert isinstance(psg[0], pt.Tensor)
         if xi_labels is None:
             return psg[0], None
@@ -192,6 +194,7 @@ class _SampleDisplacer(_SampledDualLoss):
         """
 
         # Freeze the parameters before differentiation wrt xi
+        trainable = [param for param in self.parameters() if param.requires_grad]
         self.freeze()
 
         # "Dual" samples for forward pass, to get the gradients wrt them
@@ -201,7 +204,8 @@ class _SampleDisplacer(_SampledDualLoss):
         )
 
         # Unfreeze the parameters to allow training
-        self.freeze(rg=True)
+        for param in trainable:
+            param.requires_grad = True
         return grad_xi, grad_xi_labels
 
     def displace_samples(
-- 
2.43.0


From 953ed938661025284d59f9430509ac8bb2a17d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:53 +0000
Subject: [PATCH 14/33] fix: give train() and eval() of the dual losses their
 usual meaning

train() switched the model to evaluation mode, and train(True) silently replaced
the robust loss by the empirical risk.
---
 skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
index 403ac8a..b878314 100644
--- a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
+++ b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
@@ -288,14 +288,6 @@ class _DualLossBase(nn.Module, ABC):
         for param in frozen_params:
             param.requires_grad = rg
 
-    def eval(self):
-        self.erm_mode = True
-        return super().eval()
-
-    def train(self, mode: bool = False):
-        self.erm_mode = mode
-        return super().train(mode)
-
 
 class _OptimizeableDual(_DualLossBase):
     @property
-- 
2.43.0


From d976b20ef341efd2fc4324ad41c8b2e0a6c81b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:50 +0000
Subject: [PATCH 15/33] fix: pretrain the resampling solver on the empirical
 risk

The pretraining steps are documented to minimise the empirical risk, but ran on
the robust loss when the samples are redrawn at each step.
---
 skwdro/solvers/entropic_dual_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 082e660..7606641 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -256,7 +256,7 @@ def optim_postsample(
     pretrain_iters, train_iters = interpret_steps_struct(loss.n_iter)
 
     # Pretrain ERM
-    loss.erm_mode = False
+    loss.erm_mode = True
     for _ in range(pretrain_iters):
         optimizer.zero_grad()
 
-- 
2.43.0


From 753a40ec1877c838888382c6d3aa2dffd73f6870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:02 +0000
Subject: [PATCH 16/33] fix: keep the dual variable nonnegative in the entropic
 solvers

L-BFGS and AdamW know nothing about the constraint lambda >= 0, so fits could
return a negative multiplier, for which the robust loss is meaningless.
---
 skwdro/solvers/entropic_dual_torch.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 7606641..b7e12d2 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -110,6 +110,14 @@ def solve_dual_wdro(loss: _DualLoss, p_hat: Distribution, opt: OptCondTorch):
     return theta, intercept, lambd, robust_loss
 
 
+def project_dual_variable(loss: _DualLoss) -> None:
+    r""" Put the dual variable :math:`\lambda` back in its feasible set
+    :math:`[0, +\infty)`, since not all optimizers enforce the constraint.
+    """
+    with pt.no_grad():
+        loss.lam.clamp_(0., None)
+
+
 def optim_presample(
     optimizer: pt.optim.Optimizer,
     xi: pt.Tensor,
@@ -180,6 +188,7 @@ def optim_presample(
     loss.erm_mode = True
     for _ in range(pretrain_iters):
         optimizer.step(closure)
+        project_dual_variable(loss)
 
     # Init lambda
     loss.get_initial_guess_at_dual(xi, xi_labels)
@@ -192,6 +201,7 @@ def optim_presample(
     for iteration in loss.iterations:
         # Do not resample, only step according to BFGS-style algo
         optimizer.step(closure)
+        project_dual_variable(loss)
         if opt_cond.metric == 'grad':
             _is = loss.imp_samp
             losses.append(closure())
@@ -267,6 +277,7 @@ def optim_postsample(
         objective.backward()
         # Perform the stochastic step
         optimizer.step()
+        project_dual_variable(loss)
         losses.append(objective.item())
 
     # Init lambda
@@ -287,6 +298,7 @@ def optim_postsample(
         objective.backward()
         # Perform the stochastic step
         optimizer.step()
+        project_dual_variable(loss)
         losses.append(objective.item())
         if math.isnan(losses[-1]):
             warn(
-- 
2.43.0


From 43b09a79ba7b8253ffcfe5534b69532adb25a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:52 +0000
Subject: [PATCH 17/33] fix: draw new samples each time the reference
 distribution is recentered

Recentring a seeded sampler seeded the global generator again, so each forward
pass of the resampling loss reused the same noise and rewound the random stream
of the user.
---
 skwdro/base/samplers/torch/base_samplers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skwdro/base/samplers/torch/base_samplers.py b/skwdro/base/samplers/torch/base_samplers.py
index 2427861..798bef4 100644
--- a/skwdro/base/samplers/torch/base_samplers.py
+++ b/skwdro/base/samplers/torch/base_samplers.py
@@ -23,10 +23,11 @@ class BaseSampler(ABC):
         seed: int|None
             rando seed for np and torch rngs.
         """
+        first_init = not hasattr(self, "seed")
         self.seed = seed
 
-        # Set seed
-        if seed is not None:
+        # Set seed, unless the sampler is only recentered
+        if seed is not None and first_init:
             pt.manual_seed(seed)
             random.seed(seed)
 
-- 
2.43.0


From d0006a4bd76222deedd530c2815f012f5d2c6993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:37 +0000
Subject: [PATCH 18/33] fix: pick the right sample in the closed form of the
 robust newsvendor

The test that decides whether to order anything compared the transport budget
with shifted partial sums of the demand, never reached its last samples, and
fell back to the nominal order when the budget could wipe out all the demand.
---
 skwdro/solvers/specific_solvers.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/skwdro/solvers/specific_solvers.py b/skwdro/solvers/specific_solvers.py
index c4db7fc..c7ba45e 100644
--- a/skwdro/solvers/specific_solvers.py
+++ b/skwdro/solvers/specific_solvers.py
@@ -10,22 +10,15 @@ def WDRONewsvendorSpecificSolver(k=5., u=7., rho=1.0, samples=None):
     assert samples is not None
     z = np.sort(samples, axis=0)
     n = z.shape[0]
-    a = np.array([sum(z[:i, 0]) for i in range(n - 1)])
-    b = np.array([n * rho - z[i + 1, 0] for i in range(n - 1)])
-    c = np.array([n * rho] * (n - 1))
+    # First sample that the transport budget cannot bring down to zero, when
+    # spent on the smallest ones first
+    unaffordable = n * rho < np.cumsum(z[:, 0])
 
-    lower_bound = b < a
-    upper_bound = a <= c
-
-    if not lower_bound.any():
-        lambda_star = u
-        return SAANewsvendorSpecificSolver2(k=k, u=u, samples=samples)
-    elif not upper_bound.any():
-        lambda_star = 0
-        return 0, lambda_star
+    if not unaffordable.any():
+        # All the demand can vanish
+        return 0., 0.
     else:
-        condition = [upper_bound[i] and lower_bound[i] for i in range(n - 1)]
-        i_star = condition.index(True) + 1
+        i_star = int(np.argmax(unaffordable))
 
     s = np.minimum(z / z[i_star, 0], np.ones((n, 1)))
 
-- 
2.43.0


From 3060bf7bf96cdbcbaf9819a50793df82608f533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:37 +0000
Subject: [PATCH 19/33] fix: accept rho=0 in the dedicated linear regression
 solver

A null radius is a valid uncertainty set, and the estimator accepts it, but the
dedicated solver rejected it.
---
 skwdro/solvers/specific_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/specific_solvers.py b/skwdro/solvers/specific_solvers.py
index c7ba45e..6ac2166 100644
--- a/skwdro/solvers/specific_solvers.py
+++ b/skwdro/solvers/specific_solvers.py
@@ -149,7 +149,7 @@ def WDROLinRegSpecificSolver(rho: float = 1.0, X: np.ndarray = np.array(
         None), y: np.ndarray = np.array(None), fit_intercept: bool = False):
     n, d = X.shape
 
-    assert rho > 0
+    assert rho >= 0
 
     coeff = cp.Variable(d)
     intercept = cp.Variable(1)
-- 
2.43.0


From f463b244e937a3201792340f4f2a80dd5f3840fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:37 +0000
Subject: [PATCH 20/33] fix: reject malformed cost codes

Codes with trailing fields were silently truncated, and the engine of codes that
specify kappa was not checked.
---
 skwdro/base/cost_decoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skwdro/base/cost_decoder.py b/skwdro/base/cost_decoder.py
index 43ac647..9102ced 100644
--- a/skwdro/base/cost_decoder.py
+++ b/skwdro/base/cost_decoder.py
@@ -38,6 +38,8 @@ def cost_from_str(code: str) -> TorchCost:
     :rtype: TorchCost
     """
     splitted = code.split('-')
+    if len(splitted) > 5:
+        raise ValueError("Cost code invalid: " + code)
     engine_, id_, power_, type_ = splitted[:4]
     kappa = float(splitted[4]) if len(splitted) >= 5 else DEFAULT_KAPPA
     if engine_ == 't':
@@ -114,6 +116,7 @@ def parse_code_torch(
             kappa = DEFAULT_KAPPA
         elif len(splitted) == 5:
             engine_, id_, power_, type_, kappa_ = splitted
+            assert engine_ == 't', "Torch engine not recognized"
             kappa = float(kappa_)
         else:
             raise ValueError("Cost code invalid: " + code)
-- 
2.43.0


From a72f061b8211a3e6a152d5c88d3b3c354e47ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:41 +0000
Subject: [PATCH 21/33] fix: switch the labels with the given probability, not
 its complement

The parameter p of the sampler is documented as the probability to switch the
label of a sample, but labels were kept with that probability.
---
 skwdro/base/samplers/torch/classif_sampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skwdro/base/samplers/torch/classif_sampler.py b/skwdro/base/samplers/torch/classif_sampler.py
index 5a57627..3f23cb7 100644
--- a/skwdro/base/samplers/torch/classif_sampler.py
+++ b/skwdro/base/samplers/torch/classif_sampler.py
@@ -198,8 +198,8 @@ class ClassificationNormalBernouilliSampler(LabeledSampler, IsOptionalCovariance
                     p
                 ),
                 dst.transforms.AffineTransform(
-                    loc=-xi_labels,
-                    scale=2 * xi_labels
+                    loc=xi_labels,
+                    scale=-2 * xi_labels
                 )
             ),
             seed
@@ -228,7 +228,7 @@ class ClassificationNormalBernouilliSampler(LabeledSampler, IsOptionalCovariance
         assert zeta_labels is not None and xi_labels is not None
         recentered_labels = dst.TransformedDistribution(
             self.labels_s.base_dist,
-            dst.transforms.AffineTransform(loc=-xi_labels, scale=2 * xi_labels)
+            dst.transforms.AffineTransform(loc=xi_labels, scale=-2 * xi_labels)
         )
         lp_zeta = self._format_logprobs(
             self.data_s, zeta - xi + self.data_s.mean
-- 
2.43.0


From 3ed35e28fa8d53f89984d10e33c31f4cf7dfcc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:39 +0000
Subject: [PATCH 22/33] fix: let the composite optimizer step with a frozen
 dual variable

With rho = 0 the dual variable has no gradient, and the mechanic
optimizer then fails on its first step.
---
 skwdro/solvers/oracle_torch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index d56b032..8657b2e 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -72,10 +72,13 @@ class CompositeOptimizer(pt.optim.Optimizer):
 
     def step(self, closure: Optional[Callable] = None) -> Optional[float]:
         del closure
-        for opt in self.opts.values():
+        for key, opt in self.opts.items():
+            if key == 'lbd' and not self.lbd.requires_grad:
+                # The dual variable is frozen (rho = 0): nothing to optimize
+                continue
             opt.step()
-        for scheduler in self.schedulers.values():
-            scheduler.step()
+            if key in self.schedulers:
+                self.schedulers[key].step()
         with pt.no_grad():
             self.lbd.clamp_(0., None)
         return None
-- 
2.43.0


From 614c3b81ce1c26be0317b7b5e7b4a50d42964cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:39 +0000
Subject: [PATCH 23/33] fix: evaluate closures of hybrid optimizers at the
 parameters

The closure was evaluated after the parameters were moved to the
coordinates of their group's rule (logarithm, opposite), and its value
was not returned.
---
 skwdro/solvers/hybrid_opt.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/hybrid_opt.py b/skwdro/solvers/hybrid_opt.py
index 9f140f3..0fc4bff 100644
--- a/skwdro/solvers/hybrid_opt.py
+++ b/skwdro/solvers/hybrid_opt.py
@@ -73,12 +73,19 @@ class HybridOpt(object):
                     with torch.no_grad():
                         rules[key](p)
 
-    def step(self, *args, **kwargs):
+    def step(self, closure=None):
+        loss = None
+        if closure is not None:
+            # Before the rules: they move the parameters to other coordinates
+            with torch.enable_grad():
+                loss = closure()
+
         self._apply_rules(PRERULES)
 
-        super(HybridOpt, self).step(*args, **kwargs)
+        super(HybridOpt, self).step()
 
         self._apply_rules(POSTRULES)
+        return loss
 
 
 class HybridSGD(HybridOpt, SGD):
-- 
2.43.0


From c5b3d1f534cce29926c9f62eb34b407113c972cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:39 +0000
Subject: [PATCH 24/33] fix: skip parameters without gradient in the bound rule
 of hybrid optimizers

---
 skwdro/solvers/hybrid_opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skwdro/solvers/hybrid_opt.py b/skwdro/solvers/hybrid_opt.py
index 0fc4bff..d83b99d 100644
--- a/skwdro/solvers/hybrid_opt.py
+++ b/skwdro/solvers/hybrid_opt.py
@@ -56,7 +56,8 @@ def rule_max(p):
 
 @prerule('bound')
 def prerule_bound(p):
-    p.grad.clip_(-BOUND, BOUND)
+    if p.grad is not None:
+        p.grad.clip_(-BOUND, BOUND)
 
 
 class HybridOpt(object):
-- 
2.43.0


From 81231d4b989cd0331e64827e50dfcc747e5aa83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:18 +0000
Subject: [PATCH 25/33] fix: evaluate the newsvendor loss without labels

The loss declares no labels and documents its second argument as a
placeholder, but refused to be evaluated without it.
---
 skwdro/base/losses_torch/newsvendor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/base/losses_torch/newsvendor.py b/skwdro/base/losses_torch/newsvendor.py
index aedb15b..fd31972 100644
--- a/skwdro/base/losses_torch/newsvendor.py
+++ b/skwdro/base/losses_torch/newsvendor.py
@@ -68,7 +68,7 @@ class NewsVendorLoss_torch(Loss):
         xi_labels : NoneType
             placeholder, do not touch
         """
-        assert xi_labels is not None
+        del xi_labels
         returns = self.k * self.theta
         costs = self.u * pt.minimum(self.theta, xi).mean(dim=-1, keepdim=True)
         return returns - costs
-- 
2.43.0


From 85648e05b95c52b1cd3520a662d47a98fa31e710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:38 +0000
Subject: [PATCH 26/33] fix: apply the l2 regularization requested for the
 newsvendor loss

---
 skwdro/base/losses_torch/newsvendor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/base/losses_torch/newsvendor.py b/skwdro/base/losses_torch/newsvendor.py
index fd31972..9c14a78 100644
--- a/skwdro/base/losses_torch/newsvendor.py
+++ b/skwdro/base/losses_torch/newsvendor.py
@@ -71,7 +71,7 @@ class NewsVendorLoss_torch(Loss):
         del xi_labels
         returns = self.k * self.theta
         costs = self.u * pt.minimum(self.theta, xi).mean(dim=-1, keepdim=True)
-        return returns - costs
+        return self.regularize(returns - costs)
 
     @property
     def theta(self) -> pt.Tensor:
-- 
2.43.0


From eb72ef7c4b2a758c9df55e25134cc23189a27749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:59 +0000
Subject: [PATCH 27/33] fix: keep the dual variable out of the empirical
 pretraining of the presampled solver

In empirical mode the dual variable only enters through a linear term, unbounded
below. Handing its gradient to the LBFGS optimizer corrupted the curvature
estimates, so the pretraining diverged to NaN on simple convex problems.
---
 skwdro/solvers/entropic_dual_torch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index b7e12d2..5153613 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -173,6 +173,10 @@ def optim_presample(
             # Backward pass
             objective.backward()
 
+            if loss.erm_mode:
+                # Only the model is trained on the empirical risk
+                loss._lam.grad = None
+
         else:
             loss.eval()
             objective = loss(xi, xi_labels, zeta, zeta_labels)
-- 
2.43.0


From 6ae0e07bc1347fb006a1f597e23930ca7fad8868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:51 +0000
Subject: [PATCH 28/33] fix: build the missing sampler at the first evaluation
 of a dual loss

The guards meant to build a sampler when the loss has none read the
property that raises in that very case, so they were never reached.
They now look at the stored attribute.
---
 skwdro/solvers/entropic_dual_torch.py | 2 +-
 skwdro/solvers/oracle_torch.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 5153613..44b5af0 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -153,7 +153,7 @@ def optim_presample(
         - xi_labels: (m, d')
     """
 
-    if loss.primal_loss.sampler is None:
+    if loss.primal_loss._sampler is None:
         # Means were never set in the first place, so initialize the sampler
         # Warning: no seed is set, so set the sampler yourself if needed
         loss.init_sampler(xi, xi_labels, loss.epsilon.detach().item(), None)
diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 8657b2e..5ab863c 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -285,7 +285,7 @@ class DualPostSampledLoss(_DualLoss):
         dl : pt.Tensor
         """
         del zeta, zeta_labels
-        if self.primal_loss.sampler is None:
+        if self.primal_loss._sampler is None:
             # Means were never set in the first place, so initialize the sampler
             # Warning: no seed is set, so set the sampler yourself if needed
             self.init_sampler(xi, xi_labels, self.epsilon.detach().item(), None)
-- 
2.43.0


From 6cdbdf34407977d62b68ca45423a087389431257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:17:38 +0000
Subject: [PATCH 29/33] fix: Leave the stopping criterion given to an estimator
 as it is in fit

---
 skwdro/linear_models/_linear_regression.py   | 5 ++---
 skwdro/linear_models/_logistic_regression.py | 5 ++---
 skwdro/operations_research/_newsvendor.py    | 5 ++---
 skwdro/operations_research/_portfolio.py     | 5 ++---
 skwdro/operations_research/_weber.py         | 5 ++---
 5 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index e3b9c06..d04b160 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -175,8 +175,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
         elif "torch" in self.solver:
             assert isinstance(self.cost_, TorchCost)
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = OptCondTorch(2) if self.opt_cond is None else self.opt_cond
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             if self.random_state is not None:
@@ -204,7 +203,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 _wdro_loss,
                 emp,
-                self.opt_cond  # type: ignore
+                opt_cond
             )
             self.coef_ = detach_tensor(
                 _wdro_loss.primal_loss.transform.weight)  # type: ignore
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 4b1796c..259e21f 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -261,8 +261,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                 self.solver in ("entropic_torch", "entropic_torch_post")
             )
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = OptCondTorch(2) if self.opt_cond is None else self.opt_cond
 
             _bilat = len(self.classes_) == 2
             module_out = 1 if _bilat else len(self.classes_)
@@ -302,7 +301,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self.wdro_loss_,
                 emp,
-                self.opt_cond  # type: ignore
+                opt_cond
             )
 
             assert isinstance(self.wdro_loss_.primal_loss.transform, nn.Linear)
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index cdeac5e..590eed7 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -152,8 +152,7 @@ class NewsVendor(BaseEstimator):
             ))
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = OptCondTorch(2) if self.opt_cond is None else self.opt_cond
 
             if self.random_state is not None:
                 # Make the initial parameters a function of the random state
@@ -177,7 +176,7 @@ class NewsVendor(BaseEstimator):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,  # type: ignore
+                opt_cond,
             )
             self.coef_ = detach_tensor(
                 self._wdro_loss.primal_loss.loss.theta_)  # type: ignore
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 5b7acaa..06dbfba 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -213,8 +213,7 @@ class Portfolio(BaseEstimator):
             self.coef_, self.tau_, self.dual_var_, self.result_ = _res
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = OptCondTorch(2) if self.opt_cond is None else self.opt_cond
 
             if self.random_state is not None:
                 # Make the initial parameters a function of the random state
@@ -239,7 +238,7 @@ class Portfolio(BaseEstimator):
             _res = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,  # type: ignore
+                opt_cond,
             )
             (
                 self.coef_,
diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index 3f36a31..9621cf0 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -125,8 +125,7 @@ class Weber(BaseEstimator):
             ))
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = OptCondTorch(2) if self.opt_cond is None else self.opt_cond
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             self._wdro_loss = dualize_primal_loss(
@@ -152,7 +151,7 @@ class Weber(BaseEstimator):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,
+                opt_cond,
             )
             self.coef_ = detach_tensor(
                 self._wdro_loss.primal_loss.loss.pos  # type: ignore
-- 
2.43.0


From dc47b228762055252828ed9d45192bc431371a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:17:38 +0000
Subject: [PATCH 30/33] fix: Apply the l2 regularisation of the NewsVendor
 estimator

---
 skwdro/operations_research/_newsvendor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 590eed7..3a88963 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -171,6 +171,7 @@ class NewsVendor(BaseEstimator):
                 learning_rate=self.learning_rate,
                 n_iter=self.n_iter,
                 adapt="prodigy" if self.learning_rate is None else None,
+                l2reg=self.l2_reg,
             )
             # Solve dual problem
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
-- 
2.43.0


From b655e09424267b042764af566f483b06a0197348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:17:38 +0000
Subject: [PATCH 31/33] fix: Draw the samples of a presampled solve around its
 data

---
 skwdro/solvers/entropic_dual_torch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 44b5af0..51d4d41 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -157,6 +157,9 @@ def optim_presample(
         # Means were never set in the first place, so initialize the sampler
         # Warning: no seed is set, so set the sampler yourself if needed
         loss.init_sampler(xi, xi_labels, loss.epsilon.detach().item(), None)
+    else:
+        # Sample around the data to train on, whatever the former means
+        loss.sampler.reset_mean(xi, xi_labels)
     zeta, zeta_labels = loss.generate_zetas()
 
     def closure(back=True) -> float:
-- 
2.43.0


From 160421246f6a1b80900c608d9ba61606af6f4448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:17:38 +0000
Subject: [PATCH 32/33] fix: Restore the training modes after evaluating a
 presampled objective

---
 skwdro/solvers/entropic_dual_torch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 51d4d41..0e00f39 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -181,9 +181,11 @@ def optim_presample(
                 loss._lam.grad = None
 
         else:
+            modes = [(module, module.training) for module in loss.modules()]
             loss.eval()
             objective = loss(xi, xi_labels, zeta, zeta_labels)
-            loss.train()
+            for module, mode in modes:
+                module.training = mode
 
         assert isinstance(objective, pt.Tensor)
         return objective.item()
-- 
2.43.0


From 663bed9380e833225e83bec6fe1665ed8ef0ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:03 +0000
Subject: [PATCH 33/33] fix: Keep the encoded labels signed for unsigned or
 boolean data

---
 skwdro/linear_models/_logistic_regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 259e21f..ec54740 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -184,7 +184,8 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                     "Problem with labels, none out of label encoder"
                 )
             else:
-                y = np.array(y, dtype=X.dtype)
+                # Signed type, even for unsigned or boolean data
+                y = np.array(y, dtype=np.result_type(X.dtype, np.int8))
             y[y == 0.] = -1.
         elif len(self.classes_) > 2:
             # Multiclass classification
-- 
2.43.0

