From 6e90eea57193797ff5a03be7b1b3c19cdb7944a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:43 +0000
Subject: [PATCH 01/13] fix: choose the minimizer of the sampled function in
 Thompson sampling

The sampled function has shape (1, n), so taking its first column always
returned the first candidate point, whatever was sampled.
---
 bayeso/thompson_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/thompson_sampling.py b/bayeso/thompson_sampling.py
index 7ce05b9..2711aba 100644
--- a/bayeso/thompson_sampling.py
+++ b/bayeso/thompson_sampling.py
@@ -98,7 +98,7 @@ def thompson_sampling_gp_iteration(range_X: np.ndarray,
     if Y_sampled is None: # pragma: no cover
         raise ValueError('jitter_cov is not large enough.')
 
-    ind_min = np.argmin(Y_sampled[:, 0])
+    ind_min = np.argmin(Y_sampled[0])
     next_point = X_test[ind_min]
 
     return next_point
-- 
2.43.0


From c31697a28bf084c7bba685e01edb3e990a3789b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:43 +0000
Subject: [PATCH 02/13] fix: keep the (num_samples, n) shape of sampled
 functions for n = 1

scipy squeezes a draw over a single point to a scalar, which dropped the last
axis for Gaussian processes and failed an assertion for Student-t processes.
---
 bayeso/gp/gp.py | 2 +-
 bayeso/tp/tp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/gp/gp.py b/bayeso/gp/gp.py
index b6db27d..831135e 100644
--- a/bayeso/gp/gp.py
+++ b/bayeso/gp/gp.py
@@ -49,7 +49,7 @@ def sample_functions(mu: np.ndarray, Sigma: np.ndarray,
 
     rv = scipy.stats.multivariate_normal(mean=mu, cov=Sigma)
     list_rvs = [rv.rvs() for _ in range(0, num_samples)]
-    return np.array(list_rvs)
+    return np.reshape(list_rvs, (num_samples, mu.shape[0]))
 
 @utils_common.validate_types
 def predict_with_cov(X_train: np.ndarray, Y_train: np.ndarray, X_test: np.ndarray,
diff --git a/bayeso/tp/tp.py b/bayeso/tp/tp.py
index d31c37b..ac00c89 100644
--- a/bayeso/tp/tp.py
+++ b/bayeso/tp/tp.py
@@ -56,7 +56,7 @@ def sample_functions(nu: float, mu: np.ndarray, Sigma: np.ndarray,
     rv = scipy.stats.multivariate_normal(mean=np.zeros(mu.shape[0]), cov=Sigma)
     list_samples = [rv.rvs() for _ in range(0, num_samples)]
 
-    samples = np.array(list_samples)
+    samples = np.reshape(list_samples, (num_samples, mu.shape[0]))
     samples = mu[np.newaxis, ...] + samples / np.sqrt(x)[..., np.newaxis]
     assert samples.shape == (num_samples, mu.shape[0])
 
-- 
2.43.0


From b916bc8016fcbc2c31760f828fed646f09a662f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:43 +0000
Subject: [PATCH 03/13] fix: compute the log gamma ratio of the Student-t
 likelihood without overflow

---
 bayeso/tp/tp_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/tp/tp_likelihood.py b/bayeso/tp/tp_likelihood.py
index 0c6aadc..9d2f038 100644
--- a/bayeso/tp/tp_likelihood.py
+++ b/bayeso/tp/tp_likelihood.py
@@ -87,7 +87,7 @@ def neg_log_ml(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
 
     second_term = -0.5 * second_term
 
-    third_term = np.log(scipy.special.gamma((nu + num_X) / 2.0) / scipy.special.gamma(nu / 2.0))
+    third_term = scipy.special.gammaln((nu + num_X) / 2.0) - scipy.special.gammaln(nu / 2.0)
     fourth_term = -0.5 * (nu + num_X) * np.log(1.0 + beta / (nu - 2.0))
 
     log_ml_ = np.squeeze(first_term + second_term + third_term + fourth_term)
-- 
2.43.0


From ecd0e01d356cc2b1f7143aa2812871984d856230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:43 +0000
Subject: [PATCH 04/13] fix: take the prior mean into account in the
 leave-one-out pseudo-likelihood

---
 bayeso/gp/gp_likelihood.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayeso/gp/gp_likelihood.py b/bayeso/gp/gp_likelihood.py
index 7e89fda..47d5d1e 100644
--- a/bayeso/gp/gp_likelihood.py
+++ b/bayeso/gp/gp_likelihood.py
@@ -156,6 +156,7 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
 
     num_data = X_train.shape[0]
     hyps = utils_covariance.restore_hyps(str_cov, hyps, fix_noise=fix_noise)
+    new_Y_train = Y_train - prior_mu_train
 
     _, inv_cov_X_X, _ = covariance.get_kernel_inverse(X_train, hyps,
         str_cov, fix_noise=fix_noise, debug=debug)
@@ -167,10 +168,10 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
 #        cur_Y_train = np.vstack((Y_train[:ind_data], Y_train[ind_data+1:]))
 
 #        cur_X_test = np.expand_dims(X_train[ind_data], axis=0)
-        cur_Y_test = Y_train[ind_data]
+        cur_Y_test = new_Y_train[ind_data]
 
         cur_mu = np.squeeze(cur_Y_test) \
-            - np.dot(inv_cov_X_X, Y_train)[ind_data] / inv_cov_X_X[ind_data, ind_data]
+            - np.dot(inv_cov_X_X, new_Y_train)[ind_data] / inv_cov_X_X[ind_data, ind_data]
         cur_sigma = np.sqrt(1.0 / (inv_cov_X_X[ind_data, ind_data] + constants.JITTER_COV))
 
         first_term = -0.5 * np.log(cur_sigma**2)
-- 
2.43.0


From 98a508ab5b449fd1df63b0a952032ce9bad4ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:43 +0000
Subject: [PATCH 05/13] fix: support use_ard=False for leave-one-out model
 selection

A single shared lengthscale was restored as a one-element ARD vector, so the
fit raised for every input dimension larger than one.
---
 bayeso/gp/gp_kernel.py     | 3 +--
 bayeso/gp/gp_likelihood.py | 9 ++++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/bayeso/gp/gp_kernel.py b/bayeso/gp/gp_kernel.py
index a738bf0..d1e9b10 100644
--- a/bayeso/gp/gp_kernel.py
+++ b/bayeso/gp/gp_kernel.py
@@ -93,9 +93,8 @@ def get_optimized_kernel(X_train: np.ndarray, Y_train: np.ndarray,
             use_ard=use_ard, fix_noise=fix_noise,
             use_gradient=use_gradient, debug=debug)
     elif str_modelselection_method == 'loocv':
-        # TODO: add use_ard.
         neg_log_ml_ = lambda hyps: gp_likelihood.neg_log_pseudo_l_loocv(X_train, Y_train,
-            hyps, str_cov, prior_mu_train, fix_noise=fix_noise, debug=debug)
+            hyps, str_cov, prior_mu_train, fix_noise=fix_noise, debug=debug, use_ard=use_ard)
         use_gradient = False
     else: # pragma: no cover
         raise ValueError('get_optimized_kernel: missing conditions for str_modelselection_method.')
diff --git a/bayeso/gp/gp_likelihood.py b/bayeso/gp/gp_likelihood.py
index 47d5d1e..421552c 100644
--- a/bayeso/gp/gp_likelihood.py
+++ b/bayeso/gp/gp_likelihood.py
@@ -118,7 +118,8 @@ def neg_log_ml(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
 def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
     str_cov: str, prior_mu_train: np.ndarray,
     fix_noise: bool=constants.FIX_GP_NOISE,
-    debug: bool=False
+    debug: bool=False,
+    use_ard: bool=constants.USE_ARD
 ) -> float:
     """
     It computes a negative log pseudo-likelihood using leave-one-out cross-validation.
@@ -137,6 +138,8 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
     :type fix_noise: bool., optional
     :param debug: flag for printing log messages.
     :type debug: bool., optional
+    :param use_ard: flag for automatic relevance determination.
+    :type use_ard: bool., optional
 
     :returns: negative log pseudo-likelihood.
     :rtype: float
@@ -145,17 +148,17 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
 
     """
 
-    # TODO: add use_ard.
     utils_gp.validate_common_args(X_train, Y_train, str_cov, None, debug)
     assert isinstance(hyps, np.ndarray)
     assert isinstance(prior_mu_train, np.ndarray)
     assert isinstance(fix_noise, bool)
+    assert isinstance(use_ard, bool)
     assert len(prior_mu_train.shape) == 2
     assert X_train.shape[0] == Y_train.shape[0] == prior_mu_train.shape[0]
     utils_covariance.check_str_cov('neg_log_pseudo_l_loocv', str_cov, X_train.shape)
 
     num_data = X_train.shape[0]
-    hyps = utils_covariance.restore_hyps(str_cov, hyps, fix_noise=fix_noise)
+    hyps = utils_covariance.restore_hyps(str_cov, hyps, use_ard=use_ard, fix_noise=fix_noise)
     new_Y_train = Y_train - prior_mu_train
 
     _, inv_cov_X_X, _ = covariance.get_kernel_inverse(X_train, hyps,
-- 
2.43.0


From b6ef0898c06bafeecb82de465ade2119466299f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:43 +0000
Subject: [PATCH 06/13] fix: attach only one handler per logger

Every model constructed under the same name added another handler, so each
message was printed once per model created so far.
---
 bayeso/utils/utils_logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayeso/utils/utils_logger.py b/bayeso/utils/utils_logger.py
index b12773b..ff7e630 100644
--- a/bayeso/utils/utils_logger.py
+++ b/bayeso/utils/utils_logger.py
@@ -37,7 +37,8 @@ def get_logger(str_name: str) -> logging.Logger:
         datefmt='%m/%d/%Y-%H:%M:%S')
     ch.setFormatter(formatter)
 
-    logger.addHandler(ch)
+    if not logger.handlers:
+        logger.addHandler(ch)
     return logger
 
 @utils_common.validate_types
-- 
2.43.0


From 2c4f99d324fc08eb32a591bf6cfe411d45e12088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:55 +0000
Subject: [PATCH 07/13] fix: pass the legend location by keyword so that
 convergence figures can be saved

Figure.legend no longer accepts the location as a third positional argument,
so saving a minimum-vs-iteration or minimum-vs-time figure raised TypeError
after writing only the first of its two files.
---
 bayeso/utils/utils_plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/utils/utils_plotting.py b/bayeso/utils/utils_plotting.py
index a03b966..fadbf92 100644
--- a/bayeso/utils/utils_plotting.py
+++ b/bayeso/utils/utils_plotting.py
@@ -494,7 +494,7 @@ def plot_minimum_vs_iter(minima: np.ndarray, list_str_label: constants.TYPING_LI
         _save_figure(path_save, str_figure)
 
         fig_legend = pylab.figure(figsize=(3, 2))
-        fig_legend.legend(lines, list_str_label, 'center', fancybox=False,
+        fig_legend.legend(lines, list_str_label, loc='center', fancybox=False,
             edgecolor='black', fontsize=32)
         fig_legend.savefig(os.path.join(path_save, f'legend_{str_postfix}.pdf'),
             format='pdf', transparent=True, bbox_inches='tight')
@@ -650,7 +650,7 @@ def plot_minimum_vs_time(times: np.ndarray, minima: np.ndarray,
         _save_figure(path_save, str_figure)
 
         fig_legend = pylab.figure(figsize=(3, 2))
-        fig_legend.legend(lines, list_str_label, 'center', fancybox=False,
+        fig_legend.legend(lines, list_str_label, loc='center', fancybox=False,
             edgecolor='black', fontsize=32)
         fig_legend.savefig(os.path.join(path_save, f'legend_{str_postfix}.pdf'),
             format='pdf', transparent=True, bbox_inches='tight')
-- 
2.43.0


From a30d6f21ec73b1770a143c00d9471e098b984d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:18 +0000
Subject: [PATCH 08/13] fix: accept integer inputs with a constant feature when
 splitting a tree node

---
 bayeso/trees/trees_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/trees/trees_common.py b/bayeso/trees/trees_common.py
index 10d6292..e91c7fe 100644
--- a/bayeso/trees/trees_common.py
+++ b/bayeso/trees/trees_common.py
@@ -217,7 +217,7 @@ def _split_deterministic(X: np.ndarray, Y: np.ndarray, dim_to_split: int
         if candidates_loc.shape[0] > 1:
             val_to_split = np.mean(candidates_loc[ind_loc:ind_loc+2])
         else:
-            val_to_split = X[0, dim_to_split]
+            val_to_split = float(X[0, dim_to_split])
 
         left_right = _split_left_right(X, Y, dim_to_split, val_to_split)
         score = mse(left_right)
@@ -241,7 +241,7 @@ def _split_random(X: np.ndarray, Y: np.ndarray, dim_to_split: int
 
         val_to_split = np.random.uniform(low=min_bx, high=max_bx)
     else:
-        val_to_split = X[0, dim_to_split]
+        val_to_split = float(X[0, dim_to_split])
 
     left_right = _split_left_right(X, Y, dim_to_split, val_to_split)
     score = mse(left_right)
-- 
2.43.0


From 900b09f8d3b991cd607c8c6c04ee8d410b1bc882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:22 +0000
Subject: [PATCH 09/13] fix: reject malformed loop arguments before evaluating
 the initial inputs

---
 bayeso/wrappers/wrappers_bo_class.py    | 1 +
 bayeso/wrappers/wrappers_bo_function.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/bayeso/wrappers/wrappers_bo_class.py b/bayeso/wrappers/wrappers_bo_class.py
index 03206b9..f9e8d71 100644
--- a/bayeso/wrappers/wrappers_bo_class.py
+++ b/bayeso/wrappers/wrappers_bo_class.py
@@ -425,6 +425,7 @@ class BayesianOptimization:
 
         assert isinstance(X, np.ndarray)
         assert len(X.shape) == 2
+        assert X.shape[1] == self.num_dim
 
         Y = []
         time_initials = []
diff --git a/bayeso/wrappers/wrappers_bo_function.py b/bayeso/wrappers/wrappers_bo_function.py
index d94a6a8..8b3ab09 100644
--- a/bayeso/wrappers/wrappers_bo_function.py
+++ b/bayeso/wrappers/wrappers_bo_function.py
@@ -181,6 +181,9 @@ def run_single_round_with_initial_inputs(model_bo: bo.BO,
     assert isinstance(num_samples_ao, int)
     assert isinstance(str_mlm_method, str)
     assert len(X_train.shape) == 2
+    assert X_train.shape[1] == model_bo.num_dim
+    assert num_samples_ao > 0
+    assert str_sampling_method_ao in constants.ALLOWED_SAMPLING_METHOD
     assert str_mlm_method in constants.ALLOWED_MLM_METHOD
 
     Y_train = []
-- 
2.43.0


From 139cd8f09a88d1e939e1fb0cd0346144f3fd4198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:58 +0000
Subject: [PATCH 10/13] fix: a tree node with large responses kept a feature
 that separates nothing

A feature without two distinct values gets the sentinel loss 1e8, which is
smaller than the loss of a genuine split when the responses are large, so
the node was not split although another feature could be.
---
 bayeso/trees/trees_common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayeso/trees/trees_common.py b/bayeso/trees/trees_common.py
index e91c7fe..4c9faac 100644
--- a/bayeso/trees/trees_common.py
+++ b/bayeso/trees/trees_common.py
@@ -301,7 +301,10 @@ def _split(
             _ind, _val, _score, _left_right = _split_deterministic(
                 X, Y, dim_to_split)
 
-        if _score < cur_score:
+        if not all(_left_right):
+            _score = np.inf
+
+        if cur_left_right is None or _score < cur_score:
             cur_ind = _ind
             cur_val = _val
             cur_score = _score
-- 
2.43.0


From 053edc4dd9ac1d8dde21baca8e67db610076973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 11/13] fix: normalising responses of a narrow integer type
 wrapped around

---
 bayeso/utils/utils_bo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayeso/utils/utils_bo.py b/bayeso/utils/utils_bo.py
index 841ca3d..93997a5 100644
--- a/bayeso/utils/utils_bo.py
+++ b/bayeso/utils/utils_bo.py
@@ -42,6 +42,9 @@ def normalize_min_max(Y: np.ndarray
     assert isinstance(Y, np.ndarray)
     assert len(Y.shape) == 2
 
+    if np.issubdtype(Y.dtype, np.integer):
+        Y = Y.astype(float)
+
     if np.max(Y) != np.min(Y):
         Y = (Y - np.min(Y)) / (np.max(Y) - np.min(Y)) * constants.MULTIPLIER_RESPONSE
     return Y
-- 
2.43.0


From 50f94c15c960cf91e844b6df8439013c1b83c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 12/13] fix: search ranges of a narrow integer type wrapped
 around in designs and step sizes

---
 bayeso/bo/base_bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/bo/base_bo.py b/bayeso/bo/base_bo.py
index cb3f9cd..4711984 100644
--- a/bayeso/bo/base_bo.py
+++ b/bayeso/bo/base_bo.py
@@ -66,7 +66,7 @@ class BaseBO(abc.ABC):
         assert str_optimizer_method_bo in constants.ALLOWED_OPTIMIZER_METHOD_BO \
             + constants.ALLOWED_OPTIMIZER_METHOD_BO_TREES
 
-        self.range_X = range_X
+        self.range_X = range_X.astype(float)
         self.num_dim = range_X.shape[0]
         self.str_surrogate = str_surrogate
         self.str_acq = str_acq
-- 
2.43.0


From 460e386925b4861fa5b1be43abc61f041edc825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:03 +0000
Subject: [PATCH 13/13] fix: render floating-point arrays of any width with
 three decimals

---
 bayeso/utils/utils_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/utils/utils_logger.py b/bayeso/utils/utils_logger.py
index ff7e630..e049628 100644
--- a/bayeso/utils/utils_logger.py
+++ b/bayeso/utils/utils_logger.py
@@ -62,7 +62,7 @@ def get_str_array_1d(arr: np.ndarray) -> str:
     list_str = []
 
     for elem in arr:
-        if isinstance(elem, float):
+        if isinstance(elem, (float, np.floating)):
             elem_ = f'{elem:.3f}'
         else:
             elem_ = f'{elem}'
@@ -173,7 +173,7 @@ def get_str_hyps(hyps: dict) -> str:
     for key, val in hyps.items():
         if isinstance(val, np.ndarray):
             str_val = get_str_array(val)
-        elif isinstance(val, float):
+        elif isinstance(val, (float, np.floating)):
             str_val = f'{val:.3f}'
         else:
             str_val = f'{val}'
-- 
2.43.0

