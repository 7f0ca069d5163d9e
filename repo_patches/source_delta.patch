From 2465c68ca98b85fb9e26b880452b45c9fabf5267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 01/75] fix: keep the support and coefficient axes when there
 is one support or one feature

---
 src/pyuoi/linear_model/base.py    | 7 ++++---
 src/pyuoi/linear_model/poisson.py | 2 +-
 src/pyuoi/linear_model/utils.py   | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index ca93d16..3c1cc37 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -297,8 +297,9 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
             else:
                 self._logger.info("selection bootstrap %d" % (boot_idx))
-            selection_coefs[ii] = np.squeeze(
-                self.uoi_selection_sweep(X_rep, y_rep, my_reg_params))
+            selection_coefs[ii] = np.reshape(
+                self.uoi_selection_sweep(X_rep, y_rep, my_reg_params),
+                selection_coefs.shape[1:])
 
         # if distributed, gather selection coefficients to 0,
         # perform intersection, and broadcast results
@@ -562,7 +563,7 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
                 self.intercept_ *= sy.scale_
                 self.intercept_ += sy.mean_ - np.dot(sX.mean_,
                                                      self.coef_.T)
-        self.coef_ = np.squeeze(self.coef_)
+        self.coef_ = np.squeeze(self.coef_, axis=0)
 
     def intersect(self, coef, thresholds):
         """Intersect coefficients accross all thresholds."""
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 3fa3103..63094d7 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -624,7 +624,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
     def _post_fit(self, X, y):
         """Rescale coefficients, if needed, after fitting."""
         if self.output_dim == 1:
-            self.coef_ = np.squeeze(self.coef_)
+            self.coef_ = np.squeeze(self.coef_, axis=0)
         if self.standardize:
             sX = self._X_scaler
             if self.fit_intercept:
diff --git a/src/pyuoi/linear_model/utils.py b/src/pyuoi/linear_model/utils.py
index 6b26a16..9fd0ce2 100644
--- a/src/pyuoi/linear_model/utils.py
+++ b/src/pyuoi/linear_model/utils.py
@@ -135,10 +135,10 @@ def intersection(coefs, selection_thresholds=None):
 
     # unravel the dimension corresponding to selection thresholds
 
-    supports = np.squeeze(np.reshape(
+    supports = np.reshape(
         supports,
         (n_selection_thresholds * n_reg_params, n_features)
-    ))
+    )
 
     supports = np.unique(supports, axis=0)
 
-- 
2.43.0


From 91cc6e1159b64b847d830cceaf4334d9c709b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 02/75] fix: recompute the regularization grid for the data of
 every fit

---
 src/pyuoi/linear_model/elasticnet.py | 21 +++++++-------
 src/pyuoi/linear_model/logistic.py   | 41 ++++++++++++++--------------
 src/pyuoi/linear_model/poisson.py    | 25 ++++++++---------
 3 files changed, 42 insertions(+), 45 deletions(-)

diff --git a/src/pyuoi/linear_model/elasticnet.py b/src/pyuoi/linear_model/elasticnet.py
index 1d3eed1..9b9d838 100644
--- a/src/pyuoi/linear_model/elasticnet.py
+++ b/src/pyuoi/linear_model/elasticnet.py
@@ -160,17 +160,16 @@ class UoI_ElasticNet(AbstractUoILinearRegressor, LinearRegression):
             alpha->l1_ratio). This allows easy passing into the ElasticNet
             object.
         """
-        if self.lambdas is None:
-            self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
-            # a set of lambdas are generated for each alpha value (l1_ratio in
-            # sci-kit learn parlance)
-            for alpha_idx, alpha in enumerate(self.alphas):
-                self.lambdas[alpha_idx, :] = _alpha_grid(
-                    X=X, y=y,
-                    l1_ratio=alpha,
-                    fit_intercept=self.fit_intercept,
-                    eps=self.eps,
-                    n_alphas=self.n_lambdas)
+        self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
+        # a set of lambdas are generated for each alpha value (l1_ratio in
+        # sci-kit learn parlance)
+        for alpha_idx, alpha in enumerate(self.alphas):
+            self.lambdas[alpha_idx, :] = _alpha_grid(
+                X=X, y=y,
+                l1_ratio=alpha,
+                fit_intercept=self.fit_intercept,
+                eps=self.eps,
+                n_alphas=self.n_lambdas)
 
         # place the regularization parameters into a list of dictionaries
         reg_params = list()
diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index f3b1da7..b0db14e 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -152,27 +152,26 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
 
     def get_reg_params(self, X, y):
         input_dim = X.shape[1]
-        if self.Cs is None:
-            if self.output_dim == 1:
-                w = np.zeros(input_dim)
-                if self.fit_intercept:
-                    intercept = LogisticInterceptFitterNoFeatures(
-                        y, 1).intercept_
-                    w = np.concatenate([w, np.atleast_1d(intercept)])
-                _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
-            else:
-                w = np.zeros((self.output_dim, input_dim))
-                yp = OneHotEncoder(categories=[range(self.output_dim)],
-                                   sparse=False).fit_transform(y[:, np.newaxis])
-                if self.fit_intercept:
-                    intercept = LogisticInterceptFitterNoFeatures(
-                        y, self.output_dim).intercept_
-                    w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
-                _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
-                                                    np.ones(X.shape[0]))
-            alpha_max = abs(grad[:-1]).max()
-            logC = -np.log10(alpha_max)
-            self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
+        if self.output_dim == 1:
+            w = np.zeros(input_dim)
+            if self.fit_intercept:
+                intercept = LogisticInterceptFitterNoFeatures(
+                    y, 1).intercept_
+                w = np.concatenate([w, np.atleast_1d(intercept)])
+            _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
+        else:
+            w = np.zeros((self.output_dim, input_dim))
+            yp = OneHotEncoder(categories=[range(self.output_dim)],
+                               sparse=False).fit_transform(y[:, np.newaxis])
+            if self.fit_intercept:
+                intercept = LogisticInterceptFitterNoFeatures(
+                    y, self.output_dim).intercept_
+                w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
+            _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
+                                                np.ones(X.shape[0]))
+        alpha_max = abs(grad[:-1]).max()
+        logC = -np.log10(alpha_max)
+        self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
         ret = list()
         for c in self.Cs:
             ret.append(dict(C=c))
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 63094d7..76a5cdd 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -524,19 +524,18 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             object.
         """
         n_samples = X.shape[0]
-        if self.lambdas is None:
-            self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
-            # a set of lambdas are generated for each alpha value (l1_ratio in
-            # sci-kit learn parlance)
-            for alpha_idx, alpha in enumerate(self.alphas):
-                # calculate upper bound for lambda sweep
-                ybar = y.mean()
-                lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
-                lambda_max /= n_samples * alpha
-                self.lambdas[alpha_idx, :] = np.logspace(
-                    start=np.log10(lambda_max),
-                    stop=np.log10(self.eps * lambda_max),
-                    num=self.n_lambdas)
+        self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
+        # a set of lambdas are generated for each alpha value (l1_ratio in
+        # sci-kit learn parlance)
+        for alpha_idx, alpha in enumerate(self.alphas):
+            # calculate upper bound for lambda sweep
+            ybar = y.mean()
+            lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
+            lambda_max /= n_samples * alpha
+            self.lambdas[alpha_idx, :] = np.logspace(
+                start=np.log10(lambda_max),
+                stop=np.log10(self.eps * lambda_max),
+                num=self.n_lambdas)
 
         # place the regularization parameters into a list of dictionaries
         reg_params = list()
-- 
2.43.0


From 8e814c8c0aa67fb9e17d35669721669bb0dd2b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 03/75] fix: discard the warm-start state of the selection
 model between bootstraps and fits

---
 src/pyuoi/linear_model/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 3c1cc37..36fd0c1 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -277,10 +277,9 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
                 my_reg_params = self.reg_params_
             # Never warm start across bootstraps
             if (curr_boot_idx != boot_idx):
-                if hasattr(self._selection_lm, 'coef_'):
-                    self._selection_lm.coef_ *= 0.
-                if hasattr(self._selection_lm, 'intercept_'):
-                    self._selection_lm.intercept_ *= 0.
+                for attr in ('coef_', 'intercept_'):
+                    if hasattr(self._selection_lm, attr):
+                        delattr(self._selection_lm, attr)
             curr_boot_idx = boot_idx
 
             # draw a resampled bootstrap
-- 
2.43.0


From 54e24f45fb0df1018bde2ed8b43254562d60ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 04/75] fix: map the generalized linear intercept back to
 original units

---
 src/pyuoi/linear_model/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 36fd0c1..f627083 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -718,8 +718,7 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
         super()._post_fit(X, y)
         if self.standardize and self.fit_intercept:
             sX = self._X_scaler
-            self.intercept_ += np.dot(sX.mean_ * sX.scale_,
-                                      self.coef_.T)
+            self.intercept_ -= np.dot(sX.mean_, self.coef_.T)
 
     def intersect(self, coef, thresholds):
         """Intersect coefficients accross all thresholds.
-- 
2.43.0


From 47a563a06deb2d76e420eb0ac0d4d31b9078eadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 05/75] fix: minimise the exact log-loss when refitting the
 logistic intercept

---
 src/pyuoi/linear_model/logistic.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index b0db14e..984b0ce 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -2,7 +2,6 @@ import numbers, warnings
 
 from sklearn.linear_model import LogisticRegression
 from sklearn.preprocessing import LabelEncoder, OneHotEncoder
-from sklearn.metrics import log_loss
 from sklearn.exceptions import ConvergenceWarning
 from sklearn.utils import (check_X_y, compute_class_weight,
                            check_consistent_length, check_array)
@@ -214,9 +213,10 @@ def fit_intercept_fixed_coef(X, coef_, y, output_dim):
     """Optimize the likelihood w.r.t. the intercept for a logistic model."""
     if output_dim == 1:
         def f_df(intercept):
-            py = sigmoid(X.dot(coef_.T) + intercept)
-            dfdb = py.mean() - y.mean()
-            return log_loss(y, py), np.atleast_1d(dfdb)
+            eta = (X.dot(coef_.T) + intercept).ravel()
+            dfdb = sigmoid(eta).mean() - y.mean()
+            loss = np.mean(np.logaddexp(0., eta) - y * eta)
+            return loss, np.atleast_1d(dfdb)
 
         opt = minimize(f_df, np.atleast_1d(np.zeros(1)),
                        method='L-BFGS-B', jac=True)
@@ -224,7 +224,8 @@ def fit_intercept_fixed_coef(X, coef_, y, output_dim):
     else:
         def f_df(short_intercept):
             intercept = np.concatenate([np.atleast_1d(1.), short_intercept])
-            py = softmax(X.dot(coef_.T) + intercept)
+            eta = X.dot(coef_.T) + intercept
+            py = softmax(eta)
 
             def dlogpi_dintk(ii, pyi):
                 if ii == 0:
@@ -237,7 +238,8 @@ def fit_intercept_fixed_coef(X, coef_, y, output_dim):
             dfdb = np.zeros_like(short_intercept)
             for yi, pyi in zip(y, py):
                 dfdb -= dlogpi_dintk(yi, pyi) / y.size
-            return log_loss(y, py, labels=np.arange(output_dim)), dfdb
+            loss = np.mean(logsumexp(eta, axis=1) - eta[np.arange(y.size), y])
+            return loss, dfdb
         opt = minimize(f_df, np.atleast_1d(np.zeros(output_dim - 1)),
                        method='L-BFGS-B', jac=True)
         intercept = np.concatenate([np.atleast_1d(1.), opt.x])
-- 
2.43.0


From eb094b9da1ccea6c17bfac616c15e794c532aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 06/75] fix: score encoded class labels against encoded labels

---
 src/pyuoi/linear_model/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index f627083..97ed9b9 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -785,7 +785,8 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
                 y_pred = fitter.predict_proba(X[:, support])
             else:
                 y_pred = fitter.predict_proba(X)
-            ll = -log_loss(y, y_pred, labels=self.classes_)
+            # y holds encoded labels, whatever the original classes are
+            ll = -log_loss(y, y_pred, labels=np.arange(self.classes_.size))
             if metric == 'log':
                 score = ll
             else:
-- 
2.43.0


From 1bba7991374f4657ee694ee277c5b6f043bf08d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 07/75] fix: keep the original class labels of a masked
 logistic regression

---
 src/pyuoi/linear_model/logistic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 984b0ce..e0acac7 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -380,7 +380,6 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         X, y = check_X_y(X, y, accept_sparse='csr', dtype=_dtype, order="C",
                          accept_large_sparse=True)
         check_classification_targets(y)
-        self.classes_ = np.unique(y)
         n_samples, n_features = X.shape
 
         multi_class = self.multi_class
-- 
2.43.0


From e8a375249a6eb396c842e399cab902a79995d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 08/75] fix: map the masked logistic intercept back to original
 units

---
 src/pyuoi/linear_model/logistic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index e0acac7..ea9ae25 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -437,7 +437,7 @@ class MaskedCoefLogisticRegression(LogisticRegression):
 
     def _pre_fit(self, X, y):
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         le = LabelEncoder()
         y = le.fit_transform(y)
@@ -456,6 +456,8 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         if self.standardize:
             sX = self._X_scaler
             self.coef_ /= sX.scale_[np.newaxis]
+            if self.fit_intercept:
+                self.intercept_ -= np.dot(sX.mean_, self.coef_.T)
 
 
 def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
-- 
2.43.0


From 69243c2d3d2365854c9e4a0fa632067500c0c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 09/75] fix: set a zero intercept for Poisson models fitted
 without one

---
 src/pyuoi/linear_model/poisson.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 76a5cdd..65bbf05 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -83,7 +83,9 @@ class Poisson(BaseEstimator):
         # check if the response variable is constant
         if np.unique(y).size == 1:
             self.coef_ = np.zeros(self.n_features)
-            if np.any(y):
+            if not self.fit_intercept:
+                self.intercept_ = 0.
+            elif np.any(y):
                 self.intercept_ = np.log(y.mean())
             else:
                 self.intercept_ = -np.inf
@@ -126,14 +128,14 @@ class Poisson(BaseEstimator):
                 self.intercept_ = coef[-1]
             else:
                 self.coef_ = coef
+                self.intercept_ = 0.
 
         # coordinate descent
         elif self.solver == 'cd':
             self.coef_, intercept = self._cd(X=X, y=y,
                                              sample_weight=sample_weight)
 
-            if self.fit_intercept:
-                self.intercept_ = intercept
+            self.intercept_ = intercept
 
         else:
             raise ValueError('Solver not available.')
-- 
2.43.0


From 14adc9292bdc70c9261a00682d43d63c744692b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 10/75] fix: do not centre the regressors of Poisson models
 without an intercept

---
 src/pyuoi/linear_model/poisson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 65bbf05..f35bab5 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -312,7 +312,7 @@ class Poisson(BaseEstimator):
     def _pre_fit(self, X, y):
         """Perform standardization, if needed, before fitting."""
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         return X, y
 
@@ -614,7 +614,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
     def _pre_fit(self, X, y):
         """Perform standardization, if needed, before fitting."""
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         if y.ndim == 2:
             self.output_dim = y.shape[1]
-- 
2.43.0


From 7d74f702e61921d0549c7c0d9f8ca6ef0a48de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 11/75] fix: let Poisson coordinate descent activate features
 that start at zero

---
 src/pyuoi/linear_model/poisson.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index f35bab5..3f7118a 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -215,19 +215,17 @@ class Poisson(BaseEstimator):
                 if self.standardize:
                     coef = self.coef_ * self._X_scaler.scale_
                 else:
-                    coef = self.coef_
+                    coef = np.copy(self.coef_)
 
             if self.fit_intercept:
                 if hasattr(self, 'intercept_'):
                     intercept = self.intercept_
 
-        # every coefficient is active unless there's a warm start
-        if self.warm_start:
-            active_idx = np.argwhere(coef != 0)
-        else:
-            active_idx = np.arange(self.n_features)
+        # every coefficient is active in the first sweep
+        active_idx = np.arange(self.n_features)
 
         prev_coef = np.copy(coef)
+        prev_intercept = intercept
         # perform coordinate descent updates
         for iteration in range(self.max_iter):
             # linearize the log-likelihood
@@ -241,13 +239,19 @@ class Poisson(BaseEstimator):
                 active_idx=active_idx)
 
             # check convergence
-            if np.max(np.abs(prev_coef - coef)) < self.tol:
-                break
-
+            change = max(np.max(np.abs(prev_coef - coef)),
+                         np.abs(prev_intercept - intercept))
             prev_coef = np.copy(coef)
+            prev_intercept = intercept
 
-            # update the active features
-            active_idx = np.argwhere(coef != 0).ravel()
+            if change >= self.tol:
+                # update the active features
+                active_idx = np.argwhere(coef != 0).ravel()
+            elif active_idx.size == self.n_features:
+                break
+            else:
+                # converged on the active features: check all the others
+                active_idx = np.arange(self.n_features)
 
         return coef, intercept
 
-- 
2.43.0


From 1d3cda56fc240c4a56fb926bff4109956b1311d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 12/75] fix: honour standardize=False in UoI_Poisson

---
 src/pyuoi/linear_model/poisson.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 3f7118a..4cd9661 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -483,6 +483,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             estimation_target=estimation_target,
             copy_X=copy_X,
             fit_intercept=fit_intercept,
+            standardize=standardize,
             random_state=random_state,
             comm=comm,
             logger=logger)
-- 
2.43.0


From 1e3ffea6439c698ca58b2172c843632be6d41075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 13/75] fix: broadcast arrays from the requested root rank

---
 src/pyuoi/mpi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 4c3f3e9..471c81f 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -112,7 +112,7 @@ def Bcast_from_root(send, comm=None, root=0):
     if comm is None:
         comm = MPI.COMM_WORLD
     rank = comm.rank
-    if rank == 0:
+    if rank == root:
         dtype = send.dtype
         shape = send.shape
     else:
@@ -120,7 +120,7 @@ def Bcast_from_root(send, comm=None, root=0):
         shape = None
     shape = comm.bcast(shape, root=root)
     dtype = comm.bcast(dtype, root=root)
-    if rank != 0:
+    if rank != root:
         send = np.empty(shape, dtype=dtype)
     comm.Bcast([send, _np2mpi[np.dtype(dtype)]], root=root)
     return send
-- 
2.43.0


From 3e87c73f9ba5c019f3e88aed404a219737dfd860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 14/75] fix: gather rows on the requested root rank and for 1-d
 arrays

---
 src/pyuoi/mpi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 471c81f..2e62273 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -160,12 +160,12 @@ def Gatherv_rows(send, comm=None, root=0):
     if rank == root:
         rec_shape = (tot[0],) + shape[1:]
         rec = np.empty(rec_shape, dtype=dtype)
-        sizes = [size * np.prod(rec_shape[1:]) for size in rank_sizes]
+        sizes = [size * np.prod(rec_shape[1:], dtype=int) for size in rank_sizes]
         disps = np.insert(np.cumsum(sizes), 0, 0)[:-1]
     else:
         rec = None
         sizes = None
         disps = None
 
-    comm.Gatherv(send, [rec, sizes, disps, _np2mpi[dtype]], root=0)
+    comm.Gatherv(send, [rec, sizes, disps, _np2mpi[dtype]], root=root)
     return rec
-- 
2.43.0


From db68de5391eed9ef0b81af60d9f4ba97722698ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 15/75] fix: convert COO matrices, which cannot be indexed by
 bootstrap

---
 src/pyuoi/linear_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 97ed9b9..f785665 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -203,7 +203,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
         X, y = self._pre_fit(X, y)
 
-        X, y = check_X_y(X, y, accept_sparse=['csr', 'csc', 'coo'],
+        X, y = check_X_y(X, y, accept_sparse=['csr', 'csc'],
                          y_numeric=True, multi_output=True)
 
         # extract model dimensions
-- 
2.43.0


From 053c0c1b87a16bc1b6ebbb97dd77c6b715374ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 16/75] fix: derive the logistic regularization grid from the
 gradient of all features

---
 src/pyuoi/linear_model/logistic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index ea9ae25..ec6f68e 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -157,7 +157,7 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
                 intercept = LogisticInterceptFitterNoFeatures(
                     y, 1).intercept_
                 w = np.concatenate([w, np.atleast_1d(intercept)])
-            _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
+            _, grad = _logistic_loss_and_grad(w, X, 2 * y - 1, 0., None)
         else:
             w = np.zeros((self.output_dim, input_dim))
             yp = OneHotEncoder(categories=[range(self.output_dim)],
@@ -168,7 +168,9 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
                 w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
             _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
                                                 np.ones(X.shape[0]))
-        alpha_max = abs(grad[:-1]).max()
+        # the intercepts are not penalized
+        grad = grad.reshape(self.output_dim, -1)[:, :input_dim]
+        alpha_max = abs(grad).max()
         logC = -np.log10(alpha_max)
         self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
         ret = list()
-- 
2.43.0


From 3a46651926aa1a276d56d621954bb8f8c3291585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 17/75] fix: draw CUR columns and bootstraps from the given
 random_state

---
 src/pyuoi/decomposition/CUR.py   | 7 +++++--
 src/pyuoi/decomposition/utils.py | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/decomposition/CUR.py b/src/pyuoi/decomposition/CUR.py
index 7b017b6..8b90cc3 100644
--- a/src/pyuoi/decomposition/CUR.py
+++ b/src/pyuoi/decomposition/CUR.py
@@ -4,7 +4,7 @@ from .base import AbstractDecompositionModel
 
 from sklearn.decomposition import TruncatedSVD
 from sklearn.model_selection import train_test_split
-from sklearn.utils import check_array
+from sklearn.utils import check_array, check_random_state
 from sklearn.utils.validation import check_is_fitted
 
 from .utils import column_select, stability_selection_to_threshold
@@ -95,6 +95,9 @@ class UoI_CUR(AbstractDecompositionModel):
             self.stability_selection,
             self.n_boots)
 
+        # one stream of random numbers for all column draws
+        rng = check_random_state(self.random_state)
+
         # keep track of which columns are chosen
         columns = np.zeros((n_ks, self.n_boots, n_features), dtype='int')
 
@@ -124,7 +127,7 @@ class UoI_CUR(AbstractDecompositionModel):
                 c = cs[k_idx]
 
                 column_indices = column_select(V[:, :k], c=c,
-                                               random_state=self.random_state)
+                                               random_state=rng)
                 # convert column flags to set
                 columns[k_idx, bootstrap][column_indices] += 1
 
diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 70a44f5..4c73a12 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -1,5 +1,7 @@
 import numpy as np
 
+from sklearn.utils import check_random_state
+
 
 def column_select(V, c, leverage_sort=False, random_state=None):
     """Chooses column indices from a matrix given its SVD.
@@ -24,7 +26,7 @@ def column_select(V, c, leverage_sort=False, random_state=None):
         score.
     """
     # random state
-    rng = np.random.RandomState(seed=None)
+    rng = check_random_state(random_state)
 
     # extract number of samples and rank
     n_features, k = V.shape
-- 
2.43.0


From 0d73f4a19d7dca7934bff50981642d2c682be064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 18/75] fix: do not truncate UoI_NMF weights to the integer
 dtype of the data

---
 src/pyuoi/decomposition/NMF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 52e105a..c0b811e 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -269,7 +269,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                 % (X.shape, self.components_.shape))
 
         H_t = self.components_.T
-        W = np.zeros((n_samples, self.n_components), dtype=X.dtype)
+        W = np.zeros((n_samples, self.n_components))
 
         # calculate coefficients for each sample
         for sample in range(n_samples):
-- 
2.43.0


From b82ea628aba583ecafad9e58f7230bc7a39d481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 19/75] fix: use the nmf, cluster, nnreg and cons_meth given to
 UoI_NMF

---
 src/pyuoi/decomposition/NMF.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index c0b811e..59220ee 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -415,28 +415,31 @@ class UoI_NMF(UoI_NMF_Base):
         nmf=None, cluster=None, nnreg=None, cons_meth=None
     ):
         # create NMF solver
-        nmf = skNMF(init=nmf_init,
-                    solver=nmf_solver,
-                    beta_loss=nmf_beta_loss,
-                    tol=nmf_tol,
-                    max_iter=nmf_max_iter)
+        if nmf is None:
+            nmf = skNMF(init=nmf_init,
+                        solver=nmf_solver,
+                        beta_loss=nmf_beta_loss,
+                        tol=nmf_tol,
+                        max_iter=nmf_max_iter)
 
         # create DBSCAN solver
         if db_min_samples is None:
             db_min_samples = max(n_boots // 2, 1)
-        dbscan = DBSCAN(eps=db_eps,
-                        min_samples=db_min_samples,
-                        metric=db_metric,
-                        metric_params=db_metric_params,
-                        algorithm=db_algorithm)
+        if cluster is None:
+            cluster = DBSCAN(eps=db_eps,
+                             min_samples=db_min_samples,
+                             metric=db_metric,
+                             metric_params=db_metric_params,
+                             algorithm=db_algorithm,
+                             leaf_size=db_leaf_size)
 
         super(UoI_NMF, self).__init__(
             n_boots=n_boots,
             ranks=ranks,
             nmf=nmf,
-            cluster=dbscan,
-            nnreg=None,
-            cons_meth=np.mean,
+            cluster=cluster,
+            nnreg=nnreg,
+            cons_meth=cons_meth,
             random_state=random_state,
             use_dissimilarity=use_dissimilarity,
             logger=logger)
-- 
2.43.0


From 668b119e101602e81036e7c97f13f9eb797cb61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 20/75] fix: give zero bases a finite dissimilarity

---
 src/pyuoi/decomposition/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 4c73a12..5145a71 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from sklearn.preprocessing import normalize
 from sklearn.utils import check_random_state
 
 
@@ -109,8 +110,8 @@ def dissimilarity(H1, H2):
         Dissimilarity between the two sets of bases.
     """
     k = H1.shape[0]
-    H1 = H1 / np.linalg.norm(H1, axis=1, keepdims=True)
-    H2 = H2 / np.linalg.norm(H2, axis=1, keepdims=True)
+    H1 = normalize(H1, norm='l2', axis=1)
+    H2 = normalize(H2, norm='l2', axis=1)
     C = np.dot(H1, H2.T)
     diss = 1 - ((np.max(C, axis=0).sum() + np.max(C, axis=1).sum()) / (2. * k))
     return diss
-- 
2.43.0


From 7dde0d1e566ea0223c57b2ba25942a5308170178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 21/75] fix: attach one handler to the default logger, not one
 per model

---
 src/pyuoi/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/utils.py b/src/pyuoi/utils.py
index 1b3709d..e130df3 100755
--- a/src/pyuoi/utils.py
+++ b/src/pyuoi/utils.py
@@ -145,10 +145,12 @@ def check_logger(logger, name='uoi', comm=None):
             name += " " + str(r).rjust(int(np.log10(s)) + 1)
 
         ret = logging.getLogger(name=name)
-        handler = logging.StreamHandler(sys.stdout)
+        # the logger is shared by all models: add its handler only once
+        if not ret.handlers:
+            handler = logging.StreamHandler(sys.stdout)
 
-        fmt = '%(asctime)s - %(name)s - %(levelname)s - %(message)s'
+            fmt = '%(asctime)s - %(name)s - %(levelname)s - %(message)s'
 
-        handler.setFormatter(logging.Formatter(fmt))
-        ret.addHandler(handler)
+            handler.setFormatter(logging.Formatter(fmt))
+            ret.addHandler(handler)
     return ret
-- 
2.43.0


From 7c1ab052aeb309e77dcf8dc66d02ff1ade6c23ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 22/75] fix: open the packaged swimmer data read-only

---
 src/pyuoi/datasets/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index d13394e..0c42f97 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -7,7 +7,7 @@ from ..utils import softmax, sigmoid
 def load_swimmer(flatten=True):
     from pkg_resources import resource_filename
     import h5py
-    with h5py.File(resource_filename('pyuoi', 'data/Swimmer.h5'), 'r+') as f:
+    with h5py.File(resource_filename('pyuoi', 'data/Swimmer.h5'), 'r') as f:
         swimmers = f['Y'][:].astype(float)
     if flatten:
         swimmers = swimmers.T.reshape(256, 1024)
-- 
2.43.0


From e3074a9b32227561802a68887f851aca78bdeb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 23/75] fix: score empty supports without an intercept when
 fit_intercept=False

---
 src/pyuoi/linear_model/base.py     | 5 ++++-
 src/pyuoi/linear_model/logistic.py | 5 ++++-
 src/pyuoi/linear_model/poisson.py  | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index f785665..38930ee 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -646,7 +646,10 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
 
         This is used in cases where the model has no support selected.
         """
-        return LinearInterceptFitterNoFeatures(y)
+        fitter = LinearInterceptFitterNoFeatures(y)
+        if not self.fit_intercept:
+            fitter.intercept_ = 0.
+        return fitter
 
     def _fit_intercept(self, X, y):
         """Fit the intercept."""
diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index ec6f68e..99973d7 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -183,7 +183,10 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
 
         This is used in cases where the model has no support selected.
         """
-        return LogisticInterceptFitterNoFeatures(y, self.output_dim)
+        fitter = LogisticInterceptFitterNoFeatures(y, self.output_dim)
+        if not self.fit_intercept:
+            fitter.intercept_ = np.zeros_like(fitter.intercept_)
+        return fitter
 
     def _fit_intercept(self, X, y):
         """"Fit a model with an intercept and fixed coefficients.
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 4cd9661..89ad516 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -659,7 +659,10 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
 
         This is used in cases where the model has no support selected.
         """
-        return PoissonInterceptFitterNoFeatures(y)
+        fitter = PoissonInterceptFitterNoFeatures(y)
+        if not self.fit_intercept:
+            fitter.intercept_ = 0.
+        return fitter
 
 
 class PoissonInterceptFitterNoFeatures(object):
-- 
2.43.0


From 515a5630fab8c52a73f010ae05dda8038b81f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 24/75] fix: leave all-zero features out of Poisson coordinate
 descent

---
 src/pyuoi/linear_model/poisson.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 89ad516..2b0fd00 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -307,9 +307,14 @@ class Poisson(BaseEstimator):
             num_update = np.dot(w, x * (z - z_hat)) / n_samples
             den_update = np.dot(w, x**2) / n_samples
             # replace coefficients sequentially
+            den_update += self.alpha * (1 - self.l1_ratio)
+            if den_update == 0:
+                # a feature that is zero everywhere has no effect
+                coef[idx] = 0.
+                continue
             coef[idx] = \
                 self.soft_threshold(num_update, self.l1_ratio * self.alpha) \
-                / (den_update + self.alpha * (1 - self.l1_ratio))
+                / den_update
 
         return coef, intercept
 
-- 
2.43.0


From d8285d45b22587157ef6124912e5213e92bf01d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 25/75] fix: raise the exceptions of LBFGS callbacks instead of
 swallowing them

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 7afad38..faf0a72 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -113,12 +113,19 @@ cdef lbfgsfloatval_t call_eval(void *cb_data_v,
     cdef np.npy_intp tshape[1]
 
     callback_data = <object>cb_data_v
-    (f, progress_fn, shape, args) = callback_data
+    (f, progress_fn, shape, args, errors) = callback_data
     tshape[0] = <np.npy_intp>n
     x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE, <void *>x)
     g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE, <void *>g)
 
-    return f(x_array.reshape(shape), g_array.reshape(shape), *args)
+    # an exception cannot pass through liblbfgs: keep it for minimize()
+    if errors:
+        return 0.
+    try:
+        return f(x_array.reshape(shape), g_array.reshape(shape), *args)
+    except BaseException as e:
+        errors.append(e)
+        return 0.
 
 
 # Callback into Python progress reporting callable.
@@ -131,7 +138,10 @@ cdef int call_progress(void *cb_data_v,
     cdef np.npy_intp tshape[1]
 
     callback_data = <object>cb_data_v
-    (f, progress_fn, shape, args) = callback_data
+    (f, progress_fn, shape, args, errors) = callback_data
+
+    if errors:
+        return LBFGSERR_CANCELED
 
     if progress_fn:
         tshape[0] = <np.npy_intp>n
@@ -140,10 +150,14 @@ cdef int call_progress(void *cb_data_v,
         g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
                                                <void *>g)
 
-        r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
-                        xnorm, gnorm, step, k, ls, *args)
-        # TODO what happens when the callback returns the wrong type?
-        return 0 if r is None else r
+        try:
+            r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
+                            xnorm, gnorm, step, k, ls, *args)
+            # TODO what happens when the callback returns the wrong type?
+            return 0 if r is None else r
+        except BaseException as e:
+            errors.append(e)
+            return LBFGSERR_CANCELED
     else:
         return 0
 
@@ -396,10 +410,14 @@ cdef class LBFGS(object):
         x_a = aligned_copy(x0.ravel())
 
         try:
-            callback_data = (f, progress, x0.shape, args)
+            errors = []
+            callback_data = (f, progress, x0.shape, args, errors)
             r = lbfgs(n, x_a, fx_final, call_eval,
                       call_progress, <void *>callback_data, &self.params)
 
+            if errors:
+                raise errors[0]
+
             if r == LBFGS_SUCCESS or r == LBFGS_ALREADY_MINIMIZED:
 
                 x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
-- 
2.43.0


From 9c35772d5d55c8ad6492733e97475802a340467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 26/75] fix: report a delta-test stop as success and a
 cancelled LBFGS run as LBFGSError

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index faf0a72..6671885 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -154,7 +154,10 @@ cdef int call_progress(void *cb_data_v,
             r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
                             xnorm, gnorm, step, k, ls, *args)
             # TODO what happens when the callback returns the wrong type?
-            return 0 if r is None else r
+            if r is None or r == 0:
+                return 0
+            # do not let the caller's value pass for a status of liblbfgs
+            return LBFGS_ALLZERO if r == LBFGS_ALLZERO else LBFGSERR_CANCELED
         except BaseException as e:
             errors.append(e)
             return LBFGSERR_CANCELED
@@ -418,7 +421,7 @@ cdef class LBFGS(object):
             if errors:
                 raise errors[0]
 
-            if r == LBFGS_SUCCESS or r == LBFGS_ALREADY_MINIMIZED:
+            if r in (LBFGS_SUCCESS, LBFGS_STOP, LBFGS_ALREADY_MINIMIZED):
 
                 x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
                                                        <void *>x_a).copy()
-- 
2.43.0


From 2af9c3efef1a23c9f04a09390a3b5df173536ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 27/75] fix: map the warm start of Poisson to standardized
 units, ignore an infinite one

---
 src/pyuoi/linear_model/poisson.py | 42 ++++++++++++++-----------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 2b0fd00..048b412 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -92,16 +92,7 @@ class Poisson(BaseEstimator):
             return self
 
         if self.solver == 'lbfgs':
-            coef = np.zeros(self.n_features)
-            intercept = 0
-            if self.warm_start:
-                if hasattr(self, 'coef_'):
-                    if self.standardize:
-                        coef = self.coef_ * self._X_scaler.scale_
-                    else:
-                        coef = self.coef_
-                if hasattr(self, 'intercept_') and self.fit_intercept:
-                    intercept = self.intercept_
+            coef, intercept = self._initial_params()
 
             if self.fit_intercept:
                 coef = np.append(coef, intercept)
@@ -179,6 +170,23 @@ class Poisson(BaseEstimator):
         mu = np.exp(self.intercept_ + np.dot(X, self.coef_))
         return mu
 
+    def _initial_params(self):
+        """Starting point in the units of the (standardized) design matrix."""
+        coef = np.zeros(self.n_features)
+        intercept = 0
+        # warm start coefficients, if necessary
+        if self.warm_start:
+            if hasattr(self, 'coef_'):
+                coef = np.copy(self.coef_)
+            if self.fit_intercept and np.isfinite(getattr(self, 'intercept_',
+                                                          0)):
+                intercept = getattr(self, 'intercept_', 0)
+            if self.standardize:
+                if self.fit_intercept:
+                    intercept = intercept + np.dot(self._X_scaler.mean_, coef)
+                coef *= self._X_scaler.scale_
+        return coef, intercept
+
     def _cd(self, X, y, sample_weight=None):
         """Performs coordinate descent on a dataset.
 
@@ -207,19 +215,7 @@ class Poisson(BaseEstimator):
             sample_weight = np.ones(n_samples)
 
         # initialization of coef and intercepts
-        coef = np.zeros(n_features)
-        intercept = 0
-        # warm start coefficients, if necessary
-        if self.warm_start:
-            if hasattr(self, 'coef_'):
-                if self.standardize:
-                    coef = self.coef_ * self._X_scaler.scale_
-                else:
-                    coef = np.copy(self.coef_)
-
-            if self.fit_intercept:
-                if hasattr(self, 'intercept_'):
-                    intercept = self.intercept_
+        coef, intercept = self._initial_params()
 
         # every coefficient is active in the first sweep
         active_idx = np.arange(self.n_features)
-- 
2.43.0


From 4a590960c04e12e33ba62712df6a214b17282c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 28/75] fix: let the L1 logistic solver converge instead of
 returning all zeros early

The all-zero shortcut dropped the intercept, ignored the last coefficient
without an intercept, and an empty mask skipped the intercept fit.
---
 src/pyuoi/linear_model/logistic.py | 34 +++++++-----------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 99973d7..d35db88 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -17,7 +17,7 @@ import numpy as np
 
 from .base import AbstractUoIGeneralizedLinearRegressor
 from ..utils import sigmoid, softmax
-from ..lbfgs import fmin_lbfgs, AllZeroLBFGSError
+from ..lbfgs import fmin_lbfgs
 
 
 class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
@@ -671,7 +671,7 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
     coefs = list()
     n_iter = np.zeros(len(Cs), dtype=np.int32)
     for i, C in enumerate(Cs):
-        if coef_mask is None or coef_mask.sum():
+        if coef_mask is None or coef_mask.sum() or fit_intercept:
             iprint = [-1, 50, 1, 100, 101][
                 np.searchsorted(np.array([0, 1, 2, 3]), verbose)]
             if penalty == 'l2':
@@ -700,30 +700,12 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
                     w0[mask] = wp
 
             else:
-                zeros_seen = [0]
-
-                def zero_coef(x, *args):
-                    if multi_class == 'multinomial':
-                        x = x.reshape(-1, classes.size)[:-1]
-                    else:
-                        x = x[:-1]
-                    now_zeros = np.array_equiv(x, 0.)
-                    if now_zeros:
-                        zeros_seen[0] += 1
-                    else:
-                        zeros_seen[0] = 0
-                    if zeros_seen[0] > 1:
-                        return -2048
-                try:
-                    args = (X, target, 0., coef_mask, sample_weight)
-                    w0 = fmin_lbfgs(func, w0, orthantwise_c=1. / C,
-                                    args=args,
-                                    max_iterations=max_iter,
-                                    epsilon=tol,
-                                    orthantwise_end=coef_size,
-                                    progress=zero_coef)
-                except AllZeroLBFGSError:
-                    w0 *= 0.
+                args = (X, target, 0., coef_mask, sample_weight)
+                w0 = fmin_lbfgs(func, w0, orthantwise_c=1. / C,
+                                args=args,
+                                max_iterations=max_iter,
+                                epsilon=tol,
+                                orthantwise_end=coef_size)
                 info = None
             if info is not None and info["warnflag"] == 1:
                 warnings.warn("lbfgs failed to converge. Increase the number "
-- 
2.43.0


From fa52c369594466ed7b6063807fd31f22aad741ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 29/75] fix: look class weights up by the original class labels

---
 src/pyuoi/linear_model/logistic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index d35db88..a4e5d8a 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -415,6 +415,13 @@ class MaskedCoefLogisticRegression(LogisticRegression):
                                         self.intercept_[:, np.newaxis],
                                         axis=1)
 
+        class_weight = self.class_weight
+        if isinstance(class_weight, dict):
+            # the labels are encoded as 0, ..., n_classes - 1
+            class_weight = {i: class_weight[c]
+                            for i, c in enumerate(self.classes_)
+                            if c in class_weight}
+
         self.intercept_ = np.zeros(n_classes)
 
         fold_coefs_ = _logistic_regression_path(
@@ -422,7 +429,7 @@ class MaskedCoefLogisticRegression(LogisticRegression):
             fit_intercept=self.fit_intercept,
             tol=self.tol, verbose=self.verbose,
             multi_class=multi_class, max_iter=self.max_iter,
-            class_weight=self.class_weight, penalty=self.penalty,
+            class_weight=class_weight, penalty=self.penalty,
             check_input=False,
             coef=warm_start_coef,
             sample_weight=sample_weight, coef_mask=coef_mask)
-- 
2.43.0


From 9227b337f263ec10ee856b95ee0bd9ba47cb3549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 30/75] fix: halve Poisson coordinate descent steps that
 overshoot the minimum

---
 src/pyuoi/linear_model/poisson.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 048b412..b49d56a 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -222,6 +222,7 @@ class Poisson(BaseEstimator):
 
         prev_coef = np.copy(coef)
         prev_intercept = intercept
+        prev_loss = self._penalized_loss(X, y, coef, intercept, sample_weight)
         # perform coordinate descent updates
         for iteration in range(self.max_iter):
             # linearize the log-likelihood
@@ -234,6 +235,18 @@ class Poisson(BaseEstimator):
                 coef=coef, intercept=intercept, X=X, w=w, z=z,
                 active_idx=active_idx)
 
+            # halve a step that overshoots the minimum
+            loss = self._penalized_loss(X, y, coef, intercept, sample_weight)
+            bound = prev_loss + 1e-10 * (1 + np.abs(prev_loss))
+            for _ in range(60):
+                if loss <= bound or not np.isfinite(prev_loss):
+                    break
+                coef = (coef + prev_coef) / 2.
+                intercept = (intercept + prev_intercept) / 2.
+                loss = self._penalized_loss(X, y, coef, intercept,
+                                            sample_weight)
+            prev_loss = loss
+
             # check convergence
             change = max(np.max(np.abs(prev_coef - coef)),
                          np.abs(prev_intercept - intercept))
@@ -251,6 +264,14 @@ class Poisson(BaseEstimator):
 
         return coef, intercept
 
+    def _penalized_loss(self, X, y, coef, intercept, sample_weight):
+        """Objective minimized by coordinate descent."""
+        eta = intercept + np.dot(X, coef)
+        loss = np.mean(sample_weight * (np.exp(eta) - y * eta))
+        loss += self.alpha * self.l1_ratio * np.sum(np.abs(coef))
+        loss += 0.5 * self.alpha * (1 - self.l1_ratio) * np.dot(coef, coef)
+        return loss
+
     def _cd_sweep(self, coef, X, w, z, active_idx, intercept=0):
         """Performs one sweep of coordinate descent updates over a set of
         'active' features.
-- 
2.43.0


From 03bea1d61d331fa5591b26e6f5b0bc1bff1f10fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 31/75] fix: leave steps without curvature out of the LBFGS
 memory

A coefficient of an all-zero feature (warm start) gave a zero curvature
pair, a nan search direction, and a failed line search.
---
 liblbfgs/lbfgs.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 7c29728..1d412d1 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -264,7 +264,7 @@ int lbfgs(
     lbfgsfloatval_t *g = NULL, *gp = NULL, *pg = NULL;
     lbfgsfloatval_t *d = NULL, *w = NULL, *pf = NULL;
     iteration_data_t *lm = NULL, *it = NULL;
-    lbfgsfloatval_t ys, yy;
+    lbfgsfloatval_t ys, yy, ss, scale;
     lbfgsfloatval_t xnorm, gnorm, beta;
     lbfgsfloatval_t fx = 0.;
     lbfgsfloatval_t rate = 0.;
@@ -457,6 +457,8 @@ int lbfgs(
 
     k = 1;
     end = 0;
+    bound = 0;
+    scale = step;
     for (;;) {
         /* Store the current position and gradient vectors. */
         veccpy(xp, x, n);
@@ -552,8 +554,22 @@ int lbfgs(
          */
         vecdot(&ys, it->y, it->s, n);
         vecdot(&yy, it->y, it->y, n);
+        vecdot(&ss, it->s, it->s, n);
         it->ys = ys;
 
+        /*
+            A step without curvature (0 / 0 below) is not kept; its place is
+            that of the oldest pair when the memory is full.
+         */
+        if (ys != 0. || ss == 0.) {
+            scale = ys / yy;
+            end = (end + 1) % m;
+            if (bound < m) ++bound;
+        } else if (bound == m) {
+            --bound;
+        }
+        ++k;
+
         /*
             Recursive formula to compute dir = -(H \cdot g).
                 This is described in page 779 of:
@@ -562,9 +578,6 @@ int lbfgs(
                 Mathematics of Computation, Vol. 35, No. 151,
                 pp. 773--782, 1980.
          */
-        bound = (m <= k) ? m : k;
-        ++k;
-        end = (end + 1) % m;
 
         /* Compute the steepest direction. */
         if (param.orthantwise_c == 0.) {
@@ -585,7 +598,7 @@ int lbfgs(
             vecadd(d, it->y, -it->alpha, n);
         }
 
-        vecscale(d, ys / yy, n);
+        vecscale(d, scale, n);
 
         for (i = 0;i < bound;++i) {
             it = &lm[j];
-- 
2.43.0


From 7de8ed03ed041ab24a885a7c4583eca042bfbbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:00 +0000
Subject: [PATCH 32/75] fix: end the backtracking line search when the
 objective is not a number

A nan objective or point was taken for a sufficient decrease for ever.
---
 liblbfgs/lbfgs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 1d412d1..5dca2fc 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -700,7 +700,8 @@ static int line_search_backtracking(
 
         ++count;
 
-        if (*f > finit + *stp * dgtest) {
+        /* Written so that a value that is not a number is not sufficient. */
+        if (!(*f <= finit + *stp * dgtest)) {
             width = dec;
         } else {
             /* The sufficient decrease condition (Armijo condition). */
-- 
2.43.0


From 0c3382d1df0d4eea11999ddb19f98ad645693d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:00 +0000
Subject: [PATCH 33/75] fix: report a failed allocation of the LBFGS objective
 history

---
 liblbfgs/lbfgs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 5dca2fc..67a9923 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -406,6 +406,10 @@ int lbfgs(
     /* Allocate an array for storing previous values of the objective function. */
     if (0 < param.past) {
         pf = (lbfgsfloatval_t*)vecalloc(param.past * sizeof(lbfgsfloatval_t));
+        if (pf == NULL) {
+            ret = LBFGSERR_OUTOFMEMORY;
+            goto lbfgs_exit;
+        }
     }
 
     /* Evaluate the function value and its gradient. */
-- 
2.43.0


From 4b631aacefa6806a3057b2c50f7d0c8a91b4bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:00 +0000
Subject: [PATCH 34/75] fix: reject a number of LBFGS corrections below one

It made the optimizer write outside of its memory.
---
 liblbfgs/lbfgs.c              | 3 +++
 src/pyuoi/lbfgs/_lowlevel.pyx | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 67a9923..160c792 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -294,6 +294,9 @@ int lbfgs(
         return LBFGSERR_INVALID_X_SSE;
     }
 #endif/*defined(USE_SSE)*/
+    if (m <= 0) {
+        return LBFGSERR_INVALIDPARAMETERS;
+    }
     if (param.epsilon < 0.) {
         return LBFGSERR_INVALID_EPSILON;
     }
diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 6671885..adfa750 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -229,7 +229,8 @@ _ERROR_MESSAGES = {
     LBFGSERR_WIDTHTOOSMALL:
         "Relative width of the interval of uncertainty is at most xtol.",
     LBFGSERR_INVALIDPARAMETERS:
-        "A logic error (negative line-search step) occurred.",
+        "A logic error (negative line-search step) occurred;"
+        " alternatively, the number of corrections m is not positive.",
     LBFGSERR_INCREASEGRADIENT:
         "The current search direction increases the objective function value.",
 }
-- 
2.43.0


From 446fe0c3f8e941df26e2ba22c11740b99abd7168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 35/75] fix: let the pycasso solver fit a path of one or two
 strengths

---
 src/pyuoi/linear_model/lasso.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index 2bc148e..d406478 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -101,16 +101,21 @@ class PycLasso():
                       'issues/25 for resolution.')
             raise ValueError(string)
 
+        # pycasso reads one or two values as (number of lambdas, ratio), so
+        # pad a path that short and drop the padding from the solution
+        n_alphas = len(self.alphas)
+        alphas = np.append(self.alphas,
+                           [self.alphas[-1]] * max(0, 3 - n_alphas))
         self.solver = pycasso.Solver(X, y, family='gaussian',
                                      useintercept=self.fit_intercept,
-                                     lambdas=self.alphas,
+                                     lambdas=alphas,
                                      penalty='l1',
                                      max_ite=self.max_iter,
                                      prec=self.tol)
         self.solver.train()
         # Coefs across the entire solution path
-        self.coef_ = self.solver.result['beta']
-        self.intercept_ = self.solver.result['intercept']
+        self.coef_ = self.solver.result['beta'][:n_alphas]
+        self.intercept_ = self.solver.result['intercept'][:n_alphas]
         self.isfitted = True
         return self
 
-- 
2.43.0


From c726394e82351ef27a792ef9252586e42e27831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 36/75] fix: treat NumPy integers as seeds in the linear models

---
 src/pyuoi/linear_model/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 38930ee..13c99e5 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -1,6 +1,7 @@
 import abc as _abc
 import numpy as np
 import logging
+import numbers
 from sklearn.linear_model._base import SparseCoefMixin
 from sklearn.metrics import r2_score, accuracy_score, log_loss
 from sklearn.model_selection import train_test_split
@@ -102,7 +103,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
         self.tol = tol
         self.comm = comm
         # preprocessing
-        if isinstance(random_state, int):
+        if isinstance(random_state, numbers.Integral):
             # make sure ranks use different seed
             if self.comm is not None:
                 random_state += self.comm.rank
-- 
2.43.0


From 223a648c11b0e4eb24929beebe1a3b07fe8a8b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 37/75] fix: accept NumPy integers as seeds of UoI_NMF and
 make_classification

---
 src/pyuoi/datasets/__init__.py | 3 ++-
 src/pyuoi/decomposition/NMF.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index 0c42f97..d4aef87 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -1,3 +1,4 @@
+import numbers
 import numpy as np
 from sklearn.utils import check_random_state
 
@@ -123,7 +124,7 @@ def make_classification(n_samples=100, n_features=20, n_informative=2,
         If true, includes an intercept in the model, if False, the intercept is
         set to 0.
     """
-    if isinstance(random_state, int):
+    if isinstance(random_state, numbers.Integral):
         rng = np.random.RandomState(random_state)
     else:
         if random_state is None:
diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 59220ee..f6357f7 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -1,6 +1,7 @@
 import scipy.optimize as spo
 import numpy as np
 import logging
+import numbers
 
 from .base import AbstractDecompositionModel
 from .utils import dissimilarity
@@ -143,7 +144,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         if random_state is None:
             self._rand = np.random.RandomState()
         else:
-            if isinstance(random_state, int):
+            if isinstance(random_state, numbers.Integral):
                 self._rand = np.random.RandomState(random_state)
             elif isinstance(random_state, np.random.RandomState):
                 self._rand = random_state
-- 
2.43.0


From 6c8cded18f328b5469473bb10ff867e80d0ff85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 38/75] fix: accept any cluster labels in UoI_NMF, not only
 0..n-1

---
 src/pyuoi/decomposition/NMF.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index f6357f7..1da1cbc 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -230,9 +230,9 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                           n_clusters)
         H_cons = np.zeros((n_clusters, n_features))
 
-        for c_id in cluster_ids:
-            H_cons[c_id, :] = self.cons_meth(H_pre_cluster[labels == c_id],
-                                             axis=0)
+        for row, c_id in enumerate(cluster_ids):
+            H_cons[row, :] = self.cons_meth(H_pre_cluster[labels == c_id],
+                                            axis=0)
 
         # re-normalize across features
         H_cons = normalize(H_cons, norm='l2', axis=1)
-- 
2.43.0


From 46e620625cb08b945740573fa506b1529436b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 39/75] fix: choose the ranks of UoI_NMF from the data when
 none are given

---
 src/pyuoi/decomposition/NMF.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 1da1cbc..e6f27fc 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -30,7 +30,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         The number of bootstraps to use for model selection.
     ranks : int, list, or None
         The range of k to use. If *ranks* is an int, range(2, ranks + 1) will
-        be used. If not specified, range(X.shape[1]) will be used.
+        be used. If not specified, range(2, X.shape[1]) will be used.
     nmf : NMF object
         The NMF object to use to perform fitting.
         Note: this class must take *n_components* as an argument.
@@ -95,7 +95,9 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         self.components_ = None
         logger = kwargs['logger']
 
-        # initialize NMF ranks to use
+        # initialize NMF ranks to use; None stands for all ranks that suit the
+        # data, which are known in fit
+        self.ranks = None
         if ranks is not None:
             if isinstance(ranks, int):
                 self.ranks = list(range(2, ranks + 1)) \
@@ -178,23 +180,27 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         check_non_negative(X, 'UoI NMF')
         n_samples, n_features = X.shape
 
+        ranks = self.ranks
+        if ranks is None:
+            ranks = range(2, max(n_features, 3))
+
         H_samples = {k: np.zeros((self.n_boots, k, n_features))
-                     for k in self.ranks}
+                     for k in ranks}
 
         rep_idx = self._rand.randint(n_samples, size=(self.n_boots, n_samples))
         for boot_idx in range(self.n_boots):
             self._logger.info("Bootstrap %d" % boot_idx)
             # compute NMF bases for k across bootstrap replicates
             sample = X[rep_idx[boot_idx]]
-            for k_idx, k in enumerate(self.ranks):
+            for k_idx, k in enumerate(ranks):
                 # concatenate k by p
                 H_samples[k][boot_idx] = \
                     self.nmf.set_params(n_components=k).fit(sample).components_
 
         if self.use_dissimilarity:
-            gamma = np.zeros(len(self.ranks))
+            gamma = np.zeros(len(ranks))
             # iterate over each rank
-            for k_idx, k in enumerate(self.ranks):
+            for k_idx, k in enumerate(ranks):
                 # extract the bases for each rank
                 H_k = H_samples[k]
                 for boot1, boot2 in combinations(range(self.n_boots), 2):
@@ -202,14 +208,14 @@ class UoI_NMF_Base(AbstractDecompositionModel):
             self.dissimilarity_ = (gamma * 2) /\
                                   (self.n_boots *
                                    (self.n_boots - 1))
-            k_min = self.ranks[np.argmin(gamma)]
+            k_min = ranks[np.argmin(gamma)]
             H_pre_cluster = H_samples[k_min].reshape((self.n_boots * k_min,
                                                       n_features))
         else:
-            H_pre_cluster = np.zeros((self.n_boots * np.sum(self.ranks),
+            H_pre_cluster = np.zeros((self.n_boots * np.sum(ranks),
                                       n_features))
             start_idx = 0
-            for k in self.ranks:
+            for k in ranks:
                 H_k = H_samples[k].reshape((self.n_boots * k, n_features))
                 end_idx = start_idx + self.n_boots * k
                 H_pre_cluster[start_idx:end_idx] = H_k
@@ -343,7 +349,7 @@ class UoI_NMF(UoI_NMF_Base):
         The number of bootstraps to use for model selection.
     ranks : int, list, or None
         The range of k to use. If *ranks* is an int, range(2, ranks + 1) will
-        be used. If not specified, range(X.shape[1]) will be used.
+        be used. If not specified, range(2, X.shape[1]) will be used.
     nmf_init :  "random" | "nndsvd" |  "nndsvda" | "nndsvdar" | "custom"
         Method used to initialize the NMF procedure. Valid options:
             * "random": non-negative random matrices, scaled with
-- 
2.43.0


From 1c733ace4093ed97cc187c9c37da2140d5a58c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 40/75] fix: reject unknown solvers of UoI_Lasso

---
 src/pyuoi/linear_model/lasso.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index d406478..1d146f9 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -246,6 +246,8 @@ class UoI_Lasso(AbstractUoILinearRegressor, LinearRegression):
                 fit_intercept=fit_intercept,
                 max_iter=max_iter,
                 tol=tol)
+        else:
+            raise ValueError("invalid solver: '%s'" % solver)
 
         self._estimation_lm = LinearRegression(fit_intercept=fit_intercept)
 
-- 
2.43.0


From 4e3fb88340706a8dd69dff602ee5846de7911dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 41/75] fix: drop the results of an earlier fit when the
 response is constant

---
 src/pyuoi/linear_model/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 13c99e5..056e7d5 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -213,6 +213,12 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
         # check if the response variable is constant
         if np.unique(y).size == 1:
+            # there is no selection or estimation: drop those of another fit
+            for attr in ('supports_', 'estimates_', 'scores_', 'rp_max_idx_',
+                         'reg_params_', 'n_reg_params_'):
+                if hasattr(self, attr):
+                    delattr(self, attr)
+            self.n_supports_ = None
             self.coef_ = np.zeros((self.output_dim, n_features))
             self._fit_intercept(X, y)
             self._post_fit(X, y)
-- 
2.43.0


From 7e9f3e5af88bf0708c05374d1498f523e1910673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 42/75] fix: reject non-numeric ranks and column counts of
 UoI_CUR with ValueError

---
 src/pyuoi/decomposition/CUR.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/decomposition/CUR.py b/src/pyuoi/decomposition/CUR.py
index 8b90cc3..9969a22 100644
--- a/src/pyuoi/decomposition/CUR.py
+++ b/src/pyuoi/decomposition/CUR.py
@@ -173,9 +173,9 @@ class UoI_CUR(AbstractDecompositionModel):
 
         # check that the numpy array contains valid values
         if (
-            (not np.all(ks <= self.max_k))
+            (not np.issubdtype(ks.dtype, np.integer))
+            or (not np.all(ks <= self.max_k))
             or (not np.all(ks > 0))
-            or (not np.issubdtype(ks.dtype, np.integer))
         ):
             raise ValueError('Ranks must be positive, integers, and no more'
                              ' than the max rank.')
@@ -195,8 +195,8 @@ class UoI_CUR(AbstractDecompositionModel):
 
         # check that the numpy array contains valid values
         if (
-            (not np.all(cs > 0))
-            or (not np.issubdtype(cs.dtype, np.number))
+            (not np.issubdtype(cs.dtype, np.number))
+            or (not np.all(cs > 0))
             or (not cs.size == ks.size)
         ):
             raise ValueError('Expected number of columns must consist of'
-- 
2.43.0


From e4dd642923791bde73370b9109a7e1c58d47d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 43/75] fix: start the UoI_Poisson path where no feature is
 selected without intercept too

---
 src/pyuoi/linear_model/poisson.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index b49d56a..6eefd25 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -558,7 +558,8 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
         # sci-kit learn parlance)
         for alpha_idx, alpha in enumerate(self.alphas):
             # calculate upper bound for lambda sweep
-            ybar = y.mean()
+            # (gradient of the loss at the model without any feature)
+            ybar = y.mean() if self.fit_intercept else 1.
             lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
             lambda_max /= n_samples * alpha
             self.lambdas[alpha_idx, :] = np.logspace(
-- 
2.43.0


From ffe559c37a033022f40cfda45a7caa226423d0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 44/75] fix: center the data for pycasso, which leaves the
 intercept out of its problem

---
 src/pyuoi/linear_model/lasso.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index 1d146f9..fe8a00d 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -106,7 +106,12 @@ class PycLasso():
         n_alphas = len(self.alphas)
         alphas = np.append(self.alphas,
                            [self.alphas[-1]] * max(0, 3 - n_alphas))
-        self.solver = pycasso.Solver(X, y, family='gaussian',
+        # pycasso leaves the intercept out of the optimization, so center the
+        # data and recover the intercept afterwards
+        X_offset = np.mean(X, axis=0)
+        y_offset = np.mean(y, axis=0)
+        self.solver = pycasso.Solver(X - X_offset, y - y_offset,
+                                     family='gaussian',
                                      useintercept=self.fit_intercept,
                                      lambdas=alphas,
                                      penalty='l1',
@@ -115,7 +120,8 @@ class PycLasso():
         self.solver.train()
         # Coefs across the entire solution path
         self.coef_ = self.solver.result['beta'][:n_alphas]
-        self.intercept_ = self.solver.result['intercept'][:n_alphas]
+        self.intercept_ = (self.solver.result['intercept'][:n_alphas]
+                           + y_offset - np.dot(self.coef_, X_offset))
         self.isfitted = True
         return self
 
-- 
2.43.0


From 72b6ef5051cb8cd688d83c033b5a7433d98a8896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 45/75] fix: make_classification with a single sample

---
 src/pyuoi/datasets/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index d4aef87..334154f 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -171,7 +171,7 @@ def make_classification(n_samples=100, n_features=20, n_informative=2,
         y = np.array([rng.multinomial(1, pi) for pi in p])
         y = y.argmax(axis=-1)
     else:
-        p = sigmoid(np.squeeze(log_p))
+        p = sigmoid(log_p[:, 0])
         y = np.array([rng.binomial(1, pi) for pi in p])
 
     return X, y, w.T, intercept
-- 
2.43.0


From 1a9471e784cd1f0d3e39c05be5a3735927e042e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 46/75] fix: fit and predict sparse data with Poisson
 regression

---
 src/pyuoi/linear_model/poisson.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 6eefd25..2055e6a 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -1,11 +1,14 @@
 import numpy as np
 
+from scipy.sparse import issparse
+
 from .base import AbstractUoIGeneralizedLinearRegressor
 
 from pyuoi import utils
 
 from sklearn.base import BaseEstimator
 from sklearn.preprocessing import StandardScaler
+from sklearn.utils.extmath import safe_sparse_dot
 from sklearn.utils.validation import check_is_fitted
 
 from ..lbfgs import fmin_lbfgs
@@ -149,7 +152,7 @@ class Poisson(BaseEstimator):
             The predicted response values, i.e. the modes.
         """
         check_is_fitted(self, ['coef_', 'intercept_'])
-        mu = np.exp(self.intercept_ + np.dot(X, self.coef_))
+        mu = np.exp(self.intercept_ + safe_sparse_dot(X, self.coef_))
         mode = np.floor(mu)
         return mode
 
@@ -167,7 +170,7 @@ class Poisson(BaseEstimator):
             The predicted response values, i.e. the conditional means.
         """
         check_is_fitted(self, ['coef_', 'intercept_'])
-        mu = np.exp(self.intercept_ + np.dot(X, self.coef_))
+        mu = np.exp(self.intercept_ + safe_sparse_dot(X, self.coef_))
         return mu
 
     def _initial_params(self):
@@ -266,7 +269,7 @@ class Poisson(BaseEstimator):
 
     def _penalized_loss(self, X, y, coef, intercept, sample_weight):
         """Objective minimized by coordinate descent."""
-        eta = intercept + np.dot(X, coef)
+        eta = intercept + safe_sparse_dot(X, coef)
         loss = np.mean(sample_weight * (np.exp(eta) - y * eta))
         loss += self.alpha * self.l1_ratio * np.sum(np.abs(coef))
         loss += 0.5 * self.alpha * (1 - self.l1_ratio) * np.dot(coef, coef)
@@ -305,7 +308,7 @@ class Poisson(BaseEstimator):
 
         # intercept is not penalized
         if self.fit_intercept:
-            z_hat = np.dot(X, coef)
+            z_hat = safe_sparse_dot(X, coef)
             residuals = z - z_hat
             # update intercept
             intercept = np.dot(w, residuals) / np.sum(w)
@@ -318,8 +321,10 @@ class Poisson(BaseEstimator):
             mask = np.ones(n_features)
             mask[idx] = 0
 
-            z_hat = intercept + np.dot(X, coef * mask)
+            z_hat = intercept + safe_sparse_dot(X, coef * mask)
             x = X[:, idx]
+            if issparse(x):
+                x = x.toarray().ravel()
             # equation 5.44; Hastie, Tibshirani, Wainwright (2016)
             num_update = np.dot(w, x * (z - z_hat)) / n_samples
             den_update = np.dot(w, x**2) / n_samples
@@ -398,7 +403,7 @@ class Poisson(BaseEstimator):
             descent for the Poisson likelihood as a iteratively reweighted
             least squares.
         """
-        Xbeta = intercept + np.dot(X, coef)
+        Xbeta = intercept + safe_sparse_dot(X, coef)
         w = np.exp(Xbeta)
         z = Xbeta + (y / w) - 1.
         return w, z
@@ -560,7 +565,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             # calculate upper bound for lambda sweep
             # (gradient of the loss at the model without any feature)
             ybar = y.mean() if self.fit_intercept else 1.
-            lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
+            lambda_max = np.max(np.abs(safe_sparse_dot(X.T, y - ybar)))
             lambda_max /= n_samples * alpha
             self.lambdas[alpha_idx, :] = np.logspace(
                 start=np.log10(lambda_max),
@@ -667,7 +672,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
         estimated.
         """
         if self.fit_intercept:
-            mu = np.exp(np.dot(X, self.coef_.T))
+            mu = np.exp(safe_sparse_dot(X, self.coef_.T))
             if np.any(y):
                 self.intercept_ = np.log(
                     np.mean(y, keepdims=True) / np.mean(mu)
@@ -768,13 +773,14 @@ def _poisson_loss_and_grad(coef, X, y, l2_penalty, sample_weight=None):
         intercept = 0
 
     # calculate likelihood
-    eta = intercept + np.dot(X, coef)
+    eta = intercept + safe_sparse_dot(X, coef)
     out = -np.sum(sample_weight * (y * eta - np.exp(eta))) / n_samples
     out += 0.5 * l2_penalty * np.dot(coef, coef)
 
     # gradient of parameters
     y_res = sample_weight * (y - np.exp(eta))
-    grad[:n_features] = -np.dot(X.T, y_res) / n_samples + l2_penalty * coef
+    grad[:n_features] = -safe_sparse_dot(X.T, y_res) / n_samples \
+        + l2_penalty * coef
 
     # gradient of intercept
     if grad.shape[0] > n_features:
-- 
2.43.0


From 9136bbac61b3522fddc0c8b0c35a746e01d4c3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 47/75] fix: publish a one-dimensional intercept for sparse
 data

---
 src/pyuoi/linear_model/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 056e7d5..581b010 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -661,8 +661,10 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
     def _fit_intercept(self, X, y):
         """Fit the intercept."""
         if self.fit_intercept:
+            # (the mean of a sparse matrix is a matrix)
+            X_mean = np.asarray(X.mean(axis=0)).ravel()
             self.intercept_ = (y.mean(axis=0) -
-                               np.dot(X.mean(axis=0), self.coef_.T))
+                               np.dot(X_mean, self.coef_.T))
         else:
             self.intercept_ = np.zeros(1)
 
-- 
2.43.0


From 99a5805bf20ffdcea090bf07b42b99862ab5589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 48/75] fix: accept a column response in UoI_Poisson and reject
 several responses

---
 src/pyuoi/linear_model/poisson.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 2055e6a..463e502 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -650,9 +650,11 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         if y.ndim == 2:
-            self.output_dim = y.shape[1]
-        else:
-            self.output_dim = 1
+            if y.shape[1] > 1:
+                raise ValueError('y should either have shape ' +
+                                 '(n_samples, ) or (n_samples, 1).')
+            y = np.ravel(y)
+        self.output_dim = 1
         return X, y
 
     def _post_fit(self, X, y):
-- 
2.43.0


From ba0d85e18f95171bd361a4c8b17b20333e90d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 49/75] fix: compute link functions and the normal likelihood
 of integers in floating point

---
 src/pyuoi/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/utils.py b/src/pyuoi/utils.py
index e130df3..ab9ef0a 100755
--- a/src/pyuoi/utils.py
+++ b/src/pyuoi/utils.py
@@ -12,6 +12,8 @@ def softmax(y, axis=-1):
         Log-probabilities.
     """
 
+    # (the difference of integers may overflow)
+    y = np.asarray(y, dtype=float)
     yp = y - y.max(axis=axis, keepdims=True)
     epy = np.exp(yp)
     return epy / np.sum(epy, axis=axis, keepdims=True)
@@ -25,7 +27,8 @@ def sigmoid(x):
     x : ndarray
         Log-probabilities.
     """
-    return np.exp(-np.logaddexp(0, -x))
+    # (unsigned integers have no negative)
+    return np.exp(-np.logaddexp(0, -np.asarray(x, dtype=float)))
 
 
 def log_likelihood_glm(model, y_true, y_pred):
@@ -51,7 +54,7 @@ def log_likelihood_glm(model, y_true, y_pred):
     if model == 'normal':
         # this log-likelihood is calculated under the assumption that the
         # variance is the value that maximizes the log-likelihood
-        rss = (y_true - y_pred)**2
+        rss = np.subtract(y_true, y_pred, dtype=float)**2
         n_samples = y_true.size
         ll = -n_samples / 2 * (1 + np.log(np.mean(rss)))
     elif model == 'poisson':
-- 
2.43.0


From d133f254d1a99ad4857cf4a4b05163a13b03387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 50/75] fix: score a zero mean against a zero count in the
 Poisson likelihood

---
 src/pyuoi/utils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pyuoi/utils.py b/src/pyuoi/utils.py
index ab9ef0a..ed07db2 100755
--- a/src/pyuoi/utils.py
+++ b/src/pyuoi/utils.py
@@ -2,6 +2,8 @@ import numpy as np
 import sys
 import logging
 
+from scipy.special import xlogy
+
 
 def softmax(y, axis=-1):
     """Calculates the softmax distribution.
@@ -58,13 +60,8 @@ def log_likelihood_glm(model, y_true, y_pred):
         n_samples = y_true.size
         ll = -n_samples / 2 * (1 + np.log(np.mean(rss)))
     elif model == 'poisson':
-        if not np.any(y_pred):
-            if np.any(y_true):
-                ll = -np.inf
-            else:
-                ll = 0.
-        else:
-            ll = np.mean(y_true * np.log(y_pred) - y_pred)
+        # a mean of zero is certain to give a count of zero
+        ll = np.mean(xlogy(y_true, y_pred) - y_pred)
     else:
         raise ValueError('Model is not available.')
     return ll
-- 
2.43.0


From 4466dd2c961e2b0445f05aeffb6963cbf51d5e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 51/75] fix: fit integer data in floating point

---
 src/pyuoi/linear_model/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 581b010..2bec396 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -205,6 +205,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
         X, y = self._pre_fit(X, y)
 
         X, y = check_X_y(X, y, accept_sparse=['csr', 'csc'],
+                         dtype=[np.float64, np.float32],
                          y_numeric=True, multi_output=True)
 
         # extract model dimensions
-- 
2.43.0


From 0111b8839daf00d0bf023519ee0441a8f2d80f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 52/75] fix: raise NotFittedError when a UoI linear model is
 used before fit

---
 src/pyuoi/linear_model/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 2bec396..61857dd 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -122,6 +122,10 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
         self._logger = check_logger(logger, 'uoi_linear_model', self.comm)
 
+    def __sklearn_is_fitted__(self):
+        # (the thresholds are set before the fit)
+        return hasattr(self, 'coef_')
+
     @_abc.abstractproperty
     def estimation_score(self):
         pass
-- 
2.43.0


From a769d480f512cac73e7097b142b542f9cde6c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 53/75] fix: raise NotFittedError when UoI_NMF is used before
 fit

---
 src/pyuoi/decomposition/NMF.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index e6f27fc..1442538 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -161,6 +161,9 @@ class UoI_NMF_Base(AbstractDecompositionModel):
 
         self._logger = check_logger(logger, 'uoi_decomposition', self.comm)
 
+    def __sklearn_is_fitted__(self):
+        return self.components_ is not None
+
     def fit(self, X, verbose=False):
         r"""Compute the basis matrix on the provided data matrix using the
         UoI\ :sub:`NMF` algorithm.
@@ -267,7 +270,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         W : array-like, shape (n_samples, n_components)
             Transformed data (coefficients of bases).
         """
-        check_is_fitted(self, ['components_'])
+        check_is_fitted(self)
         n_samples, n_features = X.shape
 
         if n_features != self.components_.shape[1]:
@@ -324,7 +327,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         X : array-like, shape (n_samples, n_features)
             Data matrix of original shape.
         """
-        check_is_fitted(self, ['components_'])
+        check_is_fitted(self)
         n_components = W.shape[1]
 
         if n_components != self.components_.shape[0]:
-- 
2.43.0


From d01943c5ba8577702f24c3ca8679b059cce834d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 54/75] fix: reject unknown Poisson solvers up front

---
 src/pyuoi/linear_model/poisson.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 463e502..ecefc6f 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -80,6 +80,8 @@ class Poisson(BaseEstimator):
             Array of weights assigned to the individual samples. If ``None``,
             then each sample is provided an equal weight.
         """
+        if self.solver not in ('lbfgs', 'cd'):
+            raise ValueError('Solver not available.')
         self.n_samples, self.n_features = X.shape
         X, y = self._pre_fit(X, y)
 
@@ -125,15 +127,12 @@ class Poisson(BaseEstimator):
                 self.intercept_ = 0.
 
         # coordinate descent
-        elif self.solver == 'cd':
+        else:
             self.coef_, intercept = self._cd(X=X, y=y,
                                              sample_weight=sample_weight)
 
             self.intercept_ = intercept
 
-        else:
-            raise ValueError('Solver not available.')
-
         self._post_fit(X, y)
         return self
 
@@ -514,6 +513,8 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             random_state=random_state,
             comm=comm,
             logger=logger)
+        if solver not in ('lbfgs', 'cd'):
+            raise ValueError("invalid solver: '%s'" % solver)
         self.n_lambdas = n_lambdas
         self.alphas = alphas
         self.n_alphas = len(alphas)
-- 
2.43.0


From 6725520dd8fbd54de845821dd896a9d957419077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 55/75] fix: reject the accuracy as score of UoI_Poisson before
 the selection

---
 src/pyuoi/linear_model/poisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index ecefc6f..badc288 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -647,6 +647,8 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
 
     def _pre_fit(self, X, y):
         """Perform standardization, if needed, before fitting."""
+        if self.estimation_score == 'acc':
+            raise ValueError("'acc' is not a valid metric for counts.")
         if self.standardize:
             self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
-- 
2.43.0


From 751bb3346db974130555a4ba1c5ef1b3a338b496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 56/75] fix: reject responses of Poisson that do not match the
 data

---
 src/pyuoi/linear_model/poisson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index badc288..8d809e1 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -8,6 +8,7 @@ from pyuoi import utils
 
 from sklearn.base import BaseEstimator
 from sklearn.preprocessing import StandardScaler
+from sklearn.utils import check_consistent_length, column_or_1d
 from sklearn.utils.extmath import safe_sparse_dot
 from sklearn.utils.validation import check_is_fitted
 
@@ -82,6 +83,8 @@ class Poisson(BaseEstimator):
         """
         if self.solver not in ('lbfgs', 'cd'):
             raise ValueError('Solver not available.')
+        y = column_or_1d(y)
+        check_consistent_length(X, y)
         self.n_samples, self.n_features = X.shape
         X, y = self._pre_fit(X, y)
 
-- 
2.43.0


From 475585cbf2357ffedb11aae61fea513e39f39ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 57/75] fix: reject unknown penalties and C=0 in masked
 logistic regression

---
 src/pyuoi/linear_model/logistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index a4e5d8a..2588a74 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -368,7 +368,10 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         -------
         self : object
         """
-        if not isinstance(self.C, numbers.Number) or self.C < 0:
+        if self.penalty not in ('l1', 'l2'):
+            raise ValueError("penalty should be 'l1' or 'l2'; got %r"
+                             % (self.penalty,))
+        if not isinstance(self.C, numbers.Number) or self.C <= 0:
             raise ValueError("Penalty term must be positive; got (C=%r)"
                              % self.C)
         if not isinstance(self.max_iter, numbers.Number) or self.max_iter < 0:
-- 
2.43.0


From 1dc63cbb18f90c83fbdb066f5caa9aa0ebfff58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 58/75] fix: reject a class in place of the non-negative
 regressor

---
 src/pyuoi/decomposition/NMF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 1442538..733fb2e 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -125,7 +125,9 @@ class UoI_NMF_Base(AbstractDecompositionModel):
             self.cluster = DBSCAN(min_samples=max(self.n_boots // 2, 1))
 
         # initialize non-negative regression solver
-        if nnreg is None:
+        if isinstance(nnreg, type):
+            raise ValueError('nnreg must be an instance, not a class.')
+        elif nnreg is None:
             self.nnreg = lambda A, b: spo.nnls(A, b)[0]
         else:
             if isinstance(nnreg, BaseEstimator):
-- 
2.43.0


From 0130a102cd73eb54579406d46934bdad30110477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 59/75] fix: raise NotFittedError when a rejected masked
 logistic model is used

---
 src/pyuoi/linear_model/logistic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 2588a74..7900511 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -347,6 +347,10 @@ class MaskedCoefLogisticRegression(LogisticRegression):
                          warm_start=warm_start)
         self.standardize = standardize
 
+    def __sklearn_is_fitted__(self):
+        # (the classes are set before the fit)
+        return hasattr(self, 'coef_')
+
     def fit(self, X, y, sample_weight=None, coef_mask=None):
         """Fit the model according to the given training data.
 
-- 
2.43.0


From a57c5e72ea6a3af03a20dc7ebb3b34849c581e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 60/75] fix: keep pycasso from printing in every fit

---
 src/pyuoi/linear_model/lasso.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index fe8a00d..110583b 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -1,3 +1,6 @@
+import contextlib
+import io
+
 import numpy as np
 
 from sklearn.exceptions import NotFittedError
@@ -117,7 +120,9 @@ class PycLasso():
                                      penalty='l1',
                                      max_ite=self.max_iter,
                                      prec=self.tol)
-        self.solver.train()
+        # (train prints a line even if the solver is not verbose)
+        with contextlib.redirect_stdout(io.StringIO()):
+            self.solver.train()
         # Coefs across the entire solution path
         self.coef_ = self.solver.result['beta'][:n_alphas]
         self.intercept_ = (self.solver.result['intercept'][:n_alphas]
-- 
2.43.0


From 40f27913ec69d94cc1c0f096a98b51d9a8f96bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 61/75] fix: let the default logger follow a replaced standard
 output

---
 src/pyuoi/utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/utils.py b/src/pyuoi/utils.py
index ed07db2..51088cc 100755
--- a/src/pyuoi/utils.py
+++ b/src/pyuoi/utils.py
@@ -137,6 +137,17 @@ def AICc(ll, n_features, n_samples):
     return AICc
 
 
+class _StdoutHandler(logging.StreamHandler):
+    """Writes to whatever sys.stdout is when a message is logged."""
+
+    def __init__(self):
+        logging.Handler.__init__(self)
+
+    @property
+    def stream(self):
+        return sys.stdout
+
+
 def check_logger(logger, name='uoi', comm=None):
     ret = logger
     if ret is None:
@@ -147,7 +158,7 @@ def check_logger(logger, name='uoi', comm=None):
         ret = logging.getLogger(name=name)
         # the logger is shared by all models: add its handler only once
         if not ret.handlers:
-            handler = logging.StreamHandler(sys.stdout)
+            handler = _StdoutHandler()
 
             fmt = '%(asctime)s - %(name)s - %(levelname)s - %(message)s'
 
-- 
2.43.0


From 3b84f200f51ff24c0364794c9202018d28711261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 62/75] fix: More-Thuente line search extrapolated to the wrong
 end of the interval

When the interpolated cubic has no minimizer in the direction of the step
the trial value must be the far end of the interval. The sign of theta was
tested instead of that of the step, so the search collapsed to a step of
zero and failed with LBFGSError on smooth convex objectives (gtol=0.3).
---
 liblbfgs/lbfgs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 160c792..774de51 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -1083,7 +1083,7 @@ static int line_search_morethuente(
     r = p / q; \
     if (r < 0. && gamma != 0.) { \
         (cm) = (v) - r * d; \
-    } else if (a < 0) { \
+    } else if (d > 0) { \
         (cm) = (xmax); \
     } else { \
         (cm) = (xmin); \
-- 
2.43.0


From b97d8313ff875f89a517246cdea7bc25c697c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 63/75] fix: square integer features in floating point in
 Poisson coordinate descent

---
 src/pyuoi/linear_model/poisson.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 8d809e1..a07c921 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -329,7 +329,8 @@ class Poisson(BaseEstimator):
                 x = x.toarray().ravel()
             # equation 5.44; Hastie, Tibshirani, Wainwright (2016)
             num_update = np.dot(w, x * (z - z_hat)) / n_samples
-            den_update = np.dot(w, x**2) / n_samples
+            # (the square of a small integer type overflows)
+            den_update = np.dot(w, np.square(x, dtype=float)) / n_samples
             # replace coefficients sequentially
             den_update += self.alpha * (1 - self.l1_ratio)
             if den_update == 0:
-- 
2.43.0


From e3999d14c1b5f286e88da6c789b12eede4f48ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 64/75] fix: normalize bases of any length in NMF dissimilarity
 and consensus

---
 src/pyuoi/decomposition/NMF.py   |  7 +++----
 src/pyuoi/decomposition/utils.py | 24 +++++++++++++++++++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 733fb2e..9344abc 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -4,7 +4,7 @@ import logging
 import numbers
 
 from .base import AbstractDecompositionModel
-from .utils import dissimilarity
+from .utils import dissimilarity, normalize_bases
 
 from ..utils import check_logger
 
@@ -12,7 +12,6 @@ from itertools import combinations
 from sklearn.base import BaseEstimator
 from sklearn.decomposition import NMF as skNMF
 from sklearn.cluster import DBSCAN
-from sklearn.preprocessing import normalize
 from sklearn.utils.validation import check_non_negative
 from sklearn.utils.validation import check_is_fitted
 
@@ -228,7 +227,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
 
         # remove zero bases and normalize across features
         H_pre_cluster = H_pre_cluster[np.sum(H_pre_cluster, axis=1) != 0.0]
-        H_pre_cluster = normalize(H_pre_cluster, norm='l2', axis=1)
+        H_pre_cluster = normalize_bases(H_pre_cluster)
 
         # cluster all bases
         self._logger.info("clustering bases samples")
@@ -246,7 +245,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                                             axis=0)
 
         # re-normalize across features
-        H_cons = normalize(H_cons, norm='l2', axis=1)
+        H_cons = normalize_bases(H_cons)
 
         self.components_ = H_cons
         self.n_components = self.components_.shape[0]
diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 5145a71..22ded96 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -1,6 +1,5 @@
 import numpy as np
 
-from sklearn.preprocessing import normalize
 from sklearn.utils import check_random_state
 
 
@@ -93,6 +92,25 @@ def stability_selection_to_threshold(stability_selection, n_boots):
     return selection_threshold
 
 
+def normalize_bases(H):
+    """Scales bases to unit length, however short they are (``normalize`` of
+    ``scikit-learn`` takes very short ones for zero). Zero bases stay zero.
+
+    Parameters
+    ----------
+    H : ndarray, shape (n_components, n_features)
+        Set of bases.
+
+    Returns
+    -------
+    H : ndarray, shape (n_components, n_features)
+        Normalized bases.
+    """
+    norms = np.linalg.norm(H, axis=1, keepdims=True)
+    norms[norms == 0.] = 1.
+    return H / norms
+
+
 def dissimilarity(H1, H2):
     """Calculates the dissimilarity between two sets of NMF bases.
 
@@ -110,8 +128,8 @@ def dissimilarity(H1, H2):
         Dissimilarity between the two sets of bases.
     """
     k = H1.shape[0]
-    H1 = normalize(H1, norm='l2', axis=1)
-    H2 = normalize(H2, norm='l2', axis=1)
+    H1 = normalize_bases(H1)
+    H2 = normalize_bases(H2)
     C = np.dot(H1, H2.T)
     diss = 1 - ((np.max(C, axis=0).sum() + np.max(C, axis=1).sum()) / (2. * k))
     return diss
-- 
2.43.0


From 965f65f080a00a855bcddcfc4a58668fe633f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 65/75] fix: report and reset all constructor options of UoI
 linear models

---
 src/pyuoi/linear_model/base.py     | 16 ++++++++++++++++
 src/pyuoi/linear_model/lasso.py    |  1 +
 src/pyuoi/linear_model/logistic.py |  3 +++
 src/pyuoi/linear_model/poisson.py  |  3 +++
 4 files changed, 23 insertions(+)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 61857dd..e45faee 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -102,6 +102,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
         self.max_iter = max_iter
         self.tol = tol
         self.comm = comm
+        self.logger = logger
         # preprocessing
         if isinstance(random_state, numbers.Integral):
             # make sure ranks use different seed
@@ -126,6 +127,17 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
         # (the thresholds are set before the fit)
         return hasattr(self, 'coef_')
 
+    def set_params(self, **params):
+        """Set the parameters of this estimator, as if they had been passed
+        to its constructor."""
+        all_params = self.get_params(deep=False)
+        for param in params:
+            if param not in all_params:
+                raise ValueError('Invalid parameter %s' % param)
+        all_params.update(params)
+        self.__dict__.update(type(self)(**all_params).__dict__)
+        return self
+
     @_abc.abstractproperty
     def estimation_score(self):
         pass
@@ -536,6 +548,8 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
 
         self.__estimation_score = estimation_score
 
+        self.copy_X = copy_X
+        self.estimation_target = estimation_target
         if estimation_target is not None:
             if estimation_target not in ['train', 'test']:
                 raise ValueError(
@@ -720,6 +734,8 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
                 "invalid estimation metric: '%s'" % estimation_score)
         self.__estimation_score = estimation_score
 
+        self.copy_X = copy_X
+        self.estimation_target = estimation_target
         if estimation_target is not None:
             if estimation_target not in ['train', 'test']:
                 raise ValueError(
diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index 110583b..5c0adc6 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -239,6 +239,7 @@ class UoI_Lasso(AbstractUoILinearRegressor, LinearRegression):
             tol=tol,
             logger=logger)
         self.n_lambdas = n_lambdas
+        self.warm_start = warm_start
         self.eps = eps
         self.solver = solver
         self.tol = tol
diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 7900511..690c036 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -126,11 +126,14 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
             fit_intercept=fit_intercept,
             standardize=standardize,
             shared_support=shared_support,
+            max_iter=max_iter,
+            tol=tol,
             comm=comm,
             logger=logger)
         self.n_C = n_C
         self.Cs = None
         self.multi_class = multi_class
+        self.warm_start = warm_start
         self.eps = eps
         self.tol = tol
         self.solver = 'lbfgs'
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index a07c921..e72e6ab 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -514,6 +514,8 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             copy_X=copy_X,
             fit_intercept=fit_intercept,
             standardize=standardize,
+            max_iter=max_iter,
+            tol=tol,
             random_state=random_state,
             comm=comm,
             logger=logger)
@@ -522,6 +524,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
         self.n_lambdas = n_lambdas
         self.alphas = alphas
         self.n_alphas = len(alphas)
+        self.solver = solver
         self.warm_start = warm_start
         self.eps = eps
         self.lambdas = None
-- 
2.43.0


From 632f952b79d632f0ec6c87f4b464550de0c801dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 66/75] fix: make set_params, clone and pickle of UoI NMF work

---
 src/pyuoi/decomposition/NMF.py | 53 ++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 9344abc..5cef3e4 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -8,6 +8,7 @@ from .utils import dissimilarity, normalize_bases
 
 from ..utils import check_logger
 
+from functools import partial
 from itertools import combinations
 from sklearn.base import BaseEstimator
 from sklearn.decomposition import NMF as skNMF
@@ -16,6 +17,16 @@ from sklearn.utils.validation import check_non_negative
 from sklearn.utils.validation import check_is_fitted
 
 
+def _nnls(A, b):
+    """Non-negative least squares."""
+    return spo.nnls(A, b)[0]
+
+
+def _fit_coef(nnreg, A, b):
+    """Fit with a regressor object."""
+    return nnreg.fit(A, b).coef_
+
+
 class UoI_NMF_Base(AbstractDecompositionModel):
     """Performs non-negative matrix factorization in the Union of Intersections
     framework.
@@ -61,7 +72,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         cons_meth=None, use_dissimilarity=True, random_state=None, logger=None
     ):
         super(UoI_NMF_Base, self).__init__()
-        self.__initialize(
+        params = dict(
             n_boots=n_boots,
             ranks=ranks,
             nmf=nmf,
@@ -70,15 +81,41 @@ class UoI_NMF_Base(AbstractDecompositionModel):
             cons_meth=cons_meth,
             logger=logger,
             random_state=random_state)
+        self._params = dict(params, use_dissimilarity=use_dissimilarity)
+        self.__initialize(**params)
         if self.n_boots == 1 and use_dissimilarity:
             raise ValueError("Cannot use dissimilarity to compute best rank "
                              "with a single bootstrap")
         self.use_dissimilarity = use_dissimilarity
 
+    def get_params(self, deep=True):
+        """Get the parameters of this estimator, as they were passed to its
+        constructor."""
+        params = dict(self._params)
+        if deep:
+            for name, value in self._params.items():
+                if isinstance(value, BaseEstimator):
+                    params.update((name + '__' + key, val)
+                                  for key, val in value.get_params().items())
+        return params
+
     def set_params(self, **kwargs):
-        """Set the parameters of this estimator."""
-        super(UoI_NMF_Base, self).set_params(**kwargs)
-        self.__initialize(**self.get_params())
+        """Set the parameters of this estimator, as if they had been passed
+        to its constructor."""
+        params = self.get_params(deep=False)
+        nested = {}
+        for name, value in kwargs.items():
+            name, _, key = name.partition('__')
+            if name not in params:
+                raise ValueError('Invalid parameter %s' % name)
+            if key:
+                nested.setdefault(name, {})[key] = value
+            else:
+                params[name] = value
+        for name, sub_params in nested.items():
+            params[name].set_params(**sub_params)
+        self.__dict__ = type(self)(**params).__dict__
+        return self
 
     def __initialize(self, **kwargs):
         """Initializes the NMF class."""
@@ -127,10 +164,10 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         if isinstance(nnreg, type):
             raise ValueError('nnreg must be an instance, not a class.')
         elif nnreg is None:
-            self.nnreg = lambda A, b: spo.nnls(A, b)[0]
+            self.nnreg = _nnls
         else:
             if isinstance(nnreg, BaseEstimator):
-                self.nnreg = lambda A, B: nnreg.fit(A, B).coef_
+                self.nnreg = partial(_fit_coef, nnreg)
             elif callable(nnreg):
                 self.nnreg = nnreg
             else:
@@ -425,6 +462,9 @@ class UoI_NMF(UoI_NMF_Base):
         use_dissimilarity=True, random_state=None, logger=None,
         nmf=None, cluster=None, nnreg=None, cons_meth=None
     ):
+        params = {name: value for name, value in locals().items()
+                  if name in self._get_param_names()}
+
         # create NMF solver
         if nmf is None:
             nmf = skNMF(init=nmf_init,
@@ -454,3 +494,4 @@ class UoI_NMF(UoI_NMF_Base):
             random_state=random_state,
             use_dissimilarity=use_dissimilarity,
             logger=logger)
+        self._params = params
-- 
2.43.0


From 9395c14746bca8573c2a08b006c1247a34c97b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 67/75] fix: keep the inner lasso solvers off the random stream
 of the resamples

---
 src/pyuoi/linear_model/elasticnet.py | 3 ++-
 src/pyuoi/linear_model/lasso.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/elasticnet.py b/src/pyuoi/linear_model/elasticnet.py
index 9b9d838..3966f54 100644
--- a/src/pyuoi/linear_model/elasticnet.py
+++ b/src/pyuoi/linear_model/elasticnet.py
@@ -125,7 +125,8 @@ class UoI_ElasticNet(AbstractUoILinearRegressor, LinearRegression):
             tol=tol,
             copy_X=copy_X,
             warm_start=warm_start,
-            random_state=random_state)
+            # (any: it is drawn from, but not used)
+            random_state=0)
         self._estimation_lm = LinearRegression(fit_intercept=fit_intercept)
 
     def get_reg_params(self, X, y):
diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index 5c0adc6..605f718 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -249,7 +249,8 @@ class UoI_Lasso(AbstractUoILinearRegressor, LinearRegression):
                 max_iter=max_iter,
                 tol=tol,
                 warm_start=warm_start,
-                random_state=random_state,
+                # (any: it is drawn from, but not used)
+                random_state=0,
                 fit_intercept=fit_intercept)
         elif solver == 'pyc':
             if pycasso is None:
-- 
2.43.0


From 9b1beb828f7ace3258a2427cbe9b4ee2dbd9b8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 68/75] fix: keep fitted lasso models picklable with the
 pycasso solver

---
 src/pyuoi/linear_model/lasso.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index 605f718..59283be 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -113,19 +113,19 @@ class PycLasso():
         # data and recover the intercept afterwards
         X_offset = np.mean(X, axis=0)
         y_offset = np.mean(y, axis=0)
-        self.solver = pycasso.Solver(X - X_offset, y - y_offset,
-                                     family='gaussian',
-                                     useintercept=self.fit_intercept,
-                                     lambdas=alphas,
-                                     penalty='l1',
-                                     max_ite=self.max_iter,
-                                     prec=self.tol)
+        solver = pycasso.Solver(X - X_offset, y - y_offset,
+                                family='gaussian',
+                                useintercept=self.fit_intercept,
+                                lambdas=alphas,
+                                penalty='l1',
+                                max_ite=self.max_iter,
+                                prec=self.tol)
         # (train prints a line even if the solver is not verbose)
         with contextlib.redirect_stdout(io.StringIO()):
-            self.solver.train()
+            solver.train()
         # Coefs across the entire solution path
-        self.coef_ = self.solver.result['beta'][:n_alphas]
-        self.intercept_ = (self.solver.result['intercept'][:n_alphas]
+        self.coef_ = solver.result['beta'][:n_alphas]
+        self.intercept_ = (solver.result['intercept'][:n_alphas]
                            + y_offset - np.dot(self.coef_, X_offset))
         self.isfitted = True
         return self
-- 
2.43.0


From edacee89d08e341abb1a0eefd2173a3c148b8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:35 +0000
Subject: [PATCH 69/75] fix: broadcast arrays without dimensions as they are

---
 src/pyuoi/mpi_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 2e62273..65f11c4 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -32,7 +32,8 @@ def check_valid_ndarray(X):
         return X
     if not isinstance(X, np.ndarray):
         raise ValueError('Must be a numpy ndarray.')
-    return np.ascontiguousarray(X)
+    # (ascontiguousarray adds a dimension to arrays that have none)
+    return np.asarray(X, order='C')
 
 
 def load_data_MPI(h5_name, X_key='X', y_key='y', comm=None, root=0):
@@ -146,6 +147,8 @@ def Gatherv_rows(send, comm=None, root=0):
     """
 
     send = check_valid_ndarray(send)
+    if send.ndim == 0:
+        send = send.reshape(1)
     if comm is None:
         comm = MPI.COMM_WORLD
     rank = comm.rank
-- 
2.43.0


From 8fb13be9c92f45123159f0ec8e3f785a9bc22ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:54 +0000
Subject: [PATCH 70/75] fix: hand LBFGS callbacks arrays that outlive the
 optimization

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index adfa750..563bf1c 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -115,14 +115,19 @@ cdef lbfgsfloatval_t call_eval(void *cb_data_v,
     callback_data = <object>cb_data_v
     (f, progress_fn, shape, args, errors) = callback_data
     tshape[0] = <np.npy_intp>n
-    x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE, <void *>x)
-    g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE, <void *>g)
+    # the callable may keep its arrays, the memory of liblbfgs is freed
+    x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
+                                           <void *>x).copy()
+    g_view = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE, <void *>g)
+    g_array = g_view.copy()
 
     # an exception cannot pass through liblbfgs: keep it for minimize()
     if errors:
         return 0.
     try:
-        return f(x_array.reshape(shape), g_array.reshape(shape), *args)
+        fx = f(x_array.reshape(shape), g_array.reshape(shape), *args)
+        g_view[:] = g_array
+        return fx
     except BaseException as e:
         errors.append(e)
         return 0.
@@ -146,9 +151,9 @@ cdef int call_progress(void *cb_data_v,
     if progress_fn:
         tshape[0] = <np.npy_intp>n
         x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
-                                               <void *>x)
+                                               <void *>x).copy()
         g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
-                                               <void *>g)
+                                               <void *>g).copy()
 
         try:
             r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
-- 
2.43.0


From 49150b45fd18df012831515542ed1a32ea3ffb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 71/75] fix: score a Poisson mean that overflows as impossible,
 not as undefined

---
 src/pyuoi/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/utils.py b/src/pyuoi/utils.py
index 51088cc..d78428b 100755
--- a/src/pyuoi/utils.py
+++ b/src/pyuoi/utils.py
@@ -61,7 +61,9 @@ def log_likelihood_glm(model, y_true, y_pred):
         ll = -n_samples / 2 * (1 + np.log(np.mean(rss)))
     elif model == 'poisson':
         # a mean of zero is certain to give a count of zero
-        ll = np.mean(xlogy(y_true, y_pred) - y_pred)
+        # and no count can come from a mean that overflows
+        ll = np.mean(np.where(np.isposinf(y_pred), -np.inf,
+                              xlogy(y_true, y_pred) - y_pred))
     else:
         raise ValueError('Model is not available.')
     return ll
-- 
2.43.0


From ef509cf3622de2994e24997fc82835a509a2a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 72/75] fix: add up duplicate entries of sparse matrices before
 they are standardized

---
 src/pyuoi/linear_model/base.py     |  4 +++-
 src/pyuoi/linear_model/logistic.py |  2 ++
 src/pyuoi/linear_model/poisson.py  |  2 ++
 src/pyuoi/linear_model/utils.py    | 23 +++++++++++++++++++++++
 4 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index e45faee..13940cb 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -13,7 +13,8 @@ from scipy.sparse import issparse, csr_matrix
 from pyuoi import utils
 from pyuoi.mpi_utils import (Gatherv_rows, Bcast_from_root)
 
-from .utils import stability_selection_to_threshold, intersection
+from .utils import (stability_selection_to_threshold, intersection,
+                    sum_duplicates)
 from ..utils import check_logger
 
 
@@ -218,6 +219,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
         else:
             self._logger.setLevel(logging.WARNING)
 
+        X = sum_duplicates(X)
         X, y = self._pre_fit(X, y)
 
         X, y = check_X_y(X, y, accept_sparse=['csr', 'csc'],
diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 690c036..b71004b 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -16,6 +16,7 @@ from scipy.special import expit, logsumexp
 import numpy as np
 
 from .base import AbstractUoIGeneralizedLinearRegressor
+from .utils import sum_duplicates
 from ..utils import sigmoid, softmax
 from ..lbfgs import fmin_lbfgs
 
@@ -390,6 +391,7 @@ class MaskedCoefLogisticRegression(LogisticRegression):
 
         _dtype = np.float64
 
+        X = sum_duplicates(X)
         X, y = self._pre_fit(X, y)
 
         X, y = check_X_y(X, y, accept_sparse='csr', dtype=_dtype, order="C",
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index e72e6ab..e67d7de 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -3,6 +3,7 @@ import numpy as np
 from scipy.sparse import issparse
 
 from .base import AbstractUoIGeneralizedLinearRegressor
+from .utils import sum_duplicates
 
 from pyuoi import utils
 
@@ -86,6 +87,7 @@ class Poisson(BaseEstimator):
         y = column_or_1d(y)
         check_consistent_length(X, y)
         self.n_samples, self.n_features = X.shape
+        X = sum_duplicates(X)
         X, y = self._pre_fit(X, y)
 
         # check if the response variable is constant
diff --git a/src/pyuoi/linear_model/utils.py b/src/pyuoi/linear_model/utils.py
index 9fd0ce2..5ad423d 100644
--- a/src/pyuoi/linear_model/utils.py
+++ b/src/pyuoi/linear_model/utils.py
@@ -1,5 +1,7 @@
 import numpy as np
 
+from scipy.sparse import issparse
+
 
 def stability_selection_to_threshold(stability_selection, n_boots):
     """Converts user inputted stability selection to an array of
@@ -143,3 +145,24 @@ def intersection(coefs, selection_thresholds=None):
     supports = np.unique(supports, axis=0)
 
     return supports
+
+
+def sum_duplicates(X):
+    """Adds up the entries of a sparse matrix which are stored as several
+    summands (``scikit-learn`` takes each of them for a value).
+
+    Parameters
+    ----------
+    X : ndarray or scipy.sparse matrix
+        The matrix, which is not changed.
+
+    Returns
+    -------
+    X : ndarray or scipy.sparse matrix
+        The same matrix, or a copy without duplicate entries.
+    """
+    if issparse(X) and X.format in ('csr', 'csc') \
+            and not X.has_canonical_format:
+        X = X.copy()
+        X.sum_duplicates()
+    return X
-- 
2.43.0


From f2b6d8f755577a0e2b99938a8ec36620cc0ba496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 73/75] fix: name the offending argument in the errors of LBFGS

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 563bf1c..cc5b56a 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -203,7 +203,7 @@ _ERROR_MESSAGES = {
     LBFGSERR_INVALID_TESTPERIOD: "Invalid parameter past specified.",
     LBFGSERR_INVALID_DELTA: "Invalid parameter delta specified.",
     LBFGSERR_INVALID_LINESEARCH: "Invalid parameter linesearch specified.",
-    LBFGSERR_INVALID_MINSTEP: "Invalid parameter max_step specified.",
+    LBFGSERR_INVALID_MINSTEP: "Invalid parameter min_step specified.",
     LBFGSERR_INVALID_MAXSTEP: "Invalid parameter max_step specified.",
     LBFGSERR_INVALID_FTOL: "Invalid parameter ftol specified.",
     LBFGSERR_INVALID_WOLFE: "Invalid parameter wolfe specified.",
@@ -404,7 +404,8 @@ cdef class LBFGS(object):
         if not callable(f):
             raise TypeError("f must be callable, got %s" % type(f))
         if progress is not None and not callable(progress):
-            raise TypeError("progress must be callable, got %s" % type(f))
+            raise TypeError("progress must be callable, got %s" %
+                            type(progress))
 
         x0 = np.atleast_1d(x0)
         n = np.product(x0.shape)
-- 
2.43.0


From 069124fd11180b51b33cfe6a11216fa1850aed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 74/75] fix: keep the re-fitted Poisson intercept finite for
 extreme predictors

---
 src/pyuoi/linear_model/poisson.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index e67d7de..848583b 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -1,6 +1,7 @@
 import numpy as np
 
 from scipy.sparse import issparse
+from scipy.special import logsumexp
 
 from .base import AbstractUoIGeneralizedLinearRegressor
 from .utils import sum_duplicates
@@ -686,11 +687,11 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
         estimated.
         """
         if self.fit_intercept:
-            mu = np.exp(safe_sparse_dot(X, self.coef_.T))
+            eta = safe_sparse_dot(X, self.coef_.T)
             if np.any(y):
-                self.intercept_ = np.log(
-                    np.mean(y, keepdims=True) / np.mean(mu)
-                )
+                # log of the mean of exp(eta), which itself may overflow
+                log_mean = logsumexp(eta) - np.log(np.size(eta))
+                self.intercept_ = np.log(np.mean(y, keepdims=True)) - log_mean
             else:
                 self.intercept_ = np.array(-np.inf)
         else:
-- 
2.43.0


From 687a15f1b00401aad57ccf07507709f71da6e17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:05 +0000
Subject: [PATCH 75/75] fix: accept a single sample in the linear UoI models

---
 src/pyuoi/linear_model/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 13940cb..8de5c52 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -576,7 +576,7 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
         if self.standardize:
             self._y_scaler = StandardScaler(with_mean=self.fit_intercept)
             y = self._y_scaler.fit_transform(y)
-        y = np.squeeze(y)
+        y = np.squeeze(y, axis=1)
         self.output_dim = 1
         return X, y
 
@@ -640,7 +640,7 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
             if y.shape[1] > 1:
                 raise ValueError('y should either have shape ' +
                                  '(n_samples, ) or (n_samples, 1).')
-            y = np.squeeze(y)
+            y = np.squeeze(y, axis=1)
         elif y.ndim > 2:
             raise ValueError('y should either have shape ' +
                              '(n_samples, ) or (n_samples, 1).')
-- 
2.43.0

