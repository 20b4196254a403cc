From 191fcceab4730e5cefd2c94ab3176815c85a8a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 01/25] fix: accept the documented univariate_variable
 transform type

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index fdeac01..0775712 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -485,7 +485,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _validate_transform_type(self, transform_type):
         transform_type = transform_type.lower()
-        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE,STR_MULTIVARIATE_VARIABLE]
+        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE_VARIABLE,STR_MULTIVARIATE_VARIABLE]
         if transform_type not in valid:
             raise ValueError('Wrong transform_type parameter value, got {}, valid ones are {}'.format(transform_type, valid))
         return transform_type
-- 
2.43.0


From 4fd5bbfca3afeabdba62201a40fe2e788800270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 02/25] fix: recognise every integer and float dtype in
 automatic mode

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 0775712..dba0953 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -319,7 +319,7 @@ class R_DST(BaseEstimator, TransformerMixin):
                 return STR_MULTIVARIATE_VARIABLE
             else:
                 return STR_UNIVARIATE_VARIABLE
-        elif X.dtype == np.int_ or X.dtype == np.float_:
+        elif np.issubdtype(X.dtype, np.integer) or np.issubdtype(X.dtype, np.floating):
             #Even length
             X = check_array_3D(X)
             if X.shape[1] > 1:
-- 
2.43.0


From ef00d1115735a18c308e38565bdb0a6e5c8b4ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 03/25] fix: apply normalize_output in R_DST.transform

---
 convst/transformers/rdst.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index dba0953..f318b16 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -292,6 +292,11 @@ class R_DST(BaseEstimator, TransformerMixin):
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance
             )
+            X_len = np.full(X.shape[0], X.shape[2])
+        if self.normalize_output:
+            # argmin and occurrence features are divided by the series length
+            X_new[:, 1::3] = X_new[:, 1::3] / X_len.reshape(-1, 1)
+            X_new[:, 2::3] = X_new[:, 2::3] / X_len.reshape(-1, 1)
         return X_new
     
     def _auto_class(self, X):
-- 
2.43.0


From 17bf4eba149050a202a4770fffa80beee06a3630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 04/25] fix: pass normalize_output to the members of
 R_DST_Ensemble

---
 convst/classifiers/rdst_ensemble.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index eac8523..1cf3522 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -239,6 +239,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         n_jobs=False,
                         shapelet_lengths=self.shapelet_lengths,
                         phase_invariance=self.phase_invariance,
+                        normalize_output=self.normalize_output,
                         prime_dilations=self.prime_dilations,
                         shapelet_lengths_bounds=self.shapelet_lengths_bounds,
                         lengths_bounds_reduction=self.lengths_bounds_reduction,
-- 
2.43.0


From ddaab92774bbe82f283317beddcbfaa15be155cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 05/25] fix: keep the series lengths aligned with the samples
 selected by n_samples

---
 convst/transformers/rdst.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index f318b16..a25733d 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -209,6 +209,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
             self.min_len = X.shape[2]
         
+        id_X = None
         if self.n_samples is None:
             pass
         elif self.n_samples < 1.0:
@@ -219,6 +220,8 @@ class R_DST(BaseEstimator, TransformerMixin):
             id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
             X = X[id_X]
             y = y[id_X]
+        if id_X is not None and self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
+            X_len = X_len[id_X]
         
         n_samples, n_features, _ = X.shape
         
-- 
2.43.0


From 9e120826b38746599768bef1cfd6414485fff5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 06/25] fix: draw the sample subset of R_DST.fit from
 random_state

---
 convst/transformers/rdst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index a25733d..876ba10 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -213,11 +213,11 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.n_samples is None:
             pass
         elif self.n_samples < 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
+            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=self.random_state)
             X = X[id_X]
             y = y[id_X]
         elif self.n_samples > 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
+            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=self.random_state)
             X = X[id_X]
             y = y[id_X]
         if id_X is not None and self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
-- 
2.43.0


From 8580e4d3a7dce574bab68ac3c05f17836a55ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 07/25] fix: replace too long shapelet lengths by one of at
 least 2 points

---
 convst/transformers/rdst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 876ba10..5cb9dfc 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -482,8 +482,8 @@ class R_DST(BaseEstimator, TransformerMixin):
             if n_timestamps < 3:
                 raise ValueError('Input data goint {} timestamps, at least 4 are requiered. Input format should be (n_samples, n_features, n_timestamps)'.format(n_timestamps))
             else:
-                warnings.warn("All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}".format(shapelet_lengths.max(), n_timestamps, n_timestamps//2))
-                shapelet_lengths[shapelet_lengths > n_timestamps] = n_timestamps//2
+                warnings.warn("All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}".format(shapelet_lengths.max(), n_timestamps, max(2, n_timestamps//2)))
+                shapelet_lengths[shapelet_lengths > n_timestamps] = max(2, n_timestamps//2)
 
 
         rng = check_random_state(self.random_state)
-- 
2.43.0


From 53d1fbde6795933c5947b8fa5edce3cc2ec15a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 08/25] fix: fitting an R_DST again does not depend on the
 previous fit

---
 convst/transformers/rdst.py | 46 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 5cb9dfc..e5649db 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -150,7 +150,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.proba_norm = check_is_numeric(proba_norm)
         self.percentiles = self._validate_percentiles(percentiles)
-        self.random_state = check_random_state(random_state)
+        check_random_state(random_state)
+        self.random_state = random_state
         if isinstance(n_jobs, bool):
             self.n_jobs=n_jobs
         else:
@@ -159,10 +160,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.max_channels=max_channels
         self.min_len=min_len
     
-    def _set_lengths(self):
+    def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
             if self.shapelet_lengths.dtype == float:
-                return np.floor(self.min_len*self.shapelet_lengths)
+                return np.floor(min_len*self.shapelet_lengths)
             else:
                 return self.shapelet_lengths
         else:
@@ -170,10 +171,10 @@ class R_DST(BaseEstimator, TransformerMixin):
             b1 = self.shapelet_lengths_bounds[1]
             
             if isinstance(b0, float):
-                b0 = int(b0*self.min_len)
+                b0 = int(b0*min_len)
             min_l = max(3,b0)
             if isinstance(b1, float):
-                b1 = int(b1*self.min_len)
+                b1 = int(b1*min_len)
             max_l = max(4,max(b0+1,b1+1))
             #4 to ensure range 3,4 -> 3
             lengths = np.asarray(list(range(min_l, max_l)))
@@ -203,11 +204,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            if self.min_len is None:
-                self.min_len = X_len.min()
+            min_len = X_len.min() if self.min_len is None else self.min_len
         else:
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            self.min_len = X.shape[2]
+            min_len = X.shape[2]
         
         id_X = None
         if self.n_samples is None:
@@ -225,32 +225,30 @@ class R_DST(BaseEstimator, TransformerMixin):
         
         n_samples, n_features, _ = X.shape
         
-        if self.max_channels is None:
-            self.max_channels = n_features
-        
+        max_channels = n_features if self.max_channels is None else self.max_channels
 
-        self.shapelet_lengths = self._set_lengths()
-        
-        shapelet_lengths, seed = self._check_params(self.min_len)
+        shapelet_lengths, seed = self._check_params(
+            min_len, self._set_lengths(min_len)
+        )
         # Generate the shapelets
         if self.transform_type == STR_UNIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.min_len, X_len, self.prime_dilations
+                self.phase_invariance, min_len, X_len, self.prime_dilations
             )
         elif self.transform_type == STR_MULTIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.max_channels, self.min_len, X_len,
+                self.phase_invariance, max_channels, min_len, X_len,
                 self.prime_dilations
             )
         elif self.transform_type == STR_MUTLIVARIATE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha, 
-                self.phase_invariance, self.max_channels, self.prime_dilations
+                self.phase_invariance, max_channels, self.prime_dilations
             )
         elif self.transform_type == STR_UNIVARIATE:
             self.shapelets_ = self.fitter(
@@ -354,8 +352,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         None.
 
         """
-        if self.transform_type == 'auto':
+        # a type found automatically by a previous fit is found anew
+        if self.transform_type in ['auto', getattr(self, '_auto_type', 'auto')]:
             _type = self._auto_class(X)
+            self._auto_type = _type
             self.transform_type = _type
         else:
             _type = self.transform_type
@@ -435,7 +435,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise ValueError("Samples got different number of features")
     
 
-    def _check_params(self, n_timestamps):
+    def _check_params(self, n_timestamps, shapelet_lengths):
         """
         Check the validity of the input parameters, notably that shapelet 
         length do not exceed time series lengths, and that we have at least 3
@@ -446,6 +446,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         n_timestamps : int
             Number of timestamps of input time series, if the input is of 
             variable length, it must be the minimum number of timestamps.
+        shapelet_lengths : array
+            The requested shapelet lengths.
 
         Raises
         ------
@@ -468,11 +470,11 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise TypeError("'n_shapelets' must be an integer (got {})."
                             .format(self.n_shapelets))
 
-        if not isinstance(self.shapelet_lengths, (list, tuple, np.ndarray)):
+        if not isinstance(shapelet_lengths, (list, tuple, np.ndarray)):
             raise TypeError("'shapelet_lengths' must be a list, a tuple or "
-                            "an array (got {}).".format(self.shapelet_lengths))
+                            "an array (got {}).".format(shapelet_lengths))
         
-        shapelet_lengths = check_array_1D(self.shapelet_lengths).astype(np.int64)
+        shapelet_lengths = check_array_1D(shapelet_lengths).astype(np.int64)
         if not np.all(1 < shapelet_lengths):
             raise ValueError("All the values in 'shapelet_lengths' must be "
                              "greater than 1, but got {} ({} < 1)."
-- 
2.43.0


From 8544db67a9cecc447e6189f194478190ca0cd79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 09/25] fix: one seed per ensemble member, drawn before the
 members are fitted

---
 convst/classifiers/rdst_ensemble.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 1cf3522..0d889c6 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -178,7 +178,8 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         self.shapelet_lengths_bounds = shapelet_lengths_bounds
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.percentiles = percentiles
-        self.random_state = check_random_state(random_state)
+        check_random_state(random_state)
+        self.random_state = random_state
         self.max_channels = max_channels
         self.min_len = min_len
         self.lengths_bounds_reduction = lengths_bounds_reduction
@@ -225,6 +226,9 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
     def fit(self, X, y):
         self._manage_n_jobs()
         set_num_threads(self.n_jobs_rdst)
+        seeds = check_random_state(self.random_state).randint(
+            np.iinfo(np.int32).max, size=len(self.input_transformers)
+        )
         models = Parallel(n_jobs=self.n_jobs, prefer=self.prefer, require=self.require)(
             delayed(_parallel_fit)(
                 X,
@@ -247,7 +251,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         percentiles=self.percentiles,
                         min_len=self.min_len,
                         max_channels=self.max_channels,
-                        random_state=self.random_state,
+                        random_state=seeds[i],
                     ),
                     _internalRidgeCV(
                         alphas=self.alphas_ridge,
-- 
2.43.0


From 02c00128f325e28d59988281bfee10fa3c80db64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 10/25] fix: ensemble returns the class labels and supports any
 label set

---
 convst/classifiers/rdst_ensemble.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 0d889c6..d25fe0a 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -49,9 +49,11 @@ class _internalRidgeCV(RidgeClassifierCV):
             alpha_idx = np.where(self.alphas == self.alpha_)[0]
             cv_vals = self.cv_values_[:, :, alpha_idx]
             if cv_vals.shape[1] == 1:
-                return accuracy_score((cv_vals[:, 0] > 0).astype(int), y_train)
+                return accuracy_score(
+                    self.classes_[(cv_vals[:, 0] > 0).astype(int)], y_train
+                )
             else:
-                return accuracy_score(cv_vals.argmax(axis=1), y_train)
+                return accuracy_score(self.classes_[cv_vals.argmax(axis=1)], y_train)
         else:
             raise ValueError(
                 "LOOCV training accuracy is only available with store_cv_values to True"
@@ -264,6 +266,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         )
 
         self.models = models
+        self.classes_ = models[0]["_internalridgecv"].classes_
         self.model_weights = [
             model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w
             for model in models
@@ -280,4 +283,4 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         )
         # n_samples, n_models
         preds_proba = np.asarray(preds_proba).sum(axis=0)
-        return preds_proba.argmax(axis=1)
+        return self.classes_[preds_proba.argmax(axis=1)]
-- 
2.43.0


From bd99200aa63e4166140dae0838a45a5d64c8cce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 11/25] fix: check_n_jobs never returns less than one job

---
 convst/utils/checks_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/utils/checks_utils.py b/convst/utils/checks_utils.py
index 1777bab..8a7199b 100644
--- a/convst/utils/checks_utils.py
+++ b/convst/utils/checks_utils.py
@@ -43,9 +43,9 @@ def check_n_jobs(n_jobs):
     elif not is_int(n_jobs):
         raise ValueError(f"`n_jobs` must be None or an integer, but found: {n_jobs}")
     elif n_jobs < 0:
-        return cpu_count() + n_jobs + 1
+        return max(1, cpu_count() + n_jobs + 1)
     else:
-        return min(n_jobs,cpu_count())
+        return max(1, min(n_jobs,cpu_count()))
 
 def check_array_3D(X, coerce_to_numpy=True, is_univariate=False, min_timestamps=2):
     """
-- 
2.43.0


From 8962ae6aea1408e469f18ba5b156f005bd8bb2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 12/25] fix: compare all channels when looking up the samples
 of a fold

---
 convst/utils/experiments_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/utils/experiments_utils.py b/convst/utils/experiments_utils.py
index 3f89a64..2b8feae 100644
--- a/convst/utils/experiments_utils.py
+++ b/convst/utils/experiments_utils.py
@@ -157,8 +157,8 @@ class _sklearn_cv:
                 X_train, y_train, X_test, y_test = _resample(
                     X_train_0, y_train_0, X_test_0, y_test_0, i
                 )
-            idx_Train = [np.where((X == X_train[j]).all(axis=2))[0][0] for j in range(X_train.shape[0])]
-            idx_Test = [np.where((X == X_test[j]).all(axis=2))[0][0] for j in range(X_test.shape[0])]
+            idx_Train = [np.where((X == X_train[j]).all(axis=(1, 2)))[0][0] for j in range(X_train.shape[0])]
+            idx_Test = [np.where((X == X_test[j]).all(axis=(1, 2)))[0][0] for j in range(X_test.shape[0])]
             yield idx_Train, idx_Test
     
     def get_n_splits(self, X=None, y=None, groups=None):
-- 
2.43.0


From 9b587f2a744249cfb55b27c24604ba1524349395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 13/25] fix: load_UCR_UEA_dataset supports variable length
 datasets

---
 convst/utils/dataset_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/convst/utils/dataset_utils.py b/convst/utils/dataset_utils.py
index ec11c0f..7737bd5 100644
--- a/convst/utils/dataset_utils.py
+++ b/convst/utils/dataset_utils.py
@@ -133,9 +133,11 @@ def load_UCR_UEA_dataset(name, normalize=False):
     X_train, X_test, y_train, y_test, _ = load_UCR_UEA_dataset_split(
         name, normalize=normalize
     )
-    return np.concatenate((X_train, X_test), axis=0), np.concatenate(
-        (y_train, y_test), axis=0
-    )
+    if isinstance(X_train, list):
+        X = X_train + X_test
+    else:
+        X = np.concatenate((X_train, X_test), axis=0)
+    return X, np.concatenate((y_train, y_test), axis=0)
 
 
 def return_all_dataset_names():
-- 
2.43.0


From 2cf4b3cd92e63ee3fe4f4e2c862b1871049967e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 14/25] fix: reject series with fewer than 3 points whatever
 the shapelet lengths

---
 convst/transformers/rdst.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index e5649db..d8bdd31 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -480,12 +480,11 @@ class R_DST(BaseEstimator, TransformerMixin):
                              "greater than 1, but got {} ({} < 1)."
                              .format(shapelet_lengths, shapelet_lengths.min()))
             
+        if n_timestamps < 3:
+            raise ValueError('Input data goint {} timestamps, at least 3 are requiered. Input format should be (n_samples, n_features, n_timestamps)'.format(n_timestamps))
         if not np.all(shapelet_lengths <= n_timestamps):
-            if n_timestamps < 3:
-                raise ValueError('Input data goint {} timestamps, at least 4 are requiered. Input format should be (n_samples, n_features, n_timestamps)'.format(n_timestamps))
-            else:
-                warnings.warn("All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}".format(shapelet_lengths.max(), n_timestamps, max(2, n_timestamps//2)))
-                shapelet_lengths[shapelet_lengths > n_timestamps] = max(2, n_timestamps//2)
+            warnings.warn("All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}".format(shapelet_lengths.max(), n_timestamps, max(2, n_timestamps//2)))
+            shapelet_lengths[shapelet_lengths > n_timestamps] = max(2, n_timestamps//2)
 
 
         rng = check_random_state(self.random_state)
-- 
2.43.0


From bee1d7fda79850186b22a815db230d33d36e95a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:04 +0000
Subject: [PATCH 15/25] fix: FastHankelTransform uses the optimal offset of its
 own mu and bias

fhtoffset(dln, mu, initial, bias) was given dln as mu and bias as initial.
---
 convst/transformers/_input_transformers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index d2ef4b4..536ffb8 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -165,7 +165,7 @@ class FastHankelTransform(BaseEstimator, TransformerMixin):
                     X[i],
                     self.dln,
                     self.mu,
-                    offset=fhtoffset(self.dln, self.dln, self.bias),
+                    offset=fhtoffset(self.dln, self.mu, bias=self.bias),
                     bias=self.bias,
                 )
             else:
-- 
2.43.0


From ea34ffdeaf3fda103dc80cf51851c875f8a67416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:14 +0000
Subject: [PATCH 16/25] fix: percentiles must be a pair, of any integer or
 float dtype

A single percentile raised IndexError, further ones were ignored and numeric
dtypes other than int64 and float64 were rejected.
---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index d8bdd31..dca8112 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -501,7 +501,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _validate_percentiles(self, percentiles):
         percentiles = check_array_1D(percentiles)
-        if percentiles.dtype == int or percentiles.dtype == float :
+        if percentiles.shape[0] == 2 and percentiles.dtype.kind in 'iuf':
             if percentiles[0] <= percentiles[1]:
                 return percentiles
         raise ValueError('Wrong percetniles parameter value, got {}, expected a numerical array of size 2'.format(percentiles))
-- 
2.43.0


From c150352cb9ceef514f3c361e73f35e114555fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:56 +0000
Subject: [PATCH 17/25] fix: numba np.all along an axis of size one reads only
 existing entries

---
 convst/utils/numba_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/convst/utils/numba_utils.py b/convst/utils/numba_utils.py
index e557a32..6f0e4fd 100644
--- a/convst/utils/numba_utils.py
+++ b/convst/utils/numba_utils.py
@@ -18,8 +18,8 @@ def np_all(x, axis=None):
     # ndarray.all with axis arguments for 2D arrays.
     @register_jitable
     def _np_all_axis0(arr):
-        out = np.logical_and(arr[0], arr[1])
-        for v in iter(arr[2:]):
+        out = np.logical_and(arr[0], arr[0])
+        for v in iter(arr[1:]):
             for idx, v_2 in enumerate(v):
                 out[idx] = np.logical_and(v_2, out[idx])
         return out
@@ -31,8 +31,8 @@ def np_all(x, axis=None):
 
     @register_jitable
     def _np_all_axis1(arr):
-        out = np.logical_and(arr[:, 0], arr[:, 1])
-        for idx, v in enumerate(arr[:, 2:]):
+        out = np.logical_and(arr[:, 0], arr[:, 0])
+        for idx, v in enumerate(arr[:, 1:]):
             for v_2 in iter(v):
                 out[idx] = np.logical_and(v_2, out[idx])
         return out
-- 
2.43.0


From 557d223f7ee28c6243b42f2e8ffe15b0df5ba1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:31 +0000
Subject: [PATCH 18/25] fix: pairwise_plot supports a single column of several
 plots

---
 convst/utils/plot_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index ca5a03d..eb50b61 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -84,6 +84,8 @@ def pairwise_plot(
     fig, ax = plt.subplots(
         ncols=ncols, nrows=nrows, figsize=figsize, sharey=True, dpi=dpi
     )
+    if nrows > 1:
+        ax = ax.reshape(nrows, ncols)
     props = dict(boxstyle='round', facecolor='wheat', alpha=0.75)
     for i, comp in enumerate(competitors):
         if nrows > 1:
-- 
2.43.0


From 2706edf793e528585f8b4c3cc86e07b9753bba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:31 +0000
Subject: [PATCH 19/25] fix: pair the accuracies of two classifiers by dataset
 in the Wilcoxon tests

---
 convst/utils/plot_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index eb50b61..85f1d6a 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -248,6 +248,8 @@ def _wilcoxon_holm(alpha=0.05, df_perf=None):
     Applies the wilcoxon signed rank test between each pair of algorithm and then use Holm
     to reject the null's hypothesis
     """
+    # the results of two classifiers are paired by dataset
+    df_perf = df_perf.sort_values(['classifier_name', 'dataset_name'])
     # count the number of tested datasets per classifier
     df_counts = pd.DataFrame({'count': df_perf.groupby(
         ['classifier_name']).size()}).reset_index()
-- 
2.43.0


From 67b879d9c98ac63f6e5236256d7a8dc6f91c5183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 20/25] fix: R_DST can be cloned by scikit-learn
 (transform_type kept as given)

---
 convst/transformers/rdst.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index dca8112..1c7a459 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -493,8 +493,11 @@ class R_DST(BaseEstimator, TransformerMixin):
         return shapelet_lengths, seed    
     
     def _validate_transform_type(self, transform_type):
-        transform_type = transform_type.lower()
         valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE_VARIABLE,STR_MULTIVARIATE_VARIABLE]
+        if transform_type in valid:
+            # the same object: scikit-learn's clone relies on it
+            return transform_type
+        transform_type = transform_type.lower()
         if transform_type not in valid:
             raise ValueError('Wrong transform_type parameter value, got {}, valid ones are {}'.format(transform_type, valid))
         return transform_type
-- 
2.43.0


From 7d4fa7e15e6be5c91a4d3b9ade14d3a953b4f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 21/25] fix: shapelet_lengths given to set_params as a list

---
 convst/transformers/rdst.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 1c7a459..a5140a8 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -162,10 +162,12 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
-            if self.shapelet_lengths.dtype == float:
-                return np.floor(min_len*self.shapelet_lengths)
+            # set_params may give a list
+            shapelet_lengths = check_array_1D(self.shapelet_lengths)
+            if shapelet_lengths.dtype == float:
+                return np.floor(min_len*shapelet_lengths)
             else:
-                return self.shapelet_lengths
+                return shapelet_lengths
         else:
             b0 = self.shapelet_lengths_bounds[0]
             b1 = self.shapelet_lengths_bounds[1]
-- 
2.43.0


From 6a2a20d4f9a1f839ff9b96f2671f6434295cecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 22/25] fix: fitting an R_DST leaves its transform_type
 parameter as given

---
 convst/interpreters/rdst_interpreter.py |  2 +-
 convst/transformers/rdst.py             | 20 +++++++++-----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/convst/interpreters/rdst_interpreter.py b/convst/interpreters/rdst_interpreter.py
index 2205679..09fb80a 100644
--- a/convst/interpreters/rdst_interpreter.py
+++ b/convst/interpreters/rdst_interpreter.py
@@ -229,7 +229,7 @@ class RDST_interpreter():
     def _get_params(self, id_shapelet):
         values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
         phase = self.RDST.phase_invariance
-        if self.RDST.transform_type in ['multivariate', 'multivariate_variable']:
+        if self.RDST.transform_type_ in ['multivariate', 'multivariate_variable']:
             raise NotImplementedError(
                 'Interpreter is not yet implemented for multivariate data'
             )
diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index a5140a8..27ab564 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -203,7 +203,7 @@ class R_DST(BaseEstimator, TransformerMixin):
 
         """
         self._set_fit_transform(X)
-        if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
+        if self.transform_type_ in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
             min_len = X_len.min() if self.min_len is None else self.min_len
@@ -222,7 +222,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=self.random_state)
             X = X[id_X]
             y = y[id_X]
-        if id_X is not None and self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
+        if id_X is not None and self.transform_type_ in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X_len = X_len[id_X]
         
         n_samples, n_features, _ = X.shape
@@ -233,26 +233,26 @@ class R_DST(BaseEstimator, TransformerMixin):
             min_len, self._set_lengths(min_len)
         )
         # Generate the shapelets
-        if self.transform_type == STR_UNIVARIATE_VARIABLE:
+        if self.transform_type_ == STR_UNIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
                 self.phase_invariance, min_len, X_len, self.prime_dilations
             )
-        elif self.transform_type == STR_MULTIVARIATE_VARIABLE:
+        elif self.transform_type_ == STR_MULTIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
                 self.phase_invariance, max_channels, min_len, X_len,
                 self.prime_dilations
             )
-        elif self.transform_type == STR_MUTLIVARIATE:
+        elif self.transform_type_ == STR_MUTLIVARIATE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha, 
                 self.phase_invariance, max_channels, self.prime_dilations
             )
-        elif self.transform_type == STR_UNIVARIATE:
+        elif self.transform_type_ == STR_UNIVARIATE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha, 
@@ -284,7 +284,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         """
         
         check_is_fitted(self, ['shapelets_'])
-        if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
+        if self.transform_type_ in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X).astype(np.float64)
             X_new = self.transformer(
@@ -354,13 +354,11 @@ class R_DST(BaseEstimator, TransformerMixin):
         None.
 
         """
-        # a type found automatically by a previous fit is found anew
-        if self.transform_type in ['auto', getattr(self, '_auto_type', 'auto')]:
+        if self.transform_type == 'auto':
             _type = self._auto_class(X)
-            self._auto_type = _type
-            self.transform_type = _type
         else:
             _type = self.transform_type
+        self.transform_type_ = _type
             
         if _type == STR_UNIVARIATE:
             from convst.transformers._univariate_same_length import (
-- 
2.43.0


From d626e8efc0c21b2190b9dcc6e2954bf90ec589d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 23/25] fix: fitting an R_DST_Ensemble leaves its n_jobs
 parameter as given

---
 convst/classifiers/rdst_ensemble.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index d25fe0a..9acd570 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -222,8 +222,8 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
 
     def _manage_n_jobs(self):
         total_jobs = check_n_jobs(self.n_jobs)
-        self.n_jobs = min(len(self.input_transformers), total_jobs)
-        self.n_jobs_rdst = max(1, total_jobs // self.n_jobs)
+        self.n_jobs_members = min(len(self.input_transformers), total_jobs)
+        self.n_jobs_rdst = max(1, total_jobs // self.n_jobs_members)
 
     def fit(self, X, y):
         self._manage_n_jobs()
@@ -231,7 +231,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         seeds = check_random_state(self.random_state).randint(
             np.iinfo(np.int32).max, size=len(self.input_transformers)
         )
-        models = Parallel(n_jobs=self.n_jobs, prefer=self.prefer, require=self.require)(
+        models = Parallel(n_jobs=self.n_jobs_members, prefer=self.prefer, require=self.require)(
             delayed(_parallel_fit)(
                 X,
                 y,
@@ -276,7 +276,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
     def predict(self, X):
         check_is_fitted(self, ["model_weights"])
         preds_proba = Parallel(
-            n_jobs=self.n_jobs, prefer=self.prefer, require=self.require
+            n_jobs=self.n_jobs_members, prefer=self.prefer, require=self.require
         )(
             delayed(_parallel_predict)(X, self.models[i], self.model_weights[i])
             for i in range(len(self.model_weights))
-- 
2.43.0


From f4eeff4b98bebb00d4a75223cfede7ab5ccf3548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 24/25] fix: prime dilations up to the admissible maximum:
 2**log2(m) rounded below m excluded the largest prime

---
 convst/transformers/_multivariate_same_length.py     | 7 ++++---
 convst/transformers/_multivariate_variable_length.py | 7 ++++---
 convst/transformers/_univariate_same_length.py       | 7 ++++---
 convst/transformers/_univariate_variable_length.py   | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/convst/transformers/_multivariate_same_length.py b/convst/transformers/_multivariate_same_length.py
index ba301be..2f6e57f 100644
--- a/convst/transformers/_multivariate_same_length.py
+++ b/convst/transformers/_multivariate_same_length.py
@@ -66,14 +66,15 @@ def M_SL_init_random_shapelet_params(
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
 
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(int64(max_dilations.max()))
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
diff --git a/convst/transformers/_multivariate_variable_length.py b/convst/transformers/_multivariate_variable_length.py
index 025781c..0135c0e 100644
--- a/convst/transformers/_multivariate_variable_length.py
+++ b/convst/transformers/_multivariate_variable_length.py
@@ -66,14 +66,15 @@ def M_VL_init_random_shapelet_params(
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
 
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(int64(max_dilations.max()))
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
diff --git a/convst/transformers/_univariate_same_length.py b/convst/transformers/_univariate_same_length.py
index 292d6d5..1bac9a9 100644
--- a/convst/transformers/_univariate_same_length.py
+++ b/convst/transformers/_univariate_same_length.py
@@ -59,14 +59,15 @@ def U_SL_init_random_shapelet_params(
     # Lengths of the shapelets
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(int64(max_dilations.max()))
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
diff --git a/convst/transformers/_univariate_variable_length.py b/convst/transformers/_univariate_variable_length.py
index 13e5afd..5597609 100644
--- a/convst/transformers/_univariate_variable_length.py
+++ b/convst/transformers/_univariate_variable_length.py
@@ -62,14 +62,15 @@ def U_VL_init_random_shapelet_params(
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
 
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(int64(max_dilations.max()))
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
-- 
2.43.0


From 7e6fd9e2ea7d2e333ac72c0937a8fb9d85f745e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 25/25] fix: proportions given as float32 or float16 are
 relative lengths, as any float

---
 convst/transformers/rdst.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 27ab564..766a401 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -164,7 +164,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.shapelet_lengths_bounds is None:
             # set_params may give a list
             shapelet_lengths = check_array_1D(self.shapelet_lengths)
-            if shapelet_lengths.dtype == float:
+            if np.issubdtype(shapelet_lengths.dtype, np.floating):
                 return np.floor(min_len*shapelet_lengths)
             else:
                 return shapelet_lengths
@@ -172,10 +172,10 @@ class R_DST(BaseEstimator, TransformerMixin):
             b0 = self.shapelet_lengths_bounds[0]
             b1 = self.shapelet_lengths_bounds[1]
             
-            if isinstance(b0, float):
+            if isinstance(b0, (float, np.floating)):
                 b0 = int(b0*min_len)
             min_l = max(3,b0)
-            if isinstance(b1, float):
+            if isinstance(b1, (float, np.floating)):
                 b1 = int(b1*min_len)
             max_l = max(4,max(b0+1,b1+1))
             #4 to ensure range 3,4 -> 3
-- 
2.43.0

