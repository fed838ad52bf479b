From ff3ed54782636ffddb4173251717fb7e979a531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 01/30] fix: R_DST keeps random_state as given, so that fitting
 twice with one seed gives one result

---
 convst/transformers/rdst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index fdeac01..c87d00e 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -150,7 +150,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.proba_norm = check_is_numeric(proba_norm)
         self.percentiles = self._validate_percentiles(percentiles)
-        self.random_state = check_random_state(random_state)
+        check_random_state(random_state)
+        self.random_state = random_state
         if isinstance(n_jobs, bool):
             self.n_jobs=n_jobs
         else:
-- 
2.43.0


From e3ed8601a9b472fa9f1223f05ab249c994638413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 02/30] fix: R_DST can be cloned, a lower case transform_type
 is kept as the object given

---
 convst/transformers/rdst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index c87d00e..705e33f 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -485,7 +485,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         return shapelet_lengths, seed    
     
     def _validate_transform_type(self, transform_type):
-        transform_type = transform_type.lower()
+        if transform_type != transform_type.lower():
+            transform_type = transform_type.lower()
         valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE,STR_MULTIVARIATE_VARIABLE]
         if transform_type not in valid:
             raise ValueError('Wrong transform_type parameter value, got {}, valid ones are {}'.format(transform_type, valid))
-- 
2.43.0


From 1ac83362f55183664ed22c7ffd847ab84bc88829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 03/30] fix: accept 'univariate_variable' as transform_type

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 705e33f..f3b7dc1 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -487,7 +487,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     def _validate_transform_type(self, transform_type):
         if transform_type != transform_type.lower():
             transform_type = transform_type.lower()
-        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE,STR_MULTIVARIATE_VARIABLE]
+        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE_VARIABLE,STR_MULTIVARIATE_VARIABLE]
         if transform_type not in valid:
             raise ValueError('Wrong transform_type parameter value, got {}, valid ones are {}'.format(transform_type, valid))
         return transform_type
-- 
2.43.0


From b1ba6bab816ba4d7b2c12fbf3a3d1e0a60f46288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 04/30] fix: the subsample drawn for n_samples follows
 random_state

---
 convst/transformers/rdst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index f3b7dc1..55802a0 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -213,11 +213,11 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.n_samples is None:
             pass
         elif self.n_samples < 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
+            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=self.random_state)
             X = X[id_X]
             y = y[id_X]
         elif self.n_samples > 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
+            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=self.random_state)
             X = X[id_X]
             y = y[id_X]
         
-- 
2.43.0


From 552b40cde0962bc6912577de39c760530579c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 05/30] fix: n_samples subsamples the lengths of the series
 along with the series

---
 convst/transformers/rdst.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 55802a0..93961dd 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -216,10 +216,14 @@ class R_DST(BaseEstimator, TransformerMixin):
             id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=self.random_state)
             X = X[id_X]
             y = y[id_X]
+            if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
+                X_len = X_len[id_X]
         elif self.n_samples > 1.0:
             id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=self.random_state)
             X = X[id_X]
             y = y[id_X]
+            if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
+                X_len = X_len[id_X]
         
         n_samples, n_features, _ = X.shape
         
-- 
2.43.0


From 076af3b1f52e2e4f41d2142f58c9ffce5b2f4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 06/30] fix: shapelet lengths reduced to fit series of 3
 timestamps stay above 1

---
 convst/transformers/rdst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 93961dd..be64fda 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -479,8 +479,8 @@ class R_DST(BaseEstimator, TransformerMixin):
             if n_timestamps < 3:
                 raise ValueError('Input data goint {} timestamps, at least 4 are requiered. Input format should be (n_samples, n_features, n_timestamps)'.format(n_timestamps))
             else:
-                warnings.warn("All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}".format(shapelet_lengths.max(), n_timestamps, n_timestamps//2))
-                shapelet_lengths[shapelet_lengths > n_timestamps] = n_timestamps//2
+                warnings.warn("All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}".format(shapelet_lengths.max(), n_timestamps, max(2, n_timestamps//2)))
+                shapelet_lengths[shapelet_lengths > n_timestamps] = max(2, n_timestamps//2)
 
 
         rng = check_random_state(self.random_state)
-- 
2.43.0


From 88c9a9cfd99482141353fe9724c258ed8ba5cfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 07/30] fix: detect the transform type for every numerical
 dtype, not only int64 and float64

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index be64fda..c72155f 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -324,7 +324,7 @@ class R_DST(BaseEstimator, TransformerMixin):
                 return STR_MULTIVARIATE_VARIABLE
             else:
                 return STR_UNIVARIATE_VARIABLE
-        elif X.dtype == np.int_ or X.dtype == np.float_:
+        elif np.issubdtype(X.dtype, np.number):
             #Even length
             X = check_array_3D(X)
             if X.shape[1] > 1:
-- 
2.43.0


From 63f1dda1beb5bf99f02084fe397ab4452900b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 08/30] fix: percentiles of another size than 2 are refused
 when R_DST is built

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index c72155f..41ea2a5 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -498,7 +498,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _validate_percentiles(self, percentiles):
         percentiles = check_array_1D(percentiles)
-        if percentiles.dtype == int or percentiles.dtype == float :
+        if percentiles.shape[0] == 2 and (percentiles.dtype == int or percentiles.dtype == float):
             if percentiles[0] <= percentiles[1]:
                 return percentiles
         raise ValueError('Wrong percetniles parameter value, got {}, expected a numerical array of size 2'.format(percentiles))
-- 
2.43.0


From 152674b04917aa083551f51e7e6105ac3cbcec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 09/30] fix: fit leaves min_len, max_channels and
 shapelet_lengths as given, so that a second fit does not reuse values of the
 first

---
 convst/transformers/rdst.py | 39 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 41ea2a5..98fb5aa 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -160,10 +160,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.max_channels=max_channels
         self.min_len=min_len
     
-    def _set_lengths(self):
+    def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
             if self.shapelet_lengths.dtype == float:
-                return np.floor(self.min_len*self.shapelet_lengths)
+                return np.floor(min_len*self.shapelet_lengths)
             else:
                 return self.shapelet_lengths
         else:
@@ -171,10 +171,10 @@ class R_DST(BaseEstimator, TransformerMixin):
             b1 = self.shapelet_lengths_bounds[1]
             
             if isinstance(b0, float):
-                b0 = int(b0*self.min_len)
+                b0 = int(b0*min_len)
             min_l = max(3,b0)
             if isinstance(b1, float):
-                b1 = int(b1*self.min_len)
+                b1 = int(b1*min_len)
             max_l = max(4,max(b0+1,b1+1))
             #4 to ensure range 3,4 -> 3
             lengths = np.asarray(list(range(min_l, max_l)))
@@ -204,11 +204,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            if self.min_len is None:
-                self.min_len = X_len.min()
+            min_len = X_len.min() if self.min_len is None else self.min_len
         else:
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            self.min_len = X.shape[2]
+            min_len = X.shape[2]
         
         if self.n_samples is None:
             pass
@@ -227,32 +226,30 @@ class R_DST(BaseEstimator, TransformerMixin):
         
         n_samples, n_features, _ = X.shape
         
-        if self.max_channels is None:
-            self.max_channels = n_features
+        max_channels = n_features if self.max_channels is None else self.max_channels
         
-
-        self.shapelet_lengths = self._set_lengths()
-        
-        shapelet_lengths, seed = self._check_params(self.min_len)
+        shapelet_lengths, seed = self._check_params(
+            self._set_lengths(min_len), min_len
+        )
         # Generate the shapelets
         if self.transform_type == STR_UNIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.min_len, X_len, self.prime_dilations
+                self.phase_invariance, min_len, X_len, self.prime_dilations
             )
         elif self.transform_type == STR_MULTIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.max_channels, self.min_len, X_len,
+                self.phase_invariance, max_channels, min_len, X_len,
                 self.prime_dilations
             )
         elif self.transform_type == STR_MUTLIVARIATE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha, 
-                self.phase_invariance, self.max_channels, self.prime_dilations
+                self.phase_invariance, max_channels, self.prime_dilations
             )
         elif self.transform_type == STR_UNIVARIATE:
             self.shapelets_ = self.fitter(
@@ -432,7 +429,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise ValueError("Samples got different number of features")
     
 
-    def _check_params(self, n_timestamps):
+    def _check_params(self, shapelet_lengths, n_timestamps):
         """
         Check the validity of the input parameters, notably that shapelet 
         length do not exceed time series lengths, and that we have at least 3
@@ -440,6 +437,8 @@ class R_DST(BaseEstimator, TransformerMixin):
 
         Parameters
         ----------
+        shapelet_lengths : array
+            The lengths configured for the shapelets.
         n_timestamps : int
             Number of timestamps of input time series, if the input is of 
             variable length, it must be the minimum number of timestamps.
@@ -465,11 +464,11 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise TypeError("'n_shapelets' must be an integer (got {})."
                             .format(self.n_shapelets))
 
-        if not isinstance(self.shapelet_lengths, (list, tuple, np.ndarray)):
+        if not isinstance(shapelet_lengths, (list, tuple, np.ndarray)):
             raise TypeError("'shapelet_lengths' must be a list, a tuple or "
-                            "an array (got {}).".format(self.shapelet_lengths))
+                            "an array (got {}).".format(shapelet_lengths))
         
-        shapelet_lengths = check_array_1D(self.shapelet_lengths).astype(np.int64)
+        shapelet_lengths = check_array_1D(shapelet_lengths).astype(np.int64)
         if not np.all(1 < shapelet_lengths):
             raise ValueError("All the values in 'shapelet_lengths' must be "
                              "greater than 1, but got {} ({} < 1)."
-- 
2.43.0


From 0728ee70c968c72acba720cc35cebdab46ddb98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 10/30] fix: transform_type='auto' is resolved again by every
 fit

---
 convst/transformers/rdst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 98fb5aa..3a33ba3 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -348,8 +348,9 @@ class R_DST(BaseEstimator, TransformerMixin):
         None.
 
         """
-        if self.transform_type == 'auto':
+        if self.transform_type in ('auto', getattr(self, '_detected_type', None)):
             _type = self._auto_class(X)
+            self._detected_type = _type
             self.transform_type = _type
         else:
             _type = self.transform_type
-- 
2.43.0


From ab7c6b9f341d5b906603680697334f495d908c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 11/30] fix: a min_len above the length of the shortest
 training series does not place shapelets past its end

---
 convst/transformers/rdst.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 3a33ba3..7414bf8 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -204,7 +204,9 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            min_len = X_len.min() if self.min_len is None else self.min_len
+            min_len = X_len.min()
+            if self.min_len is not None:
+                min_len = min(min_len, self.min_len)
         else:
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
             min_len = X.shape[2]
-- 
2.43.0


From 9d27fe321e85584d75b56b12e8cc1135db31491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 12/30] fix: transform refuses series too short for a shapelet,
 or with another number of features than in fit

---
 convst/transformers/rdst.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 7414bf8..e15396a 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -227,6 +227,7 @@ class R_DST(BaseEstimator, TransformerMixin):
                 X_len = X_len[id_X]
         
         n_samples, n_features, _ = X.shape
+        self.n_features_in_ = n_features
         
         max_channels = n_features if self.max_channels is None else self.max_channels
         
@@ -288,16 +289,50 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X).astype(np.float64)
+            self._check_transform_input(X, X_len)
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance, X_len
             )
         else:
             X = check_array_3D(X).astype(np.float64)
+            X_len = np.full(X.shape[0], X.shape[2])
+            self._check_transform_input(X, X_len)
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance
             )
         return X_new
     
+    def _check_transform_input(self, X, lengths):
+        """
+        Check that the fitted shapelets can be applied to the input.
+
+        Parameters
+        ----------
+        X : array, shape=(n_samples, n_features, n_timestamps)
+            Input time series.
+        lengths : array, shape=(n_samples)
+            The true length of each input time series.
+
+        Raises
+        ------
+        ValueError
+            If the number of features differs from the one seen during fit, or
+            if a time series is too short to hold one of the shapelets.
+
+        """
+        if X.shape[1] != self.n_features_in_:
+            raise ValueError(
+                "Input has {} features, but R_DST was fitted with {} features"
+                .format(X.shape[1], self.n_features_in_)
+            )
+        if not self.phase_invariance and len(self.shapelets_[1]) > 0:
+            span = ((self.shapelets_[1] - 1) * self.shapelets_[2]).max() + 1
+            if np.min(lengths) < span:
+                raise ValueError(
+                    "Input has a time series of {} timestamps, but the fitted "
+                    "shapelets span up to {}".format(np.min(lengths), span)
+                )
+
     def _auto_class(self, X):
         """
         Using the input time series data, find the type of transformation to 
-- 
2.43.0


From 4cd0e1ac16b6cb27fe9f7bc7726b605a9cc6af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 13/30] fix: normalize_output divides argmin and shapelet
 occurrence by the series length, as documented

---
 convst/transformers/rdst.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index e15396a..cd7bc6b 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -300,6 +300,9 @@ class R_DST(BaseEstimator, TransformerMixin):
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance
             )
+        if self.normalize_output:
+            X_new[:, 1::3] /= X_len.reshape(-1, 1)
+            X_new[:, 2::3] /= X_len.reshape(-1, 1)
         return X_new
     
     def _check_transform_input(self, X, lengths):
-- 
2.43.0


From c20933473eda42d5ffed5af3b9e484d7816ffba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 14/30] fix: check_n_jobs never returns a number of jobs below
 1

---
 convst/utils/checks_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/convst/utils/checks_utils.py b/convst/utils/checks_utils.py
index 1777bab..936fa9d 100644
--- a/convst/utils/checks_utils.py
+++ b/convst/utils/checks_utils.py
@@ -42,8 +42,10 @@ def check_n_jobs(n_jobs):
         return 1
     elif not is_int(n_jobs):
         raise ValueError(f"`n_jobs` must be None or an integer, but found: {n_jobs}")
+    elif n_jobs == 0:
+        raise ValueError("`n_jobs` must be different from 0")
     elif n_jobs < 0:
-        return cpu_count() + n_jobs + 1
+        return max(1, cpu_count() + n_jobs + 1)
     else:
         return min(n_jobs,cpu_count())
 
-- 
2.43.0


From 5a18a9e76069e200cdc16660b09aa1e3da962178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 15/30] fix: the models of R_DST_Ensemble no longer share one
 random state while they are fitted in parallel

---
 convst/classifiers/rdst_ensemble.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index eac8523..c5741f1 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -178,7 +178,8 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         self.shapelet_lengths_bounds = shapelet_lengths_bounds
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.percentiles = percentiles
-        self.random_state = check_random_state(random_state)
+        check_random_state(random_state)
+        self.random_state = random_state
         self.max_channels = max_channels
         self.min_len = min_len
         self.lengths_bounds_reduction = lengths_bounds_reduction
@@ -225,6 +226,10 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
     def fit(self, X, y):
         self._manage_n_jobs()
         set_num_threads(self.n_jobs_rdst)
+        # One seed per model, drawn before the models are fitted in parallel
+        seeds = check_random_state(self.random_state).randint(
+            np.iinfo(np.int32).max, size=len(self.input_transformers)
+        )
         models = Parallel(n_jobs=self.n_jobs, prefer=self.prefer, require=self.require)(
             delayed(_parallel_fit)(
                 X,
@@ -246,7 +251,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         percentiles=self.percentiles,
                         min_len=self.min_len,
                         max_channels=self.max_channels,
-                        random_state=self.random_state,
+                        random_state=seeds[i],
                     ),
                     _internalRidgeCV(
                         alphas=self.alphas_ridge,
-- 
2.43.0


From 5a39f124f61d47f4364e30a733c8c95ed4a88bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 16/30] fix: R_DST_Ensemble.fit leaves n_jobs as given

---
 convst/classifiers/rdst_ensemble.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index c5741f1..cde4bd9 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -220,8 +220,8 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
 
     def _manage_n_jobs(self):
         total_jobs = check_n_jobs(self.n_jobs)
-        self.n_jobs = min(len(self.input_transformers), total_jobs)
-        self.n_jobs_rdst = max(1, total_jobs // self.n_jobs)
+        self.n_jobs_models = min(len(self.input_transformers), total_jobs)
+        self.n_jobs_rdst = max(1, total_jobs // self.n_jobs_models)
 
     def fit(self, X, y):
         self._manage_n_jobs()
@@ -230,7 +230,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         seeds = check_random_state(self.random_state).randint(
             np.iinfo(np.int32).max, size=len(self.input_transformers)
         )
-        models = Parallel(n_jobs=self.n_jobs, prefer=self.prefer, require=self.require)(
+        models = Parallel(n_jobs=self.n_jobs_models, prefer=self.prefer, require=self.require)(
             delayed(_parallel_fit)(
                 X,
                 y,
@@ -273,7 +273,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
     def predict(self, X):
         check_is_fitted(self, ["model_weights"])
         preds_proba = Parallel(
-            n_jobs=self.n_jobs, prefer=self.prefer, require=self.require
+            n_jobs=self.n_jobs_models, prefer=self.prefer, require=self.require
         )(
             delayed(_parallel_predict)(X, self.models[i], self.model_weights[i])
             for i in range(len(self.model_weights))
-- 
2.43.0


From fc52787a788ef663d7492223e585a24306fbb416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 17/30] fix: R_DST_Ensemble predicts the labels given to fit,
 whatever they are

---
 convst/classifiers/rdst_ensemble.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index cde4bd9..46f0ebb 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -49,9 +49,10 @@ class _internalRidgeCV(RidgeClassifierCV):
             alpha_idx = np.where(self.alphas == self.alpha_)[0]
             cv_vals = self.cv_values_[:, :, alpha_idx]
             if cv_vals.shape[1] == 1:
-                return accuracy_score((cv_vals[:, 0] > 0).astype(int), y_train)
+                idx = (cv_vals[:, 0] > 0).astype(int).ravel()
             else:
-                return accuracy_score(cv_vals.argmax(axis=1), y_train)
+                idx = cv_vals.argmax(axis=1).ravel()
+            return accuracy_score(self.classes_[idx], y_train)
         else:
             raise ValueError(
                 "LOOCV training accuracy is only available with store_cv_values to True"
@@ -264,6 +265,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         )
 
         self.models = models
+        self.classes_ = np.unique(y)
         self.model_weights = [
             model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w
             for model in models
@@ -280,4 +282,4 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         )
         # n_samples, n_models
         preds_proba = np.asarray(preds_proba).sum(axis=0)
-        return preds_proba.argmax(axis=1)
+        return self.classes_[preds_proba.argmax(axis=1)]
-- 
2.43.0


From de0d897a07381edef7c3fddf4fbc19faf5252d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 18/30] fix: R_DST_Ensemble passes normalize_output to its
 transformers

---
 convst/classifiers/rdst_ensemble.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 46f0ebb..47b49bd 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -241,6 +241,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         n_shapelets=self.n_shapelets_per_estimator,
                         alpha=self.shp_alpha,
                         n_samples=self.n_samples,
+                        normalize_output=self.normalize_output,
                         proba_norm=self.proba_norm[i],
                         n_jobs=False,
                         shapelet_lengths=self.shapelet_lengths,
-- 
2.43.0


From be7fb0e665a9df0e5149c7453c3f355affa97017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 19/30] fix: Derivate and Periodigram accept series of unequal
 length

---
 convst/transformers/_input_transformers.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index d2ef4b4..65b7634 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -90,7 +90,10 @@ class Derivate(BaseEstimator, TransformerMixin):
 
     def transform(self, X):
         for i in range(self.order):
-            X = np.diff(X)
+            if isinstance(X, list) or X.dtype == np.object_:
+                X = [np.diff(x) for x in X]
+            else:
+                X = np.diff(X)
         return X
 
     def _random_init(self):
@@ -109,6 +112,16 @@ class Periodigram(BaseEstimator, TransformerMixin):
         return self
 
     def transform(self, X):
+        if isinstance(X, list) or X.dtype == np.object_:
+            return [
+                np.asarray(
+                    [
+                        periodogram(x_ft, detrend=False, window=self.window_type)[1]
+                        for x_ft in x
+                    ]
+                )
+                for x in X
+            ]
         n_ts = periodogram(X[0, 0, :], detrend=False, window=self.window_type)[1].shape[
             0
         ]
-- 
2.43.0


From 1b19ba39144fa61795496b01a5999e6f6e700c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 20/30] fix: RDST_interpreter raises NotImplementedError, as
 written, for multivariate models

---
 convst/interpreters/rdst_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/interpreters/rdst_interpreter.py b/convst/interpreters/rdst_interpreter.py
index 2205679..2cf02f7 100644
--- a/convst/interpreters/rdst_interpreter.py
+++ b/convst/interpreters/rdst_interpreter.py
@@ -227,13 +227,13 @@ class RDST_interpreter():
             )
 
     def _get_params(self, id_shapelet):
-        values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
         phase = self.RDST.phase_invariance
         if self.RDST.transform_type in ['multivariate', 'multivariate_variable']:
             raise NotImplementedError(
                 'Interpreter is not yet implemented for multivariate data'
             )
         else:
+            values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
             length_ = lengths[id_shapelet]
             values_ = values[id_shapelet, :length_]
             dilation = dilations[id_shapelet]
-- 
2.43.0


From 10d660b4ae43982fb8bb7ab9db2bf7bc34dbb24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 21/30] fix: _sklearn_cv matches multivariate series on all
 their channels

---
 convst/utils/experiments_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/utils/experiments_utils.py b/convst/utils/experiments_utils.py
index 3f89a64..6969d48 100644
--- a/convst/utils/experiments_utils.py
+++ b/convst/utils/experiments_utils.py
@@ -157,8 +157,8 @@ class _sklearn_cv:
                 X_train, y_train, X_test, y_test = _resample(
                     X_train_0, y_train_0, X_test_0, y_test_0, i
                 )
-            idx_Train = [np.where((X == X_train[j]).all(axis=2))[0][0] for j in range(X_train.shape[0])]
-            idx_Test = [np.where((X == X_test[j]).all(axis=2))[0][0] for j in range(X_test.shape[0])]
+            idx_Train = [np.where((X == X_train[j]).all(axis=(1,2)))[0][0] for j in range(X_train.shape[0])]
+            idx_Test = [np.where((X == X_test[j]).all(axis=(1,2)))[0][0] for j in range(X_test.shape[0])]
             yield idx_Train, idx_Test
     
     def get_n_splits(self, X=None, y=None, groups=None):
-- 
2.43.0


From 1b05b0a2777a6766268c4ba2befac8b12177d35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 22/30] fix: _wilcoxon_holm pairs performances by dataset,
 whatever the order of the rows

---
 convst/utils/plot_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index ca5a03d..1ba8547 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -246,6 +246,8 @@ def _wilcoxon_holm(alpha=0.05, df_perf=None):
     Applies the wilcoxon signed rank test between each pair of algorithm and then use Holm
     to reject the null's hypothesis
     """
+    # the performances of two classifiers are paired by dataset
+    df_perf = df_perf.sort_values(['classifier_name', 'dataset_name'])
     # count the number of tested datasets per classifier
     df_counts = pd.DataFrame({'count': df_perf.groupby(
         ['classifier_name']).size()}).reset_index()
-- 
2.43.0


From 434272a70fae851ad6c0e2c28b028c6ddad36e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 23/30] fix: draw_cd_diagram saves to the path it is given

---
 convst/utils/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index 1ba8547..49140ac 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -221,7 +221,8 @@ def draw_cd_diagram(df_perf=None, alpha=0.05, title=None, width=10, labels=False
         if title:
             plt.title(title, fontdict=font, y=0.9, x=0.5)
         if path is None:
-            plt.savefig('cd-diagram.png', bbox_inches='tight')
+            path = 'cd-diagram.png'
+        plt.savefig(path, bbox_inches='tight')
 
 def _form_cliques(p_values, nnames):
     """
-- 
2.43.0


From 61377f341736620d59f9bfa2802a35975dc6db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 24/30] fix: load_UCR_UEA_dataset joins the splits of datasets
 of unequal length

---
 convst/utils/dataset_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/convst/utils/dataset_utils.py b/convst/utils/dataset_utils.py
index ec11c0f..7737bd5 100644
--- a/convst/utils/dataset_utils.py
+++ b/convst/utils/dataset_utils.py
@@ -133,9 +133,11 @@ def load_UCR_UEA_dataset(name, normalize=False):
     X_train, X_test, y_train, y_test, _ = load_UCR_UEA_dataset_split(
         name, normalize=normalize
     )
-    return np.concatenate((X_train, X_test), axis=0), np.concatenate(
-        (y_train, y_test), axis=0
-    )
+    if isinstance(X_train, list):
+        X = X_train + X_test
+    else:
+        X = np.concatenate((X_train, X_test), axis=0)
+    return X, np.concatenate((y_train, y_test), axis=0)
 
 
 def return_all_dataset_names():
-- 
2.43.0


From 6da9845663b4ff28bc53ccac5e21008b66599a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 25/30] fix: the shapelets drawn for a random_state no longer
 depend on the number of threads

---
 convst/transformers/_multivariate_same_length.py     | 5 ++++-
 convst/transformers/_multivariate_variable_length.py | 5 ++++-
 convst/transformers/_univariate_same_length.py       | 5 ++++-
 convst/transformers/_univariate_variable_length.py   | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/convst/transformers/_multivariate_same_length.py b/convst/transformers/_multivariate_same_length.py
index ba301be..c568bcb 100644
--- a/convst/transformers/_multivariate_same_length.py
+++ b/convst/transformers/_multivariate_same_length.py
@@ -2,7 +2,7 @@
 """
 @author: Antoine Guillaume
 """
-from numpy.random import choice, uniform, random, seed
+from numpy.random import choice, uniform, random, randint, seed
 from numpy import (
     unique, where, percentile, int64, bool_, float64, concatenate,
     dot, log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std,
@@ -164,6 +164,8 @@ def M_SL_generate_shapelet(
     )
     #Initialize self similarity mask
     unique_dil = unique(dilations)
+    #Each thread has its own generator, so each dilation gets its own seed
+    seeds = randint(0, 2**31-1, unique_dil.shape[0])
     mask_sampling = ones(
         (2,unique_dil.shape[0],n_samples,n_features,n_timestamps), dtype=bool_
     )
@@ -175,6 +177,7 @@ def M_SL_generate_shapelet(
 
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
diff --git a/convst/transformers/_multivariate_variable_length.py b/convst/transformers/_multivariate_variable_length.py
index 025781c..2eeff9d 100644
--- a/convst/transformers/_multivariate_variable_length.py
+++ b/convst/transformers/_multivariate_variable_length.py
@@ -2,7 +2,7 @@
 """
 @author: Antoine Guillaume
 """
-from numpy.random import choice, uniform, random, seed
+from numpy.random import choice, uniform, random, randint, seed
 from numpy import (
     unique, where, percentile, int64, bool_, float64, concatenate, any as _any,
     dot, log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std,
@@ -168,6 +168,8 @@ def M_VL_generate_shapelet(
     )
     #Initialize self similarity mask
     unique_dil = unique(dilations)
+    #Each thread has its own generator, so each dilation gets its own seed
+    seeds = randint(0, 2**31-1, unique_dil.shape[0])
     mask_sampling = ones(
         (2,unique_dil.shape[0],n_samples,n_features,max_len), dtype=bool_
     )
@@ -182,6 +184,7 @@ def M_VL_generate_shapelet(
     
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
diff --git a/convst/transformers/_univariate_same_length.py b/convst/transformers/_univariate_same_length.py
index 292d6d5..86274ab 100644
--- a/convst/transformers/_univariate_same_length.py
+++ b/convst/transformers/_univariate_same_length.py
@@ -2,7 +2,7 @@
 """
 @author: Antoine Guillaume
 """
-from numpy.random import choice, uniform, random, seed
+from numpy.random import choice, uniform, random, randint, seed
 from numpy import (
     unique, where, percentile, all as _all, int64, bool_,
     log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std
@@ -148,12 +148,15 @@ def U_SL_generate_shapelet(
     )
     #Initialize self similarity mask
     unique_dil = unique(dilations)
+    #Each thread has its own generator, so each dilation gets its own seed
+    seeds = randint(0, 2**31-1, unique_dil.shape[0])
     mask_sampling = ones(
         (2,unique_dil.shape[0],n_samples,n_timestamps), dtype=bool_
     )
 
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
diff --git a/convst/transformers/_univariate_variable_length.py b/convst/transformers/_univariate_variable_length.py
index 13e5afd..ff13cd9 100644
--- a/convst/transformers/_univariate_variable_length.py
+++ b/convst/transformers/_univariate_variable_length.py
@@ -2,7 +2,7 @@
 """
 @author: Antoine Guillaume
 """
-from numpy.random import choice, uniform, random, seed
+from numpy.random import choice, uniform, random, randint, seed
 from numpy import (
     unique, where, percentile, all as _all, int64, bool_, any as _any,
     log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std
@@ -160,6 +160,8 @@ def U_VL_generate_shapelet(
     
     #Initialize self similarity mask
     unique_dil = unique(dilations)
+    #Each thread has its own generator, so each dilation gets its own seed
+    seeds = randint(0, 2**31-1, unique_dil.shape[0])
     mask_sampling = ones(
         (2,unique_dil.shape[0],n_samples,max_len), dtype=bool_
     )
@@ -169,6 +171,7 @@ def U_VL_generate_shapelet(
     
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
-- 
2.43.0


From 11b70494de51c8df1ee5fad2c3eb5e634184154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:57 +0000
Subject: [PATCH 26/30] fix: series of unequal length that are not 2D arrays,
 and empty lists, are refused with ValueError

---
 convst/transformers/rdst.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index cd7bc6b..a967811 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -357,6 +357,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         """
         #[STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE,STR_MULTIVARIATE_VARIABLE]
         if isinstance(X, list) or X.dtype == np.object_:
+            self._check_uneven_timestamps(X)
             if len(X[0]) > 1:
                 return STR_MULTIVARIATE_VARIABLE
             else:
@@ -426,6 +427,30 @@ class R_DST(BaseEstimator, TransformerMixin):
         else:
             raise ValueError('Unknwon transform type parameter')
     
+    def _check_uneven_timestamps(self, X):
+        """
+        Check that a set of variable length time series is a non empty 
+        collection of 2D arrays.
+
+        Parameters
+        ----------
+        X : list or array of 2D array
+             The input time series data.
+
+        Raises
+        ------
+        ValueError
+            If X is empty or contains something else than 2D arrays.
+
+        """
+        if len(X) == 0:
+            raise ValueError("Input is empty")
+        if any(np.ndim(x) != 2 for x in X):
+            raise ValueError(
+                "Time series of variable length must be 2D arrays of shape "
+                "(n_features, n_timestamps)"
+            )
+    
     def _format_uneven_timestamps(self, X):
         """
         Given a set of variable length time series, create a 3D numpy array 
@@ -455,6 +480,8 @@ class R_DST(BaseEstimator, TransformerMixin):
              The true length of each input time series.
 
         """
+        self._check_uneven_timestamps(X)
+        X = [np.asarray(x) for x in X]
         n_ft = np.zeros(len(X),dtype=np.int64)
         lengths = np.zeros(len(X),dtype=np.int64)
         for i in range(len(X)):
-- 
2.43.0


From c92994d57afafc3d61f83478e442b911b6712bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 27/30] fix: each model of R_DST_Ensemble keeps to its threads,
 numba's limit is local to the worker that runs it

---
 convst/classifiers/rdst_ensemble.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 47b49bd..4da16fd 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -59,11 +59,14 @@ class _internalRidgeCV(RidgeClassifierCV):
             )
 
 
-def _parallel_fit(X, y, model):
+def _parallel_fit(X, y, model, n_threads):
+    # The number of threads of numba is local to the thread that sets it
+    set_num_threads(n_threads)
     return model.fit(X, y)
 
 
-def _parallel_predict(X, model, w):
+def _parallel_predict(X, model, w, n_threads):
+    set_num_threads(n_threads)
     return model.predict_proba(X) * w
 
 
@@ -261,6 +264,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         class_weight=self.class_weight,
                     ),
                 ),
+                self.n_jobs_rdst,
             )
             for i in range(len(self.input_transformers))
         )
@@ -278,7 +282,9 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         preds_proba = Parallel(
             n_jobs=self.n_jobs_models, prefer=self.prefer, require=self.require
         )(
-            delayed(_parallel_predict)(X, self.models[i], self.model_weights[i])
+            delayed(_parallel_predict)(
+                X, self.models[i], self.model_weights[i], self.n_jobs_rdst
+            )
             for i in range(len(self.model_weights))
         )
         # n_samples, n_models
-- 
2.43.0


From c4b676bba4ab50e422e449512bb9083a273017a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 28/30] fix: FastHankelTransform computes the optimal offset
 for its own mu and bias

---
 convst/transformers/_input_transformers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index 65b7634..0a513f0 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -178,7 +178,7 @@ class FastHankelTransform(BaseEstimator, TransformerMixin):
                     X[i],
                     self.dln,
                     self.mu,
-                    offset=fhtoffset(self.dln, self.dln, self.bias),
+                    offset=fhtoffset(self.dln, self.mu, bias=self.bias),
                     bias=self.bias,
                 )
             else:
-- 
2.43.0


From bb4769306b04cbc6fed0d92b9e009ae2df8ed4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 29/30] fix: np.all along an axis no longer reads past arrays
 with a single row or column

---
 convst/utils/numba_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/convst/utils/numba_utils.py b/convst/utils/numba_utils.py
index e557a32..0a3519d 100644
--- a/convst/utils/numba_utils.py
+++ b/convst/utils/numba_utils.py
@@ -18,8 +18,8 @@ def np_all(x, axis=None):
     # ndarray.all with axis arguments for 2D arrays.
     @register_jitable
     def _np_all_axis0(arr):
-        out = np.logical_and(arr[0], arr[1])
-        for v in iter(arr[2:]):
+        out = np.ones(arr.shape[1], dtype=np.bool_)
+        for v in iter(arr):
             for idx, v_2 in enumerate(v):
                 out[idx] = np.logical_and(v_2, out[idx])
         return out
@@ -31,8 +31,8 @@ def np_all(x, axis=None):
 
     @register_jitable
     def _np_all_axis1(arr):
-        out = np.logical_and(arr[:, 0], arr[:, 1])
-        for idx, v in enumerate(arr[:, 2:]):
+        out = np.ones(arr.shape[0], dtype=np.bool_)
+        for idx, v in enumerate(arr):
             for v_2 in iter(v):
                 out[idx] = np.logical_and(v_2, out[idx])
         return out
-- 
2.43.0


From 8415b7d36eeb5d497febdeba1177034b6c891baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:10 +0000
Subject: [PATCH 30/30] fix: pairwise_plot draws several competitors in a
 single column

---
 convst/utils/plot_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index 49140ac..6e50b75 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -84,6 +84,8 @@ def pairwise_plot(
     fig, ax = plt.subplots(
         ncols=ncols, nrows=nrows, figsize=figsize, sharey=True, dpi=dpi
     )
+    if nrows > 1:
+        ax = np.asarray(ax).reshape(nrows, ncols)
     props = dict(boxstyle='round', facecolor='wheat', alpha=0.75)
     for i, comp in enumerate(competitors):
         if nrows > 1:
-- 
2.43.0

