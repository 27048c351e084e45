From f27252ed5447f8b3b0b6697c6fa750b4e801c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 01/65] fix: integers cannot be normalized with numpy >= 1.24
 (np.int was removed)

---
 skopt/space/transformers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index 6889295..f2dfb16 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -259,7 +259,7 @@ class Normalize(Transformer):
         if (self.high - self.low) == 0.:
             return X * 0.
         if self.is_int:
-            return (np.round(X).astype(np.int) - self.low) /\
+            return (np.round(X).astype(int) - self.low) /\
                    (self.high - self.low)
         else:
             return (X - self.low) / (self.high - self.low)
@@ -272,7 +272,7 @@ class Normalize(Transformer):
             raise ValueError("All values should be greater than 0.0")
         X_orig = X * (self.high - self.low) + self.low
         if self.is_int:
-            return np.round(X_orig).astype(np.int)
+            return np.round(X_orig).astype(int)
         return X_orig
 
 
-- 
2.43.0


From b999074a9c59d9775c4224cd395121a1d721508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 02/65] fix: forests cannot be fitted with scikit-learn >= 1.2
 ("mse" and "auto" were removed)

---
 skopt/learning/forest.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/skopt/learning/forest.py b/skopt/learning/forest.py
index 096770c..c5fc13d 100644
--- a/skopt/learning/forest.py
+++ b/skopt/learning/forest.py
@@ -1,7 +1,12 @@
 import numpy as np
+import sklearn
 from sklearn.ensemble import RandomForestRegressor as _sk_RandomForestRegressor
 from sklearn.ensemble import ExtraTreesRegressor as _sk_ExtraTreesRegressor
 
+# "mse" was renamed to "squared_error" in scikit-learn 1.0, removed in 1.2
+_MSE = ("squared_error" if int(sklearn.__version__.split(".")[0]) >= 1
+        else "mse")
+
 
 def _return_std(X, trees, predictions, min_variance):
     """
@@ -61,20 +66,19 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
     n_estimators : integer, optional (default=10)
         The number of trees in the forest.
 
-    criterion : string, optional (default="mse")
+    criterion : string, optional (default="squared_error")
         The function to measure the quality of a split. Supported criteria
-        are "mse" for the mean squared error, which is equal to variance
+        are "squared_error" ("mse") for the mean squared error, which is equal to variance
         reduction as feature selection criterion, and "mae" for the mean
         absolute error.
 
-    max_features : int, float, string or None, optional (default="auto")
+    max_features : int, float, string or None, optional (default=1.0)
         The number of features to consider when looking for the best split:
 
         - If int, then consider `max_features` features at each split.
         - If float, then `max_features` is a percentage and
           `int(max_features * n_features)` features are considered at each
           split.
-        - If "auto", then `max_features=n_features`.
         - If "sqrt", then `max_features=sqrt(n_features)`.
         - If "log2", then `max_features=log2(n_features)`.
         - If None, then `max_features=n_features`.
@@ -194,9 +198,9 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
     .. [1] L. Breiman, "Random Forests", Machine Learning, 45(1), 5-32, 2001.
 
     """
-    def __init__(self, n_estimators=10, criterion='mse', max_depth=None,
+    def __init__(self, n_estimators=10, criterion=_MSE, max_depth=None,
                  min_samples_split=2, min_samples_leaf=1,
-                 min_weight_fraction_leaf=0.0, max_features='auto',
+                 min_weight_fraction_leaf=0.0, max_features=1.0,
                  max_leaf_nodes=None, min_impurity_decrease=0.,
                  bootstrap=True, oob_score=False,
                  n_jobs=1, random_state=None, verbose=0, warm_start=False,
@@ -239,7 +243,7 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
         mean = super(RandomForestRegressor, self).predict(X)
 
         if return_std:
-            if self.criterion != "mse":
+            if self.criterion not in ("squared_error", "mse"):
                 raise ValueError(
                     "Expected impurity to be 'mse', got %s instead"
                     % self.criterion)
@@ -257,20 +261,19 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
     n_estimators : integer, optional (default=10)
         The number of trees in the forest.
 
-    criterion : string, optional (default="mse")
+    criterion : string, optional (default="squared_error")
         The function to measure the quality of a split. Supported criteria
-        are "mse" for the mean squared error, which is equal to variance
+        are "squared_error" ("mse") for the mean squared error, which is equal to variance
         reduction as feature selection criterion, and "mae" for the mean
         absolute error.
 
-    max_features : int, float, string or None, optional (default="auto")
+    max_features : int, float, string or None, optional (default=1.0)
         The number of features to consider when looking for the best split:
 
         - If int, then consider `max_features` features at each split.
         - If float, then `max_features` is a percentage and
           `int(max_features * n_features)` features are considered at each
           split.
-        - If "auto", then `max_features=n_features`.
         - If "sqrt", then `max_features=sqrt(n_features)`.
         - If "log2", then `max_features=log2(n_features)`.
         - If None, then `max_features=n_features`.
@@ -390,9 +393,9 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
     .. [1] L. Breiman, "Random Forests", Machine Learning, 45(1), 5-32, 2001.
 
     """
-    def __init__(self, n_estimators=10, criterion='mse', max_depth=None,
+    def __init__(self, n_estimators=10, criterion=_MSE, max_depth=None,
                  min_samples_split=2, min_samples_leaf=1,
-                 min_weight_fraction_leaf=0.0, max_features='auto',
+                 min_weight_fraction_leaf=0.0, max_features=1.0,
                  max_leaf_nodes=None, min_impurity_decrease=0.,
                  bootstrap=False, oob_score=False,
                  n_jobs=1, random_state=None, verbose=0, warm_start=False,
@@ -435,7 +438,7 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
         mean = super(ExtraTreesRegressor, self).predict(X)
 
         if return_std:
-            if self.criterion != "mse":
+            if self.criterion not in ("squared_error", "mse"):
                 raise ValueError(
                     "Expected impurity to be 'mse', got %s instead"
                     % self.criterion)
-- 
2.43.0


From d32ffc8997d3ba37e47295d89c96db84f6788fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 03/65] fix: warped bounds of log-uniform dimensions ignored
 the base (Real) or the log (Integer)

---
 skopt/space/space.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 329b0c1..714f6c3 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -371,7 +371,8 @@ class Real(Dimension):
             if self.prior == "uniform":
                 return self.low, self.high
             else:
-                return np.log10(self.low), np.log10(self.high)
+                return (np.log10(self.low) / self.log_base,
+                        np.log10(self.high) / self.log_base)
 
     def distance(self, a, b):
         """Compute distance between point `a` and `b`.
@@ -555,7 +556,11 @@ class Integer(Dimension):
         if self.transform_ == "normalize":
             return 0., 1.
         else:
-            return (self.low, self.high)
+            if self.prior == "uniform":
+                return (self.low, self.high)
+            else:
+                return (np.log10(self.low) / self.log_base,
+                        np.log10(self.high) / self.log_base)
 
     def distance(self, a, b):
         """Compute distance between point `a` and `b`.
-- 
2.43.0


From 1695124f3e7dfb800dffe4cfa40a3b7cc3f62a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 04/65] fix: spaces of different length, or with different
 integer priors, compared equal

---
 skopt/space/space.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 714f6c3..d84cfad 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -514,7 +514,8 @@ class Integer(Dimension):
     def __eq__(self, other):
         return (type(self) is type(other) and
                 np.allclose([self.low], [other.low]) and
-                np.allclose([self.high], [other.high]))
+                np.allclose([self.high], [other.high]) and
+                self.prior == other.prior)
 
     def __repr__(self):
         return "Integer(low={}, high={}, prior='{}', transform='{}')".format(
@@ -666,6 +667,7 @@ class Categorical(Dimension):
     def __eq__(self, other):
         return (type(self) is type(other) and
                 self.categories == other.categories and
+                len(self.prior_) == len(other.prior_) and
                 np.allclose(self.prior_, other.prior_))
 
     def __repr__(self):
@@ -776,7 +778,9 @@ class Space(object):
         self.dimensions = [check_dimension(dim) for dim in dimensions]
 
     def __eq__(self, other):
-        return all([a == b for a, b in zip(self.dimensions, other.dimensions)])
+        return (len(self.dimensions) == len(other.dimensions) and
+                all([a == b for a, b in zip(self.dimensions,
+                                            other.dimensions)]))
 
     def __repr__(self):
         if len(self.dimensions) > 31:
-- 
2.43.0


From 480bad1e208e120061a0adab4064936885a96fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 05/65] fix: points with missing or extra values counted as
 members of a space

---
 skopt/space/space.py |  2 ++
 skopt/utils.py       | 12 ++++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index d84cfad..7ab3f9c 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -1040,6 +1040,8 @@ class Space(object):
 
     def __contains__(self, point):
         """Check that `point` is within the bounds of the space."""
+        if len(point) != self.n_dims:
+            return False
         for component, dim in zip(point, self.dimensions):
             if component not in dim:
                 return False
diff --git a/skopt/utils.py b/skopt/utils.py
index a27e62c..d97146c 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -184,20 +184,20 @@ def is_2Dlistlike(x):
 
 def check_x_in_space(x, space):
     if is_2Dlistlike(x):
-        if not np.all([p in space for p in x]):
-            raise ValueError("Not all points are within the bounds of"
-                             " the space.")
         if any([len(p) != len(space.dimensions) for p in x]):
             raise ValueError("Not all points have the same dimensions as"
                              " the space.")
+        if not np.all([p in space for p in x]):
+            raise ValueError("Not all points are within the bounds of"
+                             " the space.")
     elif is_listlike(x):
+        if len(x) != len(space.dimensions):
+            raise ValueError("Dimensions of point (%s) and space (%s) do not match"
+                             % (x, space.bounds))
         if x not in space:
             raise ValueError("Point (%s) is not within the bounds of"
                              " the space (%s)."
                              % (x, space.bounds))
-        if len(x) != len(space.dimensions):
-            raise ValueError("Dimensions of point (%s) and space (%s) do not match"
-                             % (x, space.bounds))
 
 
 def expected_minimum(res, n_random_starts=20, random_state=None):
-- 
2.43.0


From d798cfc3887d5137fa6b20ab7c5479f8e61b20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 06/65] fix: (1e-5, 1, 'log-uniform') and the like became
 Integer dimensions

---
 skopt/space/space.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 7ab3f9c..48284e2 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -111,21 +111,21 @@ def check_dimension(dimension, transform=None):
                              " supported types.".format(dimension))
 
     if len(dimension) == 3:
-        if (any([isinstance(dim, int) for dim in dimension[:2]]) and
+        if (all([isinstance(dim, numbers.Integral) for dim in dimension[:2]]) and
                 dimension[2] in ["uniform", "log-uniform"]):
             return Integer(*dimension, transform=transform)
-        elif (any([isinstance(dim, (float, int)) for dim in dimension[:2]]) and
+        elif (all([isinstance(dim, numbers.Real) for dim in dimension[:2]]) and
               dimension[2] in ["uniform", "log-uniform"]):
             return Real(*dimension, transform=transform)
         else:
             return Categorical(dimension, transform=transform)
 
     if len(dimension) == 4:
-        if (any([isinstance(dim, int) for dim in dimension[:2]]) and
+        if (all([isinstance(dim, numbers.Integral) for dim in dimension[:2]]) and
                 dimension[2] == "log-uniform" and isinstance(dimension[3],
                                                              int)):
             return Integer(*dimension, transform=transform)
-        elif (any([isinstance(dim, (float, int)) for dim in dimension[:2]]) and
+        elif (all([isinstance(dim, numbers.Real) for dim in dimension[:2]]) and
               dimension[2] == "log-uniform" and isinstance(dimension[3], int)):
             return Real(*dimension, transform=transform)
 
-- 
2.43.0


From 834aeb0ad56755de6b01046329b6ed8cffb04221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 07/65] fix: distance between unsigned or small numpy integers
 wrapped around

---
 skopt/space/space.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 48284e2..50844c7 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -577,6 +577,11 @@ class Integer(Dimension):
         if not (a in self and b in self):
             raise RuntimeError("Can only compute distance for values within "
                                "the space, not %s and %s." % (a, b))
+        # differences of small or unsigned numpy integers wrap around
+        if isinstance(a, np.integer):
+            a = int(a)
+        if isinstance(b, np.integer):
+            b = int(b)
         return abs(a - b)
 
 
-- 
2.43.0


From 580fe181ad1f80b4cd4eae3aa36b8032df625360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 08/65] fix: categories of mixed types, and tuples, were not
 returned as they were given

---
 skopt/space/space.py        |  3 ++-
 skopt/space/transformers.py | 22 ++++++++++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 50844c7..13ac2b9 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -16,6 +16,7 @@ from .transformers import Normalize
 from .transformers import Identity
 from .transformers import LogN
 from .transformers import Pipeline
+from .transformers import _as_category_array
 
 
 # helper class to be able to print [1, ..., 4] instead of [1, '...', 4]
@@ -696,7 +697,7 @@ class Categorical(Dimension):
         # of type float, hence the required cast back to int.
         inv_transform = super(Categorical, self).inverse_transform(Xt)
         if isinstance(inv_transform, list):
-            inv_transform = np.array(inv_transform)
+            inv_transform = _as_category_array(inv_transform)
         return inv_transform
 
     def rvs(self, n_samples=None, random_state=None):
diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index f2dfb16..17bedc4 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -4,6 +4,24 @@ from sklearn.preprocessing import LabelBinarizer
 from sklearn.utils import column_or_1d
 
 
+def _as_category_array(X):
+    """1-D array of categories.
+
+    Unlike `np.asarray`, sequences are not unpacked and values of different
+    types are not converted to a common type.
+    """
+    if isinstance(X, np.ndarray):
+        return X
+    X = list(X)
+    if (len(set(type(x) for x in X)) > 1 or
+            any(isinstance(x, (list, tuple)) for x in X)):
+        array = np.empty(len(X), dtype=object)
+        for i, x in enumerate(X):
+            array[i] = x
+        return array
+    return np.asarray(X)
+
+
 class Transformer(object):
     """Base class for all 1-D transformers.
     """
@@ -166,7 +184,7 @@ class LabelEncoder(Transformer):
         X : array-like, shape=(n_categories,)
             List of categories.
         """
-        X = np.asarray(X)
+        X = _as_category_array(X)
         if X.dtype == object:
             self.mapping_ = {v: i for i, v in enumerate(X)}
         else:
@@ -192,7 +210,7 @@ class LabelEncoder(Transformer):
         Xt : array-like, shape=(n_samples, n_categories)
             The integer categories.
         """
-        X = np.asarray(X)
+        X = _as_category_array(X)
         return [self.mapping_[v] for v in X]
 
     def inverse_transform(self, Xt):
-- 
2.43.0


From 54631481384e1e2754e2a4c54d819021c3c3e744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 09/65] fix: string-encoded False and None did not decode to
 themselves

---
 skopt/space/transformers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index 17bedc4..9585466 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -55,6 +55,7 @@ class StringEncoder(Transformer):
     def __init__(self, dtype=str):
         super(StringEncoder, self).__init__()
         self.dtype = dtype
+        self.categories_ = {}
 
     def fit(self, X):
         """Fit a list or array of categories. All elements must be from the
@@ -67,6 +68,7 @@ class StringEncoder(Transformer):
         """
         if len(X) > 0:
             self.dtype = type(X[0])
+            self.categories_ = {str(x): x for x in X}
 
     def transform(self, X):
         """Transform an array of categories to a string encoded representation.
@@ -97,7 +99,8 @@ class StringEncoder(Transformer):
         X : array-like, shape=(n_samples,)
             The original categories.
         """
-        return [self.dtype(x) for x in Xt]
+        return [self.categories_[x] if x in self.categories_
+                else self.dtype(x) for x in Xt]
 
 
 class LogN(Transformer):
-- 
2.43.0


From 89b210aedc908f642b2b673c709abea5f07cb595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 10/65] fix: the prior of normalized categorical dimensions was
 ignored

---
 skopt/space/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 13ac2b9..7343fb0 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -662,7 +662,7 @@ class Categorical(Dimension):
         else:
             self.transformer = Identity()
             self.transformer.fit(self.categories)
-        if transform == "normalize":
+        if transform == "normalize" and self.prior is None:
             self._rvs = _uniform_inclusive(0.0, 1.0)
         else:
             # XXX check that sum(prior) == 1
@@ -707,7 +707,7 @@ class Categorical(Dimension):
             return self.categories[choices]
         elif self.transform_ == "normalize" and isinstance(choices, float):
             return self.inverse_transform([(choices)])
-        elif self.transform_ == "normalize":
+        elif self.transform_ == "normalize" and self.prior is None:
             return self.inverse_transform(list(choices))
         else:
             return [self.categories[c] for c in choices]
-- 
2.43.0


From be78a3ed65d9f766cd7de4f2540f51bfc8209c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 11/65] fix: values of short float dtypes could be rounded out
 of their bounds

---
 skopt/space/space.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 7343fb0..20430e4 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -345,6 +345,15 @@ class Real(Dimension):
             inv_transform = np.array(inv_transform)
         inv_transform = np.clip(inv_transform,
                                 self.low, self.high).astype(self.dtype)
+        # rounding to a shorter float type may leave the bounds
+        too_low = inv_transform.astype(float) < self.low
+        too_high = inv_transform.astype(float) > self.high
+        if np.any(too_low) or np.any(too_high):
+            inf = inv_transform.dtype.type(np.inf)
+            inv_transform = np.where(
+                too_low, np.nextafter(inv_transform, inf), inv_transform)
+            inv_transform = np.where(
+                too_high, np.nextafter(inv_transform, -inf), inv_transform)
         if self.dtype == float or self.dtype == 'float':
             # necessary, otherwise the type is converted to a numpy type
             return getattr(inv_transform, "tolist", lambda: value)()
-- 
2.43.0


From 6055af01ce9b61f001b28972fea25f4f22088e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 12/65] fix: per-second acquisitions took log times for
 objective values when looking for the best

---
 skopt/optimizer/optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 240ffbf..fe43dd2 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -553,9 +553,12 @@ class Optimizer(object):
                 n_samples=self.n_points, random_state=self.rng))
 
             self.next_xs_ = []
+            # values are paired with log times for "per second" acquisitions
+            y_opt = (np.min([val for val, _ in self.yi])
+                     if "ps" in self.acq_func else np.min(self.yi))
             for cand_acq_func in self.cand_acq_funcs_:
                 values = _gaussian_acquisition(
-                    X=X, model=est, y_opt=np.min(self.yi),
+                    X=X, model=est, y_opt=y_opt,
                     acq_func=cand_acq_func,
                     acq_func_kwargs=self.acq_func_kwargs)
                 # Find the minimum of the acquisition function by randomly
@@ -574,7 +577,7 @@ class Optimizer(object):
                         results = Parallel(n_jobs=self.n_jobs)(
                             delayed(fmin_l_bfgs_b)(
                                 gaussian_acquisition_1D, x,
-                                args=(est, np.min(self.yi), cand_acq_func,
+                                args=(est, y_opt, cand_acq_func,
                                       self.acq_func_kwargs),
                                 bounds=self.space.transformed_bounds,
                                 approx_grad=False,
-- 
2.43.0


From c3816d30380df9fdcb1408060ca09d6bc32fe6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 13/65] fix: lies of parallel per-second asks mixed objective
 values with log times

---
 skopt/optimizer/optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index fe43dd2..88e8ed0 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -397,15 +397,16 @@ class Optimizer(object):
 
             ti_available = "ps" in self.acq_func and len(opt.yi) > 0
             ti = [t for (_, t) in opt.yi] if ti_available else None
+            yi = [val for (val, _) in opt.yi] if ti_available else opt.yi
 
             if strategy == "cl_min":
-                y_lie = np.min(opt.yi) if opt.yi else 0.0  # CL-min lie
+                y_lie = np.min(yi) if yi else 0.0  # CL-min lie
                 t_lie = np.min(ti) if ti is not None else log(sys.float_info.max)
             elif strategy == "cl_mean":
-                y_lie = np.mean(opt.yi) if opt.yi else 0.0  # CL-mean lie
+                y_lie = np.mean(yi) if yi else 0.0  # CL-mean lie
                 t_lie = np.mean(ti) if ti is not None else log(sys.float_info.max)
             else:
-                y_lie = np.max(opt.yi) if opt.yi else 0.0  # CL-max lie
+                y_lie = np.max(yi) if yi else 0.0  # CL-max lie
                 t_lie = np.max(ti) if ti is not None else log(sys.float_info.max)
 
             # Lie to the optimizer.
-- 
2.43.0


From 279ba373933ae2a14962d6ebc3e3275ce824803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 14/65] fix: per-second acquisitions with tree-based surrogates
 asked them for gradients

---
 skopt/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skopt/utils.py b/skopt/utils.py
index d97146c..50478cf 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -6,6 +6,7 @@ from scipy.optimize import OptimizeResult
 from scipy.optimize import minimize as sp_minimize
 from sklearn.base import is_regressor
 from sklearn.ensemble import GradientBoostingRegressor
+from sklearn.multioutput import MultiOutputRegressor
 from joblib import dump as dump_
 from joblib import load as load_
 from collections import OrderedDict
@@ -316,6 +317,10 @@ def has_gradients(estimator):
     if estimator is None:
         return False
 
+    # one copy of the wrapped estimator is fitted for each output
+    if isinstance(estimator, MultiOutputRegressor):
+        return has_gradients(estimator.estimator)
+
     if isinstance(estimator, tree_estimators):
         return False
 
-- 
2.43.0


From 2dc819dd11b9ceaaff51a5e396a23af6294be0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 15/65] fix: the space was not normalized for per-second
 acquisitions with a GP

---
 skopt/optimizer/optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 88e8ed0..b536251 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -265,8 +265,11 @@ class Optimizer(object):
 
         # Configure search space
 
-        # normalize space if GP regressor
-        if isinstance(self.base_estimator_, GaussianProcessRegressor):
+        # normalize space if GP regressor, also if it is fitted per output
+        regressor = self.base_estimator_
+        if isinstance(regressor, MultiOutputRegressor):
+            regressor = regressor.estimator
+        if isinstance(regressor, GaussianProcessRegressor):
             dimensions = normalize_dimensions(dimensions)
         self.space = Space(dimensions)
 
-- 
2.43.0


From e07b503d0cfe094b340e269a5454d30af7eec0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 16/65] fix: normalize_dimensions changed the dimensions of the
 caller

---
 skopt/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index 50478cf..0c243f8 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -1,4 +1,4 @@
-from copy import deepcopy
+from copy import copy, deepcopy
 from functools import wraps
 from sklearn.utils import check_random_state
 import numpy as np
@@ -600,7 +600,9 @@ def normalize_dimensions(dimensions):
         # check if dimension is of a Dimension instance
         if isinstance(dimension, Dimension):
             # Change the transformer to normalize
-            # and add it to the new transformed dimensions
+            # and add it to the new transformed dimensions,
+            # leaving the dimension of the caller as it is
+            dimension = copy(dimension)
             dimension.set_transformer("normalize")
             transformed_dimensions.append(
                 dimension
-- 
2.43.0


From 3c966337b4c2c911bc18f866015400394f12ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 17/65] fix: IndexError when asking without a surrogate after
 the initial design is used up

---
 skopt/optimizer/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index b536251..4217751 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -434,7 +434,7 @@ class Optimizer(object):
         if self._n_initial_points > 0 or self.base_estimator_ is None:
             # this will not make a copy of `self.rng` and hence keep advancing
             # our random state.
-            if self._initial_samples is None:
+            if self._initial_samples is None or self._n_initial_points <= 0:
                 return self.space.rvs(random_state=self.rng)[0]
             else:
                 # The samples are evaluated starting form initial_samples[0]
-- 
2.43.0


From 93ec29d55eb37ffe03595981d1b77aca162a5d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 18/65] fix: dummy_minimize counted the coordinates of a single
 x0 as points

---
 skopt/optimizer/dummy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skopt/optimizer/dummy.py b/skopt/optimizer/dummy.py
index c372c24..90f669c 100644
--- a/skopt/optimizer/dummy.py
+++ b/skopt/optimizer/dummy.py
@@ -104,8 +104,10 @@ def dummy_minimize(func, dimensions, n_calls=100,
     """
     # all our calls want random suggestions, except if we need to evaluate
     # some initial points
-    if x0 is not None and y0 is None:
-        n_initial_points = n_calls - len(x0)
+    if x0 is not None and len(x0) > 0 and y0 is None:
+        # x0 is either a single point or a list of points
+        n_provided = len(x0) if isinstance(x0[0], (list, tuple)) else 1
+        n_initial_points = n_calls - n_provided
     else:
         n_initial_points = n_calls
 
-- 
2.43.0


From 9900120ce61adf59f66dcf56f214bbe2051854ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 19/65] fix: batches with more points than values, or the
 reverse, were recorded

---
 skopt/optimizer/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 4217751..ca72e21 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -628,12 +628,16 @@ class Optimizer(object):
             if is_2Dlistlike(x):
                 if not (np.ndim(y) == 2 and np.shape(y)[1] == 2):
                     raise TypeError("expected y to be a list of (func_val, t)")
+                if len(y) != len(x):
+                    raise ValueError("expected as many values as points")
             elif is_listlike(x):
                 if not (np.ndim(y) == 1 and len(y) == 2):
                     raise TypeError("expected y to be (func_val, t)")
 
         # if y isn't a scalar it means we have been handed a batch of points
         elif is_listlike(y) and is_2Dlistlike(x):
+            if len(y) != len(x):
+                raise ValueError("expected as many values as points")
             for y_value in y:
                 if not isinstance(y_value, Number):
                     raise ValueError("expected y to be a list of scalars")
-- 
2.43.0


From d741bf27e53f0d9b2d4ea24d36d033f5d56dba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 20/65] fix: results handed out earlier changed with later
 observations

---
 skopt/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index 0c243f8..d12ee7f 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -65,8 +65,9 @@ def create_result(Xi, yi, space=None, rng=None, specs=None, models=None):
     res.x = Xi[best]
     res.fun = yi[best]
     res.func_vals = yi
-    res.x_iters = Xi
-    res.models = models
+    # results are snapshots, the optimizer goes on extending its lists
+    res.x_iters = list(Xi)
+    res.models = list(models) if models is not None else None
     res.space = space
     res.random_state = rng
     res.specs = specs
-- 
2.43.0


From bd33f8b4e3bca5bf0bc03bdc5d9d6939e01ddee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 21/65] fix: verbose minimizers appended to the callback list
 of the caller

---
 skopt/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/callbacks.py b/skopt/callbacks.py
index 11e6c0b..02b1c84 100644
--- a/skopt/callbacks.py
+++ b/skopt/callbacks.py
@@ -26,7 +26,7 @@ def check_callback(callback):
 
         elif (isinstance(callback, list) and
               all([isinstance(c, Callable) for c in callback])):
-            return callback
+            return list(callback)
 
         else:
             raise ValueError("callback should be either a callable or "
-- 
2.43.0


From 7228c244defc53267d4c95dfaac6ef4427b3a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 22/65] fix: copies of an optimizer kept more models than the
 original's limit

---
 skopt/optimizer/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index ca72e21..8bfd195 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -325,7 +325,8 @@ class Optimizer(object):
             acq_optimizer=self.acq_optimizer,
             acq_func_kwargs=self.acq_func_kwargs,
             acq_optimizer_kwargs=self.acq_optimizer_kwargs,
-            random_state=random_state
+            random_state=random_state,
+            model_queue_size=self.max_model_queue_size
         )
         optimizer._initial_samples = self._initial_samples
         if hasattr(self, "gains_"):
-- 
2.43.0


From 5b672495ed2693571d36b3638a92851c8fb78f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 23/65] fix: one value for several points, and timed values
 that are no numbers, were recorded

---
 skopt/optimizer/optimizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 8bfd195..54fddf5 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -631,9 +631,13 @@ class Optimizer(object):
                     raise TypeError("expected y to be a list of (func_val, t)")
                 if len(y) != len(x):
                     raise ValueError("expected as many values as points")
+                if not all(isinstance(val, Number) for val, _ in y):
+                    raise ValueError("expected func_val to be a scalar")
             elif is_listlike(x):
                 if not (np.ndim(y) == 1 and len(y) == 2):
                     raise TypeError("expected y to be (func_val, t)")
+                if not isinstance(y[0], Number):
+                    raise ValueError("expected func_val to be a scalar")
 
         # if y isn't a scalar it means we have been handed a batch of points
         elif is_listlike(y) and is_2Dlistlike(x):
@@ -646,6 +650,8 @@ class Optimizer(object):
         elif is_listlike(x):
             if not isinstance(y, Number):
                 raise ValueError("`func` should return a scalar")
+            if is_2Dlistlike(x):
+                raise ValueError("expected as many values as points")
 
         else:
             raise ValueError("Type of arguments `x` (%s) and `y` (%s) "
-- 
2.43.0


From 79b68f9ae82015d47f8e94c5fce9d22d0f3ef0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 24/65] fix: fitting a GP changed its kernel parameter, each
 refit adding a noise term

---
 skopt/learning/gaussian_process/gpr.py | 27 ++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index 34902d7..27bb413 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -163,6 +163,12 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
             normalize_y=normalize_y, copy_X_train=copy_X_train,
             random_state=random_state)
 
+    def _kernel_or_default(self):
+        if self.kernel is not None:
+            return self.kernel
+        return (ConstantKernel(1.0, constant_value_bounds="fixed") *
+                RBF(1.0, length_scale_bounds="fixed"))
+
     def fit(self, X, y):
         """Fit Gaussian process regression model.
 
@@ -183,16 +189,21 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
             raise ValueError("expected noise to be 'gaussian', got %s"
                              % self.noise)
 
-        if self.kernel is None:
-            self.kernel = ConstantKernel(1.0, constant_value_bounds="fixed") \
-                          * RBF(1.0, length_scale_bounds="fixed")
+        # the parameter `kernel` itself must not change: adding to it would
+        # accumulate noise terms each time the model is fitted
+        given_kernel = self.kernel
+        kernel = self._kernel_or_default()
         if self.noise == "gaussian":
-            self.kernel = self.kernel + WhiteKernel()
+            kernel = kernel + WhiteKernel()
         elif self.noise:
-            self.kernel = self.kernel + WhiteKernel(
+            kernel = kernel + WhiteKernel(
                 noise_level=self.noise, noise_level_bounds="fixed"
             )
-        super(GaussianProcessRegressor, self).fit(X, y)
+        self.kernel = kernel
+        try:
+            super(GaussianProcessRegressor, self).fit(X, y)
+        finally:
+            self.kernel = given_kernel
 
         self.noise_ = None
 
@@ -303,10 +314,10 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
         if not hasattr(self, "X_train_"):  # Not fit; predict based on GP prior
             y_mean = np.zeros(X.shape[0])
             if return_cov:
-                y_cov = self.kernel(X)
+                y_cov = self._kernel_or_default()(X)
                 return y_mean, y_cov
             elif return_std:
-                y_var = self.kernel.diag(X)
+                y_var = self._kernel_or_default().diag(X)
                 return y_mean, np.sqrt(y_var)
             else:
                 return y_mean
-- 
2.43.0


From 37e50040672a7f64845764ec820f837a3dca5f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 25/65] fix: gradients of the GP standard deviation ignored the
 prior variance of non-stationary kernels

---
 skopt/learning/gaussian_process/gpr.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index 27bb413..36b2e91 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -361,8 +361,13 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
                 if return_std_grad:
                     grad_std = np.zeros(X.shape[1])
                     if not np.allclose(y_std, grad_std):
-                        grad_std = -np.dot(K_trans,
-                                           np.dot(K_inv, grad))[0] / y_std
+                        grad_var = -2 * np.dot(K_trans,
+                                               np.dot(K_inv, grad))[0]
+                        if not self.kernel_.is_stationary():
+                            # the prior variance depends on X as well
+                            grad_var += 2 * self.kernel_.gradient_x(
+                                X[0], X)[0]
+                        grad_std = grad_var / (2 * y_std)
                         # undo normalisation
                         grad_std = grad_std * self.y_train_std_**2
                     return y_mean, y_std, grad_mean, grad_std
-- 
2.43.0


From 5c23b053c3c9fde6b67bde77ca6a0d76099ccd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 26/65] fix: Hamming kernels with fixed length scales reported
 gradients for them

---
 skopt/learning/gaussian_process/kernels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skopt/learning/gaussian_process/kernels.py b/skopt/learning/gaussian_process/kernels.py
index c0d55a2..270779b 100644
--- a/skopt/learning/gaussian_process/kernels.py
+++ b/skopt/learning/gaussian_process/kernels.py
@@ -416,6 +416,8 @@ class HammingKernel(sk_StationaryKernelMixin, sk_NormalizedKernelMixin,
                                    axis=-1)
 
         grad *= length_scale
+        if self.hyperparameter_length_scale.fixed:
+            grad = np.empty((n_samples, n_samples, 0))
         if eval_gradient:
             return kernel_prod, grad
         return kernel_prod
-- 
2.43.0


From 2b3f54fd602de5fa53568f57d13ce9cba6fdd3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 27/65] fix: fitting quantile boosting changed the given
 base_estimator

---
 skopt/learning/gbrt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/learning/gbrt.py b/skopt/learning/gbrt.py
index 76b59c6..9e7075f 100644
--- a/skopt/learning/gbrt.py
+++ b/skopt/learning/gbrt.py
@@ -62,7 +62,8 @@ class GradientBoostingQuantileRegressor(BaseEstimator, RegressorMixin):
         if self.base_estimator is None:
             base_estimator = GradientBoostingRegressor(loss='quantile')
         else:
-            base_estimator = self.base_estimator
+            # the estimator of the caller keeps its random_state
+            base_estimator = clone(self.base_estimator)
 
             if not isinstance(base_estimator, GradientBoostingRegressor):
                 raise ValueError('base_estimator has to be of type'
-- 
2.43.0


From 526a42c02066454ac3b199e68a28344aaac3d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 28/65] fix: quantile boosting could not predict with an array
 of quantiles

---
 skopt/learning/gbrt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skopt/learning/gbrt.py b/skopt/learning/gbrt.py
index 9e7075f..c315417 100644
--- a/skopt/learning/gbrt.py
+++ b/skopt/learning/gbrt.py
@@ -115,10 +115,10 @@ class GradientBoostingQuantileRegressor(BaseEstimator, RegressorMixin):
                 raise ValueError(
                     "return_std works only if the quantiles during "
                     "instantiation include 0.16, 0.5 and 0.84")
-            low = self.regressors_[self.quantiles.index(0.16)].predict(X)
-            high = self.regressors_[self.quantiles.index(0.84)].predict(X)
-            mean = self.regressors_[self.quantiles.index(0.5)].predict(X)
+            low = self.regressors_[list(self.quantiles).index(0.16)].predict(X)
+            high = self.regressors_[list(self.quantiles).index(0.84)].predict(X)
+            mean = self.regressors_[list(self.quantiles).index(0.5)].predict(X)
             return mean, ((high - low) / 2.0)
 
         # return the mean
-        return self.regressors_[self.quantiles.index(0.5)].predict(X)
+        return self.regressors_[list(self.quantiles).index(0.5)].predict(X)
-- 
2.43.0


From 92cd9e1cf10e25242e7c9e8f9128ab2b645290b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 29/65] fix: Halton refused more bases than dimensions, and
 one-sided skips

---
 skopt/sampler/halton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/sampler/halton.py b/skopt/sampler/halton.py
index 7a3eeb8..c123a43 100644
--- a/skopt/sampler/halton.py
+++ b/skopt/sampler/halton.py
@@ -82,7 +82,7 @@ class Halton(InitialPointGenerator):
                 primes = _create_primes(prime_order)
                 prime_order *= 2
 
-            primes = primes[:n_dim]
+        primes = primes[:n_dim]
         assert len(primes) == n_dim, "not enough primes"
 
         if self.min_skip == self.max_skip:
@@ -90,7 +90,7 @@ class Halton(InitialPointGenerator):
         elif self.min_skip < 0 and self.max_skip < 0:
             skip = max(primes)
         elif self.min_skip < 0 or self.max_skip < 0:
-            skip = np.max(self.min_skip, self.max_skip)
+            skip = max(self.min_skip, self.max_skip)
         else:
             skip = rng.randint(self.min_skip, self.max_skip)
 
-- 
2.43.0


From 7b280ddeaed3d40f40c3ee07a1e25125f1ec3145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 30/65] fix: grids had too few points in 1-D, oversized layouts
 in 3-D and more, and no border for 'only'

---
 skopt/sampler/grid.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index 2e90d7a..ec55aed 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -50,6 +50,19 @@ def _create_uniform_grid_only_border(n_dim, order):
     return x_data
 
 
+def _full_order(n_samples, n_dim, round_up=False):
+    """Largest order for which the full grid has at most `n_samples` points
+
+    With `round_up`, the smallest for which it has at least `n_samples`.
+    """
+    order = int(round(n_samples ** (1. / n_dim)))
+    while order ** n_dim > n_samples:
+        order -= 1
+    if round_up and order ** n_dim < n_samples:
+        order += 1
+    return order
+
+
 class Grid(InitialPointGenerator):
     """Generate samples from a regular grid.
 
@@ -115,29 +128,25 @@ class Grid(InitialPointGenerator):
         space.set_transformer("normalize")
 
         if self.border == "include":
-            if self.use_full_layout:
-                order = int(np.floor(np.sqrt(n_samples)))
-            else:
-                order = int(np.ceil(np.sqrt(n_samples)))
+            order = _full_order(n_samples, n_dim,
+                                round_up=not self.use_full_layout)
             if order < 2:
                 order = 2
             h = _create_uniform_grid_include_border(n_dim, order)
         elif self.border == "exclude":
-            if self.use_full_layout:
-                order = int(np.floor(np.sqrt(n_samples)))
-            else:
-                order = int(np.ceil(np.sqrt(n_samples)))
+            order = _full_order(n_samples, n_dim,
+                                round_up=not self.use_full_layout)
             if order < 1:
                 order = 1
             h = _create_uniform_grid_exclude_border(n_dim, order)
         elif self.border == "only":
             if self.use_full_layout:
-                order = int(np.floor(n_samples / 2.))
+                order = int(np.floor(n_samples / 2. ** (n_dim - 1)))
             else:
-                order = int(np.ceil(n_samples / 2.))
+                order = int(np.ceil(n_samples / 2. ** (n_dim - 1)))
             if order < 2:
                 order = 2
-            h = _create_uniform_grid_exclude_border(n_dim, order)
+            h = _create_uniform_grid_only_border(n_dim, order)
         else:
             raise ValueError("Wrong value for border")
         if np.size(h, 0) > n_samples:
@@ -145,17 +154,20 @@ class Grid(InitialPointGenerator):
             h = h[:n_samples, :]
         elif np.size(h, 0) < n_samples:
             if self.append_border == "only":
-                order = int(np.ceil((n_samples - np.size(h, 0)) / 2.))
+                order = int(np.ceil((n_samples - np.size(h, 0)) /
+                                    2. ** (n_dim - 1)))
                 if order < 2:
                     order = 2
                 h2 = _create_uniform_grid_only_border(n_dim, order)
             elif self.append_border == "include":
-                order = int(np.ceil(np.sqrt(n_samples - np.size(h, 0))))
+                order = _full_order(n_samples - np.size(h, 0), n_dim,
+                                    round_up=True)
                 if order < 2:
                     order = 2
                 h2 = _create_uniform_grid_include_border(n_dim, order)
             elif self.append_border == "exclude":
-                order = int(np.ceil(np.sqrt(n_samples - np.size(h, 0))))
+                order = _full_order(n_samples - np.size(h, 0), n_dim,
+                                    round_up=True)
                 if order < 1:
                     order = 1
                 h2 = _create_uniform_grid_exclude_border(n_dim, order)
-- 
2.43.0


From ef45630a14ed3a9609df3fcde418b6d6e0bd3282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 31/65] fix: empty Latin hypercube designs could not be
 generated

---
 skopt/sampler/lhs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/sampler/lhs.py b/skopt/sampler/lhs.py
index d63a15b..9fdca26 100644
--- a/skopt/sampler/lhs.py
+++ b/skopt/sampler/lhs.py
@@ -79,7 +79,7 @@ class Lhs(InitialPointGenerator):
         transformer = space.get_transformer()
         n_dim = space.n_dims
         space.set_transformer("normalize")
-        if self.criterion is None or n_samples == 1:
+        if self.criterion is None or n_samples <= 1:
             h = self._lhs_normalized(n_dim, n_samples, rng)
             h = space.inverse_transform(h)
             space.set_transformer(transformer)
-- 
2.43.0


From 1d512b9c4adb87bc4d4ec71ec417a6a5d2923f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 32/65] fix: initial-point generators that raise left the
 caller's dimensions normalized

---
 skopt/sampler/base.py      | 9 ++++++++-
 skopt/sampler/grid.py      | 5 ++---
 skopt/sampler/halton.py    | 5 ++---
 skopt/sampler/hammersly.py | 5 ++---
 skopt/sampler/lhs.py       | 5 ++---
 skopt/sampler/sobol.py     | 5 ++---
 6 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/skopt/sampler/base.py b/skopt/sampler/base.py
index 39dc6af..c96022c 100644
--- a/skopt/sampler/base.py
+++ b/skopt/sampler/base.py
@@ -1,5 +1,12 @@
 
-from collections import defaultdict
+from copy import copy
+
+from ..space import Space
+
+
+def _copied_space(dimensions):
+    """Space whose transformers can be changed without affecting the caller."""
+    return Space([copy(dimension) for dimension in Space(dimensions)])
 
 
 class InitialPointGenerator(object):
diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index ec55aed..82ec03b 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -3,8 +3,7 @@ Inspired by https://github.com/jonathf/chaospy/blob/master/chaospy/
 distributions/sampler/sequences/grid.py
 """
 import numpy as np
-from .base import InitialPointGenerator
-from ..space import Space
+from .base import InitialPointGenerator, _copied_space
 from sklearn.utils import check_random_state
 
 
@@ -122,7 +121,7 @@ class Grid(InitialPointGenerator):
             grid set
         """
         rng = check_random_state(random_state)
-        space = Space(dimensions)
+        space = _copied_space(dimensions)
         n_dim = space.n_dims
         transformer = space.get_transformer()
         space.set_transformer("normalize")
diff --git a/skopt/sampler/halton.py b/skopt/sampler/halton.py
index c123a43..9ab8b75 100644
--- a/skopt/sampler/halton.py
+++ b/skopt/sampler/halton.py
@@ -3,8 +3,7 @@ Inspired by https://github.com/jonathf/chaospy/blob/master/chaospy/
 distributions/sampler/sequences/halton.py
 """
 import numpy as np
-from .base import InitialPointGenerator
-from ..space import Space
+from .base import InitialPointGenerator, _copied_space
 from sklearn.utils import check_random_state
 
 
@@ -72,7 +71,7 @@ class Halton(InitialPointGenerator):
             primes = []
         else:
             primes = list(self.primes)
-        space = Space(dimensions)
+        space = _copied_space(dimensions)
         n_dim = space.n_dims
         transformer = space.get_transformer()
         space.set_transformer("normalize")
diff --git a/skopt/sampler/hammersly.py b/skopt/sampler/hammersly.py
index 5de6c6e..8cb34e0 100644
--- a/skopt/sampler/hammersly.py
+++ b/skopt/sampler/hammersly.py
@@ -4,8 +4,7 @@ distributions/sampler/sequences/hammersley.py
 """
 import numpy as np
 from .halton import Halton
-from ..space import Space
-from .base import InitialPointGenerator
+from .base import InitialPointGenerator, _copied_space
 from sklearn.utils import check_random_state
 
 
@@ -73,7 +72,7 @@ class Hammersly(InitialPointGenerator):
         rng = check_random_state(random_state)
         halton = Halton(min_skip=self.min_skip, max_skip=self.max_skip,
                         primes=self.primes)
-        space = Space(dimensions)
+        space = _copied_space(dimensions)
         n_dim = space.n_dims
         transformer = space.get_transformer()
         space.set_transformer("normalize")
diff --git a/skopt/sampler/lhs.py b/skopt/sampler/lhs.py
index 9fdca26..2c9f04c 100644
--- a/skopt/sampler/lhs.py
+++ b/skopt/sampler/lhs.py
@@ -6,8 +6,7 @@ master/pyDOE2/doe_lhs.py
 import numpy as np
 from sklearn.utils import check_random_state
 from scipy import spatial
-from ..space import Space, Categorical
-from .base import InitialPointGenerator
+from .base import InitialPointGenerator, _copied_space
 
 
 def _random_permute_matrix(h, random_state=None):
@@ -75,7 +74,7 @@ class Lhs(InitialPointGenerator):
             LHS set
         """
         rng = check_random_state(random_state)
-        space = Space(dimensions)
+        space = _copied_space(dimensions)
         transformer = space.get_transformer()
         n_dim = space.n_dims
         space.set_transformer("normalize")
diff --git a/skopt/sampler/sobol.py b/skopt/sampler/sobol.py
index a148003..ed405e9 100644
--- a/skopt/sampler/sobol.py
+++ b/skopt/sampler/sobol.py
@@ -20,8 +20,7 @@ from __future__ import division
 import warnings
 
 import numpy as np
-from .base import InitialPointGenerator
-from ..space import Space
+from .base import InitialPointGenerator, _copied_space
 from sklearn.utils import check_random_state
 
 
@@ -255,7 +254,7 @@ class Sobol(InitialPointGenerator):
                              f"sequence to repeat.")
 
         rng = check_random_state(random_state)
-        space = Space(dimensions)
+        space = _copied_space(dimensions)
         n_dim = space.n_dims
         transformer = space.get_transformer()
         space.set_transformer("normalize")
-- 
2.43.0


From 03726ecd0774258372b305dc971f7392363c92b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 33/65] fix: copying an optimizer generated its initial design
 again, which limited Sobol sequences refuse

---
 skopt/optimizer/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 54fddf5..0169305 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -320,7 +320,6 @@ class Optimizer(object):
             dimensions=self.space.dimensions,
             base_estimator=self.base_estimator_,
             n_initial_points=self.n_initial_points_,
-            initial_point_generator=self._initial_point_generator,
             acq_func=self.acq_func,
             acq_optimizer=self.acq_optimizer,
             acq_func_kwargs=self.acq_func_kwargs,
@@ -328,6 +327,7 @@ class Optimizer(object):
             random_state=random_state,
             model_queue_size=self.max_model_queue_size
         )
+        optimizer._initial_point_generator = self._initial_point_generator
         optimizer._initial_samples = self._initial_samples
         if hasattr(self, "gains_"):
             optimizer.gains_ = np.copy(self.gains_)
-- 
2.43.0


From 9bcb1bf339e05fd1be489e4cce1974def6d1b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 34/65] fix: total_iterations counted the parameters of a
 single search space as spaces

---
 skopt/searchcv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 391b14c..99e1182 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -423,7 +423,11 @@ class BayesSearchCV(BaseSearchCV):
         """
         total_iter = 0
 
-        for elem in self.search_spaces:
+        search_spaces = self.search_spaces
+        if isinstance(search_spaces, dict):
+            search_spaces = [search_spaces]
+
+        for elem in search_spaces:
 
             if isinstance(elem, tuple):
                 space, n_iter = elem
-- 
2.43.0


From b2e938d05426b40eddff5397dcf801b5cfeec026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 35/65] fix: search spaces with no iterations got the result of
 the previous space, or raised

---
 skopt/searchcv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 99e1182..9642b5b 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -509,6 +509,7 @@ class BayesSearchCV(BaseSearchCV):
                 n_iter = self.n_iter
 
             # do the optimization for particular search space
+            optim_result = None
             while n_iter > 0:
                 # when n_iter < n_points points left for evaluation
                 n_points_adjusted = min(n_iter, n_points)
-- 
2.43.0


From f8659536a4beb1728816a3fd1821e4f671f2f190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 36/65] fix: searches over tuple-valued parameters raised

---
 skopt/searchcv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 9642b5b..ae35feb 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -400,7 +400,8 @@ class BayesSearchCV(BaseSearchCV):
         params = optimizer.ask(n_points=n_points)
 
         # convert parameters to python native types
-        params = [[np.array(v).item() for v in p] for p in params]
+        params = [[v.item() if isinstance(v, np.generic) else v for v in p]
+                  for p in params]
 
         # make lists into dictionaries
         params_dict = [point_asdict(search_space, p) for p in params]
-- 
2.43.0


From c9296ff3e6c96c471dd0ff6112c1a0d75b475570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 37/65] fix: searches named the dimension objects of the caller

---
 skopt/searchcv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index ae35feb..b607613 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -1,4 +1,5 @@
 import warnings
+from copy import copy
 
 try:
     from collections.abc import Sized
@@ -383,7 +384,9 @@ class BayesSearchCV(BaseSearchCV):
         """
 
         kwargs = self.optimizer_kwargs_.copy()
-        kwargs['dimensions'] = dimensions_aslist(params_space)
+        # the dimensions are named below, those of the user remain as they are
+        kwargs['dimensions'] = [copy(check_dimension(dim)) for dim in
+                                dimensions_aslist(params_space)]
         optimizer = Optimizer(**kwargs)
         for i in range(len(optimizer.space.dimensions)):
             if optimizer.space.dimensions[i].name is not None:
-- 
2.43.0


From 576ec87479ef9b788d332dec72b7738eb42cffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 38/65] fix: plot_convergence did not show a true minimum of
 zero

---
 skopt/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 5a14b01..372036b 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -95,12 +95,12 @@ def plot_convergence(*args, **kwargs):
             ax.plot(iterations, np.mean(mins, axis=0), c=color,
                     marker=".", markersize=12, lw=2, label=name)
 
-    if true_minimum:
+    if true_minimum is not None:
         ax.axhline(true_minimum, linestyle="--",
                    color="r", lw=1,
                    label="True minimum")
 
-    if true_minimum or name:
+    if true_minimum is not None or name:
         ax.legend(loc="best")
 
     return ax
-- 
2.43.0


From 312a585890a762b5d96b908f12d082cd4d2e1816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 39/65] fix: histograms of selected dimensions used the kind of
 other dimensions

---
 skopt/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 372036b..5e522a6 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -827,7 +827,7 @@ def plot_evaluations(result, bins=20, dimensions=None,
         for j in range(n_dims):
             if i == j:
                 index, dim = plot_dims[i]
-                if iscat[j]:
+                if iscat[index]:
                     bins_ = len(dim.categories)
                 elif dim.prior == 'log-uniform':
                     low, high = space.bounds[index]
@@ -839,7 +839,7 @@ def plot_evaluations(result, bins=20, dimensions=None,
                 else:
                     ax_ = ax[i, i]
                 ax_.hist(samples[:, index], bins=bins_,
-                         range=None if iscat[j] else dim.bounds)
+                         range=None if iscat[index] else dim.bounds)
 
             # lower triangle
             elif i > j:
-- 
2.43.0


From aaf9a836b6c946677bad3aaee007c031da236b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 40/65] fix: histograms of log-uniform dimensions dropped
 points at a bound, and had one bin too few

---
 skopt/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 5e522a6..9a36132 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -831,7 +831,7 @@ def plot_evaluations(result, bins=20, dimensions=None,
                     bins_ = len(dim.categories)
                 elif dim.prior == 'log-uniform':
                     low, high = space.bounds[index]
-                    bins_ = np.logspace(np.log10(low), np.log10(high), bins)
+                    bins_ = np.geomspace(low, high, bins + 1)
                 else:
                     bins_ = bins
                 if n_dims == 1:
@@ -1243,7 +1243,7 @@ def plot_histogram(result, dimension_identifier, bins=20, rotate_labels=0,
         # in which case the histogram can be plotted more easily.
         if dimension.prior == 'log-uniform':
             # Map the number of bins to a log-space for the dimension bounds.
-            bins_mapped = np.logspace(*np.log10(dimension.bounds), bins)
+            bins_mapped = np.geomspace(*dimension.bounds, bins + 1)
         else:
             # Use the original number of bins.
             bins_mapped = bins
-- 
2.43.0


From 5ad1ac211acf90d556094ae16425b84fa4b8166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 41/65] fix: plot_gaussian_process showed an earlier model with
 observations it was not trained on, or without some, and failed on results
 without specs

---
 skopt/plots.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 9a36132..ce3e774 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -175,8 +175,8 @@ def plot_gaussian_process(res, **kwargs):
     x, x_model = _evenly_sample(dimension, n_points)
     x = x.reshape(-1, 1)
     x_model = x_model.reshape(-1, 1)
+    acq_func, acq_func_kwargs = None, None
     if res.specs is not None and "args" in res.specs:
-        n_random = res.specs["args"].get('n_random_starts', None)
         acq_func = res.specs["args"].get("acq_func", "EI")
         acq_func_kwargs = res.specs["args"].get("acq_func_kwargs", {})
 
@@ -184,8 +184,6 @@ def plot_gaussian_process(res, **kwargs):
         acq_func_kwargs = {}
     if acq_func is None or acq_func == "gp_hedge":
         acq_func = "EI"
-    if n_random is None:
-        n_random = len(res.x_iters) - len(res.models)
 
     if objective is not None:
         fx = np.array([objective(x_i) for x_i in x])
@@ -196,8 +194,10 @@ def plot_gaussian_process(res, **kwargs):
     else:
         model = res.models[n_calls]
 
-        curr_x_iters = res.x_iters[:n_random + n_calls]
-        curr_func_vals = res.func_vals[:n_random + n_calls]
+        # the last model knows all observations, each one before one less
+        n_told = len(res.x_iters) - len(res.models) + n_calls + 1
+        curr_x_iters = res.x_iters[:n_told]
+        curr_func_vals = res.func_vals[:n_told]
 
     # Plot true function.
     if objective is not None:
-- 
2.43.0


From 98b3c22a49b32c01665bc876c611da252d693177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 42/65] fix: plots failed for categories that are tuples

---
 skopt/plots.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index ce3e774..f43cc8f 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -1279,18 +1279,17 @@ def _map_categories(space, points, minimum):
        Boolean array indicating whether dimension `i` in the `space` is
        categorical.
     """
-    points = np.asarray(points, dtype=object)  # Allow slicing, preserve cats
     iscat = np.repeat(False, space.n_dims)
     min_ = np.zeros(space.n_dims)
-    pts_ = np.zeros(points.shape)
+    pts_ = np.zeros((len(points), space.n_dims))
     for i, dim in enumerate(space.dimensions):
         if isinstance(dim, Categorical):
             iscat[i] = True
             catmap = dict(zip(dim.categories, count()))
-            pts_[:, i] = [catmap[cat] for cat in points[:, i]]
+            pts_[:, i] = [catmap[x[i]] for x in points]
             min_[i] = catmap[minimum[i]]
         else:
-            pts_[:, i] = points[:, i]
+            pts_[:, i] = [x[i] for x in points]
             min_[i] = minimum[i]
     return pts_, min_, iscat
 
@@ -1318,11 +1317,11 @@ def _evenly_sample(dim, n_points):
     xi_transformed : np.array
         The transformed values of `xi`, for feeding to a model.
     """
-    cats = np.array(getattr(dim, 'categories', []), dtype=object)
+    cats = getattr(dim, 'categories', [])
     if len(cats):  # Sample categoricals while maintaining order
         xi = np.linspace(0, len(cats) - 1, min(len(cats), n_points),
                          dtype=int)
-        xi_transformed = dim.transform(cats[xi])
+        xi_transformed = dim.transform([cats[k] for k in xi])
     else:
         bounds = dim.bounds
         # XXX use linspace(*bounds, n_points) after python2 support ends
-- 
2.43.0


From 8876bb6054ba4badb13150a75900b1d4a192e576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 43/65] fix: the expected minimum had fractional values for
 integer dimensions

---
 skopt/utils.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index d12ee7f..9d122e9 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -246,15 +246,27 @@ def expected_minimum(res, n_random_starts=20, random_state=None):
 
     best_x = None
     best_fun = np.inf
+    is_integer = [isinstance(dim, Integer) for dim in res.space]
+
+    def as_point(x):
+        return [int(np.round(v)) if integer else v
+                for v, integer in zip(x, is_integer)]
 
     for x0 in xs:
         r = sp_minimize(func, x0=x0, bounds=res.space.bounds)
 
-        if r.fun < best_fun:
-            best_x = r.x
-            best_fun = r.fun
+        candidates = [(list(r.x), r.fun)]
+        if any(is_integer):
+            # rounded to a point of the space, which may be worse than x0
+            candidates = [(x, func(np.array(x))) for x in
+                          (as_point(r.x), as_point(x0))]
+
+        for x, fun in candidates:
+            if fun < best_fun:
+                best_x = x
+                best_fun = fun
 
-    return [v for v in best_x], best_fun
+    return best_x, best_fun
 
 
 def expected_minimum_random_sampling(res, n_random_starts=100000,
-- 
2.43.0


From bb484f79e5dc62c647c9a4d211804334301abd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 44/65] fix: a crash or error while writing a checkpoint
 destroyed the previous one

---
 skopt/callbacks.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/skopt/callbacks.py b/skopt/callbacks.py
index 02b1c84..469b407 100644
--- a/skopt/callbacks.py
+++ b/skopt/callbacks.py
@@ -10,6 +10,7 @@ try:
 except ImportError:
     from collections import Callable
 
+import os
 from time import time
 
 import numpy as np
@@ -316,4 +317,21 @@ class CheckpointSaver(object):
         res : `OptimizeResult`, scipy object
             The optimization as a OptimizeResult object.
         """
-        dump(res, self.checkpoint_path, **self.dump_options)
+        if not isinstance(self.checkpoint_path, (str, os.PathLike)):
+            dump(res, self.checkpoint_path, **self.dump_options)
+            return
+
+        # The previous checkpoint is only replaced by a complete one. The
+        # extension is kept because it determines the compression.
+        path = os.path.realpath(self.checkpoint_path)
+        directory, name = os.path.split(path)
+        root, extension = os.path.splitext(name)
+        incomplete = os.path.join(directory, ".%s.%d.incomplete%s"
+                                  % (root, os.getpid(), extension))
+        try:
+            dump(res, incomplete, **self.dump_options)
+            os.replace(incomplete, path)
+        except BaseException:
+            if os.path.exists(incomplete):
+                os.remove(incomplete)
+            raise
-- 
2.43.0


From abd5b6feb08a3ec3a669511cd8193cb3f42c027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 45/65] fix: suggestions of label-encoded and numeric
 categories were clipped to [0, 1]

---
 skopt/space/space.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 20430e4..93cf4f4 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -743,7 +743,12 @@ class Categorical(Dimension):
 
     @property
     def transformed_bounds(self):
-        if self.transformed_size == 1:
+        if self.transform_ == "label":
+            return 0.0, float(len(self.categories) - 1)
+        elif self.transform_ == "identity" and all(
+                isinstance(c, numbers.Number) for c in self.categories):
+            return float(min(self.categories)), float(max(self.categories))
+        elif self.transformed_size == 1:
             return 0.0, 1.0
         else:
             return [(0.0, 1.0) for i in range(self.transformed_size)]
-- 
2.43.0


From 05210c9e59e4f83e00be9c2ce3fe6ca752eaf151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 46/65] fix: dimensions with different small, or large integer,
 bounds compared equal

---
 skopt/space/space.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 93cf4f4..13cbfb8 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -326,8 +326,8 @@ class Real(Dimension):
 
     def __eq__(self, other):
         return (type(self) is type(other) and
-                np.allclose([self.low], [other.low]) and
-                np.allclose([self.high], [other.high]) and
+                self.low == other.low and
+                self.high == other.high and
                 self.prior == other.prior and
                 self.transform_ == other.transform_)
 
@@ -523,8 +523,8 @@ class Integer(Dimension):
 
     def __eq__(self, other):
         return (type(self) is type(other) and
-                np.allclose([self.low], [other.low]) and
-                np.allclose([self.high], [other.high]) and
+                self.low == other.low and
+                self.high == other.high and
                 self.prior == other.prior)
 
     def __repr__(self):
-- 
2.43.0


From a8b2f0b5d79bc19b5d9f64d1ac391f799e915a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 47/65] fix: distances to points with missing or extra values
 were computed

---
 skopt/space/space.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 13cbfb8..70207a1 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -1164,6 +1164,10 @@ class Space(object):
         point_b : array
             Second point.
         """
+        if not len(point_a) == len(point_b) == self.n_dims:
+            raise RuntimeError("Can only compute distance for values within "
+                               "the space, not %s and %s."
+                               % (point_a, point_b))
         distance = 0.
         for a, b, dim in zip(point_a, point_b, self.dimensions):
             distance += dim.distance(a, b)
-- 
2.43.0


From 8bdb5465146435726d15063ffefd13096d88e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 48/65] fix: empty Latin hypercube designs without a criterion
 could not be generated

---
 skopt/sampler/lhs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/sampler/lhs.py b/skopt/sampler/lhs.py
index 2c9f04c..258a1cc 100644
--- a/skopt/sampler/lhs.py
+++ b/skopt/sampler/lhs.py
@@ -14,7 +14,7 @@ def _random_permute_matrix(h, random_state=None):
     h_rand_perm = np.zeros_like(h)
     samples, n = h.shape
     for j in range(n):
-        order = rng.permutation(range(samples))
+        order = rng.permutation(samples)
         h_rand_perm[:, j] = h[order, j]
     return h_rand_perm
 
-- 
2.43.0


From a7beb0ea5d7c843d9cbedf5f2dcdf7e52b395826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:46 +0000
Subject: [PATCH 49/65] fix: plots with a categorical dimension failed on ticks
 outside its categories

---
 skopt/plots.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index f43cc8f..5562f14 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -1333,7 +1333,11 @@ def _evenly_sample(dim, n_points):
 def _cat_format(dimension, x, _):
     """Categorical axis tick formatter function.  Returns the name of category
     `x` in `dimension`.  Used with `matplotlib.ticker.FuncFormatter`."""
-    return str(dimension.categories[int(x)])
+    # matplotlib also asks for ticks beyond and between the categories
+    index = int(round(x))
+    if not (np.isclose(x, index) and 0 <= index < len(dimension.categories)):
+        return ""
+    return str(dimension.categories[index])
 
 
 def _evaluate_min_params(result, params='result',
-- 
2.43.0


From dc83ad011079712dcd0e81fe26fe85674523cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:18 +0000
Subject: [PATCH 50/65] fix: results whose objective cannot be copied could not
 be dumped without it

---
 skopt/utils.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index 9d122e9..7d3f0a5 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -1,4 +1,4 @@
-from copy import copy, deepcopy
+from copy import copy
 from functools import wraps
 from sklearn.utils import check_random_state
 import numpy as np
@@ -124,12 +124,6 @@ def dump(res, filename, store_objective=True, **kwargs):
         unserializable (i.e. if an exception is raised when trying to serialize
         the optimization result).
 
-        Notice that if `store_objective` is set to `False`, a deep copy of the
-        optimization result is created, potentially leading to performance
-        problems if `res` is very large. If the objective function is not
-        critical, one can delete it before calling `skopt.dump()` and thus
-        avoid deep copying of `res`.
-
     **kwargs : other keyword arguments
         All other keyword arguments will be passed to `joblib.dump`.
     """
@@ -138,10 +132,12 @@ def dump(res, filename, store_objective=True, **kwargs):
 
     elif 'func' in res.specs['args']:
         # If the user does not want to store the objective and it is indeed
-        # present in the provided object, then create a deep copy of it and
-        # remove the objective function before dumping it with joblib.dump.
-        res_without_func = deepcopy(res)
-        del res_without_func.specs['args']['func']
+        # present in the provided object, then dump a copy of it from which
+        # the objective function is missing. The objective itself is not
+        # copied, since it may be as impossible to copy as to store.
+        args = {k: v for k, v in res.specs['args'].items() if k != 'func'}
+        res_without_func = copy(res)
+        res_without_func.specs = dict(res.specs, args=args)
         dump_(res_without_func, filename, **kwargs)
 
     else:
-- 
2.43.0


From 89df344935227df6fb107c6ce34141bc9e15191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:43 +0000
Subject: [PATCH 51/65] fix: kernel gradients failed for integer inputs

---
 skopt/learning/gaussian_process/kernels.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/skopt/learning/gaussian_process/kernels.py b/skopt/learning/gaussian_process/kernels.py
index 270779b..354e0c8 100644
--- a/skopt/learning/gaussian_process/kernels.py
+++ b/skopt/learning/gaussian_process/kernels.py
@@ -73,8 +73,7 @@ class RBF(Kernel, sk_RBF):
         X_train = np.asarray(X_train)
 
         length_scale = np.asarray(self.length_scale)
-        diff = x - X_train
-        diff /= length_scale
+        diff = (x - X_train) / length_scale
 
         # e = -exp(0.5 * \sum_{i=1}^d (diff ** 2))
         # size = (n_train_samples, 1)
@@ -98,8 +97,7 @@ class Matern(Kernel, sk_Matern):
 
         # diff = (x - X_train) / length_scale
         # size = (n_train_samples, n_dimensions)
-        diff = x - X_train
-        diff /= length_scale
+        diff = (x - X_train) / length_scale
 
         # dist_sq = \sum_{i=1}^d (diff ^ 2)
         # dist = sqrt(dist_sq)
@@ -210,8 +208,7 @@ class RationalQuadratic(Kernel, sk_RationalQuadratic):
 
         # diff = (x - X_train) / length_scale
         # size = (n_train_samples, n_dimensions)
-        diff = x - X_train
-        diff /= length_scale
+        diff = (x - X_train) / length_scale
 
         # dist = -(1 + (\sum_{i=1}^d (diff^2) / (2 * alpha)))** (-alpha - 1)
         # size = (n_train_samples,)
-- 
2.43.0


From 748a88eb38d56371ed961673732c48e61878605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:55 +0000
Subject: [PATCH 52/65] fix: GP deviations and covariances of several targets
 raised

---
 skopt/learning/gaussian_process/gpr.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index 36b2e91..da05173 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -247,6 +247,13 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
 
         return self
 
+    def _undo_normalisation(self, y_cov):
+        """Variances of the targets, along the last axis if several."""
+        y_cov = np.multiply.outer(y_cov, np.square(self.y_train_std_))
+        if y_cov.shape[-1] == 1 and np.ndim(self.y_train_std_) == 1:
+            y_cov = y_cov[..., 0]
+        return y_cov
+
     def predict(self, X, return_std=False, return_cov=False,
                 return_mean_grad=False, return_std_grad=False):
         """
@@ -331,9 +338,7 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
             if return_cov:
                 v = cho_solve((self.L_, True), K_trans.T)  # Line 5
                 y_cov = self.kernel_(X) - K_trans.dot(v)   # Line 6
-                # undo normalisation
-                y_cov = y_cov * self.y_train_std_**2
-                return y_mean, y_cov
+                return y_mean, self._undo_normalisation(y_cov)
 
             elif return_std:
                 K_inv = self.K_inv_
@@ -349,9 +354,7 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
                     warnings.warn("Predicted variances smaller than 0. "
                                   "Setting those variances to 0.")
                     y_var[y_var_negative] = 0.0
-                # undo normalisation
-                y_var = y_var * self.y_train_std_**2
-                y_std = np.sqrt(y_var)
+                y_std = np.sqrt(self._undo_normalisation(y_var))
 
             if return_mean_grad:
                 grad = self.kernel_.gradient_x(X[0], self.X_train_)
-- 
2.43.0


From 3e3443f500ec5918d8a677685442af2d1c7e8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:56 +0000
Subject: [PATCH 53/65] fix: gradients of products of kernels failed for Matern
 0.5 and exponentiated factors

---
 skopt/learning/gaussian_process/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skopt/learning/gaussian_process/kernels.py b/skopt/learning/gaussian_process/kernels.py
index 354e0c8..e0f4c1b 100644
--- a/skopt/learning/gaussian_process/kernels.py
+++ b/skopt/learning/gaussian_process/kernels.py
@@ -292,14 +292,14 @@ class Product(Kernel, sk_Product):
 
     def gradient_x(self, x, X_train):
         x = np.asarray(x)
-        x = np.expand_dims(x, axis=0)
+        X = np.expand_dims(x, axis=0)
         X_train = np.asarray(X_train)
         f_ggrad = (
-            np.expand_dims(self.k1(x, X_train)[0], axis=1) *
+            np.expand_dims(self.k1(X, X_train)[0], axis=1) *
             self.k2.gradient_x(x, X_train)
         )
         fgrad_g = (
-            np.expand_dims(self.k2(x, X_train)[0], axis=1) *
+            np.expand_dims(self.k2(X, X_train)[0], axis=1) *
             self.k1.gradient_x(x, X_train)
         )
         return f_ggrad + fgrad_g
-- 
2.43.0


From c14b07d33a2c2c3b039451a88100aa60de73fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 54/65] fix: gradients of the GP standard deviation were wrong
 for sums of a non-stationary and a Matern 0.5 kernel

---
 skopt/learning/gaussian_process/gpr.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index da05173..6c5e218 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -9,6 +9,8 @@ from sklearn.gaussian_process import GaussianProcessRegressor as sk_GaussianProc
 from sklearn.utils import check_array
 
 from .kernels import ConstantKernel
+from .kernels import Exponentiation
+from .kernels import Product
 from .kernels import Sum
 from .kernels import RBF
 from .kernels import WhiteKernel
@@ -36,6 +38,25 @@ def _param_for_white_kernel_in_Sum(kernel, kernel_str=""):
     return False, "_"
 
 
+def _gradient_diag(kernel, X):
+    """
+    Gradient of K(x, x) with respect to the single point x in X. Stationary
+    kernels have none, even those with a kink at K(x, x).
+    """
+    if kernel.is_stationary():
+        return np.zeros(X.shape[1])
+    if isinstance(kernel, Sum):
+        return _gradient_diag(kernel.k1, X) + _gradient_diag(kernel.k2, X)
+    if isinstance(kernel, Product):
+        return (kernel.k1.diag(X) * _gradient_diag(kernel.k2, X) +
+                kernel.k2.diag(X) * _gradient_diag(kernel.k1, X))
+    if isinstance(kernel, Exponentiation):
+        expo = kernel.exponent
+        return (expo * kernel.kernel.diag(X) ** (expo - 1) *
+                _gradient_diag(kernel.kernel, X))
+    return 2 * kernel.gradient_x(X[0], X)[0]
+
+
 class GaussianProcessRegressor(sk_GaussianProcessRegressor):
     """
     GaussianProcessRegressor that allows noise tunability.
@@ -368,8 +389,7 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
                                                np.dot(K_inv, grad))[0]
                         if not self.kernel_.is_stationary():
                             # the prior variance depends on X as well
-                            grad_var += 2 * self.kernel_.gradient_x(
-                                X[0], X)[0]
+                            grad_var += _gradient_diag(self.kernel_, X)
                         grad_std = grad_var / (2 * y_std)
                         # undo normalisation
                         grad_std = grad_std * self.y_train_std_**2
-- 
2.43.0


From 2874c08645c18fdf9e5a8a3a457e92d55436d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 55/65] fix: acquisition values are not truncated to the type
 of the mean

With a surrogate whose mean is an array of integers EI and PI became 0.
---
 skopt/acquisition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/acquisition.py b/skopt/acquisition.py
index ba3d409..934b361 100644
--- a/skopt/acquisition.py
+++ b/skopt/acquisition.py
@@ -209,7 +209,7 @@ def gaussian_pi(X, model, y_opt=0.0, xi=0.01, return_grad=False):
                          "(N,) vector?"
                          .format(mu.ndim, std.ndim))
 
-    values = np.zeros_like(mu)
+    values = np.zeros(mu.shape)
     mask = std > 0
     improve = y_opt - xi - mu[mask]
     scaled = improve / std[mask]
@@ -292,7 +292,7 @@ def gaussian_ei(X, model, y_opt=0.0, xi=0.01, return_grad=False):
                          "(N,) vector?"
                          .format(mu.ndim, std.ndim))
 
-    values = np.zeros_like(mu)
+    values = np.zeros(mu.shape)
     mask = std > 0
     improve = y_opt - xi - mu[mask]
     scaled = improve / std[mask]
-- 
2.43.0


From e815bdf385940dc9953331f9327ed5cb304f89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 56/65] fix: expected minimum with categories is not above the
 best observation

With categories the minimum over random points could be worse than the
prediction at the best observed point.
---
 skopt/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skopt/utils.py b/skopt/utils.py
index 7d3f0a5..4cd88e4 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -301,6 +301,8 @@ def expected_minimum_random_sampling(res, n_random_starts=100000,
 
     # make estimations with surrogate
     model = res.models[-1]
+    # the best observation is a candidate here as in `expected_minimum`
+    random_samples.append(list(res.x))
     y_random = model.predict(res.space.transform(random_samples))
     index_best_objective = np.argmin(y_random)
     min_x = random_samples[index_best_objective]
-- 
2.43.0


From fa1f98b2ea61ad986715c734e335c3b04eace48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 57/65] fix: plotted acquisition uses the parameters of the
 minimization

plot_gaussian_process drew the acquisition function with the default xi and
kappa for results of gp_minimize and the other minimizers.
---
 skopt/plots.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skopt/plots.py b/skopt/plots.py
index 5562f14..3874006 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -180,6 +180,12 @@ def plot_gaussian_process(res, **kwargs):
         acq_func = res.specs["args"].get("acq_func", "EI")
         acq_func_kwargs = res.specs["args"].get("acq_func_kwargs", {})
 
+        if not acq_func_kwargs:
+            # the minimizers have these as arguments of their own
+            acq_func_kwargs = {name: res.specs["args"][name]
+                               for name in ("xi", "kappa")
+                               if name in res.specs["args"]}
+
     if acq_func_kwargs is None:
         acq_func_kwargs = {}
     if acq_func is None or acq_func == "gp_hedge":
-- 
2.43.0


From 034820c46e4a9dd05fbb6cadf9ffb69bb7368369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 58/65] fix: partial dependence is not truncated to integers

Grid values were truncated when all given sample values were integers.
---
 skopt/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 3874006..ea233dc 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -962,7 +962,7 @@ def partial_dependence_1D(space, model, i, samples,
         the index'th dimension of the search-space to the value x,
         and then averaging over all samples.
         """
-        rvs_ = np.array(samples)  # copy
+        rvs_ = np.array(samples, dtype=float)  # copy
         # We replace the values in the dimension that we want to keep
         # fixed
         rvs_[:, dim_locs[i]:dim_locs[i + 1]] = x
@@ -1045,7 +1045,7 @@ def partial_dependence_2D(space, model, i, j, samples,
         and setting the index2'th dimension to the value y,
         and then averaging over all samples.
         """
-        rvs_ = np.array(samples)  # copy
+        rvs_ = np.array(samples, dtype=float)  # copy
         rvs_[:, dim_locs[j]:dim_locs[j + 1]] = x
         rvs_[:, dim_locs[i]:dim_locs[i + 1]] = y
         return np.mean(model.predict(rvs_))
-- 
2.43.0


From 4930f26c3a674cf9a8d65ac47f017a16c87e42a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 59/65] fix: plot_histogram labels the category None

Its bar had no label.
---
 skopt/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index ea233dc..4f01155 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -1230,7 +1230,7 @@ def plot_histogram(result, dimension_identifier, bins=20, rotate_labels=0,
 
         # The counter returns a dict where the keys are the category-names
         # and the values are the number of occurrences for each category.
-        names = list(counter.keys())
+        names = [str(name) for name in counter.keys()]
         counts = list(counter.values())
 
         # Although Matplotlib's docs indicate that the bar() function
-- 
2.43.0


From 41299030a56a900920488ca23ad7f4dd3673984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 60/65] fix: categorical dimensions with a prior that is a
 tuple or array could not be printed

---
 skopt/space/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 70207a1..16a6dcd 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -692,7 +692,8 @@ class Categorical(Dimension):
             cats = self.categories
 
         if self.prior is not None and len(self.prior) > 7:
-            prior = self.prior[:3] + [_Ellipsis()] + self.prior[-3:]
+            prior = (list(self.prior[:3]) + [_Ellipsis()] +
+                     list(self.prior[-3:]))
         else:
             prior = self.prior
 
-- 
2.43.0


From 1f1db62547541ad6adff5e4a390d04e2b0a7cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 61/65] fix: Lhs correlation criterion compares the largest
 correlation between columns

Diagonal entries that rounding had left below one counted as correlations,
so most candidates were passed over; and perfectly correlated columns did
not count, so a worse design could replace a better one.
---
 skopt/sampler/lhs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skopt/sampler/lhs.py b/skopt/sampler/lhs.py
index 258a1cc..5be289d 100644
--- a/skopt/sampler/lhs.py
+++ b/skopt/sampler/lhs.py
@@ -91,10 +91,10 @@ class Lhs(InitialPointGenerator):
                 for i in range(self.iterations):
                     # Generate a random LHS
                     h = self._lhs_normalized(n_dim, n_samples, rng)
-                    r = np.corrcoef(np.array(h).T)
-                    if len(np.abs(r[r != 1])) > 0 and \
-                            np.max(np.abs(r[r != 1])) < mincorr:
-                        mincorr = np.max(np.abs(r - np.eye(r.shape[0])))
+                    r = np.atleast_2d(np.corrcoef(np.array(h).T))
+                    corr = np.max(np.abs(r - np.eye(r.shape[0])))
+                    if n_dim > 1 and corr < mincorr:
+                        mincorr = corr
                         h_opt = h.copy()
                         h_opt = space.inverse_transform(h_opt)
             elif self.criterion == "maximin":
-- 
2.43.0


From 41d168d029d368ca443eaf50e76511f0a2248522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:27 +0000
Subject: [PATCH 62/65] fix: show the legend of a plot when any of its results
 is labelled

Only the label of the last result was looked at.
---
 skopt/plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 4f01155..ba5c9fc 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -100,7 +100,8 @@ def plot_convergence(*args, **kwargs):
                    color="r", lw=1,
                    label="True minimum")
 
-    if true_minimum is not None or name:
+    named = any(isinstance(res, tuple) and res[0] for res in args)
+    if true_minimum is not None or named:
         ax.legend(loc="best")
 
     return ax
@@ -358,7 +359,7 @@ def plot_regret(*args, **kwargs):
             ax.plot(iterations, np.mean(regrets, axis=0), c=color,
                     marker=".", markersize=12, lw=2, label=name)
 
-    if name:
+    if any(isinstance(res, tuple) and res[0] for res in args):
         ax.legend(loc="best")
 
     return ax
-- 
2.43.0


From 5c209ef3f9a96b6978d50fb8a7e99e407ca395a3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 63/65] fix: gradient of the deviation for targets in small
 units

An absolute tolerance of 1e-8 set the gradient to zero whenever the target
was measured in small units. The deviation is compared to the prior one.
---
 skopt/learning/gaussian_process/gpr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index 6c5e218..89eb1fe 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -384,7 +384,11 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
                 grad_mean = grad_mean * self.y_train_std_
                 if return_std_grad:
                     grad_std = np.zeros(X.shape[1])
-                    if not np.allclose(y_std, grad_std):
+                    # a deviation that vanishes compared to the prior one,
+                    # whatever the units of the target, has no gradient
+                    prior_std = np.sqrt(
+                        self._undo_normalisation(self.kernel_.diag(X)))
+                    if np.any(y_std > 1e-8 * prior_std):
                         grad_var = -2 * np.dot(K_trans,
                                                np.dot(K_inv, grad))[0]
                         if not self.kernel_.is_stationary():
-- 
2.43.0


From 205680b20862a165e7303a2a8a0da77fe4f10074 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 64/65] fix: refuse values y0 without the points x0

They were silently ignored.
---
 skopt/optimizer/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skopt/optimizer/base.py b/skopt/optimizer/base.py
index 0ded90b..ff87eff 100644
--- a/skopt/optimizer/base.py
+++ b/skopt/optimizer/base.py
@@ -241,6 +241,8 @@ def base_minimize(func, dimensions, base_estimator,
         y0 = list(y0)
     elif isinstance(y0, numbers.Number):
         y0 = [y0]
+    if y0 and not x0:
+        raise ValueError("`y0` was given without the points `x0`")
     required_calls = n_initial_points + (len(x0) if not y0 else 0)
     if n_calls < required_calls:
         raise ValueError(
-- 
2.43.0


From 723ccb48d77bfbcb221c25fbee730b73086d235f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 65/65] fix: refuse points x0 outside the space before
 evaluating them

They were refused only after the objective had been evaluated at all of
them.
---
 skopt/optimizer/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skopt/optimizer/base.py b/skopt/optimizer/base.py
index ff87eff..ca460b0 100644
--- a/skopt/optimizer/base.py
+++ b/skopt/optimizer/base.py
@@ -16,6 +16,7 @@ import numpy as np
 from ..callbacks import check_callback
 from ..callbacks import VerboseCallback
 from .optimizer import Optimizer
+from ..utils import check_x_in_space
 from ..utils import eval_callbacks
 
 
@@ -267,6 +268,8 @@ def base_minimize(func, dimensions, base_estimator,
     if not all(len(p) == optimizer.space.n_dims for p in x0):
         raise RuntimeError("Optimization space (%s) and initial points in x0 "
                            "use inconsistent dimensions." % optimizer.space)
+    if x0:
+        check_x_in_space(x0, optimizer.space)
     # check callback
     callbacks = check_callback(callback)
     if verbose:
-- 
2.43.0

