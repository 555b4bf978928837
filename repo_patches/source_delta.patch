From fc0c21caf0987c93b8a789eb3f57bbda5dd1381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 01/32] fix: use int instead of np.int, which numpy >= 1.24 no
 longer has

Normalized Integer and Categorical dimensions raised AttributeError on
transform and inverse_transform.
---
 skopt/space/transformers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index 6889295..f2dfb16 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -259,7 +259,7 @@ class Normalize(Transformer):
         if (self.high - self.low) == 0.:
             return X * 0.
         if self.is_int:
-            return (np.round(X).astype(np.int) - self.low) /\
+            return (np.round(X).astype(int) - self.low) /\
                    (self.high - self.low)
         else:
             return (X - self.low) / (self.high - self.low)
@@ -272,7 +272,7 @@ class Normalize(Transformer):
             raise ValueError("All values should be greater than 0.0")
         X_orig = X * (self.high - self.low) + self.low
         if self.is_int:
-            return np.round(X_orig).astype(np.int)
+            return np.round(X_orig).astype(int)
         return X_orig
 
 
-- 
2.43.0


From 7944cda6019487c3e81e86ba2cb63f170bce08a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 02/32] fix: forest regressors default to parameter values
 current scikit-learn accepts

criterion='mse' and max_features='auto' are rejected by scikit-learn >= 1.2 /
1.3, so every forest surrogate failed at the first fit. The defaults keep
their meaning (squared error, all features).
---
 skopt/learning/forest.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/skopt/learning/forest.py b/skopt/learning/forest.py
index 096770c..305c172 100644
--- a/skopt/learning/forest.py
+++ b/skopt/learning/forest.py
@@ -2,6 +2,12 @@ import numpy as np
 from sklearn.ensemble import RandomForestRegressor as _sk_RandomForestRegressor
 from sklearn.ensemble import ExtraTreesRegressor as _sk_ExtraTreesRegressor
 
+# "mse" was renamed to "squared_error" in scikit-learn 1.0 and the old name
+# was removed in 1.2.
+_MSE_CRITERIA = ("squared_error", "mse")
+_MSE = "squared_error" if _sk_RandomForestRegressor().criterion \
+    == "squared_error" else "mse"
+
 
 def _return_std(X, trees, predictions, min_variance):
     """
@@ -61,13 +67,13 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
     n_estimators : integer, optional (default=10)
         The number of trees in the forest.
 
-    criterion : string, optional (default="mse")
+    criterion : string, optional (default="squared_error")
         The function to measure the quality of a split. Supported criteria
         are "mse" for the mean squared error, which is equal to variance
         reduction as feature selection criterion, and "mae" for the mean
         absolute error.
 
-    max_features : int, float, string or None, optional (default="auto")
+    max_features : int, float, string or None, optional (default=None)
         The number of features to consider when looking for the best split:
 
         - If int, then consider `max_features` features at each split.
@@ -194,9 +200,9 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
     .. [1] L. Breiman, "Random Forests", Machine Learning, 45(1), 5-32, 2001.
 
     """
-    def __init__(self, n_estimators=10, criterion='mse', max_depth=None,
+    def __init__(self, n_estimators=10, criterion=_MSE, max_depth=None,
                  min_samples_split=2, min_samples_leaf=1,
-                 min_weight_fraction_leaf=0.0, max_features='auto',
+                 min_weight_fraction_leaf=0.0, max_features=None,
                  max_leaf_nodes=None, min_impurity_decrease=0.,
                  bootstrap=True, oob_score=False,
                  n_jobs=1, random_state=None, verbose=0, warm_start=False,
@@ -239,7 +245,7 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
         mean = super(RandomForestRegressor, self).predict(X)
 
         if return_std:
-            if self.criterion != "mse":
+            if self.criterion not in _MSE_CRITERIA:
                 raise ValueError(
                     "Expected impurity to be 'mse', got %s instead"
                     % self.criterion)
@@ -257,13 +263,13 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
     n_estimators : integer, optional (default=10)
         The number of trees in the forest.
 
-    criterion : string, optional (default="mse")
+    criterion : string, optional (default="squared_error")
         The function to measure the quality of a split. Supported criteria
         are "mse" for the mean squared error, which is equal to variance
         reduction as feature selection criterion, and "mae" for the mean
         absolute error.
 
-    max_features : int, float, string or None, optional (default="auto")
+    max_features : int, float, string or None, optional (default=None)
         The number of features to consider when looking for the best split:
 
         - If int, then consider `max_features` features at each split.
@@ -390,9 +396,9 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
     .. [1] L. Breiman, "Random Forests", Machine Learning, 45(1), 5-32, 2001.
 
     """
-    def __init__(self, n_estimators=10, criterion='mse', max_depth=None,
+    def __init__(self, n_estimators=10, criterion=_MSE, max_depth=None,
                  min_samples_split=2, min_samples_leaf=1,
-                 min_weight_fraction_leaf=0.0, max_features='auto',
+                 min_weight_fraction_leaf=0.0, max_features=None,
                  max_leaf_nodes=None, min_impurity_decrease=0.,
                  bootstrap=False, oob_score=False,
                  n_jobs=1, random_state=None, verbose=0, warm_start=False,
@@ -435,7 +441,7 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
         mean = super(ExtraTreesRegressor, self).predict(X)
 
         if return_std:
-            if self.criterion != "mse":
+            if self.criterion not in _MSE_CRITERIA:
                 raise ValueError(
                     "Expected impurity to be 'mse', got %s instead"
                     % self.criterion)
-- 
2.43.0


From 0ae673f5b964b57d8752511454e4068baf676d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 03/32] fix: transformed_bounds of log-uniform dimensions with
 base != 10, of log-uniform Integer and of label-encoded Categorical match the
 warped space

Suggestions are clipped to these bounds, so a too small or shifted interval made parts of the search space unreachable.
---
 skopt/space/space.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 329b0c1..e1c4c3a 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -371,7 +371,8 @@ class Real(Dimension):
             if self.prior == "uniform":
                 return self.low, self.high
             else:
-                return np.log10(self.low), np.log10(self.high)
+                return (np.log10(self.low) / self.log_base,
+                        np.log10(self.high) / self.log_base)
 
     def distance(self, a, b):
         """Compute distance between point `a` and `b`.
@@ -555,7 +556,11 @@ class Integer(Dimension):
         if self.transform_ == "normalize":
             return 0., 1.
         else:
-            return (self.low, self.high)
+            if self.prior == "uniform":
+                return (self.low, self.high)
+            else:
+                return (np.log10(self.low) / self.log_base,
+                        np.log10(self.high) / self.log_base)
 
     def distance(self, a, b):
         """Compute distance between point `a` and `b`.
@@ -721,7 +726,9 @@ class Categorical(Dimension):
 
     @property
     def transformed_bounds(self):
-        if self.transformed_size == 1:
+        if self.transform_ == "label":
+            return 0.0, float(max(len(self.categories) - 1, 1))
+        elif self.transformed_size == 1:
             return 0.0, 1.0
         else:
             return [(0.0, 1.0) for i in range(self.transformed_size)]
-- 
2.43.0


From c32e27225c123b60b69dae11160e919523b066c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 04/32] fix: keep categories of mixed types and tuple
 categories intact when they are encoded and decoded

np.asarray casts [1, 'a'] to strings and unpacks tuples, so ask() suggested values that are not categories or raised KeyError.
---
 skopt/searchcv.py           |  3 ++-
 skopt/space/space.py        |  3 ++-
 skopt/space/transformers.py | 21 +++++++++++++++++++--
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 391b14c..1be2d4b 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -400,7 +400,8 @@ class BayesSearchCV(BaseSearchCV):
         params = optimizer.ask(n_points=n_points)
 
         # convert parameters to python native types
-        params = [[np.array(v).item() for v in p] for p in params]
+        params = [[v.item() if isinstance(v, np.generic) else v for v in p]
+                  for p in params]
 
         # make lists into dictionaries
         params_dict = [point_asdict(search_space, p) for p in params]
diff --git a/skopt/space/space.py b/skopt/space/space.py
index e1c4c3a..3d7a9a1 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -16,6 +16,7 @@ from .transformers import Normalize
 from .transformers import Identity
 from .transformers import LogN
 from .transformers import Pipeline
+from .transformers import as_category_array
 
 
 # helper class to be able to print [1, ..., 4] instead of [1, '...', 4]
@@ -689,7 +690,7 @@ class Categorical(Dimension):
         # of type float, hence the required cast back to int.
         inv_transform = super(Categorical, self).inverse_transform(Xt)
         if isinstance(inv_transform, list):
-            inv_transform = np.array(inv_transform)
+            inv_transform = as_category_array(inv_transform)
         return inv_transform
 
     def rvs(self, n_samples=None, random_state=None):
diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index f2dfb16..516e14b 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -4,6 +4,23 @@ from sklearn.preprocessing import LabelBinarizer
 from sklearn.utils import column_or_1d
 
 
+def as_category_array(X):
+    """Like ``np.asarray(X)`` for a list of categories, except that categories
+    which numpy would cast to a common type (a number next to a string) or
+    unpack (tuples) are kept as they are, in an array of dtype object.
+    """
+    if isinstance(X, np.ndarray):
+        return X
+    X = list(X)
+    is_string = [isinstance(v, (str, bytes)) for v in X]
+    if all(np.isscalar(v) for v in X) and any(is_string) == all(is_string):
+        return np.asarray(X)
+    Xa = np.empty(len(X), dtype=object)
+    for i, v in enumerate(X):
+        Xa[i] = v
+    return Xa
+
+
 class Transformer(object):
     """Base class for all 1-D transformers.
     """
@@ -166,7 +183,7 @@ class LabelEncoder(Transformer):
         X : array-like, shape=(n_categories,)
             List of categories.
         """
-        X = np.asarray(X)
+        X = as_category_array(X)
         if X.dtype == object:
             self.mapping_ = {v: i for i, v in enumerate(X)}
         else:
@@ -192,7 +209,7 @@ class LabelEncoder(Transformer):
         Xt : array-like, shape=(n_samples, n_categories)
             The integer categories.
         """
-        X = np.asarray(X)
+        X = as_category_array(X)
         return [self.mapping_[v] for v in X]
 
     def inverse_transform(self, Xt):
-- 
2.43.0


From d78ae44fc4833a6ad5b0b9c8456977051b1b8dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 05/32] fix: Real of a narrow float dtype never leaves its
 bounds

Casting the upper bound to float32 can round it up, so ask() suggested points tell() then refused.
---
 skopt/space/space.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 3d7a9a1..9c3791c 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -349,6 +349,15 @@ class Real(Dimension):
             # necessary, otherwise the type is converted to a numpy type
             return getattr(inv_transform, "tolist", lambda: value)()
         else:
+            # rounding to a narrower float type can step over a bound
+            as_float = np.asarray(inv_transform, dtype=float)
+            if np.any(as_float > self.high) or np.any(as_float < self.low):
+                towards = np.where(as_float > self.high, -np.inf, np.inf)
+                inv_transform = np.where(
+                    (as_float > self.high) | (as_float < self.low),
+                    np.nextafter(inv_transform,
+                                 towards.astype(inv_transform.dtype)),
+                    inv_transform)[()]
             return inv_transform
 
     @property
-- 
2.43.0


From b97167dc79d5a3775d28c7e5b17306060bc05e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 06/32] fix: dummy_minimize counts a single initial point as
 one point

It used len(x0), the number of dimensions, so the initial point generator produced too few points and ask() ran past them.
---
 skopt/optimizer/dummy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/dummy.py b/skopt/optimizer/dummy.py
index c372c24..e4732fc 100644
--- a/skopt/optimizer/dummy.py
+++ b/skopt/optimizer/dummy.py
@@ -105,7 +105,9 @@ def dummy_minimize(func, dimensions, n_calls=100,
     # all our calls want random suggestions, except if we need to evaluate
     # some initial points
     if x0 is not None and y0 is None:
-        n_initial_points = n_calls - len(x0)
+        # `x0` is either a list of points or a single point
+        n_provided = len(x0) if isinstance(x0[0], (list, tuple)) else 1
+        n_initial_points = n_calls - n_provided
     else:
         n_initial_points = n_calls
 
-- 
2.43.0


From 6e2867a4d597085974f6799b0435d4cc774933d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 07/32] fix: random suggestions after the initial design of an
 Optimizer without surrogate

With base_estimator='dummy' and an initial point generator ask() raised IndexError once all generated points were evaluated.
---
 skopt/optimizer/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 240ffbf..21f162f 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -430,7 +430,8 @@ class Optimizer(object):
         if self._n_initial_points > 0 or self.base_estimator_ is None:
             # this will not make a copy of `self.rng` and hence keep advancing
             # our random state.
-            if self._initial_samples is None:
+            if (self._initial_samples is None or
+                    self._n_initial_points <= 0):
                 return self.space.rvs(random_state=self.rng)[0]
             else:
                 # The samples are evaluated starting form initial_samples[0]
-- 
2.43.0


From 0b3260ae43602282c5a35c05a904608e8c3c993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 08/32] fix: Optimizer.copy does not generate another initial
 design and keeps model_queue_size

ask(n_points) copies the optimizer, so it advanced the generator: with Sobol(skip=16) it raised ValueError.
---
 skopt/optimizer/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 21f162f..5b7b751 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -317,13 +317,16 @@ class Optimizer(object):
             dimensions=self.space.dimensions,
             base_estimator=self.base_estimator_,
             n_initial_points=self.n_initial_points_,
-            initial_point_generator=self._initial_point_generator,
             acq_func=self.acq_func,
             acq_optimizer=self.acq_optimizer,
             acq_func_kwargs=self.acq_func_kwargs,
             acq_optimizer_kwargs=self.acq_optimizer_kwargs,
+            model_queue_size=self.max_model_queue_size,
             random_state=random_state
         )
+        # the copy continues this optimizer's initial design, there is no
+        # need to generate another one
+        optimizer._initial_point_generator = self._initial_point_generator
         optimizer._initial_samples = self._initial_samples
         if hasattr(self, "gains_"):
             optimizer.gains_ = np.copy(self.gains_)
-- 
2.43.0


From 1af54de61ad7d4d975e80eedd5d3f3f061ff4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 09/32] fix: tell() refuses a batch with a different number of
 points and values

It was recorded, after which every point belonged to the wrong value.
---
 skopt/optimizer/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 5b7b751..17b8893 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -621,6 +621,10 @@ class Optimizer(object):
     def _check_y_is_valid(self, x, y):
         """Check if the shape and types of x and y are consistent."""
 
+        if is_2Dlistlike(x) and is_listlike(y) and len(x) != len(y):
+            raise ValueError("expected one value of y for each point in x, "
+                             "got %d points and %d values" % (len(x), len(y)))
+
         if "ps" in self.acq_func:
             if is_2Dlistlike(x):
                 if not (np.ndim(y) == 2 and np.shape(y)[1] == 2):
-- 
2.43.0


From 9a91f98406152aef9a144401ae0ac7a0f12d15e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 10/32] fix: a returned result is not changed by later calls to
 tell()

x_iters and models were the optimizer's own lists and grew, while func_vals did not.
---
 skopt/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index a27e62c..969bd2f 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -64,8 +64,9 @@ def create_result(Xi, yi, space=None, rng=None, specs=None, models=None):
     res.x = Xi[best]
     res.fun = yi[best]
     res.func_vals = yi
-    res.x_iters = Xi
-    res.models = models
+    # the optimizer keeps extending its own lists
+    res.x_iters = list(Xi)
+    res.models = None if models is None else list(models)
     res.space = space
     res.random_state = rng
     res.specs = specs
-- 
2.43.0


From aba76775184b67dd5836c9e9bda3ff5fd80ec1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 11/32] fix: do not change the Dimension objects a caller
 passes in

A GP based Optimizer switched them to 'normalize' (in every other Optimizer using them, too) and BayesSearchCV named them, so a dimension used in two search spaces had the wrong name in one.
---
 skopt/searchcv.py | 5 ++++-
 skopt/utils.py    | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 1be2d4b..0876749 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -1,4 +1,5 @@
 import warnings
+from copy import copy
 
 try:
     from collections.abc import Sized
@@ -383,7 +384,9 @@ class BayesSearchCV(BaseSearchCV):
         """
 
         kwargs = self.optimizer_kwargs_.copy()
-        kwargs['dimensions'] = dimensions_aslist(params_space)
+        # the names are set below, on copies of the dimensions
+        kwargs['dimensions'] = [
+            copy(dim) for dim in dimensions_aslist(params_space)]
         optimizer = Optimizer(**kwargs)
         for i in range(len(optimizer.space.dimensions)):
             if optimizer.space.dimensions[i].name is not None:
diff --git a/skopt/utils.py b/skopt/utils.py
index 969bd2f..a31b132 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -1,4 +1,4 @@
-from copy import deepcopy
+from copy import copy, deepcopy
 from functools import wraps
 from sklearn.utils import check_random_state
 import numpy as np
@@ -596,7 +596,9 @@ def normalize_dimensions(dimensions):
         # check if dimension is of a Dimension instance
         if isinstance(dimension, Dimension):
             # Change the transformer to normalize
-            # and add it to the new transformed dimensions
+            # and add it to the new transformed dimensions,
+            # the dimension of the caller stays as it is
+            dimension = copy(dimension)
             dimension.set_transformer("normalize")
             transformed_dimensions.append(
                 dimension
-- 
2.43.0


From 24e3051fe318f6ce0b0c5a5df07c6638d66c37ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 12/32] fix: verbose=True does not append to the list of
 callbacks the caller passed in

---
 skopt/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/callbacks.py b/skopt/callbacks.py
index 11e6c0b..02b1c84 100644
--- a/skopt/callbacks.py
+++ b/skopt/callbacks.py
@@ -26,7 +26,7 @@ def check_callback(callback):
 
         elif (isinstance(callback, list) and
               all([isinstance(c, Callable) for c in callback])):
-            return callback
+            return list(callback)
 
         else:
             raise ValueError("callback should be either a callable or "
-- 
2.43.0


From 5014c85e0b8a5e5801380491b6f90e5f691cf47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 13/32] fix: callbacks measure time with the monotonic clock

A step of the system clock made DeadlineStopper stop at once, or never.
---
 skopt/callbacks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/callbacks.py b/skopt/callbacks.py
index 02b1c84..1cef142 100644
--- a/skopt/callbacks.py
+++ b/skopt/callbacks.py
@@ -10,7 +10,8 @@ try:
 except ImportError:
     from collections import Callable
 
-from time import time
+# intervals are measured, which the system clock being set must not affect
+from time import monotonic as time
 
 import numpy as np
 
-- 
2.43.0


From f0b5d1c673a28c2742ee79d45924441dcfcb1425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 14/32] fix: per second acquisition functions and constant liar
 do not mix objective values with computation times

The best value and the lies were taken over the pairs (value, log time).
---
 skopt/optimizer/optimizer.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 17b8893..474b37c 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -400,15 +400,16 @@ class Optimizer(object):
 
             ti_available = "ps" in self.acq_func and len(opt.yi) > 0
             ti = [t for (_, t) in opt.yi] if ti_available else None
+            fi = [f for (f, _) in opt.yi] if ti_available else opt.yi
 
             if strategy == "cl_min":
-                y_lie = np.min(opt.yi) if opt.yi else 0.0  # CL-min lie
+                y_lie = np.min(fi) if fi else 0.0  # CL-min lie
                 t_lie = np.min(ti) if ti is not None else log(sys.float_info.max)
             elif strategy == "cl_mean":
-                y_lie = np.mean(opt.yi) if opt.yi else 0.0  # CL-mean lie
+                y_lie = np.mean(fi) if fi else 0.0  # CL-mean lie
                 t_lie = np.mean(ti) if ti is not None else log(sys.float_info.max)
             else:
-                y_lie = np.max(opt.yi) if opt.yi else 0.0  # CL-max lie
+                y_lie = np.max(fi) if fi else 0.0  # CL-max lie
                 t_lie = np.max(ti) if ti is not None else log(sys.float_info.max)
 
             # Lie to the optimizer.
@@ -551,6 +552,10 @@ class Optimizer(object):
                 self.models.pop(0)
                 self.models.append(est)
 
+            # the best objective value, computation times are not objectives
+            y_opt = (np.min(np.asarray(self.yi)[:, 0])
+                     if "ps" in self.acq_func else np.min(self.yi))
+
             # even with BFGS as optimizer we want to sample a large number
             # of points and then pick the best ones as starting points
             X = self.space.transform(self.space.rvs(
@@ -559,7 +564,7 @@ class Optimizer(object):
             self.next_xs_ = []
             for cand_acq_func in self.cand_acq_funcs_:
                 values = _gaussian_acquisition(
-                    X=X, model=est, y_opt=np.min(self.yi),
+                    X=X, model=est, y_opt=y_opt,
                     acq_func=cand_acq_func,
                     acq_func_kwargs=self.acq_func_kwargs)
                 # Find the minimum of the acquisition function by randomly
@@ -578,7 +583,7 @@ class Optimizer(object):
                         results = Parallel(n_jobs=self.n_jobs)(
                             delayed(fmin_l_bfgs_b)(
                                 gaussian_acquisition_1D, x,
-                                args=(est, np.min(self.yi), cand_acq_func,
+                                args=(est, y_opt, cand_acq_func,
                                       self.acq_func_kwargs),
                                 bounds=self.space.transformed_bounds,
                                 approx_grad=False,
-- 
2.43.0


From a67e0509ed9618ed57d5890fc70baf652b399822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 15/32] fix: BayesSearchCV.total_iterations of a single search
 space given as dict

---
 skopt/searchcv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 0876749..c0fc34e 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -427,7 +427,11 @@ class BayesSearchCV(BaseSearchCV):
         """
         total_iter = 0
 
-        for elem in self.search_spaces:
+        search_spaces = self.search_spaces
+        if isinstance(search_spaces, dict):
+            search_spaces = [search_spaces]
+
+        for elem in search_spaces:
 
             if isinstance(elem, tuple):
                 space, n_iter = elem
-- 
2.43.0


From d3ec17b95ad1f713f4c137b79efcf2c23ac036af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 16/32] fix: dump(store_objective=False) does not deep copy the
 objective

An objective holding a lock or an open file can be neither stored nor copied, so the option failed for objectives it is meant for.
---
 skopt/utils.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index a31b132..314be14 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -1,4 +1,4 @@
-from copy import copy, deepcopy
+from copy import copy
 from functools import wraps
 from sklearn.utils import check_random_state
 import numpy as np
@@ -123,12 +123,6 @@ def dump(res, filename, store_objective=True, **kwargs):
         unserializable (i.e. if an exception is raised when trying to serialize
         the optimization result).
 
-        Notice that if `store_objective` is set to `False`, a deep copy of the
-        optimization result is created, potentially leading to performance
-        problems if `res` is very large. If the objective function is not
-        critical, one can delete it before calling `skopt.dump()` and thus
-        avoid deep copying of `res`.
-
     **kwargs : other keyword arguments
         All other keyword arguments will be passed to `joblib.dump`.
     """
@@ -137,10 +131,13 @@ def dump(res, filename, store_objective=True, **kwargs):
 
     elif 'func' in res.specs['args']:
         # If the user does not want to store the objective and it is indeed
-        # present in the provided object, then create a deep copy of it and
-        # remove the objective function before dumping it with joblib.dump.
-        res_without_func = deepcopy(res)
-        del res_without_func.specs['args']['func']
+        # present in the provided object, then create a copy of it without
+        # the objective function before dumping it with joblib.dump. (No deep
+        # copy: not every objective which can not be stored can be copied.)
+        res_without_func = copy(res)
+        res_without_func.specs = dict(res.specs)
+        res_without_func.specs['args'] = {
+            k: v for k, v in res.specs['args'].items() if k != 'func'}
         dump_(res_without_func, filename, **kwargs)
 
     else:
-- 
2.43.0


From 43b1eccbd9b6fba65bff94add1c250fa75606315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 17/32] fix: dump() replaces an existing file in one step

It truncated the file first, so a crash, a full disk or an error while pickling during a checkpoint destroyed the only copy of the previous checkpoint.
---
 skopt/utils.py | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index 314be14..6e172a0 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -1,5 +1,8 @@
+import os
+import shutil
 from copy import copy
 from functools import wraps
+from uuid import uuid4
 from sklearn.utils import check_random_state
 import numpy as np
 from scipy.optimize import OptimizeResult
@@ -103,6 +106,40 @@ def eval_callbacks(callbacks, result):
     return stop
 
 
+def _dump_atomically(obj, filename, **kwargs):
+    """`joblib.dump` which replaces an existing file in one step.
+
+    The object is written to a temporary file in the same directory, which
+    then takes the place of `filename`. When writing fails or is interrupted
+    the previous content of `filename`, say an earlier checkpoint, survives.
+    """
+    if not isinstance(filename, (str, os.PathLike)):
+        return dump_(obj, filename, **kwargs)
+
+    # follow symbolic links: they stay and what they refer to is replaced
+    target = os.path.realpath(filename)
+    exists = os.path.exists(target)
+    if exists and not os.path.isfile(target):
+        # for example a named pipe or /dev/stdout
+        return dump_(obj, filename, **kwargs)
+
+    # joblib chooses the compression by the extension
+    temporary = os.path.join(
+        os.path.dirname(target),
+        ".skopt-" + uuid4().hex + os.path.splitext(str(filename))[1])
+    try:
+        dump_(obj, temporary, **kwargs)
+        with open(temporary, "r+b") as f:
+            os.fsync(f.fileno())
+        if exists:
+            shutil.copymode(target, temporary)
+        os.replace(temporary, target)
+    except BaseException:
+        if os.path.exists(temporary):
+            os.remove(temporary)
+        raise
+
+
 def dump(res, filename, store_objective=True, **kwargs):
     """
     Store an skopt optimization result into a file.
@@ -127,7 +164,7 @@ def dump(res, filename, store_objective=True, **kwargs):
         All other keyword arguments will be passed to `joblib.dump`.
     """
     if store_objective:
-        dump_(res, filename, **kwargs)
+        _dump_atomically(res, filename, **kwargs)
 
     elif 'func' in res.specs['args']:
         # If the user does not want to store the objective and it is indeed
@@ -138,12 +175,12 @@ def dump(res, filename, store_objective=True, **kwargs):
         res_without_func.specs = dict(res.specs)
         res_without_func.specs['args'] = {
             k: v for k, v in res.specs['args'].items() if k != 'func'}
-        dump_(res_without_func, filename, **kwargs)
+        _dump_atomically(res_without_func, filename, **kwargs)
 
     else:
         # If the user does not want to store the objective and it is already
         # missing in the provided object, dump it without copying.
-        dump_(res, filename, **kwargs)
+        _dump_atomically(res, filename, **kwargs)
 
 
 def load(filename, **kwargs):
-- 
2.43.0


From 4f80a37030d182b01ea8fe81aedcf0e27c5101d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 18/32] fix: an initial point generator works on copies of the
 dimensions

It switches their transformer while it runs, under the feet of optimizers in other threads using the same dimensions, and left them switched when it failed.
---
 skopt/optimizer/optimizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 474b37c..350dd20 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -1,4 +1,5 @@
 import sys
+from copy import copy
 import warnings
 from math import log
 from numbers import Number
@@ -275,11 +276,12 @@ class Optimizer(object):
             initial_point_generator)
 
         if self._initial_point_generator is not None:
-            transformer = self.space.get_transformer()
+            # generators change the transformer, which other users of the
+            # same dimensions must not notice
             self._initial_samples = self._initial_point_generator.generate(
-                self.space.dimensions, n_initial_points,
+                [copy(dim) for dim in self.space.dimensions],
+                n_initial_points,
                 random_state=self.rng.randint(0, np.iinfo(np.int32).max))
-            self.space.set_transformer(transformer)
 
         # record categorical and non-categorical indices
         self._cat_inds = []
-- 
2.43.0


From 46e44c4fc0e455e8b901be45a7d7e770c2f826bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 19/32] fix: transformed_bounds of a label-encoded Categorical
 with a single category

---
 skopt/space/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 9c3791c..0c802de 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -737,7 +737,7 @@ class Categorical(Dimension):
     @property
     def transformed_bounds(self):
         if self.transform_ == "label":
-            return 0.0, float(max(len(self.categories) - 1, 1))
+            return 0.0, float(len(self.categories) - 1)
         elif self.transformed_size == 1:
             return 0.0, 1.0
         else:
-- 
2.43.0


From 1b39e5eafcfd7695bda88eb317caff150350d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 20/32] fix: ask(n_points) returns the same points again after
 a batch of another size was asked for

---
 skopt/optimizer/optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 350dd20..a1d11fd 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -387,7 +387,7 @@ class Optimizer(object):
         # Caching the result with n_points not None. If some new parameters
         # are provided to the ask, the cache_ is not used.
         if (n_points, strategy) in self.cache_:
-            return self.cache_[(n_points, strategy)]
+            return list(self.cache_[(n_points, strategy)])
 
         # Copy of the optimizer is made in order to manage the
         # deletion of points with "lie" objective (the copy of
@@ -422,9 +422,9 @@ class Optimizer(object):
             else:
                 opt._tell(x, y_lie)
 
-        self.cache_ = {(n_points, strategy): X}  # cache_ the result
+        self.cache_[(n_points, strategy)] = X  # cache_ the result
 
-        return X
+        return list(X)
 
     def _ask(self):
         """Suggest next point at which to evaluate the objective.
-- 
2.43.0


From 51a71eb2162dcca10ce8bbb5b711518c2dc605d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 21/32] fix: tell() refuses time-aware observations whose value
 is no number and a single value for several points

---
 skopt/optimizer/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index a1d11fd..d4062f8 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -636,9 +636,13 @@ class Optimizer(object):
             if is_2Dlistlike(x):
                 if not (np.ndim(y) == 2 and np.shape(y)[1] == 2):
                     raise TypeError("expected y to be a list of (func_val, t)")
+                func_vals = [y_value[0] for y_value in y]
             elif is_listlike(x):
                 if not (np.ndim(y) == 1 and len(y) == 2):
                     raise TypeError("expected y to be (func_val, t)")
+                func_vals = [y[0]]
+            if not all(isinstance(val, Number) for val in func_vals):
+                raise ValueError("`func` should return a scalar")
 
         # if y isn't a scalar it means we have been handed a batch of points
         elif is_listlike(y) and is_2Dlistlike(x):
@@ -646,7 +650,7 @@ class Optimizer(object):
                 if not isinstance(y_value, Number):
                     raise ValueError("expected y to be a list of scalars")
 
-        elif is_listlike(x):
+        elif is_listlike(x) and not is_2Dlistlike(x):
             if not isinstance(y, Number):
                 raise ValueError("`func` should return a scalar")
 
-- 
2.43.0


From 6c7e3638c43277b37ded863d3d0061c619c2009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 22/32] fix: Grid makes the requested number of points in one
 dimension

---
 skopt/sampler/grid.py | 47 +++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index 2e90d7a..049d99e 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -113,20 +113,22 @@ class Grid(InitialPointGenerator):
         n_dim = space.n_dims
         transformer = space.get_transformer()
         space.set_transformer("normalize")
+        # one dimension has as many grid points as values
+        root = np.float64 if n_dim == 1 else np.sqrt
 
         if self.border == "include":
             if self.use_full_layout:
-                order = int(np.floor(np.sqrt(n_samples)))
+                order = int(np.floor(root(n_samples)))
             else:
-                order = int(np.ceil(np.sqrt(n_samples)))
+                order = int(np.ceil(root(n_samples)))
             if order < 2:
                 order = 2
             h = _create_uniform_grid_include_border(n_dim, order)
         elif self.border == "exclude":
             if self.use_full_layout:
-                order = int(np.floor(np.sqrt(n_samples)))
+                order = int(np.floor(root(n_samples)))
             else:
-                order = int(np.ceil(np.sqrt(n_samples)))
+                order = int(np.ceil(root(n_samples)))
             if order < 1:
                 order = 1
             h = _create_uniform_grid_exclude_border(n_dim, order)
@@ -144,24 +146,25 @@ class Grid(InitialPointGenerator):
             rng.shuffle(h)
             h = h[:n_samples, :]
         elif np.size(h, 0) < n_samples:
-            if self.append_border == "only":
-                order = int(np.ceil((n_samples - np.size(h, 0)) / 2.))
-                if order < 2:
-                    order = 2
-                h2 = _create_uniform_grid_only_border(n_dim, order)
-            elif self.append_border == "include":
-                order = int(np.ceil(np.sqrt(n_samples - np.size(h, 0))))
-                if order < 2:
-                    order = 2
-                h2 = _create_uniform_grid_include_border(n_dim, order)
-            elif self.append_border == "exclude":
-                order = int(np.ceil(np.sqrt(n_samples - np.size(h, 0))))
-                if order < 1:
-                    order = 1
-                h2 = _create_uniform_grid_exclude_border(n_dim, order)
-            else:
-                raise ValueError("Wrong value for append_border")
-            h = np.vstack((h, h2[:(n_samples - np.size(h, 0))]))
+            while np.size(h, 0) < n_samples:
+                if self.append_border == "only":
+                    order = int(np.ceil((n_samples - np.size(h, 0)) / 2.))
+                    if order < 2:
+                        order = 2
+                    h2 = _create_uniform_grid_only_border(n_dim, order)
+                elif self.append_border == "include":
+                    order = int(np.ceil(root(n_samples - np.size(h, 0))))
+                    if order < 2:
+                        order = 2
+                    h2 = _create_uniform_grid_include_border(n_dim, order)
+                elif self.append_border == "exclude":
+                    order = int(np.ceil(root(n_samples - np.size(h, 0))))
+                    if order < 1:
+                        order = 1
+                    h2 = _create_uniform_grid_exclude_border(n_dim, order)
+                else:
+                    raise ValueError("Wrong value for append_border")
+                h = np.vstack((h, h2[:(n_samples - np.size(h, 0))]))
             rng.shuffle(h)
         else:
             rng.shuffle(h)
-- 
2.43.0


From b4ad29ad6552407cbc563162fae55e292d6696bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 23/32] fix: gp_hedge recovers from a surrogate that failed
 while its candidates were made

---
 skopt/optimizer/optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index d4062f8..e000a2b 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -563,7 +563,7 @@ class Optimizer(object):
             X = self.space.transform(self.space.rvs(
                 n_samples=self.n_points, random_state=self.rng))
 
-            self.next_xs_ = []
+            next_xs = []
             for cand_acq_func in self.cand_acq_funcs_:
                 values = _gaussian_acquisition(
                     X=X, model=est, y_opt=y_opt,
@@ -602,7 +602,8 @@ class Optimizer(object):
                     next_x = np.clip(
                         next_x, transformed_bounds[:, 0],
                         transformed_bounds[:, 1])
-                self.next_xs_.append(next_x)
+                next_xs.append(next_x)
+            self.next_xs_ = next_xs
 
             if self.acq_func == "gp_hedge":
                 logits = np.array(self.gains_)
-- 
2.43.0


From 9b3bd3954dcb49c4b20a5e7628140ff3f2ab82da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:25 +0000
Subject: [PATCH 24/32] fix: starting points outside of the space are refused
 before the objective is called

---
 skopt/optimizer/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skopt/optimizer/base.py b/skopt/optimizer/base.py
index 0ded90b..0cf177d 100644
--- a/skopt/optimizer/base.py
+++ b/skopt/optimizer/base.py
@@ -16,6 +16,7 @@ import numpy as np
 from ..callbacks import check_callback
 from ..callbacks import VerboseCallback
 from .optimizer import Optimizer
+from ..utils import check_x_in_space
 from ..utils import eval_callbacks
 
 
@@ -265,6 +266,8 @@ def base_minimize(func, dimensions, base_estimator,
     if not all(len(p) == optimizer.space.n_dims for p in x0):
         raise RuntimeError("Optimization space (%s) and initial points in x0 "
                            "use inconsistent dimensions." % optimizer.space)
+    # refuse them before `func` is called
+    check_x_in_space(x0, optimizer.space)
     # check callback
     callbacks = check_callback(callback)
     if verbose:
-- 
2.43.0


From 6f5108d28d3cf90aa3049e938f3642667cd2225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:25 +0000
Subject: [PATCH 25/32] fix: dummy_minimize refuses more initial points than
 calls

---
 skopt/optimizer/dummy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/dummy.py b/skopt/optimizer/dummy.py
index e4732fc..1aabd68 100644
--- a/skopt/optimizer/dummy.py
+++ b/skopt/optimizer/dummy.py
@@ -107,7 +107,8 @@ def dummy_minimize(func, dimensions, n_calls=100,
     if x0 is not None and y0 is None:
         # `x0` is either a list of points or a single point
         n_provided = len(x0) if isinstance(x0[0], (list, tuple)) else 1
-        n_initial_points = n_calls - n_provided
+        # (more points than calls are refused by `base_minimize`)
+        n_initial_points = max(0, n_calls - n_provided)
     else:
         n_initial_points = n_calls
 
-- 
2.43.0


From 503e2e4e4642fe234d8f64ac9252dd6b4e00ca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 26/32] fix: StopIteration raised by the objective at a
 starting point reaches the caller

---
 skopt/optimizer/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/optimizer/base.py b/skopt/optimizer/base.py
index 0cf177d..81bf665 100644
--- a/skopt/optimizer/base.py
+++ b/skopt/optimizer/base.py
@@ -282,7 +282,7 @@ def base_minimize(func, dimensions, base_estimator,
     result = None
     # evaluate y0 if only x0 is provided
     if x0 and y0 is None:
-        y0 = list(map(func, x0))
+        y0 = [func(x) for x in x0]
         n_calls -= len(y0)
     # record through tell function
     if x0:
-- 
2.43.0


From 3e8c21c10ad29270ccb531f96f2ba9db0eec5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 27/32] fix: time that passes while a callback reads the clock
 is not lost

---
 skopt/callbacks.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skopt/callbacks.py b/skopt/callbacks.py
index 1cef142..b833b64 100644
--- a/skopt/callbacks.py
+++ b/skopt/callbacks.py
@@ -137,9 +137,9 @@ class TimerCallback(object):
         res : `OptimizeResult`, scipy object
             The optimization as a OptimizeResult object.
         """
-        elapsed_time = time() - self._time
-        self.iter_time.append(elapsed_time)
-        self._time = time()
+        now = time()
+        self.iter_time.append(now - self._time)
+        self._time = now
 
 
 class EarlyStopper(object):
@@ -261,9 +261,9 @@ class DeadlineStopper(EarlyStopper):
         self.total_time = total_time
 
     def _criterion(self, result):
-        elapsed_time = time() - self._time
-        self.iter_time.append(elapsed_time)
-        self._time = time()
+        now = time()
+        self.iter_time.append(now - self._time)
+        self._time = now
 
         if result.x_iters:
             time_remaining = self.total_time - np.sum(self.iter_time)
-- 
2.43.0


From b989684a1e0f600466166fa34fcd6df58a3cd1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 28/32] fix: one Sobol generator can make designs in several
 threads at the same time

---
 skopt/sampler/sobol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/sampler/sobol.py b/skopt/sampler/sobol.py
index a148003..651af26 100644
--- a/skopt/sampler/sobol.py
+++ b/skopt/sampler/sobol.py
@@ -18,6 +18,7 @@
 from __future__ import division
 
 import warnings
+from copy import deepcopy
 
 import numpy as np
 from .base import InitialPointGenerator
@@ -261,9 +262,12 @@ class Sobol(InitialPointGenerator):
         space.set_transformer("normalize")
         r = np.full((n_samples, n_dim), np.nan)
 
+        # the walk along the sequence keeps its state in the instance, which
+        # other optimizers may use at the same time
+        walk = deepcopy(self)
         seed = self.skip
         for j in range(n_samples):
-            r[j, 0:n_dim], seed = self._sobol(n_dim, seed)
+            r[j, 0:n_dim], seed = walk._sobol(n_dim, seed)
 
         if self.randomize:
             r = _random_shift(r, rng)
-- 
2.43.0


From c6b4592e95cfda3234309157d18fef1768c4a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 29/32] fix: a Halton design can be made with only one of the
 two skips given

---
 skopt/sampler/halton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/sampler/halton.py b/skopt/sampler/halton.py
index 7a3eeb8..1afa0a4 100644
--- a/skopt/sampler/halton.py
+++ b/skopt/sampler/halton.py
@@ -90,7 +90,7 @@ class Halton(InitialPointGenerator):
         elif self.min_skip < 0 and self.max_skip < 0:
             skip = max(primes)
         elif self.min_skip < 0 or self.max_skip < 0:
-            skip = np.max(self.min_skip, self.max_skip)
+            skip = max(self.min_skip, self.max_skip)
         else:
             skip = rng.randint(self.min_skip, self.max_skip)
 
-- 
2.43.0


From 90babb0245ed8fa2ac0294e339c9642b98469c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 30/32] fix: Halton and Hammersly designs ignore bases they do
 not need

---
 skopt/sampler/halton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/sampler/halton.py b/skopt/sampler/halton.py
index 1afa0a4..8f2c1b4 100644
--- a/skopt/sampler/halton.py
+++ b/skopt/sampler/halton.py
@@ -82,7 +82,8 @@ class Halton(InitialPointGenerator):
                 primes = _create_primes(prime_order)
                 prime_order *= 2
 
-            primes = primes[:n_dim]
+        # more bases than dimensions, one is not needed by Hammersly
+        primes = primes[:n_dim]
         assert len(primes) == n_dim, "not enough primes"
 
         if self.min_skip == self.max_skip:
-- 
2.43.0


From f781701bba215c0468dae86705a70f72846967a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 31/32] fix: numeric categories that are not encoded are not
 clipped to [0, 1]

---
 skopt/space/space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 0c802de..14c8228 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -738,6 +738,9 @@ class Categorical(Dimension):
     def transformed_bounds(self):
         if self.transform_ == "label":
             return 0.0, float(len(self.categories) - 1)
+        elif self.transform_ == "identity" and all(
+                isinstance(c, numbers.Real) for c in self.categories):
+            return float(min(self.categories)), float(max(self.categories))
         elif self.transformed_size == 1:
             return 0.0, 1.0
         else:
-- 
2.43.0


From 3bc9cbff9a9cc9d9e02f55f8666004c96cb964b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 32/32] fix: the expected minimum of a result with a surrogate
 of objective and time

---
 skopt/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index 6e172a0..01e43a0 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -271,7 +271,8 @@ def expected_minimum(res, n_random_starts=20, random_state=None):
     def func(x):
         reg = res.models[-1]
         x = res.space.transform(x.reshape(1, -1))
-        return reg.predict(x.reshape(1, -1))[0]
+        # a surrogate of objective and time predicts both
+        return np.ravel(reg.predict(x.reshape(1, -1)))[0]
 
     xs = [res.x]
     if n_random_starts > 0:
@@ -327,6 +328,9 @@ def expected_minimum_random_sampling(res, n_random_starts=100000,
     # make estimations with surrogate
     model = res.models[-1]
     y_random = model.predict(res.space.transform(random_samples))
+    if np.ndim(y_random) == 2:
+        # a surrogate of objective and time predicts both
+        y_random = y_random[:, 0]
     index_best_objective = np.argmin(y_random)
     min_x = random_samples[index_best_objective]
 
-- 
2.43.0

