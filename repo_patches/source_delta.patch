From b99b3e485db4d17a6ce04af31365384f1e1f606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 01/60] fix: treat scalar NaN/NaT/NA start and end as missing
 in layer

---
 staircase/core/layering.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 82c0505..b44b4c6 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -73,13 +73,17 @@ def _convert_to_series(vec: Any) -> pd.Series:
     return vec
 
 
+def _is_missing(x):
+    return not is_list_like(x) and pd.isna(x)
+
+
 def _preprocess_layer_args(frame, start, end, value):
-    if isinstance(start, NegInf):
-        start = None
-    if isinstance(end, Inf):
-        end = None
     if frame is not None:
         start, end, value = _extract_from_frame(frame, start, end, value)
+    if isinstance(start, NegInf) or _is_missing(start):
+        start = None
+    if isinstance(end, Inf) or _is_missing(end):
+        end = None
     if value is None:
         value = 1
     return start, end, value
-- 
2.43.0


From b362dc7c6275c9894fd2571c8fd9da885144c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 02/60] fix: drop cancelled step points when scalar layering
 leaves none

---
 staircase/core/layering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index b44b4c6..1a68790 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -133,6 +133,9 @@ def _layer_scalar(self, start, end, value):
     if len(deltas) > 0:
         self._data = deltas.sort_index().to_frame()
         self._valid_deltas = True
+    else:
+        self._data = None
+        self._valid_deltas = False
     self._valid_values = False
     return self
 
-- 
2.43.0


From 3c8f9d312c5e91fc5eb42f4ebed77b95de284fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 03/60] fix: layer unsigned, boolean and narrow numpy values
 without wrap-around

---
 staircase/core/layering.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 1a68790..5ab094b 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -102,6 +102,16 @@ def _extract_from_frame(frame=None, start=None, end=None, value=None):
     return start, end, value
 
 
+def _widen(value):
+    # unsigned, boolean and narrow numpy types cannot be negated or summed safely
+    value = np.asarray(value)
+    if value.dtype.kind in "bi" or (value.dtype.kind == "u" and value.itemsize < 8):
+        return value.astype("int64")
+    if value.dtype.kind in "uf":
+        return value.astype("float64")
+    return value
+
+
 def _layer_scalar(self, start, end, value):
     _check_args_types(start, end)
 
@@ -177,8 +187,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
     self._clear_cache()
     start, end, value = _preprocess_layer_args(frame, start, end, value)
     if not any(list(map(is_list_like, (start, end, value)))):
-        return _layer_scalar(self, start, end, value)
-    value = np.array(value)
+        return _layer_scalar(self, start, end, _widen(value).item())
+    value = _widen(value)
     assert not pd.isna(value).any(), "value parameter cannot contain null values"
     start = _convert_to_series(start)
     end = _convert_to_series(end)
-- 
2.43.0


From 03d2405dd2a07a8a7c94e4e1c1ae220a52cac195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 04/60] fix: derive step changes before vector layering moves
 the initial value

---
 staircase/core/layering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 5ab094b..7ce5517 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -195,6 +195,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
     _check_args_dtypes(start, end)  # conversion to Series required before checking
     df = pd.concat([start, end], axis=1, ignore_index=True)
     start_series = pd.Series(value, index=df.iloc[:, 0])
+    if self._data is not None:
+        self._get_deltas()  # must be derived before initial_value changes
     self.initial_value += start_series[start_series.index.isna()].sum()
     if self._data is None:
         to_concat = [
-- 
2.43.0


From bea6cd9b0a6362b9b7ac6684569469c517424fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 05/60] fix: layering onto a partly undefined function keeps it
 undefined there

---
 staircase/core/layering.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 7ce5517..9074eee 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -14,6 +14,7 @@ from pandas.api.types import (
     is_timedelta64_dtype,
 )
 
+import staircase as sc
 from staircase.constants import Inf, NegInf
 from staircase.docstrings import examples
 from staircase.util._decorators import Appender
@@ -150,6 +151,17 @@ def _layer_scalar(self, start, end, value):
     return self
 
 
+def _layer_partly_undefined(self, start, end, value, frame):
+    # points where self is undefined stay undefined
+    layers = sc.Stairs(closed=self.closed).layer(start, end, value, frame)
+    result = self + layers
+    self.initial_value = result.initial_value
+    self._data = result._data
+    self._valid_deltas = result._valid_deltas
+    self._valid_values = result._valid_values
+    return self
+
+
 @Appender(examples.layer_example, join="\n", indents=1)
 def layer(self, start=None, end=None, value=None, frame=None):
     """
@@ -185,6 +197,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
     if self._data is None and np.isnan(self.initial_value):
         return self
     self._clear_cache()
+    if self._data is not None and self._has_na():
+        return _layer_partly_undefined(self, start, end, value, frame)
     start, end, value = _preprocess_layer_args(frame, start, end, value)
     if not any(list(map(is_list_like, (start, end, value)))):
         return _layer_scalar(self, start, end, _widen(value).item())
-- 
2.43.0


From e1f721695c66beed3eb1a2c85ae1ecb5dd494f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 06/60] fix: do not keep narrow numpy scalars as initial value

---
 staircase/core/stairs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 934ae06..d32e1f3 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -73,6 +73,8 @@ class Stairs:
         self._valid_values = False
         self._masked = False
         self._closed = closed
+        if isinstance(initial_value, np.generic):
+            initial_value = initial_value.item()  # numpy scalars may be narrow
         self.initial_value = initial_value
         self._clear_cache()
 
@@ -141,8 +143,7 @@ class Stairs:
             values = values.replace([np.inf], np.nan)
             warnings.warn("Infinity values detected and have been converted to NaN")
 
-        new_instance = cls(closed=closed)
-        new_instance.initial_value = initial_value
+        new_instance = cls(initial_value=initial_value, closed=closed)
         new_instance._data = values.to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
-- 
2.43.0


From 1e7c87549a594984cd7231af130fa27b87ffb5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 07/60] fix: from_values keeps a private, minimal, wide copy of
 finite values

---
 staircase/core/layering.py | 11 +----------
 staircase/core/stairs.py   | 12 ++++++++----
 staircase/util/__init__.py | 10 ++++++++++
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 9074eee..f703bc8 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -17,6 +17,7 @@ from pandas.api.types import (
 import staircase as sc
 from staircase.constants import Inf, NegInf
 from staircase.docstrings import examples
+from staircase.util import _widen
 from staircase.util._decorators import Appender
 
 
@@ -103,16 +104,6 @@ def _extract_from_frame(frame=None, start=None, end=None, value=None):
     return start, end, value
 
 
-def _widen(value):
-    # unsigned, boolean and narrow numpy types cannot be negated or summed safely
-    value = np.asarray(value)
-    if value.dtype.kind in "bi" or (value.dtype.kind == "u" and value.itemsize < 8):
-        return value.astype("int64")
-    if value.dtype.kind in "uf":
-        return value.astype("float64")
-    return value
-
-
 def _layer_scalar(self, start, end, value):
     _check_args_types(start, end)
 
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index d32e1f3..d7f7df4 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -28,7 +28,7 @@ from staircase.core import stats
 from staircase.core.accessor import CachedAccessor
 from staircase.core.layering import _check_args_dtypes
 from staircase.plotting.accessor import PlotAccessor
-from staircase.util import _replace_none_with_infs
+from staircase.util import _replace_none_with_infs, _widen
 from staircase.util._decorators import Appender
 
 
@@ -138,16 +138,20 @@ class Stairs:
         if not values.index.is_monotonic_increasing:
             raise ValueError("Series index must be monotonic")
 
+        if pd.api.types.is_extension_array_dtype(values):
+            values = values.astype("float64")
         series_values_inf_mask = np.isinf(values)
         if series_values_inf_mask.any():
-            values = values.replace([np.inf], np.nan)
+            values = values.replace([np.inf, -np.inf], np.nan)
             warnings.warn("Infinity values detected and have been converted to NaN")
 
         new_instance = cls(initial_value=initial_value, closed=closed)
-        new_instance._data = values.to_frame("value")
+        new_instance._data = pd.DataFrame(
+            {"value": _widen(values)}, index=values.index
+        )
         new_instance._valid_deltas = False
         new_instance._valid_values = True
-        return new_instance
+        return new_instance._remove_redundant_step_points()
 
     def _has_na(self) -> bool | np.array:
         return np.isnan(self._data.values).any() or np.isnan(self.initial_value)
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 45982a3..c1cb194 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -22,6 +22,16 @@ def _is_datetime_like(x):
     )
 
 
+def _widen(value):
+    # unsigned, boolean and narrow numpy types cannot be negated or summed safely
+    value = np.asarray(value)
+    if value.dtype.kind in "bi" or (value.dtype.kind == "u" and value.itemsize < 8):
+        return value.astype("int64")
+    if value.dtype.kind in "uf":
+        return value.astype("float64")
+    return value
+
+
 def _sanitize_binary_operands(self, other, copy_other=False):
     if not isinstance(self, sc.Stairs):
         self = sc.Stairs(initial_value=self, closed=other.closed)
-- 
2.43.0


From 9893753686c373628180a73ffda9879f441d2fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 08/60] fix: scalar division never yields -inf, scalar products
 and quotients are minimal

---
 staircase/core/ops/arithmetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 5c1ebb3..9c8f0e5 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -117,14 +117,14 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
             else:
                 data = pd.DataFrame({"value": series_op(self._get_values(), other)})
                 if series_op in (pd.Series.divide, pd.Series.rdiv):
-                    data = data.replace(np.inf, np.nan)
+                    data = data.replace([np.inf, -np.inf], np.nan)
             initial_value = float_op(self.initial_value, other)
             initial_value = initial_value if np.isfinite(initial_value) else np.nan
             return sc.Stairs._new(
                 initial_value=initial_value,
                 data=data,
                 closed=self.closed,
-            )
+            )._remove_redundant_step_points()
 
         self, other = _sanitize_binary_operands(self, other)
         if other._data is None:
-- 
2.43.0


From 7e72b13c9f934e25823c7610a6fd06cfeef5b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 09/60] fix: adding a constant to a function undefined towards
 -inf moves its steps too

---
 staircase/core/ops/arithmetic.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 9c8f0e5..f8b4e3a 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -53,6 +53,11 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
         elif other._data is None:  # means self._data is not None
             if np.isnan(other.initial_value):
                 data = None
+            elif np.isnan(self.initial_value):
+                # the first step change is then a value itself
+                data = pd.DataFrame(
+                    {"value": series_op(self._get_values(), other.initial_value)}
+                )
             else:
                 data = self._data.copy()
                 if self._valid_values:
@@ -65,6 +70,10 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
         elif self._data is None:  # means other._data is not None
             if np.isnan(self.initial_value):
                 data = None
+            elif np.isnan(other.initial_value):
+                data = pd.DataFrame(
+                    {"value": series_rop(other._get_values(), self.initial_value)}
+                )
             else:
                 data = other._data.copy()
                 if other._valid_values:
-- 
2.43.0


From 37f2dc29bf2b70aff4b97f0d3eb4a0218e6a8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 10/60] fix: limit honours include_index for scalars and
 step-free functions

---
 staircase/core/sampling.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/staircase/core/sampling.py b/staircase/core/sampling.py
index e0eaa3b..ec6007c 100644
--- a/staircase/core/sampling.py
+++ b/staircase/core/sampling.py
@@ -79,19 +79,24 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
     assert side in ("left", "right")
     passed_x = x
     if self._data is None:
-        if pd.api.types.is_list_like(x):
-            return self.initial_value * np.ones_like(x, dtype=float)
+        if is_list_like(x):
+            values = np.full(len(x), self.initial_value, dtype=float)
         else:
-            return self.initial_value
-    amended_values = np.append(
-        self._get_values().values, [self.initial_value]
-    )  # hack for -1 index value
-    if pd.api.types.is_list_like(x) and _is_datetime_like(next(iter(x))):
-        x = pd.Series(x).values  # faster, but also bug free in numpy
-    elif _is_datetime_like(x):
-        x = pd.Series([x]).values[0]
-    values = amended_values[np.searchsorted(self._data.index.values, x, side=side) - 1]
+            values = self.initial_value
+    else:
+        amended_values = np.append(
+            self._get_values().values, [self.initial_value]
+        )  # hack for -1 index value
+        if is_list_like(x) and _is_datetime_like(next(iter(x))):
+            x = pd.Series(x).values  # faster, but also bug free in numpy
+        elif _is_datetime_like(x):
+            x = pd.Series([x]).values[0]
+        values = amended_values[
+            np.searchsorted(self._data.index.values, x, side=side) - 1
+        ]
     if include_index:
+        if not is_list_like(passed_x):
+            passed_x = [passed_x]
         values = pd.Series(values, index=passed_x)
     return values
 
-- 
2.43.0


From 675f4493a76ef9a89d24929523e350c85dffdf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 11/60] fix: evaluate step functions at an empty vector of
 points

---
 staircase/core/sampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/sampling.py b/staircase/core/sampling.py
index ec6007c..c5237b6 100644
--- a/staircase/core/sampling.py
+++ b/staircase/core/sampling.py
@@ -83,6 +83,8 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
             values = np.full(len(x), self.initial_value, dtype=float)
         else:
             values = self.initial_value
+    elif is_list_like(x) and len(x) == 0:
+        values = np.array([], dtype=float)
     else:
         amended_values = np.append(
             self._get_values().values, [self.initial_value]
-- 
2.43.0


From d8387a0cc2f68148df708182562caf402c7899d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 12/60] fix: comparisons with a constant return numeric, not
 object, values

---
 staircase/core/ops/relational.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 7e37928..b56c4d8 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -40,18 +40,18 @@ def _make_relational_func(
             if other._data is None:  # self._data exists
                 values = self._get_values()
                 new_values = numpy_relational(values, other.initial_value)
-                new_values[values.isna()] = np.nan
+                new_values = new_values.astype(float).mask(values.isna())
                 new_index = self._data.index
             else:  # other._data exists
                 values = other._get_values()
                 new_values = numpy_relational(self.initial_value, values)
-                new_values[values.isna()] = np.nan
+                new_values = new_values.astype(float).mask(values.isna())
                 new_index = other._data.index
 
             new_instance = sc.Stairs._new(
                 initial_value=initial_value,
                 data=pd.DataFrame(
-                    {"value": new_values * 1},
+                    {"value": new_values},
                     index=new_index,
                 ),
                 closed=self.closed,
-- 
2.43.0


From 41302eaf8745209e75ff38a0929bbf50e13c914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 13/60] fix: comparisons with a numpy scalar on the left return
 step functions

---
 staircase/core/stairs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index d7f7df4..7694522 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -57,6 +57,9 @@ class Stairs:
 
     class_name = "Stairs"
 
+    # numpy scalars (but not arrays) defer to the reflected methods of Stairs
+    __array_priority__ = -1.0
+
     @Appender(docstrings.Stairs_docstring, join="\n", indents=2)
     def __init__(
         self,
-- 
2.43.0


From 645b788b103578f9ef2a1dde430cd49f52828c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 14/60] fix: logical operators with a constant stay undefined
 where the operand is

---
 staircase/core/ops/logical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/logical.py b/staircase/core/ops/logical.py
index 1271d40..d3bc97f 100644
--- a/staircase/core/ops/logical.py
+++ b/staircase/core/ops/logical.py
@@ -48,7 +48,7 @@ def _make_logical_func(docstring, array_op, float_op):
         if np.isnan(other):
             return sc.Stairs._new(np.nan, None, closed=self.closed)
         elif other == 0:
-            return sc.Stairs._new(0, None, closed=self.closed)
+            return self * 0
         else:
             return self.make_boolean()
 
@@ -58,7 +58,7 @@ def _make_logical_func(docstring, array_op, float_op):
         elif other == 0:
             return self.make_boolean()
         else:
-            return sc.Stairs._new(1, None, closed=self.closed)
+            return self * 0 + 1
 
     def _op_with_scalar_xor(self, other):
         if np.isnan(other):
-- 
2.43.0


From 692c5bce591dfa8263ab92eaed911532cff3d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 15/60] fix: treat missing and float infinities as unrestricted
 window bounds

---
 staircase/core/ops/masking.py | 3 +--
 staircase/util/__init__.py    | 8 ++++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 9c9186f..2487947 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -105,14 +105,13 @@ def _mask_stairs(self, other, inverse):
 def _make_mask_or_where_func(docstring, which):
     @convert_string_args_to_timestamp
     def handle_tuple_mask(self, left, right):
+        left, right = _replace_none_with_infs((left, right))
         return _mask_stairs(
             self, sc.Stairs().layer(start=left, end=right), inverse=False
         )
 
     @convert_string_args_to_timestamp
     def handle_tuple_where(self, left, right):
-        left = -inf if left is None else left
-        right = inf if right is None else right
         return clip(self, lower=left, upper=right)
 
     handle_tuple_func = {"mask": handle_tuple_mask, "where": handle_tuple_where}[which]
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index c1cb194..dcc7d97 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -64,12 +64,16 @@ def _get_lims(stairs, closed):
         }[closed]
 
 
+def _is_unbounded(bound, float_inf):
+    return pd.isna(bound) or (pd.api.types.is_number(bound) and bound == float_inf)
+
+
 def _replace_none_with_infs(tuple_):
     if tuple_ == (-inf, inf):
         return tuple_
     left, right = tuple_
-    if left is None:
+    if _is_unbounded(left, -np.inf):
         left = -inf
-    if right is None:
+    if _is_unbounded(right, np.inf):
         right = inf
     return (left, right)
-- 
2.43.0


From aa3e7bcb9de0818f2ad60cb2a2f80b4898399940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 16/60] fix: masking keeps the closed side of the receiver

---
 staircase/core/ops/masking.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 2487947..2ad50e2 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -96,7 +96,7 @@ def _mask_stairs(self, other, inverse):
     full_mask_comparator = is_full_inverse_mask if inverse else float(0).__ne__
     if other._data is None:
         if full_mask_comparator(other.initial_value):
-            return sc.Stairs(initial_value=np.nan)
+            return sc.Stairs(initial_value=np.nan, closed=self.closed)
         else:
             return self.copy()
     return _maskify(other, inverse=inverse) + self
@@ -107,7 +107,9 @@ def _make_mask_or_where_func(docstring, which):
     def handle_tuple_mask(self, left, right):
         left, right = _replace_none_with_infs((left, right))
         return _mask_stairs(
-            self, sc.Stairs().layer(start=left, end=right), inverse=False
+            self,
+            sc.Stairs(closed=self.closed).layer(start=left, end=right),
+            inverse=False,
         )
 
     @convert_string_args_to_timestamp
-- 
2.43.0


From 88bc13e83231ff6a238b420bd94c01432b7872ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 17/60] fix: where is undefined where its argument is undefined
 towards -inf

---
 staircase/core/ops/masking.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 2ad50e2..f9143b3 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -1,5 +1,4 @@
 import bisect
-import operator
 
 import numpy as np
 import pandas as pd
@@ -73,7 +72,9 @@ def clip(self, lower=-inf, upper=inf):
 
 def _maskify(self, inverse=False):
     func = np.array(0).__eq__ if not inverse else np.array(0).__ne__
-    op = operator.ne if not inverse else operator.eq
+
+    def is_masked(initial_value):
+        return np.isnan(initial_value) or not func(initial_value)
 
     if self._data is None:
         data = None
@@ -83,7 +84,7 @@ def _maskify(self, inverse=False):
         )
 
     return sc.Stairs._new(
-        initial_value=np.nan if op(self.initial_value, 0) else 0,
+        initial_value=np.nan if is_masked(self.initial_value) else 0,
         data=data,
         closed=self.closed,
     )
-- 
2.43.0


From 3427dc4455d0c194fd7bc6a48f852b6cc385f97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 18/60] fix: masking is minimal and checks closed sides before
 anything is dropped

---
 staircase/core/ops/masking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index f9143b3..50adf17 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -87,9 +87,10 @@ def _maskify(self, inverse=False):
         initial_value=np.nan if is_masked(self.initial_value) else 0,
         data=data,
         closed=self.closed,
-    )
+    )._remove_redundant_step_points()
 
 
+@requires_closed_match
 def _mask_stairs(self, other, inverse):
     def is_full_inverse_mask(initial_value):
         return initial_value == 0 or np.isnan(initial_value)
-- 
2.43.0


From 25dd37704611b6c5538f1333d6c08614da083e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 19/60] fix: unrestricted clip returns a new step function

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 50adf17..2028ac9 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -37,7 +37,7 @@ def clip(self, lower=-inf, upper=inf):
     if not lower < upper:
         raise ValueError("'lower' must be strictly less than 'upper'.")
     if lower == -inf and upper == inf:
-        return self
+        return self.copy()
     left_index, right_index = _get_slice_index(
         self, lower, upper, lower_how="right", upper_how="left"
     )
-- 
2.43.0


From a0a48df164ae30e9036a898d8b93b0cc96586b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 20/60] fix: fillna with a step function only looks at it where
 needed

---
 staircase/core/ops/masking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 2028ac9..db81959 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -208,7 +208,8 @@ def _make_data_fillna_scalar(self, value):
 @requires_closed_match
 def _fillna_with_stairs(self, value):
     # value is Stairs
-    return self.fillna(0) + value * self.isna()
+    filled = self.fillna(0) + value.fillna(0) * self.isna()
+    return filled.mask(self.isna() & value.isna())
 
 
 # TODO: test
-- 
2.43.0


From 464cbc84e6cc05392a687a345bae503ffa9192bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 21/60] fix: masking by a step-free function tests its value,
 whatever its numeric type

---
 staircase/core/ops/masking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index db81959..ae5c36b 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -95,7 +95,10 @@ def _mask_stairs(self, other, inverse):
     def is_full_inverse_mask(initial_value):
         return initial_value == 0 or np.isnan(initial_value)
 
-    full_mask_comparator = is_full_inverse_mask if inverse else float(0).__ne__
+    def is_full_mask(initial_value):
+        return initial_value != 0  # also true for NaN
+
+    full_mask_comparator = is_full_inverse_mask if inverse else is_full_mask
     if other._data is None:
         if full_mask_comparator(other.initial_value):
             return sc.Stairs(initial_value=np.nan, closed=self.closed)
-- 
2.43.0


From c376aa4077436e444e369ec5b41773a494a13acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 22/60] fix: fillna with a boolean or numpy scalar keeps float
 values

---
 staircase/core/ops/masking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index ae5c36b..15e8dda 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -195,6 +195,7 @@ def _make_data_fillna_method(self, value):
 
 
 def _make_data_fillna_scalar(self, value):
+    value = float(value)  # booleans would turn the values into objects
     if np.isnan(self.initial_value):
         initial_value = value
     else:
-- 
2.43.0


From 98ef31aae91d1453e02bb0af3762277d37f85f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 23/60] fix: keep a boolean initial value as a number

---
 staircase/core/stairs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 7694522..f2ce107 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -78,6 +78,8 @@ class Stairs:
         self._closed = closed
         if isinstance(initial_value, np.generic):
             initial_value = initial_value.item()  # numpy scalars may be narrow
+        if isinstance(initial_value, bool):
+            initial_value = int(initial_value)
         self.initial_value = initial_value
         self._clear_cache()
 
-- 
2.43.0


From 6547c626e962faa4bebf385758fde7d961c30cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 24/60] fix: describe reports numbers instead of bound methods

---
 staircase/core/stairs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index f2ce107..dcc3823 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -615,12 +615,12 @@ class Stairs:
             {
                 **{
                     "unique": stairs.percentile.clip(0, 100).number_of_steps - 1,
-                    "mean": stairs.mean,
-                    "std": stairs.std,
-                    "min": stairs.min,
+                    "mean": stairs.mean(),
+                    "std": stairs.std(),
+                    "min": stairs.min(),
                 },
                 **{f"{perc}%": stairs.percentile(perc) for perc in percentiles},
-                **{"max": stairs.max},
+                **{"max": stairs.max()},
             }
         )
 
-- 
2.43.0


From 01c99d8da1dc7bea768f636fc4725d8b2cb60cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 25/60] fix: density histograms over datetime domains are
 numbers for all bin widths

---
 staircase/core/stats/distribution.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index eb3e05f..c382d8a 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -83,14 +83,14 @@ class ECDF(sc.core.stairs.Stairs):
         )
 
         # inspired by seaborn.histplot
-        if stat != "probability":
+        widths = bins.map(lambda i: i.right - i.left)
+        if stat == "density":
+            # scale invariant, hence no need to multiply by lengths (or timedeltas)
+            values = values / np.dot(values, widths)
+        elif stat != "probability":
             values = values * self._denormalize_probability_factor
-            if stat in ("frequency", "density"):
-                widths = bins.map(lambda i: i.right - i.left)
-                if stat == "frequency":
-                    values = values / widths
-                elif stat == "density":
-                    values = values / np.dot(values, widths)
+            if stat == "frequency":
+                values = values / widths
 
         return pd.Series(
             data=values,
-- 
2.43.0


From ee4c04e4095c712b7733ffef4cefa99f527ae495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 26/60] fix: values_in_range never reports an undefined value

---
 staircase/core/stats/statistic.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 0efc100..0ba825e 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -119,10 +119,11 @@ def values_in_range(self, where=(-inf, inf), closed=None):
     lower_how, upper_how = _get_lims(self, closed)
     left_index, right_index = _get_slice_index(self, lower, upper, lower_how, upper_how)
     if right_index == -1:
-        return np.array([self.initial_value])
-    values = self._get_values().iloc[max(0, left_index) : right_index]
-    if left_index < 0 and not np.isnan(self.initial_value):
-        values = np.append([self.initial_value], values)
+        values = np.array([self.initial_value])
+    else:
+        values = self._get_values().iloc[max(0, left_index) : right_index]
+        if left_index < 0 and not np.isnan(self.initial_value):
+            values = np.append([self.initial_value], values)
     unique = np.unique(values)
     return unique[~np.isnan(unique)]
 
@@ -135,7 +136,7 @@ def _min(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return min(self.values_in_range(where, closed))
+    return min(self.values_in_range(where, closed), default=np.nan)
 
 
 def _max(
@@ -146,7 +147,7 @@ def _max(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return max(self.values_in_range(where, closed))
+    return max(self.values_in_range(where, closed), default=np.nan)
 
 
 @Appender(docstrings.agg_docstring, join="\n", indents=1)
-- 
2.43.0


From c96db4cd361e17f9af710ce2c0d157e8feb0a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 27/60] fix: mean and integral are NaN, for every domain,
 without a finite defined piece

---
 staircase/core/stats/statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 0ba825e..c4828c7 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -19,6 +19,9 @@ def _cache_integral_and_mean(self):
     else:
         value_sums = self.value_sums(group=False)
         value_sums = value_sums[value_sums.index.notnull()]
+        if value_sums.empty:
+            self._integral_and_mean = np.nan, np.nan
+            return
         try:
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
-- 
2.43.0


From f9784f5c1f256048a36c5f2890bb4392af3af90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 28/60] fix: slicer min and max ignore undefined endpoints

---
 staircase/core/slicing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index f2eee8a..1b12309 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -51,12 +51,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.right))
+            result = np.fmax(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.left))
+            result = np.fmax(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings._docstrings["min"], join="\n", indents=1)
@@ -66,12 +66,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.right))
+            result = np.fmin(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.left))
+            result = np.fmin(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
-- 
2.43.0


From 5a65e234292ca18164868de65c8bab23d54806ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 29/60] fix: slicer hist fills missing bins with the kind of
 number the chosen stat has

---
 staircase/core/slicing.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 1b12309..cba77d3 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -4,7 +4,7 @@ from typing import Callable
 
 import numpy as np
 import pandas as pd
-from pandas.api.types import is_list_like
+from pandas.api.types import is_list_like, is_timedelta64_dtype
 from typing_extensions import Literal
 
 import staircase as sc
@@ -77,10 +77,13 @@ class StairsSlicer:
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
     def hist(self, *args, **kwargs):
         self._ensure_slices()
-        zero = (
-            self._stairs._data.index[0] - self._stairs._data.index[0]
-        )  # hack to get 0 or pd.Timedelta(0)
-        return self._slices.apply(sc.Stairs.hist, *args, **kwargs).fillna(zero)
+        hists = self._slices.apply(sc.Stairs.hist, *args, **kwargs)
+        # bins beyond the range of a slice hold either 0 or pd.Timedelta(0)
+        return hists.apply(
+            lambda column: column.fillna(
+                pd.Timedelta(0) if is_timedelta64_dtype(column) else 0
+            )
+        )
 
     @Appender(docstrings.resample_docstring, join="\n", indents=1)
     def resample(self, func: str):
-- 
2.43.0


From 2ac37b6b68635f48e96681e1dc91c3b542da6640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 30/60] fix: resample leaves slices undefined where the
 statistic is

---
 staircase/core/slicing.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index cba77d3..9790097 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -96,12 +96,18 @@ class StairsSlicer:
         left_bound = self._slices.index.left.min()
         right_bound = self._slices.index.right.max()
         stairs_na = self._stairs.isna().mask((left_bound, right_bound)).fillna(0)
-        return (
-            self._stairs.mask((left_bound, right_bound))
-            .fillna(0)
-            .mask(stairs_na)
-            .layer(new_values.index.left, new_values.index.right, new_values.values)
+        result = (
+            self._stairs.mask((left_bound, right_bound)).fillna(0).mask(stairs_na)
         )
+        undefined = new_values.index[new_values.isnull()]
+        new_values = new_values.dropna()
+        if not new_values.empty:
+            result.layer(
+                new_values.index.left, new_values.index.right, new_values.values
+            )
+        for interval in undefined:
+            result = result.mask((interval.left, interval.right))
+        return result
 
 
 def make_slice_method(method_name: str) -> Callable:
-- 
2.43.0


From d76d4500909b6d479619f8797e11f94567334e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 31/60] fix: variance of a single value is exactly zero

---
 staircase/core/stats/statistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index c4828c7..dd04916 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -95,6 +95,8 @@ def mode(self):
 
 @Appender(docstrings.var_docstring, join="\n", indents=1)
 def var(self):
+    if len(self.value_sums()) == 1:
+        return 0.0  # the mean of a single value may not be exactly that value
     percentile_minus_mean = self.dist.percentile - mean(self)
     values = percentile_minus_mean._get_values()
     squared_values = values * values
-- 
2.43.0


From acbf27f19602bf10d952400c41ece3d4ad797286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 32/60] fix: shift keeps the closed side of a step-free
 function

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index dcc3823..ef64bce 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -647,7 +647,7 @@ class Stairs:
         Stairs.diff
         """
         if self._data is None:
-            return Stairs(initial_value=self.initial_value)
+            return Stairs(initial_value=self.initial_value, closed=self.closed)
         return Stairs._new(
             initial_value=self.initial_value,
             data=self._data.set_index(self._data.index + delta),
-- 
2.43.0


From 8ba32cbe479d7edb3745a875aa009b44bbdda44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 33/60] fix: window bounds may mix numpy and python flavours of
 date

---
 staircase/core/ops/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/common.py b/staircase/core/ops/common.py
index 1a8660e..0dabdc6 100644
--- a/staircase/core/ops/common.py
+++ b/staircase/core/ops/common.py
@@ -132,8 +132,10 @@ def requires_closed_match(func):
 
 def convert_string_args_to_timestamp(func):
     def convert_str(arg):
-        if isinstance(arg, str):
+        if isinstance(arg, (str, np.datetime64)):
             return pd.Timestamp(arg)
+        if isinstance(arg, np.timedelta64):
+            return pd.Timedelta(arg)
         return arg
 
     @functools.wraps(func)
-- 
2.43.0


From 79f17334ee53d42e3c26fcc0b676d45bbfc96756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 34/60] fix: aggregations of step-free members, with the closed
 side of members with steps, and a plain initial value

---
 staircase/core/arrays/extension.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index d1d7bcb..a59310c 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -16,6 +16,7 @@ from pandas.core.dtypes.inference import is_dict_like, is_list_like
 
 from staircase.constants import inf
 from staircase.core.arrays import docstrings
+from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.stairs import Stairs
 from staircase.core.stats.statistic import corr as _corr
 from staircase.core.stats.statistic import cov as _cov
@@ -163,12 +164,21 @@ class StairsArray(ExtensionArray):
 
     @Appender(docstrings.make_docstring("array", "agg"), join="\n", indents=1)
     def agg(self, func):
+        with_steps = [s for s in self.data if s.number_of_steps]
+        for s in with_steps[1:]:
+            _assert_closeds_equal(with_steps[0], s)
+        closed = (with_steps[0] if with_steps else self.data[0]).closed
+        # logical reductions give an array of no dimensions, others a numpy scalar
+        initial_value = np.asarray(func([s.initial_value for s in self.data])).item()
+        if not with_steps:
+            return Stairs(initial_value=initial_value, closed=closed)
+
         index = pd.Index(
             np.unique(
                 np.concatenate(
                     [
                         s.step_changes.index  # using .step_changes.index instead of .step_points to retain timezones
-                        for s in (sf for sf in self.data if sf.number_of_steps)
+                        for s in with_steps
                     ]
                 )
             )
@@ -178,13 +188,13 @@ class StairsArray(ExtensionArray):
             new_values = new_values.astype(int)
 
         return Stairs._new(
-            initial_value=func([s.initial_value for s in self.data]),
+            initial_value=initial_value,
             data=pd.Series(
                 new_values,
                 index=index,
                 name="value",
             ).to_frame(),
-            closed=self.data[0].closed,
+            closed=closed,
         )._remove_redundant_step_points()
 
     @Appender(docstrings.make_docstring("array", "sample"), join="\n", indents=1)
-- 
2.43.0


From bfa39fdafdf5a00f8d0d08bb5815c2c47b9111e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:39 +0000
Subject: [PATCH 35/60] fix: ecdf, percentile and fractile do not hand out the
 cached step function

---
 staircase/core/stats/distribution.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index c382d8a..9665a12 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -1,4 +1,5 @@
 import math
+from copy import deepcopy
 
 import numpy as np
 import pandas as pd
@@ -119,7 +120,7 @@ class Dist:
     def ecdf(self):
         if self._ecdf is None:
             self._ecdf = ECDF.from_stairs(self._stairs)
-        return self._ecdf
+        return deepcopy(self._ecdf)  # the cached object is never handed out
 
     def hist(self, bins="unit", closed="left", stat="sum"):
         return self.ecdf.hist(bins, closed, stat)
@@ -128,13 +129,13 @@ class Dist:
     def fractile(self):
         if self._fractiles is None:
             self._fractiles = Fractiles.from_ecdf(self.ecdf)
-        return self._fractiles
+        return deepcopy(self._fractiles)
 
     @property
     def percentile(self):
         if self._percentiles is None:
             self._percentiles = Percentiles.from_ecdf(self.ecdf)
-        return self._percentiles
+        return deepcopy(self._percentiles)
 
     def quantiles(self, n):
         assert n > 0 and isinstance(n, int)
-- 
2.43.0


From 16f9dd68d1bbd09c070b53158706a383e95dacf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 36/60] fix: a slicer neither follows later layers nor hands
 out its own slices

---
 staircase/core/slicing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 9790097..05c4f99 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -16,7 +16,7 @@ from staircase.util._decorators import Appender
 
 class StairsSlicer:
     def __init__(self, stairs: sc.Stairs, interval_index):
-        self._stairs = stairs
+        self._stairs = stairs.copy()  # later layers are not sliced
         self._interval_index = interval_index
         self._slices: pd.Series | None = None
 
@@ -42,7 +42,8 @@ class StairsSlicer:
     @Appender(docstrings.apply_docstring, join="\n", indents=1)
     def apply(self, func: Callable, *args, **kwargs) -> pd.Series:
         self._ensure_slices()
-        return self._slices.apply(func, args=args, **kwargs)
+        # func gets (and may return) its own copy of each slice
+        return self._slices.apply(lambda s: func(s.copy(), *args, **kwargs))
 
     @Appender(docstrings._docstrings["max"], join="\n", indents=1)
     def max(self) -> float:
-- 
2.43.0


From 28719d13ace4eda16af503718de098f3bbfa206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 37/60] fix: relational operators take the closed side of the
 operand with steps

---
 staircase/core/ops/common.py     |  7 +++++++
 staircase/core/ops/relational.py | 10 +++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/staircase/core/ops/common.py b/staircase/core/ops/common.py
index 0dabdc6..00df956 100644
--- a/staircase/core/ops/common.py
+++ b/staircase/core/ops/common.py
@@ -121,6 +121,13 @@ def _assert_closeds_equal(stairs1, stairs2):
         raise ClosedMismatchError(stairs1, stairs2)
 
 
+def _common_closed(stairs1, stairs2):
+    # a step function without steps takes either side
+    if stairs1._data is None and stairs2._data is not None:
+        return stairs2.closed
+    return stairs1.closed
+
+
 def requires_closed_match(func):
     @functools.wraps(func)
     def wrapper(stairs1, stairs2, *args, **kwargs):
diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index b56c4d8..af4f985 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -5,7 +5,11 @@ import pandas as pd
 
 import staircase as sc
 from staircase.core.ops import docstrings
-from staircase.core.ops.common import _combine_stairs_via_values, requires_closed_match
+from staircase.core.ops.common import (
+    _combine_stairs_via_values,
+    _common_closed,
+    requires_closed_match,
+)
 from staircase.util import _sanitize_binary_operands
 from staircase.util._decorators import Appender
 
@@ -34,7 +38,7 @@ def _make_relational_func(
             return sc.Stairs._new(
                 initial_value=initial_value,
                 data=None,
-                closed=other.closed if np.isnan(self.initial_value) else self.closed,
+                closed=_common_closed(self, other),
             )
         elif self._data is None or other._data is None:
             if other._data is None:  # self._data exists
@@ -54,7 +58,7 @@ def _make_relational_func(
                     {"value": new_values},
                     index=new_index,
                 ),
-                closed=self.closed,
+                closed=_common_closed(self, other),
             )
             new_instance._remove_redundant_step_points()
             return new_instance
-- 
2.43.0


From 761699bbfcbb90d86701020524ddbfee866ecad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 38/60] fix: cov and corr of opposite-sided functions always
 raise ClosedMismatchError

---
 staircase/core/stats/statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index dd04916..a177f32 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -6,6 +6,7 @@ from pandas.api.types import is_list_like
 
 import staircase as sc
 from staircase.constants import inf
+from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.ops.masking import _get_slice_index
 from staircase.core.stats import docstrings
 from staircase.docstrings import examples
@@ -209,6 +210,7 @@ def cov(self, other, where=(-inf, inf), lag=0, clip="pre"):
     --------
     Stairs.corr, staircase.cov, staircase.corr
     """
+    _assert_closeds_equal(self, other)
     where = list(_replace_none_with_infs(where))
     if lag != 0:
         assert clip in ["pre", "post"]
@@ -257,6 +259,7 @@ def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     --------
     Stairs.cov, staircase.corr, staircase.cov
     """
+    _assert_closeds_equal(self, other)
     where = list(_replace_none_with_infs(where))
     if lag != 0:
         assert clip in ["pre", "post"]
-- 
2.43.0


From 0dfdb54c62883d9d1c3dc98842e3c2d3f0a0f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:40 +0000
Subject: [PATCH 39/60] fix: fillna with a step function takes the closed side
 of the operand with steps

---
 staircase/core/ops/masking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 15e8dda..18bbd45 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -7,6 +7,7 @@ import staircase as sc
 from staircase.constants import inf
 from staircase.core.ops import docstrings
 from staircase.core.ops.common import (
+    _common_closed,
     convert_string_args_to_timestamp,
     requires_closed_match,
 )
@@ -213,7 +214,9 @@ def _make_data_fillna_scalar(self, value):
 def _fillna_with_stairs(self, value):
     # value is Stairs
     filled = self.fillna(0) + value.fillna(0) * self.isna()
-    return filled.mask(self.isna() & value.isna())
+    filled = filled.mask(self.isna() & value.isna())
+    filled._closed = _common_closed(self, value)
+    return filled
 
 
 # TODO: test
-- 
2.43.0


From bded9e5d14a4ce105a481f2217c81b4226169e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 40/60] fix: narrow numeric and coarse datetime labels are
 widened before arithmetic on them

---
 staircase/core/layering.py |  9 +++++----
 staircase/core/stairs.py   |  4 ++--
 staircase/util/__init__.py | 21 +++++++++++++++++++++
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index f703bc8..ad131bb 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -17,7 +17,7 @@ from pandas.api.types import (
 import staircase as sc
 from staircase.constants import Inf, NegInf
 from staircase.docstrings import examples
-from staircase.util import _widen
+from staircase.util import _widen, _widen_labels
 from staircase.util._decorators import Appender
 
 
@@ -199,19 +199,20 @@ def layer(self, start=None, end=None, value=None, frame=None):
     end = _convert_to_series(end)
     _check_args_dtypes(start, end)  # conversion to Series required before checking
     df = pd.concat([start, end], axis=1, ignore_index=True)
-    start_series = pd.Series(value, index=df.iloc[:, 0])
+    start_index, end_index = (_widen_labels(pd.Index(df[col])) for col in df)
+    start_series = pd.Series(value, index=start_index)
     if self._data is not None:
         self._get_deltas()  # must be derived before initial_value changes
     self.initial_value += start_series[start_series.index.isna()].sum()
     if self._data is None:
         to_concat = [
             start_series,
-            pd.Series(-value, index=df.iloc[:, 1]),
+            pd.Series(-value, index=end_index),
         ]
     else:
         to_concat = [
             start_series,
-            pd.Series(-value, index=df.iloc[:, 1]),
+            pd.Series(-value, index=end_index),
             self._get_deltas(),
         ]
     deltas = pd.concat(to_concat)
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index ef64bce..7ad1ca8 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -28,7 +28,7 @@ from staircase.core import stats
 from staircase.core.accessor import CachedAccessor
 from staircase.core.layering import _check_args_dtypes
 from staircase.plotting.accessor import PlotAccessor
-from staircase.util import _replace_none_with_infs, _widen
+from staircase.util import _replace_none_with_infs, _widen, _widen_labels
 from staircase.util._decorators import Appender
 
 
@@ -152,7 +152,7 @@ class Stairs:
 
         new_instance = cls(initial_value=initial_value, closed=closed)
         new_instance._data = pd.DataFrame(
-            {"value": _widen(values)}, index=values.index
+            {"value": _widen(values)}, index=_widen_labels(values.index)
         )
         new_instance._valid_deltas = False
         new_instance._valid_values = True
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index dcc7d97..bededc3 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -32,6 +32,27 @@ def _widen(value):
     return value
 
 
+def _widen_labels(index):
+    # arithmetic on labels of narrow numeric types wraps around, and on
+    # datetime-like labels coarser than nanoseconds is rounded
+    dtype = index.dtype
+    if pd.api.types.is_extension_array_dtype(dtype) and not isinstance(
+        dtype, pd.DatetimeTZDtype
+    ):
+        return index
+    if dtype.kind in "biuf" and dtype not in ("int64", "float64"):
+        return pd.Index(_widen(index), name=index.name)
+    if dtype.kind in "mM" and getattr(index, "unit", "ns") != "ns":
+        try:
+            return index.as_unit("ns")
+        except (
+            pd.errors.OutOfBoundsDatetime,
+            pd.errors.OutOfBoundsTimedelta,
+        ):
+            return index
+    return index
+
+
 def _sanitize_binary_operands(self, other, copy_other=False):
     if not isinstance(self, sc.Stairs):
         self = sc.Stairs(initial_value=self, closed=other.closed)
-- 
2.43.0


From 50a21eedb3c6eb20252fd4d979b62fb1785046d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:33 +0000
Subject: [PATCH 41/60] fix: window bounds of any date flavour mix with any
 flavour of lag or window width

---
 staircase/util/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index bededc3..149c868 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -89,10 +89,19 @@ def _is_unbounded(bound, float_inf):
     return pd.isna(bound) or (pd.api.types.is_number(bound) and bound == float_inf)
 
 
+def _as_pandas_scalar(x):
+    # python and numpy dates do not mix in arithmetic
+    if isinstance(x, (datetime.datetime, np.datetime64)):
+        return pd.Timestamp(x)
+    if isinstance(x, (datetime.timedelta, np.timedelta64)):
+        return pd.Timedelta(x)
+    return x
+
+
 def _replace_none_with_infs(tuple_):
     if tuple_ == (-inf, inf):
         return tuple_
-    left, right = tuple_
+    left, right = map(_as_pandas_scalar, tuple_)
     if _is_unbounded(left, -np.inf):
         left = -inf
     if _is_unbounded(right, np.inf):
-- 
2.43.0


From 79d275073720667aab59c4437881dca7ea175cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:42 +0000
Subject: [PATCH 42/60] fix: from_values accepts a numpy boolean initial value,
 as it does a python one

---
 staircase/core/stairs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 7ad1ca8..e5786c5 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -16,6 +16,7 @@ import numpy as np
 import pandas as pd
 from pandas.api.types import (
     is_datetime64_dtype,
+    is_bool,
     is_number,
     is_numeric_dtype,
     is_timedelta64_dtype,
@@ -137,7 +138,9 @@ class Stairs:
         if is_numeric_dtype(values.index) and np.isinf(values.index).any():
             raise ValueError("Invalid value for Series index")
 
-        if not is_numeric_dtype(values) or not is_number(initial_value):
+        if not is_numeric_dtype(values) or not (
+            is_number(initial_value) or is_bool(initial_value)
+        ):
             raise ValueError("Invalid dtype for from_values()")
 
         if not values.index.is_monotonic_increasing:
-- 
2.43.0


From 197a44896a3bb6fcb7d0e1b8b3c49c6941792416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:20 +0000
Subject: [PATCH 43/60] fix: an integral that overflows does so every time it
 is asked for

---
 staircase/core/stats/statistic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index a177f32..5ff3ae6 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -46,9 +46,11 @@ def integral(self):
         try:
             _cache_integral_and_mean(self)
         except (OverflowError, ValueError):
-            raise OverflowError(
-                "Integral calculation results in overflow error.  Consider scaling down step function values to accommodate."
-            )
+            pass  # the mean is cached, with None for the integral
+    if self._integral_and_mean[0] is None:
+        raise OverflowError(
+            "Integral calculation results in overflow error.  Consider scaling down step function values to accommodate."
+        )
     return self._integral_and_mean[0]
 
 
@@ -57,7 +59,7 @@ def mean(self):
     if self._integral_and_mean is None:
         try:
             _cache_integral_and_mean(self)
-        except OverflowError:
+        except (OverflowError, ValueError):
             pass
     return self._integral_and_mean[1]
 
-- 
2.43.0


From bb0437ddd3ee8e7ef9f26bd4182444aa37779f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 44/60] fix: integer values from from_values and large integer
 constants do not wrap around or fail

---
 staircase/core/arrays/extension.py | 4 +++-
 staircase/core/stairs.py           | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index a59310c..daf16c8 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -169,7 +169,9 @@ class StairsArray(ExtensionArray):
             _assert_closeds_equal(with_steps[0], s)
         closed = (with_steps[0] if with_steps else self.data[0]).closed
         # logical reductions give an array of no dimensions, others a numpy scalar
-        initial_value = np.asarray(func([s.initial_value for s in self.data])).item()
+        initial_value = np.asarray(
+            func([float(s.initial_value) for s in self.data])
+        ).item()
         if not with_steps:
             return Stairs(initial_value=initial_value, closed=closed)
 
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index e5786c5..4fbbbea 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -81,6 +81,8 @@ class Stairs:
             initial_value = initial_value.item()  # numpy scalars may be narrow
         if isinstance(initial_value, bool):
             initial_value = int(initial_value)
+        if isinstance(initial_value, int) and abs(initial_value) >= 2**63:
+            initial_value = float(initial_value)  # not a number numpy can hold
         self.initial_value = initial_value
         self._clear_cache()
 
@@ -155,7 +157,7 @@ class Stairs:
 
         new_instance = cls(initial_value=initial_value, closed=closed)
         new_instance._data = pd.DataFrame(
-            {"value": _widen(values)}, index=_widen_labels(values.index)
+            {"value": values.astype("float64")}, index=_widen_labels(values.index)
         )
         new_instance._valid_deltas = False
         new_instance._valid_values = True
-- 
2.43.0


From b4f45eb69164168b7ffc42fdff20aa6a91f93ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:26 +0000
Subject: [PATCH 45/60] fix: products that overflow are undefined, as quotients
 are, and never infinite

---
 staircase/core/ops/arithmetic.py | 5 ++---
 staircase/core/ops/common.py     | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index f8b4e3a..bda0812 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -125,9 +125,8 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
                 data = None
             else:
                 data = pd.DataFrame({"value": series_op(self._get_values(), other)})
-                if series_op in (pd.Series.divide, pd.Series.rdiv):
-                    data = data.replace([np.inf, -np.inf], np.nan)
-            initial_value = float_op(self.initial_value, other)
+                data = data.replace([np.inf, -np.inf], np.nan)
+            initial_value = float_op(float(self.initial_value), float(other))
             initial_value = initial_value if np.isfinite(initial_value) else np.nan
             return sc.Stairs._new(
                 initial_value=initial_value,
diff --git a/staircase/core/ops/common.py b/staircase/core/ops/common.py
index 00df956..8c9cc30 100644
--- a/staircase/core/ops/common.py
+++ b/staircase/core/ops/common.py
@@ -98,8 +98,9 @@ def _combine_stairs_via_values(stairs1, stairs2, series_op, float_op):
     else:
         initial_value = float_op(stairs1.initial_value, stairs2.initial_value) * 1
 
-    if series_op == pd.Series.divide:
+    if series_op in (pd.Series.divide, pd.Series.multiply):
         values = values.replace(np.inf, np.nan).replace(-np.inf, np.nan)
+        initial_value = initial_value if np.isfinite(float(initial_value)) else np.nan
 
     new_instance = sc.Stairs._new(
         initial_value=initial_value,
-- 
2.43.0


From e27bd33db9378f43c25df67e65771085b978e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:33 +0000
Subject: [PATCH 46/60] fix: layered values are held as floats, so that large
 integers neither wrap around nor turn into objects

---
 staircase/util/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 149c868..c1bf7ed 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -23,11 +23,10 @@ def _is_datetime_like(x):
 
 
 def _widen(value):
+    # values are held as floats: integers wrap around, or turn into objects, and
     # unsigned, boolean and narrow numpy types cannot be negated or summed safely
     value = np.asarray(value)
-    if value.dtype.kind in "bi" or (value.dtype.kind == "u" and value.itemsize < 8):
-        return value.astype("int64")
-    if value.dtype.kind in "uf":
+    if value.dtype.kind in "biufO":
         return value.astype("float64")
     return value
 
@@ -41,7 +40,8 @@ def _widen_labels(index):
     ):
         return index
     if dtype.kind in "biuf" and dtype not in ("int64", "float64"):
-        return pd.Index(_widen(index), name=index.name)
+        narrow_int = dtype.kind in "bi" or (dtype.kind == "u" and dtype.itemsize < 8)
+        return index.astype("int64" if narrow_int else "float64")
     if dtype.kind in "mM" and getattr(index, "unit", "ns") != "ns":
         try:
             return index.as_unit("ns")
-- 
2.43.0


From 648710d298ea456c3fc7504bb900e6657621da9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:35 +0000
Subject: [PATCH 47/60] fix: tables of samples and limits at repeated points

---
 staircase/core/arrays/extension.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index daf16c8..d022f39 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -57,6 +57,13 @@ def _make_logical(func: Callable) -> Callable:
     return logical_func
 
 
+# points may be repeated, which rules out aligning the rows on their indexes
+def _make_table(rows: list[pd.Series]) -> pd.DataFrame:
+    return pd.DataFrame(
+        [row.values for row in rows], columns=rows[0].index if rows else None
+    )
+
+
 class StairsArray(ExtensionArray):
 
     _dtype = StairsDtype()
@@ -201,13 +208,11 @@ class StairsArray(ExtensionArray):
 
     @Appender(docstrings.make_docstring("array", "sample"), join="\n", indents=1)
     def sample(self, x) -> pd.Series:
-        array = pd.Series(self.data)
-        return array.apply(Stairs.sample, x=x, include_index=True)
+        return _make_table([s.sample(x, include_index=True) for s in self.data])
 
     @Appender(docstrings.make_docstring("array", "limit"), join="\n", indents=1)
     def limit(self, x, side="right"):
-        array = pd.Series(self.data)
-        return array.apply(Stairs.limit, x=x, side=side, include_index=True)
+        return _make_table([s.limit(x, side, include_index=True) for s in self.data])
 
     @Appender(docstrings.make_docstring("array", "logical_or"), join="\n", indents=1)
     def logical_or(self):
-- 
2.43.0


From 035f681bbfce7f0ebc1096902d123934a367b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:35 +0000
Subject: [PATCH 48/60] fix: aggregating step functions in different timezones

---
 staircase/core/arrays/extension.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index d022f39..0707729 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import numbers
 from collections.abc import Iterable
+from functools import reduce
 from typing import Any, Callable, Type
 
 import matplotlib.pyplot as plt
@@ -182,16 +183,13 @@ class StairsArray(ExtensionArray):
         if not with_steps:
             return Stairs(initial_value=initial_value, closed=closed)
 
-        index = pd.Index(
-            np.unique(
-                np.concatenate(
-                    [
-                        s.step_changes.index  # using .step_changes.index instead of .step_points to retain timezones
-                        for s in with_steps
-                    ]
-                )
-            )
-        )
+        # using .step_changes.index instead of .step_points to retain timezones
+        indexes = [s.step_changes.index for s in with_steps]
+        if any(i.dtype != indexes[0].dtype for i in indexes):
+            # eg different timezones, find a common dtype as binary operators do
+            index = reduce(pd.Index.union, indexes)
+        else:
+            index = pd.Index(np.unique(np.concatenate(indexes)))
         new_values = func([s.limit(index, "right") for s in self.data], axis=0)
         if new_values.dtype == "bool":
             new_values = new_values.astype(int)
-- 
2.43.0


From 1ce44e3dd08a2fde11d616be411e12b56220779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:35 +0000
Subject: [PATCH 49/60] fix: array-like and numpy scalar operands of
 StairsArray operators

---
 staircase/core/arrays/extension.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 0707729..63923b6 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -259,14 +259,12 @@ def _make_binary_func(func_str: str) -> Callable:
 
     @Appender(docstring, join="\n", indents=1)
     def func(self, other):
-        if isinstance(other, (int, float, Stairs)):
+        if isinstance(other, (numbers.Number, Stairs)):
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
             if len(other) != len(self):
-                return ValueError("Arrays have different lengths.")
-            result = StairsArray(
-                [stairs_func(s1, s2) for s1, s2 in zip(self.data, other.data)]
-            )
+                raise ValueError("Arrays have different lengths.")
+            result = StairsArray([stairs_func(s1, s2) for s1, s2 in zip(self, other)])
         else:
             return NotImplemented
         return result
-- 
2.43.0


From 3095c982fc513d9e0e84ae5f752266197f812e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:02 +0000
Subject: [PATCH 50/60] fix: the correlation of a constant function with itself
 is undefined in matrices too

---
 staircase/core/arrays/extension.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 63923b6..b8c64bf 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -309,8 +309,10 @@ def _make_corr_cov_func(
         size = len(self.data)
         vals = np.ones(shape=(size, size))
         for i in range(size):
-            for j in range(i + assume_ones_diagonal, size):
+            for j in range(i, size):
                 vals[i, j] = stairs_method(self.data[i], self.data[j], where=where)
+                if i == j and assume_ones_diagonal and not np.isnan(vals[i, i]):
+                    vals[i, i] = 1  # as opposed to something very close to it
                 vals[j, i] = vals[i, j]
         return vals
 
-- 
2.43.0


From b6b2ee9ce22e5bb7d6529ca77fedc12c5513b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 51/60] fix: results whose initial value outgrows 64 bits hold
 it as a float

---
 staircase/core/stairs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 4fbbbea..8c07d9f 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -100,8 +100,7 @@ class Stairs:
         data: pd.DataFrame,
         closed: Literal["left", "right"] = "left",
     ) -> Stairs:
-        new_instance = cls(closed=closed)
-        new_instance.initial_value = initial_value
+        new_instance = cls(initial_value=initial_value, closed=closed)
         new_instance._data = data
         new_instance._valid_deltas = False if data is None else "delta" in data.columns
         new_instance._valid_values = False if data is None else "value" in data.columns
-- 
2.43.0


From 0b4c01140665371d63264f34fed730f2ac570543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 52/60] fix: cov and corr of values far from zero lost their
 digits

---
 staircase/core/stats/statistic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 5ff3ae6..4afa7f2 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -222,9 +222,11 @@ def cov(self, other, where=(-inf, inf), lag=0, clip="pre"):
     mask = self.isna() | other.isna()
     self = self.mask(mask)
     other = other.mask(mask)
-    return (self * other).clip(*where).mean() - self.clip(*where).mean() * other.clip(
-        *where
-    ).mean()
+    # deviations from the means are multiplied, as the moments about zero would
+    # cancel each other when the values are large compared to their spread
+    self = self - self.clip(*where).mean()
+    other = other - other.clip(*where).mean()
+    return (self * other).clip(*where).mean()
 
 
 @Appender(examples.corr_example, join="\n", indents=1)
-- 
2.43.0


From 5f78f8003a1f6b0301155fd7dcfc9542c43e2a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 53/60] fix: unnamed arguments of the slicer's hist were
 ignored

---
 staircase/core/slicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 05c4f99..6b453e5 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -78,7 +78,7 @@ class StairsSlicer:
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
     def hist(self, *args, **kwargs):
         self._ensure_slices()
-        hists = self._slices.apply(sc.Stairs.hist, *args, **kwargs)
+        hists = self._slices.apply(lambda s: s.hist(*args, **kwargs))
         # bins beyond the range of a slice hold either 0 or pd.Timedelta(0)
         return hists.apply(
             lambda column: column.fillna(
-- 
2.43.0


From 4e5f8b0fa7eb7f70e6f41585afdade1e6fa8de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 54/60] fix: binary operators did not take their operand by its
 documented name

---
 staircase/core/ops/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/staircase/core/ops/common.py b/staircase/core/ops/common.py
index 8c9cc30..da51374 100644
--- a/staircase/core/ops/common.py
+++ b/staircase/core/ops/common.py
@@ -131,9 +131,9 @@ def _common_closed(stairs1, stairs2):
 
 def requires_closed_match(func):
     @functools.wraps(func)
-    def wrapper(stairs1, stairs2, *args, **kwargs):
-        _assert_closeds_equal(stairs1, stairs2)
-        return func(stairs1, stairs2, *args, **kwargs)
+    def wrapper(self, other, *args, **kwargs):
+        _assert_closeds_equal(self, other)
+        return func(self, other, *args, **kwargs)
 
     return wrapper
 
-- 
2.43.0


From ad1ec161fe45eb0ced369d05a9ef51c814073839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 55/60] fix: timedelta step points do not keep a frequency
 inferred by pandas

---
 staircase/core/ops/common.py |  3 ++-
 staircase/core/stairs.py     | 10 ++++++++--
 staircase/util/__init__.py   |  8 ++++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/staircase/core/ops/common.py b/staircase/core/ops/common.py
index da51374..835c38d 100644
--- a/staircase/core/ops/common.py
+++ b/staircase/core/ops/common.py
@@ -5,6 +5,7 @@ import pandas as pd
 
 import staircase as sc
 from staircase.core.exceptions import ClosedMismatchError
+from staircase.util import _without_freq
 
 
 def _not_arithmetic_op(series_op):
@@ -48,7 +49,7 @@ def _combine_step_series(
     series_1, series_2, initial_value_1, initial_value_2, series_op, kind
 ):
     # kind = "values" or "deltas"
-    new_index = series_1.index.union(series_2.index)
+    new_index = _without_freq(series_1.index.union(series_2.index))
 
     reindex_method = _reindex_values if kind == "values" else _reindex_deltas
     reindexed_series_1 = reindex_method(new_index, series_1, initial_value_1)
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 8c07d9f..ed5f0de 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -29,7 +29,12 @@ from staircase.core import stats
 from staircase.core.accessor import CachedAccessor
 from staircase.core.layering import _check_args_dtypes
 from staircase.plotting.accessor import PlotAccessor
-from staircase.util import _replace_none_with_infs, _widen, _widen_labels
+from staircase.util import (
+    _replace_none_with_infs,
+    _widen,
+    _widen_labels,
+    _without_freq,
+)
 from staircase.util._decorators import Appender
 
 
@@ -156,7 +161,8 @@ class Stairs:
 
         new_instance = cls(initial_value=initial_value, closed=closed)
         new_instance._data = pd.DataFrame(
-            {"value": values.astype("float64")}, index=_widen_labels(values.index)
+            {"value": values.astype("float64")},
+            index=_without_freq(_widen_labels(values.index)),
         )
         new_instance._valid_deltas = False
         new_instance._valid_values = True
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index c1bf7ed..68487e3 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -53,6 +53,14 @@ def _widen_labels(index):
     return index
 
 
+def _without_freq(index):
+    # the frequency pandas infers for timedeltas can be one (eg "bh") which
+    # raises when labels are later inserted in the index
+    if isinstance(index, pd.TimedeltaIndex):
+        return pd.TimedeltaIndex(index.values, name=index.name)
+    return index
+
+
 def _sanitize_binary_operands(self, other, copy_other=False):
     if not isinstance(self, sc.Stairs):
         self = sc.Stairs(initial_value=self, closed=other.closed)
-- 
2.43.0


From 844d7acb71b742e2abbbd483712c4f3d7a0d2964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:12 +0000
Subject: [PATCH 56/60] fix: a Series of step functions may have repeated
 labels

---
 staircase/core/arrays/extension.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index b8c64bf..1f01e3a 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -73,6 +73,8 @@ class StairsArray(ExtensionArray):
     def __init__(self, data):
         if isinstance(data, self.__class__):
             self.data = data.data
+        elif isinstance(data, pd.Series):
+            self.data = np.array(list(data))  # labels may be repeated
         elif isinstance(data, np.ndarray):
             if not data.ndim == 1:
                 raise ValueError(
-- 
2.43.0


From 8c1603fe68a44ca27cc8fae5c05775c634de8351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 57/60] fix: a Stairs on the left of an operator defers to a
 StairsArray or Series

---
 staircase/core/ops/__init__.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/staircase/core/ops/__init__.py b/staircase/core/ops/__init__.py
index 0a4009e..5a5d0fb 100644
--- a/staircase/core/ops/__init__.py
+++ b/staircase/core/ops/__init__.py
@@ -1,3 +1,5 @@
+import functools
+
 from staircase.core.ops.arithmetic import add, divide, multiply, negate, subtract
 from staircase.core.ops.logical import (
     invert,
@@ -19,6 +21,17 @@ from staircase.core.ops.rops import (
 )
 
 
+def _defer_to_collections(func):
+    # a StairsArray, or a Series of one, has operators which act on its elements
+    @functools.wraps(func)
+    def operator(self, other):
+        if getattr(getattr(other, "dtype", None), "name", None) == "Stairs":
+            return NotImplemented
+        return func(self, other)
+
+    return operator
+
+
 def add_operations(cls):
 
     cls.negate = negate
@@ -81,3 +94,17 @@ def add_operations(cls):
     cls.__rand__ = logical_rand
     cls.__ror__ = logical_ror
     cls.__rxor__ = logical_rxor
+
+    for name in (
+        "__add__",
+        "__sub__",
+        "__mul__",
+        "__truediv__",
+        "__eq__",
+        "__ne__",
+        "__lt__",
+        "__gt__",
+        "__le__",
+        "__ge__",
+    ):
+        setattr(cls, name, _defer_to_collections(getattr(cls, name)))
-- 
2.43.0


From 8c82ac0f3a3c57c2fc3d7335de3408657daa8905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:29 +0000
Subject: [PATCH 58/60] fix: nullable numeric labels, eg Int64, are held like
 those of the numpy type

---
 staircase/util/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 68487e3..17b4248 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -38,7 +38,12 @@ def _widen_labels(index):
     if pd.api.types.is_extension_array_dtype(dtype) and not isinstance(
         dtype, pd.DatetimeTZDtype
     ):
-        return index
+        # nullable numeric labels, eg Int64, become those of the numpy type
+        numpy_dtype = getattr(dtype, "numpy_dtype", None)
+        if numpy_dtype is None or numpy_dtype.kind not in "biuf":
+            return index
+        dtype = np.dtype("float64") if index.hasnans else numpy_dtype
+        index = pd.Index(index.to_numpy(dtype, na_value=np.nan), name=index.name)
     if dtype.kind in "biuf" and dtype not in ("int64", "float64"):
         narrow_int = dtype.kind in "bi" or (dtype.kind == "u" and dtype.itemsize < 8)
         return index.astype("int64" if narrow_int else "float64")
-- 
2.43.0


From e93910f69e609d75f9576d2926cd27c3aeac5102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 59/60] fix: step points which coincide after a shift are
 merged

---
 staircase/core/stairs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index ed5f0de..4881101 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -658,6 +658,14 @@ class Stairs:
         """
         if self._data is None:
             return Stairs(initial_value=self.initial_value, closed=self.closed)
+        if not (self._data.index + delta).is_unique:
+            # step points can be closer than the spacing of floats where they land
+            values = self._get_values().set_axis(self._data.index + delta)
+            return Stairs._new(
+                initial_value=self.initial_value,
+                data=values[~values.index.duplicated(keep="last")].to_frame(),
+                closed=self.closed,
+            )._remove_redundant_step_points()
         return Stairs._new(
             initial_value=self.initial_value,
             data=self._data.set_index(self._data.index + delta),
-- 
2.43.0


From 3ae7b4083b2ff8731a63a23e4aab6fdb785e1a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 60/60] fix: percentiles of values with shares too small for
 floats

---
 staircase/core/stats/distribution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index 9665a12..adef994 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -21,11 +21,17 @@ class Xtiles(sc.core.stairs.Stairs):
     @classmethod
     def from_ecdf(cls, ecdf):
         assert ecdf._data is not None
+        points = np.append(0, ecdf._get_values().values * cls.scale_factor)
+        points[-1] = cls.scale_factor
+        if (np.diff(points) <= 0).any():
+            # the share of a value can be too small for floats, but is not zero
+            for i in reversed(range(1, len(points) - 1)):
+                points[i] = min(points[i], np.nextafter(points[i + 1], 0))
         return cls._new(
             initial_value=ecdf._data.index[0],
             data=pd.DataFrame(
                 {"value": np.append(ecdf._data.index, ecdf._data.index[-1])},
-                index=np.append(0, ecdf._get_values().values * cls.scale_factor),
+                index=points,
             ),
         )
 
-- 
2.43.0

