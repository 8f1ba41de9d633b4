From 3c24916bda13a0205e832dc2a38a89433c8fc567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:56 +0000
Subject: [PATCH 01/43] fix: keep the length when combining two integer
 activations

---
 ruleskit/activation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index ec7e5fc..91aff02 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -574,7 +574,9 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data & a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data & a2.data, optimize=self.optimize and a2.optimize, length=self.length, to_file=False
+            )
         else:
             return Activation(
                 self.raw * a2.raw,
@@ -634,7 +636,9 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data | a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data | a2.data, optimize=self.optimize and a2.optimize, length=self.length, to_file=False
+            )
         else:
             return Activation(
                 self.raw | a2.raw,
@@ -695,7 +699,9 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data ^ a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data ^ a2.data, optimize=self.optimize and a2.optimize, length=self.length, to_file=False
+            )
         else:
             return Activation(
                 self.raw ^ a2.raw,
-- 
2.43.0


From 27e1268bf4fbefbac8cb7b195cf208d815981c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:56 +0000
Subject: [PATCH 02/43] fix: Activation.__add__ is the logical OR of the
 vectors

---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 91aff02..effb7e4 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -728,7 +728,7 @@ class Activation(ABC):
 
     def __add__(self, other: "Activation") -> "Activation":
         """Synonym of logical OR"""
-        return self or other
+        return self | other
 
     def __sub__(self, other: "Activation") -> "Activation":
         """Logical EXCLUSIVE OR then logical AND"""
-- 
2.43.0


From b2133216c755a303e4b7666eba034c47500ab184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:56 +0000
Subject: [PATCH 03/43] fix: accept '0101' strings and str paths as documented

---
 ruleskit/activation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index effb7e4..80ffa07 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -204,8 +204,8 @@ class Activation(ABC):
         self.lasy = False
 
         # does not use instance to avoid conflicts if using TransparentPath
-        if type(activation) == "str" and "," not in activation:
-            if any([c in activation for c in "abcdefhijklmnopqrstuvwxy./\\"]):  # is a file path
+        if type(activation) == str and "," not in activation:
+            if any([c not in "01" for c in activation]):  # is a file path
                 if TransparentPath is not None:
                     # noinspection PyCallingNonCallable
                     activation = TransparentPath(activation)
@@ -213,6 +213,7 @@ class Activation(ABC):
                     activation = Path(activation)
             else:
                 if Activation.WILL_COMPARE:
+                    length = len(activation)
                     activation = int(activation, 2)
                 else:
                     activation = bitarray(activation)
-- 
2.43.0


From b486e2ad4a9e8fb2b6fda46fae28a72e427d45a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:03 +0000
Subject: [PATCH 04/43] fix: retry with another random name when an activation
 file name is taken

---
 ruleskit/activation.py | 46 ++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 80ffa07..772bb2b 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -306,24 +306,18 @@ class Activation(ABC):
         self.length = len(value)
         self._nones = np.count_nonzero(value == 1)
         t0 = time()
-        arange = list((0, int(1e64)))
-        number = random.randint(*arange)
-        data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
+        arange = (0, int(1e64))
+        data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{random.randint(*arange)}.txt"
         attempts = 0
-        if not self.lasy:
-            # If is lasy, then the vector was loaded from a file that should be re-used for writing
-            while data.is_file():
-                if attempts > 99:
-                    logger.warning(
-                        "Failed to save activation vector locally after 100 attempts at finding an available"
-                        " name. Will keep it in RAM."
-                    )
-                    return False
-                number += 1
-                attempts += 1
-                arange.remove(number)
-                number = random.randint(*arange)
-                data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
+        while data.is_file():
+            if attempts > 99:
+                logger.warning(
+                    "Failed to save activation vector locally after 100 attempts at finding an available"
+                    " name. Will keep it in RAM."
+                )
+                return False
+            attempts += 1
+            data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{random.randint(*arange)}.txt"
         data.touch()
         self.data = data
         self.data_format = "file"
@@ -1458,8 +1452,8 @@ class Activation(ABC):
         if self._sizeof_path == -1 and Activation.FORCE_STAT:
             data = self.data
             fmt = self.data_format
-            self._write(self.raw)
-            self.data.unlink()
+            if self._write(self.raw):
+                self.data.unlink()
             self.data = data
             self.data_format = fmt
         return self._sizeof_path
@@ -1472,8 +1466,8 @@ class Activation(ABC):
         if self._sizeof_file == -1 and Activation.FORCE_STAT:
             data = self.data
             fmt = self.data_format
-            self._write(self.raw)
-            self.data.unlink()
+            if self._write(self.raw):
+                self.data.unlink()
             self.data = data
             self.data_format = fmt
         return self._sizeof_file
@@ -1531,8 +1525,8 @@ class Activation(ABC):
         if self._time_write == -1 and Activation.FORCE_STAT:
             data = self.data
             fmt = self.data_format
-            self._write(self.raw)
-            self.data.unlink()
+            if self._write(self.raw):
+                self.data.unlink()
             self.data = data
             self.data_format = fmt
         return self._time_write
@@ -1545,9 +1539,9 @@ class Activation(ABC):
         if self._time_read == -1 and Activation.FORCE_STAT:
             data = self.data
             fmt = self.data_format
-            self._write(self.raw)
-            _ = self._read(self.data, out=False)
-            self.data.unlink()
+            if self._write(self.raw):
+                _ = self._read(self.data, out=False)
+                self.data.unlink()
             self.data = data
             self.data_format = fmt
         return self._time_read
-- 
2.43.0


From 1ee8447a54d7ad0e816a2c83dc9105e4d57c5172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:22 +0000
Subject: [PATCH 05/43] fix: do not store one-point activations as compressed
 arrays

---
 ruleskit/activation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 772bb2b..0961ae8 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -378,7 +378,8 @@ class Activation(ABC):
             else:
                 self._entropy = len(compressed)
             self._rel_entropy = self._entropy / self.length
-            if size_compressed > self._sizeof_bitarray:
+            # the compressed array of a one-point vector, [v, 1], could not be told from a raw vector
+            if size_compressed > self._sizeof_bitarray or (dtype != str and self.length == 1):
                 self.data = value
                 self.data_format = "bitarray"
             else:
@@ -437,7 +438,8 @@ class Activation(ABC):
             else:
                 self._entropy = len(compressed)
             self._rel_entropy = self._entropy / self.length
-            if size_compressed > self._sizeof_integer:
+            # the compressed array of a one-point vector, [v, 1], could not be told from a raw vector
+            if size_compressed > self._sizeof_integer or (dtype != str and self.length == 1):
                 self.data = value
                 self.data_format = "integer"
             else:
@@ -546,7 +548,8 @@ class Activation(ABC):
             thesize = self._sizeof_bitarray
             s = f"Using bitarray activation representation"
             fmt = "bitarray"
-        if thesize > size_compressed:
+        # the compressed array of a one-point vector, [v, 1], could not be told from a raw vector
+        if thesize > size_compressed and not (dtype != str and self.length == 1):
             logger.debug(f"Using compressed activation representation")
             self.data = compressed
             if dtype == str:
-- 
2.43.0


From 4703e5957cb63d2bd40f541352c3a430e90cd7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:22 +0000
Subject: [PATCH 06/43] fix: multi_logical_xor of a single activation honours
 asarray

---
 ruleskit/activation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 0961ae8..b7a1b50 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -712,6 +712,8 @@ class Activation(ABC):
         """Do LOGICAL EXCLUSIVE OR on many activation vectors at once. Uses raw np.ndarrays to gain time.
         If asarray is True, does not cast the result into an Activation object but returns the raw np.ndarray."""
         if len(acs) == 1:
+            if asarray:
+                return acs[0].raw
             return Activation(acs[0].raw, optimize=acs[0].optimize, to_file=acs[0].data_format == "file")
         lor = Activation.multi_logical_or(acs, True)
         nland = -(Activation.multi_logical_and(acs, True) - 1)
-- 
2.43.0


From 8059837bd0f6c0742cf2da637ef60cb54693034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:29 +0000
Subject: [PATCH 07/43] fix: an activation contains another only if it has all
 its points

---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index b7a1b50..cb8c4db 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -765,7 +765,7 @@ class Activation(ABC):
         intersection = self & other
         nones_intersection = intersection.nones
         intersection.delete()
-        if nones_intersection < min(self.nones, other.nones):
+        if nones_intersection < other.nones:
             return False
         return True
 
-- 
2.43.0


From a383ca70bbe1b8ae0ccd1b023387a3347e83304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:07 +0000
Subject: [PATCH 08/43] fix: lasy activations know their length and reading
 them leaves them on their file

---
 ruleskit/activation.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index cb8c4db..2365082 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -819,6 +819,10 @@ class Activation(ABC):
         with open(path, "rb") as f:
             # noinspection PyTypeChecker
             value = np.load(f)
+        if value.dtype != np.ubyte:
+            value = value.astype(np.ubyte)
+        if self._length is None:
+            self.length = len(value)
         if not out:
             if self._sizeof_raw == -1:
                 self._sizeof_raw = value.nbytes / 1e6
@@ -1133,6 +1137,17 @@ class Activation(ABC):
 
     """properties"""
 
+    @property
+    def length(self) -> int:
+        """Number of points in the vector. If the vector is lasy and was not read yet, reads it to know its length."""
+        if self._length is None and self.lasy and not self.loaded:
+            self._read(out=False)
+        return self._length
+
+    @length.setter
+    def length(self, value: Optional[int]):
+        self._length = value
+
     @property
     def ones(self) -> np.ndarray:
         """ones is the list of indexes where the vector is 1
@@ -1231,9 +1246,6 @@ class Activation(ABC):
     @property
     def raw(self) -> np.ndarray:
         """Returns the raw np.ndarray. Will set relevant profiling attributes."""
-        if not self.loaded:
-            activation = self._read(out=False)
-            self._init_with_any(activation, length=None, to_file=True)
         if self.data_format == "raw":
             # noinspection PyTypeChecker
             return self.data
-- 
2.43.0


From 7905269a35b43209d82a41fce8275b24a1bb0144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:37 +0000
Subject: [PATCH 09/43] fix: conditions with different bounds but equal hashes
 are not equal

---
 ruleskit/condition.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 0afd2c2..3c0df4d 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -352,7 +352,10 @@ class HyperrectangleCondition(Condition):
     def __eq__(self, other):
         """Two HyperrectangleConditions are equal if they talk about the same features, and if the bmins and bmaxs
         are the same from one rule to another. Features indexes can be different."""
-        return self.__hash__() == other.__hash__()
+        if not isinstance(other, HyperrectangleCondition):
+            return False
+        # do not compare hashes : hash(-1) == hash(-2)
+        return frozenset(self.to_hash) == frozenset(other.to_hash)
 
     @property
     def to_hash(self) -> Tuple[str]:
-- 
2.43.0


From 419373f944ab64a81fbf4214136495b996bdd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:45 +0000
Subject: [PATCH 10/43] fix: setting bounds keeps their values and updates
 'impossible'

---
 ruleskit/condition.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 3c0df4d..f8d303c 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -317,24 +317,24 @@ class HyperrectangleCondition(Condition):
     @bmins.setter
     def bmins(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = list(ast.literal_eval(value))
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
+        if self._bmins is not None and self._bmaxs is not None:
             # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+            self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     @bmaxs.setter
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = list(ast.literal_eval(value))
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
+        if self._bmins is not None and self._bmaxs is not None:
             # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+            self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     def __repr__(self):
         return self.__str__()
-- 
2.43.0


From 63227f1dfede681b80c1e88fe0275a774ae2b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:17 +0000
Subject: [PATCH 11/43] fix: mae_norm divides by the mean absolute deviation

---
 ruleskit/utils/rfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index d10de9d..944f19b 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -209,7 +209,7 @@ def mae_function(
 def mae_norm(
     prediction_vector: Union[pd.Series, pd.DataFrame], y: Union[np.ndarray, pd.Series]
 ) -> Union[float, pd.Series]:
-    return mae_function(prediction_vector, y) / np.mean(np.mean(y) - y)
+    return mae_function(prediction_vector, y) / np.mean(np.abs(np.mean(y) - y))
 
 
 def aae_function(
-- 
2.43.0


From 3871101abbab4b8a096d362cc3dae4e362d2f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:25 +0000
Subject: [PATCH 12/43] fix: unstacked regression prediction is the weighted
 mean of active rules, without altering them

---
 ruleskit/utils/rfunctions.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 944f19b..2a3fe74 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -459,20 +459,17 @@ def calc_ruleset_prediction_weighted_regressor_unstacked(
         if len(activation) == 0:
             continue
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation) * weights[rulename]
-            cum_w = activation * weights[rulename]
-        else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction * weights[rulename])
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation * weights[rulename]
+            cum_pred = pd.Series(np.zeros(len(activation)))
+            cum_w = pd.Series(np.zeros(len(activation)))
+        if rule.prediction is None or np.isnan(rule.prediction):
+            continue
+        cum_pred += activation * rule.prediction * weights[rulename]
+        cum_w += activation * weights[rulename]
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
         )
-    return cum_pred / cum_w
+    return cum_pred / cum_w.replace(0, np.nan)
 
 
 def calc_ruleset_prediction_weighted_regressor_stacked(
@@ -501,20 +498,17 @@ def calc_ruleset_prediction_equally_weighted_regressor_unstacked(
         if len(activation) == 0:
             continue
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation)
-            cum_w = activation
-        else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction)
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation
+            cum_pred = pd.Series(np.zeros(len(activation)))
+            cum_w = pd.Series(np.zeros(len(activation)))
+        if rule.prediction is None or np.isnan(rule.prediction):
+            continue
+        cum_pred += activation * rule.prediction
+        cum_w += activation
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
         )
-    return cum_pred / cum_w
+    return cum_pred / cum_w.replace(0, np.nan)
 
 
 def calc_ruleset_prediction_equally_weighted_regressor_stacked(prediction_vectors: pd.DataFrame) -> pd.Series:
-- 
2.43.0


From 936de2b393768a199bb28f85c4aca0f8973b46fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:56 +0000
Subject: [PATCH 13/43] fix: statistics of activated targets with NaNs, single
 values or any class label

---
 ruleskit/utils/rfunctions.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 2a3fe74..06614a4 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -8,6 +8,13 @@ import pandas as pd
 logger = logging.getLogger(__name__)
 
 
+def conditional_y(activation: pd.DataFrame, y: pd.Series) -> pd.DataFrame:
+    """For each activation vector (one column each), y where it is activated and NaN elsewhere"""
+    return pd.concat([y.where(activation.iloc[:, i].values != 0) for i in range(len(activation.columns))], axis=1).set_axis(
+        activation.columns, axis=1
+    )
+
+
 def class_probabilities(
     activation: Union[np.ndarray, pd.DataFrame, None], y: Union[np.ndarray, pd.Series]
 ) -> Union[np.ndarray, pd.DataFrame]:
@@ -54,9 +61,7 @@ def class_probabilities(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation.mul(y.replace(0, "zero"), axis=0).replace(0, np.nan).replace("", np.nan).replace("zero", 0)
-        )
+        y_conditional = conditional_y(activation, y)
         count = y_conditional.apply(lambda x: x.value_counts())
         count.index = count.index.astype(y.dtype)
         return count.apply(lambda x: x / x.dropna().sum())
@@ -103,12 +108,13 @@ def conditional_std(
         raise TypeError("'activation' in conditional_std must be None or a np.ndarray or a pd.DataFrame")
     if isinstance(activation, np.ndarray):
         y_conditional = np.extract(activation, y)
+        y_conditional = y_conditional[~np.isnan(y_conditional)]
         if len(y_conditional) == 0:
             return np.nan
         if len(y_conditional) == 1:
             return 0
         # ddof ensures numpy uses non-biased estimator of std, like pandas' default
-        return float(np.nanstd(y_conditional, ddof=1))
+        return float(np.std(y_conditional, ddof=1))
     else:
         if isinstance(y, pd.DataFrame):
             if len(y.columns) == 1:
@@ -122,10 +128,10 @@ def conditional_std(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation.mul(y.replace(0, "zero"), axis=0).replace(0, np.nan).replace("", np.nan).replace("zero", 0)
-        )
-        return y_conditional.std()
+        y_conditional = conditional_y(activation, y)
+        std = y_conditional.std()
+        std[y_conditional.count() == 1] = 0
+        return std
 
 
 def mse_function(
@@ -398,12 +404,7 @@ def calc_classification_criterion(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation_vector.mul(y.replace(0, "zero"), axis=0)
-            .replace(0, np.nan)
-            .replace("", np.nan)
-            .replace("zero", 0)
-        )
+        y_conditional = conditional_y(activation_vector, y)
         return success_rate(prediction, y_conditional)
 
 
-- 
2.43.0


From 1f642cad553395cebdc00e96e455cc8cfc668ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:05 +0000
Subject: [PATCH 14/43] fix: classification rules predict the most frequent
 class, or none if nothing is activated

---
 ruleskit/rule.py             | 5 ++++-
 ruleskit/ruleset.py          | 7 +++++--
 ruleskit/utils/rfunctions.py | 2 ++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index bec087e..7eba452 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -734,7 +734,10 @@ class ClassificationRule(Rule):
         if self._prediction is not None:
             if isinstance(self._prediction, (float, int, str, np.integer, np.float64)):
                 return self._prediction
-            prop = [p[1] for p in self._prediction]
+            if len(self._prediction) == 0:  # no activated points
+                return np.nan
+            # if classes are strings, probabilities are too
+            prop = [float(p[1]) for p in self._prediction]
             idx = prop.index(max(prop))
             return self._prediction[idx][0]
         else:
diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index df527fa..8137de3 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1091,8 +1091,11 @@ class RuleSet(ABC):
             if issubclass(self.rule_type, ClassificationRule):
                 class_probabilities = functions.class_probabilities(stacked_activations, y)
                 maxs = class_probabilities.max()
-                return class_probabilities[class_probabilities == maxs].apply(
-                    lambda x: x.dropna().sort_index().index[0]
+                best = class_probabilities[class_probabilities == maxs]
+                best = {i: best.iloc[:, i].dropna().sort_index().index for i in range(len(best.columns))}
+                # No class if the rule activates no point
+                return pd.Series(
+                    [best[i][0] if len(best[i]) > 0 else np.nan for i in best], index=class_probabilities.columns
                 )
             elif issubclass(self.rule_type, RegressionRule):
                 return functions.conditional_mean(stacked_activations, y)
diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 06614a4..a866c19 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -44,6 +44,8 @@ def class_probabilities(
         y_conditional = np.extract(activation, y)
         count = Counter(y_conditional)
         n = len(y_conditional)
+        if n == 0:
+            return np.empty((0, 2))
         prop = [v / n for v in count.values()]
         proba = np.array([(c, v) for c, v in zip(count.keys(), prop)])
         proba = proba[proba[:, 0].argsort()]
-- 
2.43.0


From e27b7fe3c1e53629f1dfdc9fc43dc0c9b7fdfa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:17 +0000
Subject: [PATCH 15/43] fix: classification rule set prediction and success
 rate when few or no points have a winner

---
 ruleskit/utils/rfunctions.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index a866c19..b3f43f4 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -328,9 +328,9 @@ def success_rate(
             return np.nan
         return sum(prediction == y) / len(y)
     elif isinstance(y, np.ndarray) and isinstance(prediction, pd.Series):
-        if len(y) == 0:
-            return pd.Series(dtype=int)
-        return sum(prediction == y) / len(prediction.dropna())
+        if prediction.count() == 0:
+            return np.nan
+        return sum(prediction == y) / prediction.count()
     else:
         if not isinstance(y, pd.DataFrame):
             raise TypeError(
@@ -520,7 +520,10 @@ def calc_ruleset_prediction_equally_weighted_regressor_stacked(prediction_vector
 
 # noinspection PyUnresolvedReferences
 def calc_ruleset_prediction_weighted_classificator_unstacked(
-    rules: List["Rule"], weights: pd.Series, xs: Optional[Union[pd.DataFrame, np.ndarray]] = None
+    rules: List["Rule"],
+    weights: pd.Series,
+    xs: Optional[Union[pd.DataFrame, np.ndarray]] = None,
+    raise_if_nan: bool = True,
 ) -> pd.Series:
     if len(rules) == 0:
         return pd.Series(dtype=int)
@@ -536,6 +539,7 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
             return (s == m).astype(int).replace(0, np.nan) * ps
 
     preds = None
+    length = None
     for rule in rules:
         rulename = str(rule.condition)
         if rulename not in weights.index:
@@ -556,7 +560,8 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
             activation = activation.raw
         if activation is None:
             continue
-        if nones == 0:
+        length = len(activation)
+        if nones == 0 or isinstance(rule.prediction, float) and np.isnan(rule.prediction):
             continue
         if preds is None:
             preds = pd.DataFrame(index=[rule.prediction], data=[activation * weights[rulename]])
@@ -566,6 +571,8 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
             else:
                 preds.loc[rule.prediction] += activation * weights[rulename]
     if preds is None:
+        if length is not None and not raise_if_nan:  # no rule is activated
+            return pd.Series(np.nan, index=range(length))
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
         )
@@ -587,7 +594,7 @@ def calc_ruleset_prediction_equally_weighted_classificator_unstacked(
     xs: Optional[Union[pd.DataFrame, np.ndarray]] = None,
 ) -> pd.Series:
     return calc_ruleset_prediction_weighted_classificator_unstacked(
-        rules, pd.Series({str(r.condition): 1 for r in rules}), xs=xs
+        rules, pd.Series({str(r.condition): 1 for r in rules}), xs=xs, raise_if_nan=False
     )
 
 
@@ -607,11 +614,9 @@ def calc_ruleset_prediction_equally_weighted_classificator_stacked(prediction_ve
         most_freq_pred = prediction_vectors.fillna(value=np.nan).replace("nan", np.nan).mode(axis=1)
     else:
         most_freq_pred = prediction_vectors.mode(axis=1)
-    most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1].dropna(axis=1).squeeze()
-    # Happens if only on point is activated, in which case 'squeeze' will only extract this point's prediction as a
-    # float, int or str
-    if not isinstance(most_freq_pred, pd.Series):
-        most_freq_pred = pd.Series([most_freq_pred])
+    if most_freq_pred.empty:  # no point is activated
+        return pd.Series(np.nan, index=idx)
+    most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1, most_freq_pred.columns[0]]
     most_freq_pred.name = None
     return most_freq_pred.reindex(idx)
 
-- 
2.43.0


From 65ec3fbab160a0a7cc2335953cf7a4294a960178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:23 +0000
Subject: [PATCH 16/43] fix: Rule.predict keeps long class names whole and
 always gives a Series for a DataFrame

---
 ruleskit/rule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 7eba452..4b7c713 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -513,10 +513,11 @@ class Rule(ABC):
                 raise ValueError(
                     "Prediction should not be the 'nan' string, it will conflict with NaNs. Rename your class."
                 )
-            to_ret = to_ret.astype(str)
+            to_ret = to_ret.astype(f"<U{max(3, len(self.prediction))}")
         to_ret[act == 1] = self.prediction
         if xs is not None and not isinstance(xs, np.ndarray):
-            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze()  # So not to requier pandas explicitly
+            # So not to requier pandas explicitly
+            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze(axis=1)
         self._time_predict = time() - t0
         return to_ret
 
-- 
2.43.0


From 616cfe4e9d884765597897d53ae4185efcadee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:29 +0000
Subject: [PATCH 17/43] fix: correlation of rules does not depend on their
 numbers of features

---
 ruleskit/rule.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 4b7c713..c4c3ee2 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -527,9 +527,6 @@ class Rule(ABC):
         of the rules' signs.
         Both vectors must have the same length.
         """
-        if not len(self) == len(other):
-            raise ValueError("Both vectors must have the same length")
-
         sign = (self.prediction / abs(self.prediction)) * (other.prediction / abs(other.prediction))
         return self._activation.get_correlation(other._activation) * sign
 
-- 
2.43.0


From a2d586242d80e9a237c7d94981b3c873021c9844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:34 +0000
Subject: [PATCH 18/43] fix: setting an attribute of the condition through a
 rule updates the condition

---
 ruleskit/rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index c4c3ee2..8bebb6c 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -269,7 +269,8 @@ class Rule(ABC):
         if item.startswith("_"):
             super(Rule, self).__setattr__(item, value)
             return
-        if not hasattr(self, item):
+        # Not hasattr(self, item) : it would also find the attributes of the activation and of the condition
+        if item not in self.__dict__ and not hasattr(type(self), item):
             if hasattr(self._activation, item):
                 setattr(self._activation, item, value)
             elif hasattr(self._condition, item):
-- 
2.43.0


From 8d61ba2b5d7ca7d8156f61ab5565f30c1bebc578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:40 +0000
Subject: [PATCH 19/43] fix: thresholds set on one rule are used by that rule

---
 ruleskit/rule.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 8bebb6c..8d98b41 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -86,7 +86,7 @@ class Rule(ABC):
 
         self._condition: Optional[Condition] = condition
         self._activation: Optional[Activation] = activation
-        self._thresholds: Optional[Thresholds] = self.__class__.THRESHOLDS
+        self._thresholds: Optional[Thresholds] = None  # Set by self.set_thresholds. Else, uses class' THRESHOLDS
         self._good: bool = True
         self._bad_because: Optional[str] = None
 
@@ -113,7 +113,7 @@ class Rule(ABC):
     def set_thresholds(self, path: Union[str, Path, "TransparentPath"], show=False):
         """Set thresholds for this rule only"""
         if path is None:
-            self._thresholds.THRESHOLDS = None
+            self._thresholds = None
         else:
             self._thresholds = Thresholds(path, show)
 
@@ -128,11 +128,11 @@ class Rule(ABC):
             for which a threshold is defined.
         """
 
-        if self.__class__.THRESHOLDS is None:
+        if self.thresholds is None:
             return
 
         if attribute is not None:
-            if not self.__class__.THRESHOLDS(attribute, self):
+            if not self.thresholds(attribute, self):
                 self._bad_because = attribute
                 self._good = False
             return
@@ -140,7 +140,7 @@ class Rule(ABC):
         for attribute in dir(self):
             if attribute.startswith("__"):
                 continue
-            if not self.__class__.THRESHOLDS(attribute, self):
+            if not self.thresholds(attribute, self):
                 self._bad_because = attribute
                 self._good = False
                 return
@@ -226,7 +226,8 @@ class Rule(ABC):
 
     @property
     def thresholds(self) -> Thresholds:
-        return self._thresholds
+        """Thresholds of this rule only if they were set, else those of its class"""
+        return self.__class__.THRESHOLDS if self._thresholds is None else self._thresholds
 
     @property
     def good(self) -> bool:
-- 
2.43.0


From 9eb4efebd4b925ce27ff1708cc145fe917b0caa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:36 +0000
Subject: [PATCH 20/43] fix: a rule set drops each bad rule once and refreshes
 its activation and features after dropping

---
 ruleskit/ruleset.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 8137de3..4e22f03 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -409,8 +409,6 @@ class RuleSet(ABC):
                 computed_attrs[f"{attr}s"] = launch_method(
                     getattr(self, f"calc_{attr}s"), y=y, xs=xs, **computed_attrs, **kwargs
                 )
-            to_drop = []
-
             if clean_activation:
                 self.del_stacked_activations()
             else:
@@ -425,18 +423,18 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 # To check attributes that are set along side others, like coverage
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
         else:
             [r.fit(xs=xs, y=y, force_if_not_good=force_if_not_good, **kwargs) for r in self]
-            to_drop = [r for r in self if not r.good]
 
+        to_drop = [r for r in self if not r.good]
         if len(to_drop) > 0:
-            rules = [r for r in self.rules if r not in to_drop]
+            rules = [r for r in self.rules if r.good]
             self._rules = []
+            self.features_names = []
+            self.features_indexes = []
             if self._activation is not None:
                 self._activation.clear()
             self.del_stacked_activations()
@@ -609,8 +607,6 @@ class RuleSet(ABC):
                     **kwargs,
                 )
 
-            to_drop = []
-
             if clean_activation:
                 self.del_stacked_activations()
             else:
@@ -625,8 +621,6 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
         else:
@@ -636,11 +630,13 @@ class RuleSet(ABC):
                 )
                 for r in self
             ]
-            to_drop = [r for r in self if not r.good]
 
+        to_drop = [r for r in self if not r.good]
         if len(to_drop) > 0:
-            rules = [r for r in self.rules if r not in to_drop]
+            rules = [r for r in self.rules if r.good]
             self._rules = []
+            self.features_names = []
+            self.features_indexes = []
             if self._activation is not None:
                 self._activation.clear()
             self.del_stacked_activations()
@@ -648,12 +644,9 @@ class RuleSet(ABC):
                 self.append(r, update_activation=False)
 
             # Recompute activation now that bad rules have been droped
-            if self._activation is None or self._activation.length == 0 or (xs is not None and keep_new_activations):
-                self._activation = None
-                self.compute_self_activation()
-            if self.stack_activation and (
-                    self.stacked_activations is None or (xs is not None and keep_new_activations)
-            ):
+            self._activation = None
+            self.compute_self_activation()
+            if self.stack_activation:
                 self.stacked_activations = None
                 self.compute_stacked_activation()
         # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
-- 
2.43.0


From c6fdb2fcb93350c851ea44eaaa85fef81f151ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:44 +0000
Subject: [PATCH 21/43] fix: rule sets never share their stacked activations
 and know the type of assigned rules

---
 ruleskit/ruleset.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 4e22f03..c6116fe 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -241,6 +241,7 @@ class RuleSet(ABC):
         self.features_indexes = ruleset.features_indexes
         self.stacked_activations = ruleset.stacked_activations
         self._activation = ruleset._activation
+        self._rule_type = ruleset._rule_type
 
     @property
     def to_hash(self) -> Tuple[str]:
@@ -311,12 +312,15 @@ class RuleSet(ABC):
                         data=np.array(other.activation).T, columns=[str(other.condition)]
                     )
                 else:
-                    self.stacked_activations = other.stacked_activations
+                    # other might not keep its own, and must not share it
+                    self.stacked_activations = other.evaluate_stacked_activations()
             else:
                 if isinstance(other, Rule):
                     self.stacked_activations[str(other.condition)] = other.activation
                 else:
-                    self.stacked_activations = pd.concat([self.stacked_activations, other.stacked_activations], axis=1)
+                    self.stacked_activations = pd.concat(
+                        [self.stacked_activations, other.evaluate_stacked_activations()], axis=1
+                    )
 
     def set_features_indexes(self):
         if len(self.__class__.all_features_indexes) > 0:
@@ -743,7 +747,7 @@ class RuleSet(ABC):
             self._rules = sorted(self, key=lambda x: getattr(x, criterion), reverse=reverse)
         else:
             raise ValueError(f"Can not sort RuleSet according to criterion {criterion}")
-        if self.stack_activation:
+        if self.stack_activation and self.stacked_activations is not None:
             self.stacked_activations = self.stacked_activations[[str(r.condition) for r in self]]
 
     # noinspection PyProtectedMember
-- 
2.43.0


From d3ce83019ac7d7848338fe9dc7e6c5e5360253ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:52 +0000
Subject: [PATCH 22/43] fix: the sum of two rule sets keeps the order of their
 rules

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index c6116fe..4a26f64 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -156,7 +156,7 @@ class RuleSet(ABC):
             rules = self.rules + [other]
         else:
             stack_activation &= other.stack_activation
-            rules = list(set(self.rules + other.rules))
+            rules = list(dict.fromkeys(self.rules + other.rules))
         return self.__class__(rules, compute_activation=self._compute_activation, stack_activation=stack_activation)
 
     def __getattr__(self, item):
-- 
2.43.0


From f8a127768cdb1d89f667430c5d3716a0f098f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:10 +0000
Subject: [PATCH 23/43] fix: loading a saved rule set gives back all the saved
 values

---
 ruleskit/ruleset.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 4a26f64..e90f3d2 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -887,22 +887,23 @@ class RuleSet(ABC):
         if hasattr(path, "read"):
             rules = path.read(**kwargs)
         else:
-            rules = pd.read_csv(path, **kwargs)
+            # A class can be named 'NA', and floats must be read back exactly
+            rules = pd.read_csv(path, **{"keep_default_na": False, "dtype": str, **kwargs})
         if "ruleset coverage" in rules.iloc[:, 0].values:
-            self._coverage = rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1]
+            self._coverage = self._str_to_number(rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset coverage"].index)
         if "ruleset criterion" in rules.iloc[:, 0].values:
-            self.criterion = rules[rules.iloc[:, 0] == "ruleset criterion"].iloc[0, 1]
+            self.criterion = self._str_to_number(rules[rules.iloc[:, 0] == "ruleset criterion"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset criterion"].index)
         if "ruleset train set size" in rules.iloc[:, 0].values:
             self.train_set_size = rules[rules.iloc[:, 0] == "ruleset train set size"].iloc[0, 1]
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset train set size"].index)
             if isinstance(self.train_set_size, str):
-                self.train_set_size = int(self.train_set_size)
+                self.train_set_size = int(self.train_set_size) if self.train_set_size != "" else None
         if "ruleset test set size" in rules.iloc[:, 0].values:
             self.test_set_size = rules[rules.iloc[:, 0] == "ruleset test set size"].iloc[0, 1]
             if isinstance(self.test_set_size, str):
-                self.test_set_size = int(self.test_set_size)
+                self.test_set_size = int(self.test_set_size) if self.test_set_size != "" else None
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset test set size"].index)
         if rules.empty:
             self._rules = []
@@ -924,6 +925,14 @@ class RuleSet(ABC):
         if self.stack_activation:
             self.compute_stacked_activation()
         self.features_names = list(set(traverse([rule.features_names for rule in self])))
+        self.features_indexes = list(set(traverse([rule.features_indexes for rule in self])))
+
+    @staticmethod
+    def _str_to_number(value: Any) -> Any:
+        """From what was read in a file. Empty values are NaN"""
+        if isinstance(value, str):
+            return float(value) if value != "" else np.nan
+        return value
 
     def to_df(self, custom_rules_to_series: Optional[Callable] = None, ruleset_attributes: bool = True) -> pd.DataFrame:
         if len(self) == 0:
@@ -970,7 +979,7 @@ class RuleSet(ABC):
         )
         s_test = pd.DataFrame(
             columns=df.columns,
-            data=[[self.train_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
+            data=[[self.test_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
             index=["ruleset test set size"],
         )
         return pd.concat([df, s_cov, s_crit, s_train, s_test])
@@ -1014,11 +1023,13 @@ class RuleSet(ABC):
             rule = Rule()
         rule_idx = copy(rule.__class__.rule_index)
         condition_index = {c: None for c in rule.__class__.condition_index}
-        rule._name = srule.index[0]
+        rule._name = srule.iloc[0] if srule.index[0] == "Unnamed: 0" else srule.name
 
         for rule_ind in srule.index:
             str_value = str(srule[rule_ind])
-            if rule_ind in condition_index:
+            if rule_ind in ("bmins", "bmaxs"):
+                condition_index[rule_ind] = literal_eval_inf(str_value)
+            elif rule_ind in condition_index:
                 condition_index[rule_ind] = ast.literal_eval(str_value)
             elif rule_ind in rule_idx:
                 if rule_ind == "activation":
@@ -1031,10 +1042,10 @@ class RuleSet(ABC):
                     if rule_ind == "prediction":  # Prediction can be a str in case of classification
                         try:
                             setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-                        except ValueError:
+                        except (ValueError, SyntaxError):
                             setattr(rule, f"_{rule_ind}", str_value)
                     else:
-                        setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
+                        setattr(rule, f"_{rule_ind}", literal_eval_inf(str_value))
             else:
                 continue
 
@@ -1412,6 +1423,11 @@ class RuleSet(ABC):
             self.train_set_size = len(y)
 
 
+def literal_eval_inf(value: str):
+    """Same as ast.literal_eval for numbers or lists of numbers, but also knows inf"""
+    return ast.literal_eval(value.replace("inf", "2e308"))
+
+
 def traverse(o, tree_types=(list, tuple, RuleSet)):
     """Yields each elementary elements from nested list or tuple
 
-- 
2.43.0


From e8e10be18e1364c74f72076be1a4e28bcedeaaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:37 +0000
Subject: [PATCH 24/43] fix: stacked prediction of text classes when some rules
 have no class or are never active

---
 ruleskit/ruleset.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index e90f3d2..270708b 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1299,8 +1299,15 @@ class RuleSet(ABC):
         if stacked_activations is None:
             return None
 
-        if isinstance(self[0].prediction, str):
-            prediction_vectors = stacked_activations.replace(0, np.nan).replace(1.0, "") + predictions
+        if any(isinstance(p, str) for p in predictions):
+            prediction_vectors = pd.DataFrame(
+                {
+                    c: np.where(stacked_activations[c] == 0, np.nan, np.array(predictions[c], dtype=object))
+                    for c in stacked_activations
+                },
+                index=stacked_activations.index,
+                dtype=object,
+            )
         else:
             prediction_vectors = stacked_activations.replace(0, np.nan) * predictions
         if prediction_vectors.empty:
-- 
2.43.0


From 9e11c874511678d2501c7ce8e94bb41620eba895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:01 +0000
Subject: [PATCH 25/43] fix: rules extracted from a tree have the boxes, values
 and classes of their nodes

---
 ruleskit/utils/rule_utils.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index f268e6d..9b43942 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -95,7 +95,9 @@ def extract_rules_from_tree(
     """
     decision_tree = tree.tree_
     if features_names is None:
-        features_names = ["X_" + str(i) for i in range(tree.n_features_)]
+        features_names = ["X_" + str(i) for i in range(tree.n_features_in_)]
+    if classes_names is None and isinstance(tree, DecisionTreeClassifier):
+        classes_names = tree.classes_
 
     def visitor(node, depth, condition=None, rules_list=None):
         if rules_list is None:
@@ -131,14 +133,14 @@ def extract_rules_from_tree(
                 if isinstance(tree, DecisionTreeClassifier):
                     new_rule = ClassificationRule(copy.deepcopy(new_condition))
                     if classes_names is None:
-                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[node][0])]
+                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[decision_tree.children_left[node]][0])]
                     else:
                         new_rule._prediction = [
-                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[node][0])
+                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[decision_tree.children_left[node]][0])
                         ]
                 else:
                     new_rule = RegressionRule(copy.deepcopy(new_condition))
-                    new_rule._prediction = decision_tree.value[node][0][0]
+                    new_rule._prediction = decision_tree.value[decision_tree.children_left[node]][0][0]
                 rules_list.append(new_rule)
 
             # Execute the current function on the left of the current node
@@ -163,7 +165,7 @@ def extract_rules_from_tree(
             # Means we are not at first node. Same logic as previously, except this time
             # if Xi is in the list of features then the new bmins is now the threshold
             # and bmaxs is modified to be the X maximum. Then keep the max of current
-            # and new bmins as bmins, same for bmaxs.
+            # and new bmins as bmins, and the min of current and new bmaxs as bmaxs.
             # TODO there is something weird here, for X_i will necessarily be in cond, since
             # it was added at the very beginning of the function.
             if condition is not None:
@@ -175,7 +177,7 @@ def extract_rules_from_tree(
                     new_condition = copy.deepcopy(condition)
                     place = new_condition.features_indexes.index(decision_tree.feature[node])
                     new_condition.bmins[place] = max(new_bmins, new_condition.bmins[place])
-                    new_condition.bmaxs[place] = max(new_bmaxs, new_condition.bmaxs[place])
+                    new_condition.bmaxs[place] = min(new_bmaxs, new_condition.bmaxs[place])
 
             # Create the rule for the right side of the node then apply this
             # function on the right side of the node
@@ -183,14 +185,14 @@ def extract_rules_from_tree(
                 if isinstance(tree, DecisionTreeClassifier):
                     new_rule = ClassificationRule(copy.deepcopy(new_condition))
                     if classes_names is None:
-                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[node][0])]
+                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[decision_tree.children_right[node]][0])]
                     else:
                         new_rule._prediction = [
-                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[node][0])
+                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[decision_tree.children_right[node]][0])
                         ]
                 else:
                     new_rule = RegressionRule(copy.deepcopy(new_condition))
-                    new_rule._prediction = decision_tree.value[node][0][0]
+                    new_rule._prediction = decision_tree.value[decision_tree.children_right[node]][0][0]
                 rules_list.append(new_rule)
 
             rules_list = visitor(decision_tree.children_right[node], depth + 1, new_condition, rules_list)
-- 
2.43.0


From 6f808ec6b27749eee1ad6ca0f4b9ff59269bda51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:46 +0000
Subject: [PATCH 26/43] fix: two processes choosing the same activation file
 name do not share the file

---
 ruleskit/activation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 2365082..39a2a59 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -309,7 +309,7 @@ class Activation(ABC):
         arange = (0, int(1e64))
         data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{random.randint(*arange)}.txt"
         attempts = 0
-        while data.is_file():
+        while data.is_file() or not self._create_file(data):
             if attempts > 99:
                 logger.warning(
                     "Failed to save activation vector locally after 100 attempts at finding an available"
@@ -318,7 +318,6 @@ class Activation(ABC):
                 return False
             attempts += 1
             data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{random.randint(*arange)}.txt"
-        data.touch()
         self.data = data
         self.data_format = "file"
         with open(self.data, "wb") as f:
@@ -335,6 +334,15 @@ class Activation(ABC):
         self._n_written += 1
         return True
 
+    @staticmethod
+    def _create_file(path: Union[Path, "TransparentPath"]) -> bool:
+        """Creates an empty file, unless another process just did it. In that case, returns False."""
+        try:
+            with open(path, "xb"):
+                return True
+        except FileExistsError:
+            return False
+
     def _init_with_bitarray(self, value: bitarray, dtype: type):
 
         """
-- 
2.43.0


From e3d5b420a0d2e2b6c0d414febed1927274df65f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:53 +0000
Subject: [PATCH 27/43] fix: subtracting activations leaves no file behind but
 the one of the result

---
 ruleskit/activation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 39a2a59..e0a95ac 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -740,7 +740,10 @@ class Activation(ABC):
 
     def __sub__(self, other: "Activation") -> "Activation":
         """Logical EXCLUSIVE OR then logical AND"""
-        return (self ^ other) & self
+        xor = self ^ other
+        to_ret = xor & self
+        xor.delete()
+        return to_ret
 
     """ Other methods """
 
-- 
2.43.0


From 0ba42d96639593b6ef6792e3494cae17330b7514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:54 +0000
Subject: [PATCH 28/43] fix: classification criteria refuse unknown methods and
 targets of another length in all forms

---
 ruleskit/utils/rfunctions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index b3f43f4..b2c4972 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -371,6 +371,8 @@ def calc_classification_criterion(
     """
 
     method = kwargs.get("criterion_method", "success_rate")
+    if method.lower() != "success_rate":
+        raise ValueError(f"Unknown criterion: {method}. Please choose among:\n* success_rate")
 
     if not isinstance(activation_vector, pd.DataFrame) and not isinstance(activation_vector, np.ndarray):
         raise TypeError("'activation_vector' in calc_classification_criterion must be a np.ndarray or a pd.DataFrame")
@@ -379,15 +381,14 @@ def calc_classification_criterion(
         raise TypeError("Prediction should not be a numpy array")
 
     if isinstance(activation_vector, np.ndarray):
+        if len(y) != len(activation_vector):
+            raise IndexError("Activation vector and y should have the same length")
         y_conditional = np.extract(activation_vector != 0, y)
         if isinstance(prediction, pd.Series):
             if len(prediction) != len(activation_vector):
                 raise IndexError("Activation vector and prediction vector should have the same length")
             prediction = prediction[activation_vector != 0]
-        if method.lower() == "success_rate":
-            return success_rate(prediction, y_conditional)
-        else:
-            raise ValueError(f"Unknown criterion: {method}. Please choose among:\n* success_rate")
+        return success_rate(prediction, y_conditional)
     else:
         if not isinstance(prediction, pd.Series):
             raise TypeError(
-- 
2.43.0


From 0bf0a50f69fc44a9dd92d6ba982b5cfd5b26d8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:13 +0000
Subject: [PATCH 29/43] fix: votes of many rules or with integer weights do not
 overflow

---
 ruleskit/utils/rfunctions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index b2c4972..8fa06c5 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -564,6 +564,7 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
         length = len(activation)
         if nones == 0 or isinstance(rule.prediction, float) and np.isnan(rule.prediction):
             continue
+        activation = activation.astype(float)  # the sum of the weights might not fit in the bytes of the activations
         if preds is None:
             preds = pd.DataFrame(index=[rule.prediction], data=[activation * weights[rulename]])
         else:
-- 
2.43.0


From caa48a1ccad6f3c1b9bb8a3d0a7785f88da012ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:41 +0000
Subject: [PATCH 30/43] fix: the coverage of a rule set remains available after
 del_activation, as documented

---
 ruleskit/ruleset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 270708b..03074ad 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -286,10 +286,12 @@ class RuleSet(ABC):
     @property
     def ruleset_coverage(self) -> float:
         """Coverage is the fraction of points equal to 1 in the activation vector"""
-        if not self.activation_available:
-            return self._coverage
-        else:
+        if self.activation_available:
             return self._activation.coverage
+        # Computed attributes remain available after del_activation
+        if self._activation is not None and self._activation._coverage is not None:
+            return self._activation._coverage
+        return self._coverage
 
     # noinspection PyProtectedMember,PyTypeChecker
     def _update_activation(self, other: Union[Rule, "RuleSet"]):
-- 
2.43.0


From 380a3f21841ca8e85768c7c6badb8cd37c410982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:14 +0000
Subject: [PATCH 31/43] fix: activations given as bitarrays of different
 endianness can be combined

---
 ruleskit/activation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index e0a95ac..e8b8f87 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -362,6 +362,8 @@ class Activation(ABC):
         """
 
         logger.debug(f"Activation vector is a bitarray")
+        # bitarrays can only be combined if they have the same endianness
+        value = bitarray(value, endian="big")
         self.length = len(value)
         self._sizeof_bitarray = sys.getsizeof(value) / 1e6
         self._nones = value.count(1)
-- 
2.43.0


From b07d4672dbff2f6e8b2e7c7bcea5e3716d1f92a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:19 +0000
Subject: [PATCH 32/43] fix: 'rule in ruleset' compares conditions, not the
 text of their bounds

RuleSet.__contains__ compared str() of the lists of names and bounds, so a rule equal to one of the set was
not found in it when a bound was given as an int in one and a float in the other, or when an unsorted
condition lists its features in another order.
---
 ruleskit/ruleset.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 03074ad..c1696dd 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -203,16 +203,8 @@ class RuleSet(ABC):
     # noinspection PyProtectedMember
     def __contains__(self, other: Rule) -> bool:
         """A RuleSet contains another Rule if the two rule's conditions and predictions are the same"""
-        name_or_index = "name" if len(self.features_names) > 0 else "index"
-
-        if name_or_index == "index":
-            str_rules = [str(r.features_indexes) + str(r.bmins) + str(r.bmaxs) + str(r.prediction) for r in self]
-            str_rule = str(other.features_indexes) + str(other.bmins) + str(other.bmaxs) + str(other.prediction)
-        else:
-            str_rules = [str(r.features_names) + str(r.bmins) + str(r.bmaxs) + str(r.prediction) for r in self]
-            str_rule = str(other.features_names) + str(other.bmins) + str(other.bmaxs) + str(other.prediction)
-
-        return str_rule in str_rules
+        # do not compare the bounds as text : -2 and -2.0 are the same bound
+        return any(r.condition == other.condition and str(r.prediction) == str(other.prediction) for r in self)
 
     @property
     def rule_type(self) -> type:
-- 
2.43.0


From e1f1f1bdb559579d41edba952f7912579f317607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:12 +0000
Subject: [PATCH 33/43] fix: a failed stacked fit or eval left stack_activation
 switched on

---
 ruleskit/ruleset.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index c1696dd..e9adb4a 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -381,13 +381,17 @@ class RuleSet(ABC):
             if xs is not None:
                 clean_activation = not self.stack_activation
                 self.stack_activation = True
-                self.calc_activation(xs)
-                self.stack_activation = not clean_activation
+                try:
+                    self.calc_activation(xs)
+                finally:
+                    self.stack_activation = not clean_activation
             elif self.stacked_activations is None:
                 clean_activation = not self.stack_activation
                 self.stack_activation = True
-                self.compute_stacked_activation()
-                self.stack_activation = not clean_activation
+                try:
+                    self.compute_stacked_activation()
+                finally:
+                    self.stack_activation = not clean_activation
 
             if isinstance(y, np.ndarray):
                 # noinspection PyUnresolvedReferences
@@ -542,8 +546,10 @@ class RuleSet(ABC):
                 if keep_new_activations:
                     clean_activation = not self.stack_activation
                     self.stack_activation = True
-                    self.calc_activation(xs=xs)  # Will reset rules' activation vectors too
-                    self.stack_activation = not clean_activation
+                    try:
+                        self.calc_activation(xs=xs)  # Will reset rules' activation vectors too
+                    finally:
+                        self.stack_activation = not clean_activation
                     stacked_activations = self.stacked_activations
                     activation = self._activation
                     # noinspection PyUnresolvedReferences
@@ -562,11 +568,13 @@ class RuleSet(ABC):
                     # Else, will compute the stacked activation from the current rules activations
                     clean_activation = not self.stack_activation
                     self.stack_activation = True
-                    self.compute_stacked_activation()
-                    self.compute_self_activation()
-                    if self.stacked_activations is None:
-                        raise ValueError("Rules activations must have been computed previously.")
-                    self.stack_activation = not clean_activation
+                    try:
+                        self.compute_stacked_activation()
+                        self.compute_self_activation()
+                        if self.stacked_activations is None:
+                            raise ValueError("Rules activations must have been computed previously.")
+                    finally:
+                        self.stack_activation = not clean_activation
                 stacked_activations = self.stacked_activations
                 activation = self._activation
                 # noinspection PyUnresolvedReferences
-- 
2.43.0


From 182ee6cba3d4582881c8cb8f9a5ffd67b49fd41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:12 +0000
Subject: [PATCH 34/43] fix: a refused append without activation update stopped
 all later updates

---
 ruleskit/ruleset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index e9adb4a..b0c0754 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -687,9 +687,11 @@ class RuleSet(ABC):
         if not update_activation:
             self._compute_activation = False
             self.stack_activation = False
-        self.__iadd__(rule)
-        self._compute_activation = True
-        self.stack_activation = stack_activation
+        try:
+            self.__iadd__(rule)
+        finally:
+            self._compute_activation = True
+            self.stack_activation = stack_activation
 
     def sort(self, criterion: str = None, reverse: bool = False):
         """Sorts the RuleSet.
-- 
2.43.0


From 5b7c4b69c7ec1c91eba46102dd8c02d2f81711d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:57 +0000
Subject: [PATCH 35/43] fix: a rule or set with activations of another length
 was refused but added

---
 ruleskit/ruleset.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index b0c0754..3eb5b8d 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -129,7 +129,6 @@ class RuleSet(ABC):
                         f"Ruleset previously had rules of type {self.rule_type},"
                         f" so can not add rule of type {type(other)}"
                     )
-            self._rules.append(other)
         else:
             if self._rule_type is not None and other._rule_type is not None and self.rule_type != other.rule_type:
                 raise TypeError(
@@ -138,15 +137,19 @@ class RuleSet(ABC):
                 )
             if self._rule_type is None and other._rule_type is not None:
                 self.rule_type = other.rule_type
-            self._rules += other._rules
 
-        self.features_indexes = list(set(self.features_indexes + other.features_indexes))
-        if hasattr(other, "features_names"):
-            self.features_names = list(set(self.features_names + other.features_names))
+        # First, since it fails if the activations do not have the same length
         if self._compute_activation:
             self._update_activation(other)
         if self.stack_activation:
             self._update_stacked_activation(other)
+        if isinstance(other, Rule):
+            self._rules.append(other)
+        else:
+            self._rules += other._rules
+        self.features_indexes = list(set(self.features_indexes + other.features_indexes))
+        if hasattr(other, "features_names"):
+            self.features_names = list(set(self.features_names + other.features_names))
         return self
 
     def __add__(self, other: Union["RuleSet", Rule]):
-- 
2.43.0


From e2a7f53b2af1cdfc8f18c45f48e78d8180f84dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:01 +0000
Subject: [PATCH 36/43] fix: a failed stacked fit or eval left its table behind

---
 ruleskit/ruleset.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 3eb5b8d..4fd9ed1 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1,4 +1,5 @@
 import inspect
+from functools import wraps
 from abc import ABC
 import ast
 import pandas as pd
@@ -32,6 +33,25 @@ from .utils.rfunctions import (
 logger = logging.getLogger(__name__)
 
 
+def clean_table_if_fails(method: Callable) -> Callable:
+    """If the decorated method of a ruleset fails, does not leave behind the stacked activations that it computed for
+    itself, and which would not be kept up to date."""
+
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        had_table = self.stacked_activations is not None
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            if not self.stack_activation and not had_table:
+                self.del_stacked_activations()
+            elif self.stacked_activations is not None:
+                self.stacked_activations.index = pd.RangeIndex(len(self.stacked_activations.index))
+            raise
+
+    return wrapper
+
+
 class RuleSet(ABC):
     """A set of rules"""
 
@@ -329,6 +349,7 @@ class RuleSet(ABC):
             list(set(itertools.chain(*[rule.features_indexes for rule in self])))
 
     # noinspection PyProtectedMember
+    @clean_table_if_fails
     def fit(
         self,
         y: Union[np.ndarray, pd.Series],
@@ -473,6 +494,7 @@ class RuleSet(ABC):
         return to_drop
 
     # noinspection PyProtectedMember
+    @clean_table_if_fails
     def eval(
         self,
         y: Union[np.ndarray, pd.Series],
-- 
2.43.0


From 0f83530b7bdd072d930ca8ba523b07ae0e006e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:34 +0000
Subject: [PATCH 37/43] fix: an activation deleted twice removed, or took for
 its own, the file of another

The name of a deleted file can be given to another activation (re-seeded generator). delete() now forgets the path.
---
 ruleskit/activation.py | 13 +++++--------
 ruleskit/rule.py       |  5 +++--
 ruleskit/ruleset.py    |  5 +++--
 3 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index e8b8f87..54c2412 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -761,14 +761,11 @@ class Activation(ABC):
         self._init_with_raw(data, Activation.DTYPE)
 
     def delete(self):
-        """Deletes the activation vector's data, either by deleting the local file or by calling del on self.data. In
-        the later case, self.data is reset to None."""
-        if self.data_format == "file":
-            if self.data.is_file():
-                self.data.unlink()
-        else:
-            del self.data
-            self.data = None
+        """Deletes the activation vector's data, by deleting the local file if any. self.data is reset to None, for
+        the name of a deleted file can be given to another Activation."""
+        if self.data_format == "file" and self.data is not None and self.data.is_file():
+            self.data.unlink()
+        self.data = None
 
     def __len__(self):
         """Number of points in the vector"""
diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 8d98b41..e3c7783 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -169,10 +169,11 @@ class Rule(ABC):
         """Returns True if the rule has an activation vector, and if this Activation's object data is available."""
         if self._activation is None:
             return False
+        if self._activation.data is None:
+            return False
         if self._activation.data_format == "file":
             return self._activation.data.is_file()
-        else:
-            return self._activation.data is not None
+        return True
 
     @property
     def coverage(self) -> float:
diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 4fd9ed1..797c244 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -273,10 +273,11 @@ class RuleSet(ABC):
         """Returns True if the RuleSet has an activation vector, and if this Activation's object data is available."""
         if self._activation is None or self._activation.length == 0:
             return False
+        if self._activation.data is None:
+            return False
         if self._activation.data_format == "file":
             return self._activation.data.is_file()
-        else:
-            return self._activation.data is not None
+        return True
 
     @property
     def stacked_activations_available(self) -> bool:
-- 
2.43.0


From 2c6d32d8232c60be0f5cdc2a6654531c65838704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:45 +0000
Subject: [PATCH 38/43] fix: refuse an integer activation with more bits than
 its length

---
 ruleskit/activation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 54c2412..1eaabda 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -203,6 +203,9 @@ class Activation(ABC):
         self.loaded = False
         self.lasy = False
 
+        if isinstance(activation, int) and length is not None and activation.bit_length() > length:
+            raise ValueError(f"Integer activation has {activation.bit_length()} bits but its length is {length}.")
+
         # does not use instance to avoid conflicts if using TransparentPath
         if type(activation) == str and "," not in activation:
             if any([c not in "01" for c in activation]):  # is a file path
-- 
2.43.0


From aa675172cc60da85d3b2539e75208ee7a7f9f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:20 +0000
Subject: [PATCH 39/43] fix: as_bitarray and as_integer switch no global
 setting, so that threads (and failures) do not disturb each other

---
 ruleskit/activation.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 1eaabda..a3ecabd 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -945,12 +945,13 @@ class Activation(ABC):
         return act
 
     def _decompress(
-        self, value: Union[str, np.ndarray, Path] = None, raw=True, out=True
+        self, value: Union[str, np.ndarray, Path] = None, raw=True, out=True, integer: Optional[bool] = None
     ) -> Union[np.ndarray, bitarray, int]:
         """From a compressed array of either str or np.ndarray format, will return the raw np.ndarray vector of the form
         [0, 1, 1, 1, 0, 0, 1, ...]
 
-        If raw is True (default), returns it as a np.ndarray, else as a bitarray
+        If raw is True (default), returns it as a np.ndarray, else as an integer or a bitarray, according to integer, or
+        to Activation.WILL_COMPARE if it is not given.
 
         If out is False or value is None, will set:
             * self._time_compressed_to_raw
@@ -1046,7 +1047,7 @@ class Activation(ABC):
         if raw:
             act = s
             fmt = "raw"
-        elif Activation.WILL_COMPARE:
+        elif integer is True or (integer is None and Activation.WILL_COMPARE):
             t1 = time()
             act = self._raw_to_integer(s)
             if not out:
@@ -1310,11 +1311,7 @@ class Activation(ABC):
                 self._sizeof_bitarray = sys.getsizeof(to_ret) / 1e6
             return to_ret
         elif "compressed" in self.data_format:
-            wc = Activation.WILL_COMPARE
-            Activation.WILL_COMPARE = False
-            to_ret = self._decompress(raw=False, out=False)
-            Activation.WILL_COMPARE = wc
-            return to_ret
+            return self._decompress(raw=False, out=False, integer=False)
         else:
             raise ValueError(f"Unkown activation format {self.data_format}")
 
@@ -1351,11 +1348,7 @@ class Activation(ABC):
             self._sizeof_integer = sys.getsizeof(to_ret) / 1e6
             return to_ret
         elif "compressed" in self.data_format:
-            wc = Activation.WILL_COMPARE
-            Activation.WILL_COMPARE = True
-            to_ret = self._decompress(raw=False, out=False)
-            Activation.WILL_COMPARE = wc
-            return to_ret
+            return self._decompress(raw=False, out=False, integer=True)
         else:
             raise ValueError(f"Unkown activation format {self.data_format}")
 
-- 
2.43.0


From ffa99056bb949657673d81e3e2d7497a690e63c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:54 +0000
Subject: [PATCH 40/43] fix: sizeof_compressed_* of activations stored in files
 are known after their compression

---
 ruleskit/activation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index a3ecabd..646394e 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -1406,6 +1406,8 @@ class Activation(ABC):
             to_ret = self._compress(data, dtype=np.ndarray)
             self._time_raw_to_compressed = time() - t0
             self._n_raw_to_compressed += 1
+            if self._sizeof_compressed_array == -1:
+                self._sizeof_compressed_array = to_ret.nbytes / 1e6
         else:
             raise ValueError(f"Unkown activation format {self.data_format}")
         self._entropy = len(to_ret)
@@ -1460,6 +1462,8 @@ class Activation(ABC):
             to_ret = self._compress(data, dtype=str)
             self._time_raw_to_compressed = time() - t0
             self._n_raw_to_compressed += 1
+            if self._sizeof_compressed_str == -1:
+                self._sizeof_compressed_str = sys.getsizeof(to_ret) / 1e6
         else:
             raise ValueError(f"Unkown activation format {self.data_format}")
         self._entropy = len(ast.literal_eval(to_ret))
-- 
2.43.0


From aeae79c505f92844e2e5062be281831c96f49536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:30 +0000
Subject: [PATCH 41/43] fix: calc_ methods get the data given to eval also when
 the activation is recomputed

---
 ruleskit/rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index e3c7783..371134c 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -434,6 +434,7 @@ class Rule(ABC):
             logger.warning("Given xs is empty")
             return
 
+        data = xs  # the calc_<any_attribute> methods can need it, recomputed activation or not
         if recompute_activation:
             self.calc_activation(xs=xs)
             xs = None
@@ -455,7 +456,7 @@ class Rule(ABC):
             if not self.good and not force_if_not_good:
                 setattr(self, f"_{attr}", np.nan)
                 continue
-            launch_method(getattr(self, f"calc_{attr}"), y=y, xs=xs, activation=activation, **kwargs)
+            launch_method(getattr(self, f"calc_{attr}"), y=y, xs=data, activation=activation, **kwargs)
             if self.good:
                 self.check_thresholds(attr)
 
-- 
2.43.0


From 996245f3f186f5d0038dd74d834bc17bbc54617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:36 +0000
Subject: [PATCH 42/43] fix: adding to, or adding, a rule set without its own
 activation uses the activations of its rules

---
 ruleskit/ruleset.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 797c244..5e40e7b 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -312,11 +312,22 @@ class RuleSet(ABC):
     # noinspection PyProtectedMember,PyTypeChecker
     def _update_activation(self, other: Union[Rule, "RuleSet"]):
         """Updates the activation vector of the RuleSet with the activation vector of a new Rule or RuleSet."""
-        if other.activation_available:
-            if self._activation is None or self._activation.length == 0:
-                self._activation = Activation(other.activation, to_file=Rule.LOCAL_ACTIVATION)
-            else:
-                self._activation = self._activation | other._activation
+        activation, added = self._activation, other._activation
+        # A RuleSet that did not compute its activation, or deleted it, can still have those of its rules
+        if isinstance(other, RuleSet) and len(other) > 0 and not other.activation_available:
+            added = other.evaluate_self_activation()
+        elif not other.activation_available:
+            added = None
+        if added is None:
+            return
+        if len(self) > 0 and not self.activation_available:
+            activation = self.evaluate_self_activation()
+            if activation is None and self._activation is not None:
+                return
+        if activation is None or activation.length == 0:
+            self._activation = Activation(added.raw, to_file=Rule.LOCAL_ACTIVATION)
+        else:
+            self._activation = activation | added
 
     # noinspection PyProtectedMember,PyTypeChecker
     def _update_stacked_activation(self, other: Union[Rule, "RuleSet"]):
-- 
2.43.0


From b7ffda8423afd988a39b49c7e6c0af440a9aba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:36 +0000
Subject: [PATCH 43/43] fix: adding to a rule set whose stacked table was
 deleted makes the table of all its rules again

---
 ruleskit/ruleset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 5e40e7b..687af63 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -333,8 +333,13 @@ class RuleSet(ABC):
     def _update_stacked_activation(self, other: Union[Rule, "RuleSet"]):
         """Updates the stacked activation vectors of the RuleSet with the activation vector of a new Rule or
         the stacked activation vectors of another RuleSet."""
-        if other.activation_available:
+        available = other.activation_available
+        if isinstance(other, RuleSet) and len(other) > 0:
+            available = all([r.activation_available for r in other])  # even if other has no activation of its own
+        if available:
 
+            if self.stacked_activations is None and len(self) > 0:
+                self.stacked_activations = self.evaluate_stacked_activations()  # it was deleted
             if self.stacked_activations is None:
                 if isinstance(other, Rule):
                     self.stacked_activations = pd.DataFrame(
-- 
2.43.0

