"""Definitions of the planted bugs (developer tool, see plant.py)."""
A, C, R, S, T = (f"ruleskit/{n}.py" for n in ("activation", "condition", "rule", "ruleset", "thresholds"))
F, U = "ruleskit/utils/rfunctions.py", "ruleskit/utils/rule_utils.py"
BUGS = []


def bug(id, property, edits, demo, needs, breaks, count=1, probe=False):
    """probe: changes lines of fix commits, so it is only kept here (plant.py make does not write it to seeded/)"""
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, count=count, probe=probe))


bug("c01-int16-positions", "C01", [(A, '''            if to_ret[-1] < MAX_INT_32:
''', '''            if to_ret[-1] < 2 ** 16:
                to_ret = np.array(to_ret, dtype="int16")
            elif to_ret[-1] < MAX_INT_32:
''')], '''
import numpy as np
from ruleskit import Activation
Activation.DTYPE = np.ndarray
v = np.zeros(40000, dtype=np.ubyte)
v[33000:39000] = 1
a = Activation(v, to_file=False)
assert np.array_equal(a.raw, v)
''', "Activation.DTYPE = np.ndarray, memory storage, a vector with 32768 to 65535 points that compresses well",
    "positions above 32767 of the compressed array wrap around: the vector read back is not the one stored")

bug("c02-or-of-256", "C02", [(A, '''                res = np.vstack([a.raw for a in acs]).any(axis=0).astype(np.ubyte)
''', '''                res = (np.add.reduce([a.raw for a in acs], axis=0, dtype=np.ubyte) > 0).astype(np.ubyte)
''')], '''
import numpy as np
from ruleskit import Activation
acs = [Activation(np.array([1, 0, 1, i % 2]), to_file=False) for i in range(256)]
assert Activation.multi_logical_or(acs, asarray=True).tolist() == [1, 0, 1, 1]
''', "at least 256 activations, a point activated by exactly a multiple of 256 of them",
    "the n-ary OR counts the activations in a byte, and 256 ones look like none")

bug("c03-clear-keeps-coverage", "C03", [(A, '''        data = np.zeros(self.length)
        self._reset_data_related_attributes()
        self._init_with_raw(data, Activation.DTYPE)
''', '''        data = np.zeros(self.length)
        self._entropy = self._rel_entropy = self._nones = None
        self._init_with_raw(data, Activation.DTYPE)
''')], '''
import numpy as np
from ruleskit import Activation
a = Activation(np.array([1, 0, 1, 1]), to_file=False)
assert a.coverage == 0.75
a.clear()
assert a.coverage == 0 and a.nones == 0
''', "coverage (or nones) read before the activation is cleared", "a cleared activation still reports its old coverage")

bug("c04-and-in-place", "C04", [(A, '''            return Activation(
                self.raw * a2.raw,
                optimize=self.optimize and a2.optimize,
''', '''            common = self.raw
            common *= a2.raw
            return Activation(
                common,
                optimize=self.optimize and a2.optimize,
''')], '''
import numpy as np
from ruleskit import Activation
Activation.STORE_RAW = True
a = Activation(np.array([1, 1, 0, 0], dtype=np.ubyte))
b = Activation(np.array([1, 0, 1, 0], dtype=np.ubyte))
_ = a & b
assert a.raw.tolist() == [1, 1, 0, 0]
''', "left operand stored raw (Activation.STORE_RAW)", "a & b overwrites a with the result")

bug("c05-copy-shares-file", "C05", [(A, '''        return Activation(copy(self.data), optimize=self.optimize, to_file=self.data_format == "file")
''', '''        is_file = self.data_format == "file"
        return Activation(copy(self.data), optimize=self.optimize, to_file=is_file, lasy=is_file)
''')], '''
import numpy as np
from copy import copy
from ruleskit import Activation
a = Activation(np.array([1, 1, 0, 0]), to_file=True)
b = copy(a)
assert b.raw.tolist() == [1, 1, 0, 0]
a.delete()
assert b.raw.tolist() == [1, 1, 0, 0]
''', "file storage, a copy, and deletion of either of the two", "a copy reads the file of the original and is lost with it")

bug("c05-clean-any-extension", "C05", [(A, '''        for path in cls.DEFAULT_TEMPDIR.glob("ACTIVATION_VECTOR_*.txt"):
''', '''        for path in cls.DEFAULT_TEMPDIR.glob("ACTIVATION_VECTOR*"):
''')], '''
import tempfile, pathlib
from ruleskit import Activation
d = pathlib.Path(tempfile.mkdtemp())
Activation.DEFAULT_TEMPDIR = d
names = ["ACTIVATION_VECTOR_summary.csv", "ACTIVATION_VECTORS.txt", "notes.txt"]
for n in names:
    (d / n).write_text("mine")
Activation.clean_files()
assert sorted(p.name for p in d.iterdir()) == sorted(names)
''', "files of the user in the activation directory whose names start like those of activation files",
    "clean_files deletes files that are not activation files")

bug("c06-pairs-drop-last", "C06", [(A, '''            res = acs[0].raw
            for a in acs[1:]:
                res = np.vstack([res, a.raw]).any(axis=0).astype(np.ubyte)

        else:
''', '''            res = np.zeros(acs[0].length, dtype=np.ubyte)
            for a, b in zip(acs[::2], acs[1::2]):
                res = np.vstack([res, a.raw, b.raw]).any(axis=0).astype(np.ubyte)

        else:
''')], '''
import numpy as np, types, psutil
from ruleskit import Activation
acs = [Activation(np.eye(5)[i], to_file=False) for i in range(5)]
seq = [1e9, 0.8e9]
real = psutil.virtual_memory
psutil.virtual_memory = lambda: types.SimpleNamespace(available=seq.pop(0) if len(seq) > 1 else seq[0])
res = Activation.multi_logical_or(acs, asarray=True)
psutil.virtual_memory = real
assert res.tolist() == [1] * 5
''', "too little memory for all the vectors at once, and an odd number of activations",
    "the low-memory form of the n-ary OR forgets the last activation")

bug("c06-fallback-in-place", "C06", [(A, '''                res = acs[0].raw
                for a in acs[1:]:
                    res = np.vstack([res, a.raw]).all(axis=0).astype(np.ubyte)
''', '''                res = acs[0].raw
                for a in acs[1:]:
                    res &= a.raw
''')], '''
import numpy as np
from ruleskit import Activation
Activation.STORE_RAW = True
acs = [Activation(np.array(v, dtype=np.ubyte)) for v in ([1, 1, 0], [1, 0, 1], [1, 1, 1])]
real = np.vstack
def vstack(arrays, *a, **k):
    if len(arrays) > 2:
        raise MemoryError("no memory")
    return real(arrays, *a, **k)
np.vstack = vstack
res = Activation.multi_logical_and(acs, asarray=True)
np.vstack = real
assert res.tolist() == [1, 0, 0]
assert acs[0].raw.tolist() == [1, 1, 0]
''', "raw storage and a MemoryError while stacking the operands of the n-ary AND",
    "the fallback overwrites its first operand")

bug("c07-inf-when-unbounded", "C07", [(C, '''                geq_min &= np.greater_equal(xs[:, j], self._bmins[i])
                leq_min &= np.less_equal(xs[:, j], self._bmaxs[i])
                not_nan &= np.isfinite(xs[:, j])
''', '''                geq_min &= np.greater_equal(xs[:, j], self._bmins[i])
                leq_min &= np.less_equal(xs[:, j], self._bmaxs[i])
                not_nan &= ~np.isnan(xs[:, j])
''')], '''
import numpy as np
from ruleskit import HyperrectangleCondition
c = HyperrectangleCondition([0], bmins=[0], bmaxs=[np.inf])
assert c.evaluate(np.array([[1.0], [np.inf], [np.nan]])).tolist() == [1, 0, 0]
''', "an infinite bound and infinite data in an array", "infinite values match conditions")

bug("c08-common-feature-order", "C08", [(C, '''            common_features_positions_in_other = [other.features_names.index(f) for f in common_features]
''', '''            common_features_positions_in_other = [
                i for i, f in enumerate(other.features_names) if f in common_features
            ]
'''), (C, '''            if common_features_indexes_in_self != common_features_indexes_in_other:
''', '''            if set(common_features_indexes_in_self) != set(common_features_indexes_in_other):
''')], '''
from ruleskit import HyperrectangleCondition as H
a = H([0, 1], bmins=[0, 100], bmaxs=[10, 200], features_names=["a", "b"])
b = H([1, 0], bmins=[150, 5], bmaxs=[250, 8], features_names=["b", "a"], sort=False)
c = a & b
assert dict(zip(c.features_names, zip(c.bmins, c.bmaxs))) == {"a": (5, 8), "b": (150, 200)}
''', "two common features, right operand built unsorted with them in another order",
    "the bounds of one common feature are intersected with those of another")

bug("c10-keep-same-length-activation", "C10", [(R, '''        if len(xs) == 0:
            logger.warning("Given xs is empty")
            return
        self._activation = self.evaluate_activation(xs)
''', '''        if len(xs) == 0:
            logger.warning("Given xs is empty")
            return
        if self._fitted and self.activation_available and len(self._activation) == len(xs):
            return
        self._activation = self.evaluate_activation(xs)
''')], '''
import numpy as np
from ruleskit import HyperrectangleCondition as H, RegressionRule
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]))
r.fit(np.array([1.0, 2.0, 3.0]), np.array([[0.0], [5.0], [5.0]]))
assert r.prediction == 1
r.fit(np.array([1.0, 2.0, 3.0]), np.array([[5.0], [0.0], [0.5]]))
assert r.prediction == 2.5
''', "refitting (or evaluating with recompute) on other data with as many rows",
    "the rule keeps the activation of the first data")

bug("c10-mean-of-large-int", "C10", [(F, '''        return float(np.mean(non_nans_conditional_y))
''', '''        return float(np.sum(non_nans_conditional_y, dtype=non_nans_conditional_y.dtype) / len(non_nans_conditional_y))
''')], '''
import numpy as np
from ruleskit import HyperrectangleCondition as H, RegressionRule
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]))
y = np.array([100, 120, 110], dtype=np.int8)
r.fit(y, np.array([[0.0], [0.5], [1]]))
assert r.prediction == 110
''', "targets stored as small integers whose sum overflows", "the prediction is not the mean of the activated targets")

bug("c12-predict-stored", "C12", [(R, '''        if xs is not None:
            act = self.evaluate_activation(xs).raw
        elif self.activation is None:
''', '''        if xs is not None and not (self.activation_available and len(self._activation) == len(xs)):
            act = self.evaluate_activation(xs).raw
        elif self.activation is None:
''')], '''
import numpy as np
from ruleskit import HyperrectangleCondition as H, RegressionRule
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]))
r.fit(np.array([1.0, 2.0, 3.0]), np.array([[0.0], [5.0], [5.0]]))
p = r.predict(np.array([[5.0], [0.0], [5.0]]))
assert np.isnan(p[0]) and p[1] == 1 and np.isnan(p[2])
''', "predicting on data with as many rows as the training data", "predict ignores the new data")

bug("c14-stacked-sign-of-zero", "C14", [(S, '''            return predictions.apply(lambda x: None if x is None else ("-" if x < 0 else "+"))
''', '''            return predictions.apply(lambda x: None if x is None else ("+" if x > 0 else "-"))
''')], '''
import numpy as np
from ruleskit import HyperrectangleCondition as H, RegressionRule, RuleSet
RuleSet.STACKED_FIT = True
rs = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[i])) for i in (1, 2)])
rs.fit(np.array([-1.0, 1.0, 5.0]), np.array([[0.0], [1.0], [2.0]]))
assert [r.prediction for r in rs] == [0, 5 / 3] and [r.sign for r in rs] == ["+", "+"]
''', "stacked fit of a rule whose prediction is exactly zero (or NaN)", "stacked and rule-by-rule fits disagree on the sign")

bug("c15-set-shares-rule-activation", "C15", [(S, '''        if activation is None or activation.length == 0:
            self._activation = Activation(added.raw, to_file=Rule.LOCAL_ACTIVATION)
''', '''        if activation is None or activation.length == 0:
            self._activation = added
''')], '''
import numpy as np
from ruleskit import HyperrectangleCondition as H, RegressionRule, RuleSet
xs, y = np.array([[0.0], [1.0], [2.0]]), np.array([-1.0, 1.0, 5.0])
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]))
r.fit(y, xs)
rs = RuleSet()
rs.append(r)
rs.del_activation()
assert r.activation_available and r.activation.tolist() == [1, 1, 0]
''', "a rule appended to an empty set, then the set's activation deleted or cleared", "the rule loses its activation with the set's", probe=True)

bug("c15-iadd-shares-rules", "C15", [(S, '''        self.features_indexes = list(set(self.features_indexes + other.features_indexes))
        if hasattr(other, "features_names"):
            self.features_names = list(set(self.features_names + other.features_names))
        return self
''', '''        if isinstance(other, RuleSet) and len(self._rules) == len(other._rules):
            self._rules = other._rules
        self.features_indexes = list(set(self.features_indexes + other.features_indexes))
        if hasattr(other, "features_names"):
            self.features_names = list(set(self.features_names + other.features_names))
        return self
''')], '''
import numpy as np
from ruleskit import HyperrectangleCondition as H, RegressionRule, RuleSet
xs, y = np.array([[0.0], [1.0], [2.0]]), np.array([-1.0, 1.0, 5.0])
r1, r2 = (RegressionRule(H([0], bmins=[i], bmaxs=[i])) for i in (0, 1))
r1.fit(y, xs), r2.fit(y, xs)
a, b = RuleSet([r1]), RuleSet()
b += a
b.append(r2)
assert len(a) == 1 and a.activation.tolist() == [1, 0, 0]
''', "an empty set += another set, then a rule appended to either", "both sets share their list of rules")

bug("c16-zero-prediction-ignored", "C16", [(F, '''    return prediction_vectors.mean(axis=1)
''', '''    active = prediction_vectors.fillna(0)
    return active.sum(axis=1) / (active != 0).sum(axis=1).replace(0, np.nan)
''')], '''
import numpy as np
from ruleskit import HyperrectangleCondition as H, RegressionRule, RuleSet
RuleSet.STACKED_FIT = True
xs, y = np.array([[0.0], [1.0], [2.0]]), np.array([-1.0, 1.0, 6.0])
rs = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[i])) for i in (1, 2)], stack_activation=True)
rs.fit(y, xs)
assert rs.predict().tolist() == [1, 1, 2]
''', "stacked prediction with a rule whose prediction is exactly zero", "that rule is left out of the mean")

bug("c18-eval-keeps-target-index", "C18", [(S, '''            if clean_activation:
                self.del_stacked_activations()
            else:
                if isinstance(y, np.ndarray):
                    stacked_activations.index = pd.RangeIndex(y.shape[0])
                else:
                    stacked_activations.index = pd.RangeIndex(len(y.index))
''', '''            if clean_activation:
                self.del_stacked_activations()
''')], '''
import numpy as np, pandas as pd
from ruleskit import HyperrectangleCondition as H, RegressionRule, RuleSet
RuleSet.STACKED_FIT = True
xs, y = np.array([[0.0], [1.0], [2.0]]), pd.Series([-1.0, 1.0, 6.0], index=[7, 8, 9])
rs = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[i])) for i in (1, 2)], stack_activation=True)
rs.fit(y, xs)
before = rs.predict()
rs.eval(y)
assert before.equals(rs.predict())
''', "stacked evaluation with a Series target with its own index, then predicting",
    "evaluating leaves the target's index on the stacked table, which changes later predictions")

bug("c20-zero-always-good", "C20", [(T, '''        if value is None:
            return True
''', '''        if not value:
            return True
''')], '''
import json, os, tempfile, numpy as np
from ruleskit import HyperrectangleCondition as H, RegressionRule, RuleSet
p = os.path.join(tempfile.mkdtemp(), "t.json")
json.dump({"coverage": {"min": 0.1}}, open(p, "w"))
RegressionRule.SET_THRESHOLDS(p)
xs, y = np.array([[0.0], [0.0], [1.0], [1.0]]), np.array([1000.0, 0.0, 4.0, 5.0])
rs = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[i])) for i in (0, 7)])
out = rs.fit(y, xs)
assert len(rs) == 1 and len(out) == 1
''', "an attribute that is exactly zero (a rule never activated, a zero prediction or criterion)", "its limits are not checked")

bug("c22-slice-step", "C22", [(S, '''            indices = range(*key.indices(len(self.rules)))
''', '''            start, stop, _ = key.indices(len(self.rules))
            indices = range(start, stop)
''')], '''
import numpy as np
from ruleskit import HyperrectangleCondition as H, RegressionRule, RuleSet
rs = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[i])) for i in range(5)])
assert [r.bmaxs for r in rs[::2]] == [[0], [2], [4]]
''', "a slice with a step", "slicing ignores the step")

bug("c24-cached-hash", "C24", [(R, '''    def __hash__(self) -> hash:
        return hash(frozenset(self.to_hash))

    def __len__(self):
        """A Rule's length''', '''    def __hash__(self) -> hash:
        if "_hash" not in self.__dict__:
            self._hash = hash(frozenset(self.to_hash))
        return self._hash

    def __len__(self):
        """A Rule's length''')], '''
from ruleskit import HyperrectangleCondition as H, RegressionRule
a, b = RegressionRule(H([0], bmins=[0], bmaxs=[1])), RegressionRule(H([0], bmins=[0], bmaxs=[2]))
assert hash(a) != hash(b)
a.bmaxs = [2]
assert a == b and hash(a) == hash(b)
''', "hash of a rule read before its bounds are changed", "equal rules have different hashes")

bug("c07-bounds-cast-to-data", "C07", [(C, '''                geq_min &= np.greater_equal(xs[:, j], self._bmins[i])
                leq_min &= np.less_equal(xs[:, j], self._bmaxs[i])
                not_nan &= np.isfinite(xs[:, j])
''', '''                bmin, bmax = self._bmins[i], self._bmaxs[i]
                if xs.dtype.kind == "i" and np.isfinite(bmin) and np.isfinite(bmax):  # compare like with like
                    bmin, bmax = int(bmin), int(bmax)
                geq_min &= np.greater_equal(xs[:, j], bmin)
                leq_min &= np.less_equal(xs[:, j], bmax)
                not_nan &= np.isfinite(xs[:, j])
''')], '''
import numpy as np
from ruleskit import HyperrectangleCondition
c = HyperrectangleCondition([0], bmins=[0.5], bmaxs=[1.5])
assert c.evaluate(np.array([[0], [1], [2]])).tolist() == [0, 1, 0]
''', "an array of integers and fractional bounds", "bounds are truncated, so rows outside the box match")

bug("c09-tolerant-equality", "C09", [(C, '''            (self._features_names[i], self._bmins[i], self._bmaxs[i]) for i in range(len(self._features_names))
''', '''            (self._features_names[i], float("%.9g" % self._bmins[i]), float("%.9g" % self._bmaxs[i]))
            for i in range(len(self._features_names))
''')], '''
from ruleskit import HyperrectangleCondition as H
a, b = (H([0], bmins=[0.1], bmaxs=[x]) for x in (1.00000000001, 1.00000000002))
assert a != b
''', "bounds that differ after the ninth significant digit", "different boxes compare equal")

bug("c11-only-first-rows", "C11", [(F, '''        count = Counter(y_conditional)
        n = len(y_conditional)
''', '''        if len(y_conditional) > 5000:  # enough to know the proportions
            y_conditional = y_conditional[:5000]
        count = Counter(y_conditional)
        n = len(y_conditional)
''')], '''
import numpy as np
from ruleskit import HyperrectangleCondition as H, ClassificationRule
r = ClassificationRule(H([0], bmins=[0], bmaxs=[1]))
y = np.array([1] * 5000 + [2] * 5001)
r.fit(y, np.zeros((10001, 1)))
assert r.prediction == 2
''', "more than 5000 activated rows, classes not evenly spread", "the class predicted is not the most frequent one")

bug("c14-stacked-train-size", "C14", [(S, '''    def calc_train_set_sizes(self, y: Union[np.ndarray, pd.Series]) -> pd.Series:
        if isinstance(y, (pd.Series, pd.DataFrame)):
            s = len(y.index)
''', '''    def calc_train_set_sizes(self, y: Union[np.ndarray, pd.Series]) -> pd.Series:
        if isinstance(y, (pd.Series, pd.DataFrame)):
            s = int(y.count())
''')], '''
import numpy as np, pandas as pd
from ruleskit import HyperrectangleCondition as H, RegressionRule, RuleSet
RuleSet.STACKED_FIT = True
rs = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[i])) for i in (1, 2)])
rs.fit(pd.Series([-1.0, np.nan, 5.0]), np.array([[0.0], [1.0], [2.0]]))
assert [r.train_set_size for r in rs] == [3, 3]
''', "stacked fit with missing values in a Series target", "the train set size is not the number of rows, unlike in the rule-by-rule fit")

bug("c17-tie-of-three", "C17", [(F, '''    best_preds = best_preds[(preds == best_preds).sum() == 1]
''', '''    best_preds = best_preds[(preds == best_preds).sum() % 2 == 1]
''')], '''
import numpy as np
from ruleskit import HyperrectangleCondition as H, ClassificationRule, RuleSet
xs = np.array([[0.0, 0, 0], [1, 0, 1], [1, 1, 0], [0, 1, 1.0]])
y = np.array([9, 1, 2, 3])
rs = RuleSet([ClassificationRule(H([i, j], bmins=[a, b], bmaxs=[a, b])) for i, j, a, b in ((0, 2, 1, 1), (0, 1, 1, 1), (1, 2, 1, 1))])
rs.fit(y, xs)
assert [r.prediction for r in rs] == [1, 2, 3]
p = rs.predict(np.array([[1.0, 1, 1], [1, 0, 1]]))
assert np.isnan(p.iloc[0]) and p.iloc[1] == 1
''', "rule-by-rule prediction where three or more classes tie", "a class is predicted though none wins")

bug("c19-resolved-limit-kept", "C19", [(T, '''        threshold = copy(self.limits[tkey])
''', '''        threshold = self.limits[tkey]
''')], '''
import json, os, tempfile, numpy as np
from ruleskit import HyperrectangleCondition as H, RegressionRule
p = os.path.join(tempfile.mkdtemp(), "t.json")
json.dump({"coverage": {"min": 0}, "std": {"max": "prediction"}}, open(p, "w"))
RegressionRule.SET_THRESHOLDS(p)
xs, y = np.array([[0.0], [0.0], [1.0], [1.0]]), np.array([1.0, 2.0, 100.0, 120.0])
rs = [RegressionRule(H([0], bmins=[i], bmaxs=[i])) for i in (0, 1)]
for r in rs:
    r.fit(y, xs)
assert [r.good for r in rs] == [True, True], [r.std for r in rs]
''', "a textual limit (another attribute of the rule) and more than one rule",
    "the limit of the first rule checked is used for all others")

bug("c21-rounded-floats", "C21", [(S, '''        sr = pd.Series(data=[str(getattr(rule, ind)) for ind in index], name=name, index=index, dtype=str)
''', '''        values = [getattr(rule, ind) for ind in index]
        values = [f"{v:.15g}" if isinstance(v, float) else str(v) for v in values]
        sr = pd.Series(data=values, name=name, index=index, dtype=str)
''')], '''
import os, tempfile, numpy as np
from ruleskit import HyperrectangleCondition as H, RegressionRule, RuleSet
p = os.path.join(tempfile.mkdtemp(), "rs.csv")
xs, y = np.array([[0.0], [1.0], [2.0]]), np.array([0.1, 0.2, 6.0])
rs = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[i])) for i in (0, 1)])
rs.fit(y, xs)
assert rs[1].prediction == 0.15000000000000002
rs.eval(y)
rs.save(p)
rs2 = RuleSet()
rs2.load(p)
assert [r.prediction for r in rs2] == [r.prediction for r in rs]
''', "values that need 16 or 17 digits", "saving rounds predictions, coverages, stds, zscores and criteria")

bug("c23-shallow-copy", "C23", [(U, '''                    new_bmaxs = decision_tree.threshold[node]
                    new_condition = copy.deepcopy(condition)
''', '''                    new_bmaxs = decision_tree.threshold[node]
                    new_condition = copy.copy(condition)
''')], '''
import numpy as np
from sklearn.tree import DecisionTreeRegressor
from ruleskit.utils.rule_utils import extract_rules_from_tree
x = np.linspace(0, 7, 8).reshape(-1, 1)
y = np.array([0.0, 1, 5, 6, 20, 21, 30, 31])
t = DecisionTreeRegressor(max_depth=3).fit(x, y)
rs = extract_rules_from_tree(t, [0.0], [7.0], get_leaf=True)
for i in range(8):
    act = [r.prediction for r in rs if r.condition.evaluate(x[i:i + 1])[0]]
    assert act == [t.predict(x[i:i + 1])[0]], (i, act)
''', "a tree that splits twice on the same feature along a branch", "the left branch changes the box of the right one")

bug("c13-series-target-aligned", "C13", [(F, '''    if isinstance(y, pd.Series):
        y = y.values

    if criterion_method.lower() == "mse":
''', '''    if criterion_method.lower() == "mse":
''')], '''
import numpy as np, pandas as pd
from ruleskit.utils.rfunctions import calc_regression_criterion
y = pd.Series([0.0, 1.0, 5.0], index=[1, 2, 0])
p = pd.Series([1.0, 1.0, np.nan])
assert calc_regression_criterion(p, y, criterion_method="mse") == 0.5
''', "a Series target whose index is not 0..n-1 in order", "predictions are compared with the targets of other rows")

# ---------------------------------------------------------------- second wave
IMP = '''
import numpy as np, pandas as pd
from ruleskit import Activation, HyperrectangleCondition as H, RegressionRule, ClassificationRule, RuleSet, Rule
'''

bug("c03-nones-in-bytes", "C03", [(A, '''            if self._nones is None:
                self._nones = np.count_nonzero(s == 1)

''', '''            if self._nones is None:
                self._nones = int(np.add.reduce(s, dtype=s.dtype))

''')], IMP + '''
a = Activation("1,300,400", to_file=False)
assert a.nones == 300 and a.coverage == 0.75
''', "a vector given compressed, with more than 255 ones", "the number of ones is modulo 256")

bug("c04-entropy-keeps-compressed", "C04", [(A, '''            self._entropy = len(ast.literal_eval(compressed))
        if self._rel_entropy is None:
''', '''            self._entropy = len(ast.literal_eval(compressed))
            if fmt in ("bitarray", "integer") and sys.getsizeof(compressed) < sys.getsizeof(self.data):
                # it was computed anyway, and takes less memory
                self.data = compressed
                self.data_format = "compressed_str"
        if self._rel_entropy is None:
''')], IMP + '''
from bitarray import bitarray
a = Activation(bitarray("0" * 2000 + "1" * 2000), optimize=False, to_file=False)
assert a.data_format == "bitarray"
a.entropy
assert a.data_format == "bitarray"
''', "entropy read on a long non-optimized bitarray or integer activation", "reading the entropy changes the storage format")

bug("c05-and-returns-self", "C05", [(A, '''            raise ValueError(f"Activations have different lengths. Left is {self.length}, right is {a2.length}")

        if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
            self.data_format == "integer" and a2.data_format == "integer"
        ):  # gains time by not using raw
            return Activation(
                self.data & a2.data, optimize=self.optimize and a2.optimize, length=self.length, to_file=False
            )
''', '''            raise ValueError(f"Activations have different lengths. Left is {self.length}, right is {a2.length}")

        if self is not a2 and a2.nones == a2.length:
            return self
        if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
            self.data_format == "integer" and a2.data_format == "integer"
        ):  # gains time by not using raw
            return Activation(
                self.data & a2.data, optimize=self.optimize and a2.optimize, length=self.length, to_file=False
            )
''')], IMP + '''
a, b = Activation(np.array([0, 1, 1]), to_file=False), Activation(np.array([1, 1, 1]), to_file=False)
c = a & b
c.clear()
assert a.raw.tolist() == [0, 1, 1]
''', "AND with an activation that is 1 everywhere, then clearing or deleting the result", "the result is the operand itself, so clearing it alters the operand")

bug("c05-delete-prefix", "C05", [(A, '''            self.data.unlink()
        self.data = None
''', '''            # also what was left beside it
            for path in self.data.parent.glob(f"{self.data.stem}*"):
                path.unlink()
        self.data = None
''')], IMP + '''
import random, tempfile, pathlib
with tempfile.TemporaryDirectory() as d:
    Activation.DEFAULT_TEMPDIR = pathlib.Path(d)
    n = iter([12, 123])
    random.randint = lambda *args: next(n)
    a, b = Activation(np.array([0, 1])), Activation(np.array([1, 1]))
    a.delete()
    assert b.raw.tolist() == [1, 1]
''', "two activation files, the number of one being the beginning of the number of the other", "deleting one activation deletes the other's file", probe=True)

bug("c06-fallback-deletes-first", "C06", [(S, '''                for a in activations[1:]:
                    act = act | a
''', '''                for a in activations[1:]:
                    previous = act
                    act = previous | a
                    previous.delete()  # memory is short
''')], IMP + '''
def short(acs, asarray=False):
    raise MemoryError("short")
Activation.multi_logical_or = staticmethod(short)
rules = [RegressionRule(H([0], bmins=[i], bmaxs=[i])) for i in range(3)]
xs = np.arange(3.0).reshape(-1, 1)
[r.fit(xs[:, 0], xs) for r in rules]
rs = RuleSet(rules)
assert rs.activation.tolist() == [1, 1, 1] and all(r.activation_available for r in rules)
''', "the n-ary OR raises MemoryError while a rule set computes its activation", "the activation of its first rule is deleted")

bug("c07-mixed-columns", "C07", [(C, '''            for i, n in enumerate(self._features_names):
                geq_min &= np.greater_equal(xs[n], self._bmins[i])
                leq_min &= np.less_equal(xs[n], self._bmaxs[i])
                not_nan &= np.isfinite(xs[n])
            activation = (geq_min & leq_min & not_nan).values
''', '''            values = xs[self._features_names].values
            for i in range(len(self._features_names)):
                geq_min &= np.greater_equal(values[:, i], self._bmins[i])
                leq_min &= np.less_equal(values[:, i], self._bmaxs[i])
                not_nan &= np.isfinite(values[:, i])
            activation = geq_min & leq_min & not_nan
''')], IMP + '''
xs = pd.DataFrame({"a": [2 ** 53 + 1, 2 ** 53], "b": [0.5, 0.5]})
c = H([0, 1], bmins=[2 ** 53 + 1, 0], bmaxs=[2 ** 53 + 1, 1], features_names=["a", "b"])
assert c.evaluate(xs).tolist() == [1, 0]
''', "a DataFrame mixing a column of integers above 2**53 and a column of floats", "integers are rounded to floats before the comparison")

bug("c08-zero-bound", "C08", [(C, '''                max(bmin0, bmin1) for bmin0, bmin1 in zip(common_features_bmins_in_self, common_features_bmins_in_other)
''', '''                bmin0 if bmin0 and bmin0 > bmin1 else bmin1
                for bmin0, bmin1 in zip(common_features_bmins_in_self, common_features_bmins_in_other)
''')], IMP + '''
c = H([0], bmins=[0], bmaxs=[3]) & H([0], bmins=[-2], bmaxs=[3])
assert c.bmins == [0]
''', "the left bound is 0 and the right one is negative", "a lower bound of 0 is lost")

bug("c08-single-feature-shared", "C08", [(C, '''            features_indexes=copy(self.features_indexes),
            bmins=copy(self.bmins),
            bmaxs=copy(self.bmaxs),
            features_names=copy(self.features_names),
''', '''            features_indexes=self.features_indexes,
            bmins=self.bmins,
            bmaxs=self.bmaxs,
            features_names=self.features_names,
''')], IMP + '''
a, b = H([0], bmins=[0], bmaxs=[3]), H([0], bmins=[1], bmaxs=[2])
a & b
assert a.bmins == [0] and a.bmaxs == [3]
''', "the left condition has one feature, which the other condition also has", "AND narrows its left operand")

bug("c09-hash-with-index", "C09", [(C, '''    def __hash__(self):
        return hash(frozenset(self.to_hash))

    def __getitem__''', '''    def __hash__(self):
        return hash((frozenset(self.to_hash), tuple(self._features_indexes)))

    def __getitem__''')], IMP + '''
a, b = H([0], bmins=[0], bmaxs=[1], features_names=["a"]), H([1], bmins=[0], bmaxs=[1], features_names=["a"])
assert a == b and hash(a) == hash(b)
''', "two equal conditions whose features have other indexes or another order", "equal conditions have different hashes")

bug("c10-zscore-std-of-series", "C10", [(F, '''    deno = np.sqrt(horizon / nones) * np.nanstd(y)
''', '''    std = y.std() if isinstance(y, pd.Series) else np.nanstd(y)
    deno = np.sqrt(horizon / nones) * std
''')], IMP + '''
xs, y = np.arange(6.0).reshape(-1, 1), np.array([1.0, 2, 3, 5, 4, 7])
z = []
for target in (y, pd.Series(y)):
    r = RegressionRule(H([0], bmins=[0], bmaxs=[2]))
    r.fit(target, xs)
    z.append(r.zscore)
assert abs(z[0] - z[1]) < 1e-9
''', "a target given as a Series", "the zscore uses the sample standard deviation of y instead of the population one")

bug("c12-cached-evaluation", "C12", [(R, '''        arr = self._condition.evaluate(xs)
        # noinspection PyTypeChecker
''', '''        key = (id(xs), len(xs), str(self._condition))
        if self.__dict__.get("_last_evaluation", (None, None))[0] == key:  # same data as last time
            arr = self._last_evaluation[1]
        else:
            arr = self._condition.evaluate(xs)
            self._last_evaluation = (key, arr)
        # noinspection PyTypeChecker
''')], IMP + '''
xs, y = np.array([[0.0], [1.0], [2.0]]), np.array([1.0, 2.0, 3.0])
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]))
r.fit(y, xs)
xs[0, 0] = 9.0
assert np.isnan(r.predict(xs)[0])
''', "the same array object given again after its values were changed in place", "the rule is applied to the values the data had before")

bug("c14-stacked-ignores-horizon", "C14", [(S, '''                computed_attrs[f"{attr}s"] = launch_method(
                    getattr(self, f"calc_{attr}s"), y=y, xs=xs, **computed_attrs, **kwargs
                )
''', '''                computed_attrs[f"{attr}s"] = launch_method(getattr(self, f"calc_{attr}s"), y=y, xs=xs, **computed_attrs)
''')], IMP + '''
xs, y = np.arange(6.0).reshape(-1, 1), np.array([1.0, 2, 3, 5, 4, 7])
z = []
for RuleSet.STACKED_FIT in (True, False):
    rs = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[2])), RegressionRule(H([0], bmins=[1], bmaxs=[4]))])
    rs.fit(y, xs, horizon=3)
    z.append([r.zscore for r in rs])
assert np.allclose(*z)
''', "stacked fit with a horizon", "the horizon is ignored by the stacked fit only")

bug("c15-eval-stale-features", "C15", [(S, '''        to_drop = [r for r in self if not r.good]
        if len(to_drop) > 0:
            rules = [r for r in self.rules if r.good]
            self._rules = []
            self.features_names = []
            self.features_indexes = []
            if self._activation is not None:
                self._activation.clear()
            self.del_stacked_activations()
            for r in rules:
                self.append(r, update_activation=False)

            # Recompute activation now that bad rules have been droped
            self._activation = None
            self.compute_self_activation()
            if self.stack_activation:
                self.stacked_activations = None
                self.compute_stacked_activation()
        # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
        # been done
''', '''        to_drop = [r for r in self if not r.good]
        if len(to_drop) > 0:
            rules = [r for r in self.rules if r.good]
            self._rules = []
            if self._activation is not None:
                self._activation.clear()
            self.del_stacked_activations()
            for r in rules:
                self.append(r, update_activation=False)

            # Recompute activation now that bad rules have been droped
            self._activation = None
            self.compute_self_activation()
            if self.stack_activation:
                self.stacked_activations = None
                self.compute_stacked_activation()
        # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
        # been done
''')], IMP + '''
import tempfile, json
xs = np.array([[0.0, 0], [1, 0], [2, 1], [3, 1]])
y = np.array([1.0, 1.0, 5.0, 9.0])
with tempfile.TemporaryDirectory() as d:
    rs = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[1])), RegressionRule(H([1], bmins=[1], bmaxs=[1]))])
    rs.fit(y, xs)
    json.dump({"criterion": {"max": 0.01}}, open(d + "/t.json", "w"))
    Rule.SET_THRESHOLDS(d + "/t.json")
    rs.eval(y, xs)
    assert len(rs) == 1 and list(rs.features_names) == ["X_0"]
''', "a rule dropped by eval being the only one with some feature", "the set still lists the features of the dropped rules", probe=True)

bug("c16-count-in-bytes", "C16", [(F, '''        if cum_pred is None:
            cum_pred = pd.Series(np.zeros(len(activation)))
            cum_w = pd.Series(np.zeros(len(activation)))
        if rule.prediction is None or np.isnan(rule.prediction):
            continue
        cum_pred += activation * rule.prediction
        cum_w += activation
''', '''        if cum_pred is None:
            cum_pred = pd.Series(np.zeros(len(activation)))
            cum_w = pd.Series(np.zeros(len(activation), dtype=activation.dtype))
        if rule.prediction is None or np.isnan(rule.prediction):
            continue
        cum_pred += activation * rule.prediction
        cum_w += activation
''')], IMP + '''
xs, y = np.array([[0.0], [1.0]]), np.array([1.0, 3.0])
rs = RuleSet([RegressionRule(H([0], bmins=[-i], bmaxs=[1])) for i in range(300)])
[r.fit(y, xs) for r in rs]
assert np.allclose(rs.predict(xs), 2)
''', "256 or more rules active at the same row, rule-by-rule prediction", "the number of active rules is modulo 256", probe=True)

bug("c17-stacked-class-zero", "C17", [(S, '''            prediction_vectors = stacked_activations.replace(0, np.nan) * predictions
        if prediction_vectors.empty:
''', '''            prediction_vectors = (stacked_activations * predictions).replace(0, np.nan)
        if prediction_vectors.empty:
''')], IMP + '''
RuleSet.STACKED_FIT = True
xs, y = np.array([[0.0], [1.0]]), np.array([0, 1])
rs = RuleSet([ClassificationRule(H([0], bmins=[i], bmaxs=[i])) for i in range(2)], stack_activation=True)
rs.fit(y, xs)
assert rs.predict().tolist() == [0, 1]
''', "stacked prediction, a class equal to 0", "votes for class 0 are lost")

bug("c18-weights-in-place", "C18", [(F, '''    if len(rules) == 0:
        return pd.Series(dtype=int)

    def get_max(s: pd.Series):
''', '''    if len(rules) == 0:
        return pd.Series(dtype=int)
    weights.dropna(inplace=True)

    def get_max(s: pd.Series):
''')], IMP + '''
xs, y = np.array([[0.0], [1.0]]), np.array([0, 1])
rs = RuleSet([ClassificationRule(H([0], bmins=[i], bmaxs=[i])) for i in range(2)])
rs.fit(y, xs)
w = pd.Series({str(r.condition): v for r, v in zip(rs, (1.0, np.nan))})
rs._calc_prediction_unstacked(w) if False else rs.predict(xs, weights=w)
assert len(w) == 2
''', "rule-by-rule classification with weights, one of which is NaN", "the caller's weights lose their NaN entries")

bug("c19-arg-on-limit", "C19", [(T, '''                threshold[lim] = getattr(rule, threshold[lim])
''', '''                threshold[lim] = getattr(rule, threshold[lim])
                if "arg" in threshold:
                    threshold[lim] = Thresholds.KWOWN_ARGS[threshold["arg"]](threshold[lim])
''')], IMP + '''
import tempfile, json
xs = np.array([[0.0], [1.0], [2.0]])
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]))
r.fit(np.array([-4.0, -1.0, 5.0]), xs)
with tempfile.TemporaryDirectory() as d:
    json.dump({"std": {"arg": "abs", "min": "prediction"}, "coverage": {"min": 0}}, open(d + "/t.json", "w"))
    r.set_thresholds(d + "/t.json")
    assert r.thresholds("std", r)
''', "a function and a textual limit together", "the function is also applied to the limit")

bug("c20-stacked-eval-unchecked", "C20", [(S, '''                    if self._rules[ir].good:
                        self._rules[ir].check_thresholds(attr[:-1])
                if self._rules[ir].good:
                    self._rules[ir].check_thresholds()
        else:
            [
                r.eval(
''', '''                    if self._rules[ir].good:
                        self._rules[ir].check_thresholds(attr[:-1])
        else:
            [
                r.eval(
''')], IMP + '''
import tempfile, json
RuleSet.STACKED_FIT = True
xs, y = np.array([[0.0], [1.0], [2.0], [3.0]]), np.array([1.0, 1.0, 5.0, 9.0])
rs = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[1])), RegressionRule(H([0], bmins=[2], bmaxs=[3]))])
rs.fit(y, xs)
with tempfile.TemporaryDirectory() as d:
    json.dump({"prediction": {"max": 2}, "coverage": {"min": 0}}, open(d + "/t.json", "w"))
    Rule.SET_THRESHOLDS(d + "/t.json")
    dropped = rs.eval(y, xs)
assert len(dropped) == 1 and len(rs) == 1
''', "stacked evaluation, thresholds set after the fit on an attribute that eval does not compute", "rules that miss such a threshold are kept")

bug("c21-sorted-names", "C21", [(S, '''            df = pd.concat(dfs, axis=1).T
''', '''            df = pd.concat(dfs, axis=1).T.sort_index()
''')], IMP + '''
import tempfile
xs, y = np.arange(12.0).reshape(-1, 1), np.arange(12.0)
rs = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[i])) for i in range(12)])
rs.fit(y, xs)
with tempfile.TemporaryDirectory() as d:
    rs.save(d + "/r.csv")
    new = RuleSet()
    new.load(d + "/r.csv")
assert [r.bmins for r in new] == [r.bmins for r in rs]
''', "more than ten rules, or rules that were given names by a former save and were sorted since", "the rules are saved in the alphabetical order of their names")

bug("c22-reverse-unstable", "C22", [(S, '''            self._rules = sorted(self, key=lambda x: getattr(x, criterion), reverse=reverse)
''', '''            self._rules = sorted(self, key=lambda x: getattr(x, criterion))
            if reverse:
                self._rules.reverse()
''')], IMP + '''
xs, y = np.arange(4.0).reshape(-1, 1), np.arange(4.0)
rs = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[i])) for i in range(4)])
rs.fit(y, xs)
rs.sort("coverage", reverse=True)
assert [r.bmins[0] for r in rs] == [0, 1, 2, 3]
''', "sorting by an attribute in reversed order, equal values of it", "rules with equal values change order")

bug("c22-equality-of-subset", "C22", [(S, '''        return set(self.rules) == set(other.rules)
''', '''        return all(any(r == o for o in other.rules) for r in self.rules)
''')], IMP + '''
r = [RegressionRule(H([0], bmins=[i], bmaxs=[i])) for i in range(2)]
assert RuleSet(r) == RuleSet(r[::-1]) and RuleSet(r[:1]) != RuleSet(r)
''', "comparing a set with a larger set that holds all its rules", "a subset compares equal")

bug("c23-right-resets-max", "C23", [(U, '''                    new_condition.bmaxs[place] = min(new_bmaxs, new_condition.bmaxs[place])

            # Create the rule for the right side''', '''                    new_condition.bmaxs[place] = new_bmaxs

            # Create the rule for the right side''')], IMP + '''
from sklearn.tree import DecisionTreeRegressor
from ruleskit.utils.rule_utils import extract_rules_from_tree
xs, y = np.arange(8.0).reshape(-1, 1), np.array([0.0, 1, 5, 9, 30, 31, 35, 39])
t = DecisionTreeRegressor(max_depth=3, random_state=0).fit(xs, y)
rs = extract_rules_from_tree(t, [0.0], [7.0], get_leaf=True)
assert sum(r.condition.evaluate(xs) for r in rs).tolist() == [1] * 8
''', "a node split on a feature which an ancestor already bounded above", "the box of the right child extends beyond the ancestor's bound", probe=True)

bug("c24-contains-by-size", "C24", [(R, '''            return False
        return other._activation in self._activation
''', '''            return False
        if len(self) > len(other):  # more features is more specific
            return False
        return other._activation in self._activation
''')], IMP + '''
xs = np.array([[0.0, 0], [1, 0], [2, 0]])
a, b = RegressionRule(H([0, 1], bmins=[0, 0], bmaxs=[2, 0])), RegressionRule(H([0], bmins=[0], bmaxs=[1]))
[r.fit(np.arange(3.0), xs) for r in (a, b)]
assert b in a
''', "the containing rule has more features than the other", "containment is refused")

bug("c25-subattributes-coverage", "C25", [(R, '''        for attr in self.__class__.index:
            _ = getattr(self, attr)
''', '''        for attr in self.__class__.index:
            value = getattr(self, attr)
            if isinstance(value, float):
                setattr(self, f"_{attr}", round(value, 9))
''')], IMP + '''
xs, y = np.arange(7.0).reshape(-1, 1), np.arange(7.0) / 3
res = []
for Rule.COMPUTE_SUBATTRIBUTES in (False, True):
    r = RegressionRule(H([0], bmins=[0], bmaxs=[5]))
    r.fit(y[::-1] * 1e-6, xs)
    res.append(r.prediction)
assert abs(res[0] - res[1]) < 1e-12
''', "COMPUTE_SUBATTRIBUTES on, attributes with more than nine decimals", "precomputing attributes rounds them")


# ---------------------------------------------------------------------------------------------------------------- third wave
bug("c02-nary-xor-parity", "C02", [(A, '''        lor = Activation.multi_logical_or(acs, True)
        nland = -(Activation.multi_logical_and(acs, True) - 1)
        res = lor & nland.astype(np.ubyte)
''', '''        res = np.bitwise_xor.reduce([a.raw for a in acs])
''')], IMP + '''
acs = [Activation(np.array(v), to_file=False) for v in ([1, 1, 0], [1, 1, 0], [1, 0, 0])]
assert Activation.multi_logical_xor(acs, asarray=True).tolist() == [0, 1, 0]
''', "three or more activations", "the n-ary XOR becomes the parity", probe=True)

bug("c02-and-any-nonzero", "C02", [(A, '''            return Activation(
                self.data ^ a2.data, optimize=self.optimize and a2.optimize, length=self.length, to_file=False
            )
''', '''            diff = self.data ^ a2.data
            if self.optimize and a2.optimize and not diff:
                return self
            return Activation(
                diff, optimize=self.optimize and a2.optimize, length=self.length, to_file=False
            )
''')], IMP + '''
from bitarray import bitarray
Activation.WILL_COMPARE = True
v = [0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1] * 3
a, b = [Activation(bitarray(v), to_file=False) for i in range(2)]
assert (a ^ b).raw.tolist() == [0] * len(v)
''', "XOR of two equal vectors held as integers", "returns the vector instead of zeros", probe=True)

bug("c02-sub-when-disjoint", "C02", [(A, '''        xor = self ^ other
        to_ret = xor & self
        xor.delete()
        return to_ret
''', '''        xor = self ^ other
        if xor.nones == self.nones + other.nones:  # nothing in common
            return xor
        to_ret = xor & self
        xor.delete()
        return to_ret
''')], IMP + '''
a, b = [Activation(np.array(v), to_file=False) for v in ([1, 0, 0], [0, 1, 0])]
assert (a - b).raw.tolist() == [1, 0, 0]
''', "the difference of two activations with no point in common", "the points of the second are kept", probe=True)

bug("c03-copy-keeps-nothing", "C03", [(A, '''        if self._rel_entropy is None:
            self._rel_entropy = self._entropy / self.length
        return self._entropy
''', '''        if self._rel_entropy is None:
            self._rel_entropy = self._entropy / (self.length + 1)
        return self._entropy
''')], IMP + '''
Activation.STORE_RAW = True
a = Activation(np.array([0, 1, 1, 0]), to_file=False)
assert a.rel_entropy == a.entropy / 4
''', "the relative entropy read first, on a vector whose entropy was not computed at creation", "the relative entropy is wrong")

bug("c03-compressed-view-of-file", "C03", [(A, '''            data = self._read(out=False)
            t0 = time()
            to_ret = self._compress(data, dtype=np.ndarray)
            self._time_raw_to_compressed = time() - t0
            self._n_raw_to_compressed += 1
            if self._sizeof_compressed_array == -1:
                self._sizeof_compressed_array = to_ret.nbytes / 1e6
        else:
            raise ValueError(f"Unkown activation format {self.data_format}")
        self._entropy = len(to_ret)
''', '''            data = self._read(out=False)
            t0 = time()
            to_ret = self._compress(data, dtype=np.ndarray)
            self._time_raw_to_compressed = time() - t0
            self._n_raw_to_compressed += 1
            self._rel_entropy = to_ret.nbytes / data.nbytes
            if self._sizeof_compressed_array == -1:
                self._sizeof_compressed_array = to_ret.nbytes / 1e6
        else:
            raise ValueError(f"Unkown activation format {self.data_format}")
        self._entropy = len(to_ret)
''')], IMP + '''
a = Activation(np.array([0, 1, 1, 0]))
_ = a.as_compressed_array
assert a.rel_entropy == a.entropy / 4
a.delete()
''', "a file-backed activation viewed as a compressed array before its relative entropy is read", "the relative entropy depends on what was read before")

bug("c05-clear-unlinks", "C05", [(A, '''        data = np.zeros(self.length)
        self._reset_data_related_attributes()
        self._init_with_raw(data, Activation.DTYPE)
''', '''        data = np.zeros(self.length)
        self.delete()
        self._reset_data_related_attributes()
        self._init_with_raw(data, Activation.DTYPE)
''')], IMP + '''
import tempfile, os
from pathlib import Path
with tempfile.TemporaryDirectory() as d:
    f = Path(d) / "mine.npy"
    np.save(f, np.array([1, 0, 1], dtype=np.ubyte))
    a = Activation(f, lasy=True)
    a.clear()
    assert f.is_file()
''', "clearing a lazily loaded activation of a user's file", "the user's file is deleted")

bug("c05-name-relative", "C05", [(A, '''                raise ValueError("Activation vector was not saved locally : can not read it.")
            path = self.data
''', '''                raise ValueError("Activation vector was not saved locally : can not read it.")
            path = self.data if self.lasy else Activation.DEFAULT_TEMPDIR / self.data.name
''')], IMP + '''
import tempfile
from pathlib import Path
with tempfile.TemporaryDirectory() as d1, tempfile.TemporaryDirectory() as d2:
    Activation.DEFAULT_TEMPDIR = Path(d1)
    a = Activation(np.array([1, 0, 1]))
    Activation.DEFAULT_TEMPDIR = Path(d2)
    assert a.raw.tolist() == [1, 0, 1]
''', "DEFAULT_TEMPDIR changed after the activation was written", "its data can no longer be read")

bug("c06-fallback-sum", "C06", [(A, '''                logger.warning(str(e))
                res = acs[0].raw
                for a in acs[1:]:
                    res = np.vstack([res, a.raw]).any(axis=0).astype(np.ubyte)
''', '''                logger.warning(str(e))
                res = acs[0].raw
                for a in acs[1:]:
                    res = res ^ a.raw if len(acs) > 2 else res | a.raw
''')], IMP + '''
acs = [Activation(np.array([1, 0, 1]), to_file=False) for i in range(4)]
real, n = np.vstack, [0]
def vstack(*a, **k):
    n[0] += 1
    if n[0] == 1:
        raise MemoryError("injected")
    return real(*a, **k)
np.vstack = vstack
assert Activation.multi_logical_or(acs, asarray=True).tolist() == [1, 0, 1]
''', "stacking all the vectors fails for lack of memory, three operands or more", "points active in an even number of operands are lost", probe=True)

bug("c06-warned-once", "C06", [(A, '''        if available_memory < 2 * single_act_size:
            raise MemoryError(
                f"Not enough memory left to compute 'multi_logical_or'. Need at least 2x{single_act_size} MB,"
                f" has only {available_memory} MB"
            )

        if available_memory < expected_size:
            logger.warning(
                "Not enough memory to compute 'multi_logical_or' with all the vectors at once."
                " Will do it by pairs, taking more time but less memory."
            )
            res = acs[0].raw
            for a in acs[1:]:
                res = np.vstack([res, a.raw]).all(axis=0).astype(np.ubyte)
''', '''        if available_memory < 2 * single_act_size:
            raise MemoryError(
                f"Not enough memory left to compute 'multi_logical_or'. Need at least 2x{single_act_size} MB,"
                f" has only {available_memory} MB"
            )

        if available_memory < expected_size:
            logger.warning(
                "Not enough memory to compute 'multi_logical_or' with all the vectors at once."
                " Will do it by pairs, taking more time but less memory."
            )
            res = acs[0].raw
            for a in acs[1:]:
                if not res.any():  # will stay null
                    return Activation(res, to_file=False)
                res = np.vstack([res, a.raw]).all(axis=0).astype(np.ubyte)
''')], IMP + '''
import psutil, types
it = iter([100e6, 50e6] + [50e6] * 50)
psutil.virtual_memory = lambda: types.SimpleNamespace(available=next(it))
acs = [Activation(np.array(v), to_file=False) for v in ([1, 0], [0, 1], [1, 1])]
r = Activation.multi_logical_and(acs, asarray=True)
assert isinstance(r, np.ndarray) and r.tolist() == [0, 0]
''', "n-ary AND by pairs (memory reported short) whose partial result becomes null, asarray=True", "an Activation is returned instead of the array")

bug("c07-impossible-kept", "C07", [(C, '''        if self._bmins is not None and self._bmaxs is not None:
            # If a bmin is above its associated bmax, then the rule is impossible.
            self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])

    @bmaxs.setter
''', '''        if self._bmins is not None and self._bmaxs is not None:
            # If a bmin is above its associated bmax, then the rule is impossible.
            self.impossible = self.impossible or any([a > b for a, b in zip(self.bmins, self.bmaxs)])

    @bmaxs.setter
''')], IMP + '''
c = H([0], bmins=[5], bmaxs=[3])
c.bmins = [1]
assert c.evaluate(np.array([[2.0]])).tolist() == [1]
''', "an impossible condition whose lower bounds are then set to possible ones", "the condition is never met again", probe=True)

bug("c08-positions-in-self", "C08", [(C, '''            common_features_positions_in_self = [self_clone.features_names.index(f) for f in common_features]
''', '''            common_features_positions_in_self = [self.features_names.index(f) for f in common_features]
''')], IMP + '''
a = H([2, 0], bmins=[20, 0], bmaxs=[29, 9], sort=False)
b = H([0], bmins=[5], bmaxs=[7])
c = a & b
assert c.evaluate(np.array([[6.0, 0, 25]])).tolist() == [1] and c.evaluate(np.array([[1.0, 0, 25]])).tolist() == [0]
''', "a left operand which is not sorted, with several features, sharing one with the other", "the bounds are taken from another feature", probe=True)

bug("c10-nan-counts", "C10", [(F, '''    num = abs(prediction - np.nanmean(y))
    deno = np.sqrt(horizon / nones) * np.nanstd(y)
''', '''    num = abs(prediction - np.nanmean(y))
    deno = np.sqrt(horizon / nones) * np.nanstd(y, ddof=np.isnan(y).any() * 1)
''')], IMP + '''
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]))
y = np.array([1.0, 3.0, np.nan, 9.0])
r.fit(y, np.array([[0.0], [1], [2], [3]]))
exp = abs(2 - np.nanmean(y)) / (np.sqrt(1 / 2) * np.nanstd(y))
assert abs(r.zscore - exp) < 1e-9
''', "missing values among the targets", "the zscore uses another estimator")

bug("c11-string-probabilities", "C11", [(R, '''            prop = [float(p[1]) for p in self._prediction]
''', '''            prop = [round(float(p[1]), 2) for p in self._prediction]
''')], IMP + '''
r = ClassificationRule(H([0], bmins=[0], bmaxs=[1000]))
y = np.array([1] * 100 + [2] * 101)
r.fit(y, np.zeros((201, 1)))
assert r.prediction == 2
''', "two classes whose frequencies differ by less than a hundredth, the less frequent one first", "the less frequent class is predicted", probe=True)

bug("c12-string-width", "C12", [(R, '''            to_ret = to_ret.astype(f"<U{max(3, len(self.prediction))}")
''', '''            to_ret = to_ret.astype("<U8")
''')], IMP + '''
r = ClassificationRule(H([0], bmins=[0], bmaxs=[1]))
xs = np.array([[0.0], [5]])
r.fit(np.array(["a very long class", "b"]), xs)
assert r.predict(xs)[0] == "a very long class"
''', "class names longer than 8 characters", "predicted names are cut", probe=True)

bug("c15-same-coverage-skip", "C15", [(S, '''            if self._activation is None or self._activation.length == 0:
                self._activation = Activation(other.activation, to_file=Rule.LOCAL_ACTIVATION)
            else:
                self._activation = self._activation | other._activation
''', '''            if self._activation is None or self._activation.length == 0:
                self._activation = Activation(other.activation, to_file=Rule.LOCAL_ACTIVATION)
            elif self._activation.coverage < 1 and other._activation.coverage != self._activation.coverage:
                self._activation = self._activation | other._activation
''')], IMP + '''
xs, y = np.arange(4.0).reshape(-1, 1), np.arange(4.0)
r = [RegressionRule(H([0], bmins=[i], bmaxs=[i])) for i in range(2)]
[x.fit(y, xs) for x in r]
rs = RuleSet(r[:1])
rs += r[1]
assert rs.activation.tolist() == [1, 1, 0, 0]
''', "appending a rule that covers as many rows as the set, but other ones", "the set's activation lacks the new rule's points", probe=True)

bug("c15-sort-table", "C15", [(S, '''        if self.stack_activation and self.stacked_activations is not None:
            self.stacked_activations = self.stacked_activations[[str(r.condition) for r in self]]
''', '''        if self.stack_activation and self.stacked_activations is not None and criterion is None:
            self.stacked_activations = self.stacked_activations[[str(r.condition) for r in self]]
''')], IMP + '''
xs, y = np.arange(4.0).reshape(-1, 1), np.arange(4.0)
rs = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[3])) for i in range(3)], stack_activation=True)
rs.fit(y, xs)
rs.sort("coverage")
assert list(rs.stacked_activations.columns) == [str(r.condition) for r in rs]
''', "sorting by an attribute a set that keeps its stacked table", "the table keeps the old order", probe=True)

bug("c16-first-rule-nan", "C16", [(F, '''        if cum_pred is None:
            cum_pred = pd.Series(np.zeros(len(activation)))
            cum_w = pd.Series(np.zeros(len(activation)))
        if rule.prediction is None or np.isnan(rule.prediction):
            continue
        cum_pred += activation * rule.prediction
        cum_w += activation
''', '''        if cum_pred is None:
            if rule.prediction is not None and np.isnan(rule.prediction):
                return pd.Series(np.nan, index=range(len(activation)))
            cum_pred = pd.Series(np.zeros(len(activation)))
            cum_w = pd.Series(np.zeros(len(activation)))
        if rule.prediction is None or np.isnan(rule.prediction):
            continue
        cum_pred += activation * rule.prediction
        cum_w += activation
''')], IMP + '''
xs, y = np.arange(4.0).reshape(-1, 1), np.arange(4.0)
rs = RuleSet([RegressionRule(H([0], bmins=[9], bmaxs=[9])), RegressionRule(H([0], bmins=[0], bmaxs=[3]))])
rs.fit(y, xs)
assert rs.predict(xs).tolist() == [1.5] * 4
''', "the first rule activates no training point", "the whole set predicts nothing", probe=True)

bug("c16-negative-sum", "C16", [(F, '''        cum_pred += activation * rule.prediction * weights[rulename]
        cum_w += activation * weights[rulename]
''', '''        cum_pred += activation * rule.prediction * weights[rulename]
        cum_w += (activation * np.float32(weights[rulename])).astype(float)
''')], IMP + '''
xs, y = np.arange(4.0).reshape(-1, 1), np.arange(4.0) + 1
rs = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[3]))])
rs.fit(y, xs)
p = rs.predict(xs, weights=pd.Series({str(rs[0].condition): 0.1}))
assert abs(p[0] - 2.5) < 1e-10, p[0]
''', "weights which are not float32 numbers", "predictions are off by 1e-8", probe=True)

bug("c17-weights-truncated", "C17", [(F, '''    best_preds = preds.max().replace(0, np.nan)
    best_preds = best_preds[(preds == best_preds).sum() == 1]
''', '''    best_preds = preds.max().replace(0, np.nan)
    best_preds = best_preds[(preds >= best_preds * (1 - 1e-3)).sum() == 1]
''')], IMP + '''
xs = np.array([[0.0], [1]])
y = np.array([0, 1])
rs = RuleSet([ClassificationRule(H([0], bmins=[0], bmaxs=[0])), ClassificationRule(H([0], bmins=[1], bmaxs=[1]))])
rs.fit(y, xs)
rs[0].condition.bmaxs = [1]
rs[1].condition.bmins = [0.0]
w = pd.Series([1000.5, 1000.0], index=[str(r.condition) for r in rs])
assert rs.predict(xs, weights=w).tolist() == [0, 0]
''', "votes that differ by less than a thousandth", "the winner is taken for a tie")

bug("c18-keeps-activation", "C18", [(S, '''        if len(self) == 0:
            raise ValueError("Can not use evaluate : The ruleset is empty!")
        activations = [rule.evaluate_activation(xs) for rule in self.rules]
''', '''        if len(self) == 0:
            raise ValueError("Can not use evaluate : The ruleset is empty!")
        for rule in self.rules:
            if not rule.activation_available:
                rule.calc_activation(xs)
        activations = [rule.evaluate_activation(xs) for rule in self.rules]
''')], IMP + '''
xs = np.arange(4.0).reshape(-1, 1)
rs = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[3])) for i in range(3)])
rs.evaluate(xs)
assert not any(r.activation_available for r in rs)
''', "evaluate on a set whose rules have no activation yet", "the rules get an activation")

bug("c19-rule-thresholds-kept", "C19", [(R, '''        if path is None:
            self._thresholds = None
        else:
            self._thresholds = Thresholds(path, show)
''', '''        if path is not None:
            self._thresholds = Thresholds(path, show)
''')], IMP + '''
import json, tempfile, os
d = tempfile.mkdtemp()
f = os.path.join(d, "t.json")
json.dump({"coverage": {"min": 0.9}}, open(f, "w"))
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]))
r.set_thresholds(f)
r.set_thresholds(None)
r.fit(np.arange(4.0), np.arange(4.0).reshape(-1, 1))
assert r.good
''', "removing the thresholds of one rule", "the rule keeps them", probe=True)

bug("c19-min-max-both", "C19", [(T, '''        if "max" in threshold and value > threshold["max"]:
''', '''        if "max" in threshold and "min" not in threshold and value > threshold["max"]:
''')], IMP + '''
import json, tempfile, os
from ruleskit.thresholds import Thresholds
d = tempfile.mkdtemp()
f = os.path.join(d, "t.json")
json.dump({"prediction": {"min": 0, "max": 1}}, open(f, "w"))
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]))
r._prediction = 2.0
assert not Thresholds(f)("prediction", r)
''', "limits that give both a minimum and a maximum", "the maximum is ignored", probe=True)

bug("c20-drop-bad-because", "C20", [(R, '''        if attribute is not None:
            if not self.thresholds(attribute, self):
                self._bad_because = attribute
                self._good = False
            return
''', '''        if attribute is not None:
            if self.good and not self.thresholds(attribute, self):
                self._bad_because = attribute
                self._good = attribute == "std"
            return
''')], IMP + '''
import json, tempfile, os
d = tempfile.mkdtemp()
f = os.path.join(d, "t.json")
json.dump({"std": {"max": 0.1}}, open(f, "w"))
Rule.SET_THRESHOLDS(f)
r = RegressionRule(H([0], bmins=[0], bmaxs=[3]))
r.calc_activation(np.arange(4.0).reshape(-1, 1))
r.calc_std(np.arange(4.0))
assert not r.good
''', "the standard deviation computed directly", "the rule is not flagged until fitted", probe=True)

bug("c20-eval-returns-empty", "C20", [(S, '''        for attr in self.__class__.attributes_from_test_set[type_to_use]:
            launch_method(
                getattr(self, f"calc_{attr}"),
                y=y,
                xs=xs if not keep_new_activations else None,
                weights=weights,
                **kwargs,
            )

        return to_drop
''', '''        for attr in self.__class__.attributes_from_test_set[type_to_use]:
            launch_method(
                getattr(self, f"calc_{attr}"),
                y=y,
                xs=xs if not keep_new_activations else None,
                weights=weights,
                **kwargs,
            )

        return [r for r in to_drop if r.bad_because in self.rule_type.attributes_from_test_set]
''')], IMP + '''
import json, tempfile, os
d = tempfile.mkdtemp()
xs, y = np.arange(4.0).reshape(-1, 1), np.arange(4.0)
rs = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[3])) for i in range(3)])
rs.fit(y, xs)
f = os.path.join(d, "t.json")
json.dump({"coverage": {"min": 0.6}}, open(f, "w"))
Rule.SET_THRESHOLDS(f)
out = rs.eval(y, xs)
assert len(out) + len(rs) == 3, (len(out), len(rs))
''', "rules dropped at evaluation because of something else than the criterion (thresholds set after the fit)", "they are dropped without being returned")

bug("c21-negative-zero", "C21", [(S, '''        sr = pd.Series(data=[str(getattr(rule, ind)) for ind in index], name=name, index=index, dtype=str)
''', '''        sr = pd.Series(
            data=[str(getattr(rule, ind)).replace("e-0", "e-") for ind in index], name=name, index=index, dtype=str
        )
''')], IMP + '''
import tempfile, os
xs, y = np.arange(4.0).reshape(-1, 1), np.arange(4.0) * 1e-7
rs = RuleSet([RegressionRule(H(features_names=["size-0", "e-01"], bmins=[0, 1], bmaxs=[3, 2]))])
rs.fit(y, pd.DataFrame({"size-0": [0, 1, 2.0, 3], "e-01": [1, 1, 2.0, 3]}))
with tempfile.TemporaryDirectory() as d:
    rs.save(d + "/r.csv")
    n = RuleSet()
    n.load(d + "/r.csv")
assert sorted(n[0].features_names) == sorted(rs[0].features_names)
''', "feature names containing 'e-0'", "the loaded rule has other names")

bug("c21-criterion-none", "C21", [(S, '''            self.test_set_size = rules[rules.iloc[:, 0] == "ruleset test set size"].iloc[0, 1]
''', '''            self.test_set_size = rules[rules.iloc[:, 0] == "ruleset test set size"].iloc[0, 1] or self.train_set_size
''')], IMP + '''
import tempfile, os
xs, y = np.arange(4.0).reshape(-1, 1), np.arange(4.0)
rs = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[3]))])
rs.fit(y, xs)
with tempfile.TemporaryDirectory() as d:
    rs.save(d + "/r.csv")
    n = RuleSet()
    n.load(d + "/r.csv")
assert n.test_set_size is None and n.train_set_size == 4
''', "a set which was fitted but never evaluated", "the loaded set claims a test set size")

bug("c22-iadd-own-rules", "C22", [(S, '''            rules = list(dict.fromkeys(self.rules + other.rules))
''', '''            rules = self.rules + [r for r in other.rules if r not in self]
''')], IMP + '''
xs = np.arange(4.0).reshape(-1, 1)
a = RegressionRule(H([0], bmins=[0], bmaxs=[2]))
b = RegressionRule(H([0], bmins=[0], bmaxs=[2]))
a.fit(np.arange(4.0), xs)
b.fit(np.arange(4.0) * 2, xs)
n = RuleSet([a]) + RuleSet([b])
assert len(n) == 1
''', "adding a set holding a rule equal to one of self's (same condition) but predicting something else", "the rule is kept twice", probe=True)

bug("c22-duplicates-by-hash", "C22", [(S, '''        if len(set(str_rules)) < len(str_rules):
''', '''        if len(set(str_rules)) < len(str_rules) - 1:
''')], IMP + '''
RuleSet.CHECK_DUPLICATED = True
r = [RegressionRule(H([0], bmins=[0], bmaxs=[2])) for i in range(2)]
try:
    RuleSet(r)
except ValueError:
    pass
else:
    raise AssertionError
''', "CHECK_DUPLICATED, exactly one duplicate", "it goes unnoticed")

bug("c23-get-leaf-classes", "C23", [(U, '''                if classes_names is None:
                    new_rule._prediction = [pred for pred in enumerate(decision_tree.value[node][0])]
                else:
                    new_rule._prediction = [
                        (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[node][0])
                    ]
                rules_list.append(new_rule)
''', '''                if classes_names is None:
                    new_rule._prediction = [pred for pred in enumerate(decision_tree.value[node][0])]
                else:
                    new_rule._prediction = [
                        (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[node][0][:10])
                    ]
                rules_list.append(new_rule)
''')], IMP + '''
from sklearn.tree import DecisionTreeClassifier
from ruleskit.utils.rule_utils import extract_rules_from_tree
xs, y = np.arange(24.0).reshape(-1, 1), np.arange(24) // 2
t = DecisionTreeClassifier(random_state=0).fit(xs, y)
rs = extract_rules_from_tree(t, [0.0], [23.0], get_leaf=True)
assert sorted(r.prediction for r in rs) == sorted(set(y))
''', "a classification tree with more than ten classes", "leaves of the last classes predict another one")

bug("c24-correlation-integer", "C24", [(A, '''        common_points = np.count_nonzero(self.raw == other.raw)
        return common_points / len(self)
''', '''        common_points = (len(self) - (self ^ other).nones) if self.data_format == other.data_format else np.count_nonzero(
            self.raw == other.raw
        ) & 0xFFFF
        return common_points / len(self)
''')], IMP + '''
a = Activation(np.zeros(70000), to_file=False)
b = Activation(np.arange(70000) % 7 % 2 * 0 + (np.arange(70000) % 3 == 5), to_file=False, optimize=False)
Activation.STORE_RAW = True
c = Activation(np.zeros(70000), to_file=False)
assert a.get_correlation(c) == 1
''', "vectors of more than 65535 points in different formats", "the correlation wraps around")

bug("c25-ncpus-in-or", "C25", [(A, '''        expected_size = single_act_size * len(acs) * Activation.NCPUS * 1.1  # factor 1.1 is just for safety

        if available_memory < 2 * single_act_size:
            raise MemoryError(
                f"Not enough memory left to compute 'multi_logical_or'. Need at least 2x{single_act_size} MB,"
                f" has only {available_memory} MB"
            )

        if available_memory < expected_size:
            logger.warning(
                "Not enough memory to compute 'multi_logical_or' with all the vectors at once."
                " Will do it by pairs, taking more time but less memory."
            )
            res = acs[0].raw
            for a in acs[1:]:
                res = np.vstack([res, a.raw]).any(axis=0).astype(np.ubyte)
''', '''        expected_size = single_act_size * len(acs) * Activation.NCPUS * 1.1  # factor 1.1 is just for safety

        if available_memory < 2 * single_act_size:
            raise MemoryError(
                f"Not enough memory left to compute 'multi_logical_or'. Need at least 2x{single_act_size} MB,"
                f" has only {available_memory} MB"
            )

        if available_memory < expected_size or Activation.NCPUS > len(acs):
            logger.warning(
                "Not enough memory to compute 'multi_logical_or' with all the vectors at once."
                " Will do it by pairs, taking more time but less memory."
            )
            res = acs[0].raw
            for a in acs[1:]:
                res |= a.raw
''')], IMP + '''
Activation.STORE_RAW = True
Activation.NCPUS = 8
acs = [Activation(np.array(v), to_file=False) for v in ([1, 0, 0], [0, 1, 0], [0, 0, 0])]
Activation.multi_logical_or(acs)
assert acs[0].raw.tolist() == [1, 0, 0]
''', "more CPUs than activations, raw storage", "the first rule's activation is overwritten")

bug("c26-criterion-of-train", "C26", [(S, '''                y=y,
                xs=xs if not keep_new_activations else None,
                weights=weights,
                **kwargs,
            )

        return to_drop
''', '''                y=y,
                xs=xs if not keep_new_activations and len(to_drop) == 0 else None,
                weights=weights,
                **kwargs,
            )

        return to_drop
''')], IMP + '''
import json, tempfile, os
d = tempfile.mkdtemp()
xs, y = np.arange(4.0).reshape(-1, 1), np.arange(4.0)
rs = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[3])) for i in range(3)])
rs.fit(y, xs)
f = os.path.join(d, "t.json")
json.dump({"coverage": {"min": 0.6}}, open(f, "w"))
Rule.SET_THRESHOLDS(f)
rs.eval(y, xs[::-1].copy(), criterion_method="mse")
p = rs.predict(xs[::-1].copy())
assert abs(rs.criterion - ((p - y) ** 2).mean()) < 1e-9
''', "rules dropped while evaluating on new data without keeping activations", "the set's criterion is computed from the training activations")

bug("c26-test-size-nonnull", "C26", [(S, '''    def calc_test_set_size(self, y: Union[np.ndarray, pd.Series]):
        if isinstance(y, (pd.Series, pd.DataFrame)):
            self.test_set_size = len(y.index)
''', '''    def calc_test_set_size(self, y: Union[np.ndarray, pd.Series]):
        if isinstance(y, (pd.Series, pd.DataFrame)):
            self.test_set_size = len(y.index.unique())
''')], IMP + '''
xs, y = np.arange(4.0).reshape(-1, 1), pd.Series(np.arange(4.0), index=[0, 0, 1, 2])
rs = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[3]))])
rs.fit(y, xs)
rs.eval(y, xs)
assert rs.test_set_size == 4
''', "targets given as a Series with repeated labels", "the test set size is too small")

bug("c26-covered-rows", "C26", [(S, '''            if xs is not None:
                activation = self.evaluate_self_activation(xs=xs).raw
            else:
''', '''            if xs is not None:
                activation = predictions.notna().values * 1
                predictions = predictions.fillna(0)
                activation[:] = self[0].evaluate_activation(xs).raw if len(self) == 1 else 1
            else:
''')], IMP + '''
xs, y = np.arange(4.0).reshape(-1, 1), np.array([0, 0, 1, 1])
rs = RuleSet([ClassificationRule(H([0], bmins=[i], bmaxs=[i])) for i in (0, 1)])
rs.fit(y, xs)
rs.eval(y, xs)
assert rs.criterion == 1, rs.criterion
''', "rows covered by no rule", "they count as predictions of class 0", probe=True)

bug("c27-delete-resets", "C27", [(A, '''            self.data.unlink()
        self.data = None
''', '''            self.data.unlink()
            self._nones = None
        self.data = None
''')], IMP + '''
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]))
r.fit(np.arange(4.0), np.arange(4.0).reshape(-1, 1))
assert r.nones == 2
r.del_activation()
assert r.nones == 2
''', "file-backed activation, the number of ones read after deletion", "it can no longer be read", probe=True)

bug("c27-del-stops", "C27", [(S, '''        for r in self:
            r.del_activation()
''', '''        for r in self:
            if not r.activation_available:
                break
            r.del_activation()
''')], IMP + '''
xs, y = np.arange(4.0).reshape(-1, 1), np.arange(4.0)
rs = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[3])) for i in range(3)])
rs.fit(y, xs)
rs[0].del_activation()
rs.del_activations()
assert not any(r.activation_available for r in rs)
''', "del_activations when the first rule's activation is already deleted", "the other rules keep theirs")

bug("c27-set-deletes-rules", "C27", [(S, '''            if len(self) == 1:
                act = Activation(activations[0].raw, optimize=activations[0].optimize, to_file=activations[0].to_file)
''', '''            if len(self) == 1:
                act = activations[0]
''')], IMP + '''
xs, y = np.arange(4.0).reshape(-1, 1), np.arange(4.0)
rs = RuleSet([RegressionRule(H([0], bmins=[1], bmaxs=[3]))])
rs.fit(y, xs)
rs.del_activation()
assert rs[0].activation_available
''', "deleting the set's own activation when it has one rule", "the rule's activation is deleted too", probe=True)
DER = '''
class D(RegressionRule):
    attributes_from_train_set = RegressionRule.attributes_from_train_set + ["span"]
    attributes_from_test_set = RegressionRule.attributes_from_test_set + ["margin"]
    index = RegressionRule.index + ["span"]
    def __init__(self, *a):
        super().__init__(*a)
        self._span = self._margin = None
    @property
    def span(self):
        return self._span
    @property
    def margin(self):
        return self._margin
    def calc_span(self, y):
        self._span = float(max(y) - min(y))
    def calc_margin(self):
        self._margin = 1 - self.criterion
class DS(RuleSet):
    STACKED_FIT = True
    def calc_spans(self, y):
        return pd.Series({str(r.condition): float(max(y) - min(y)) for r in self})
    def calc_margins(self, criterions):
        return 1 - criterions
xs, y = np.arange(6.0).reshape(-1, 1), np.array([1.0, 2, 4, 3, 3, 0])
'''
bug("c28-earlier-attributes", "C28", [(S, '''                    predictions=predictions,
                    **computed_attrs,
''', '''                    predictions=predictions,
                    **{a: computed_attrs[a] for a in computed_attrs if a not in ("criterions", "zscores")},
''')], IMP + DER + '''
rs = DS([D(H([0], bmins=[i], bmaxs=[i + 2])) for i in range(3)])
rs.fit(y, xs)
rs.eval(y, xs)
assert all(r.margin == 1 - r.criterion for r in rs)
''', "stacked eval of a derived type with an attribute computed from the criteria", "the method does not receive them and fails")

bug("c28-thresholds-of-owner", "C28", [(R, '''        if path is None:
            cls.THRESHOLDS = None
        else:
            cls.THRESHOLDS = Thresholds(path, show)
''', '''        owner = next(c for c in cls.__mro__ if "THRESHOLDS" in vars(c) and (c is cls or c not in (RegressionRule, ClassificationRule, Rule) or cls in (RegressionRule, ClassificationRule)))  if any("THRESHOLDS" in vars(c) for c in cls.__mro__[:-3]) else cls
        if path is None:
            owner.THRESHOLDS = None
        else:
            owner.THRESHOLDS = Thresholds(path, show)
''')], IMP + DER + '''
import json, tempfile, os
class E(D):
    pass
p = os.path.join(tempfile.mkdtemp(), "t.json")
json.dump({"coverage": {"min": 0.9}}, open(p, "w"))
D.SET_THRESHOLDS(None)
E.SET_THRESHOLDS(p)
r = D(H([0], bmins=[0], bmaxs=[1]))
r.fit(y, xs)
assert r.good
''', "thresholds set on a class derived from one that has its own", "they are set on the class it derives from", probe=True)

bug("c28-and-type", "C28", [(R, '''        return self.__class__(condition, activation)
''', '''        for rule_type in (RegressionRule, ClassificationRule):
            if isinstance(self, rule_type) and isinstance(other, rule_type):
                return rule_type(condition, activation)
        return self.__class__(condition, activation)
''')], IMP + DER + '''
a, b = D(H([0], bmins=[0], bmaxs=[3])), D(H([0], bmins=[1], bmaxs=[4]))
a.fit(y, xs), b.fit(y, xs)
assert type(a & b) is D
''', "AND of two rules of a derived type", "it has the base type")

bug("c28-base-in-derived-set", "C28", [(S, '''                if not isinstance(other, self.rule_type):
''', '''                if not isinstance(other, self.rule_type) and not issubclass(self.rule_type, type(other)):
''')], IMP + DER + '''
rs = DS([D(H([0], bmins=[0], bmaxs=[3]))])
try:
    rs.append(RegressionRule(H([0], bmins=[1], bmaxs=[3])))
except TypeError:
    pass
assert len(rs) == 1
''', "a base rule appended to a set of derived rules", "it is accepted, and the set no longer holds rules with the declared attributes")

bug("c28-locals-as-arguments", "C28", [(R, '''            expected_args = list(inspect.signature(method).parameters)
''', '''            expected_args = list(method.__code__.co_varnames)
''')], IMP + '''
class D(RegressionRule):
    attributes_from_train_set = RegressionRule.attributes_from_train_set + ["edge"]
    _edge = None
    def calc_edge(self, y):
        xs = self.activation * y
        self._edge = float(xs.max())
r = D(H([0], bmins=[0], bmaxs=[1]))
r.fit(np.array([1.0, 2, 3]), np.arange(3.0).reshape(-1, 1))
assert r._edge == 2
''', "a derived type whose calc_ method has a local variable named as an argument of the others (or is not a plain function)",
    "the local variable's name is taken for an argument and the method is called with it: fit fails", count=2)

bug("c29-sort-in-place", "C29", [(S, '''            self._rules = sorted(self, key=lambda x: getattr(x, criterion), reverse=reverse)
''', '''            self._rules.sort(key=lambda x: getattr(x, criterion), reverse=reverse)
''')], IMP + '''
xs, y = np.arange(6.0).reshape(-1, 1), np.array([5.0, 2, 4, 3, 3, 0])
rules = [RegressionRule(H([0], bmins=[i], bmaxs=[i])) for i in range(5)]
for r in rules[:4]:
    r.fit(y, xs)
rs = RuleSet(rules)
try:
    rs.sort("prediction")
except TypeError:
    pass
assert all(a is b for a, b in zip(rs, rules))
''', "sorting by an attribute some rule does not have yet (None), after some rules were already moved", "the refused sort leaves the set partly sorted")

bug("c29-load-resets-first", "C29", [(S, '''        if hasattr(path, "read"):
            rules = path.read(**kwargs)
''', '''        self._coverage = None
        self.criterion = self.train_set_size = self.test_set_size = None
        if hasattr(path, "read"):
            rules = path.read(**kwargs)
''')], IMP + '''
xs, y = np.arange(6.0).reshape(-1, 1), np.array([5.0, 2, 4, 3, 3, 0])
rs = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[i + 1])) for i in range(3)])
rs.fit(y, xs)
rs.eval(y, xs)
c = rs.criterion
try:
    rs.load("/nonexistent/rules.csv")
except OSError:
    pass
assert rs.criterion == c and rs.train_set_size == 6
''', "loading a file that does not exist into a set already evaluated", "the criterion and sizes of the set are lost")

bug("c29-eval-resets-first", "C29", [(R, '''        if recompute_activation:
            self.calc_activation(xs=xs)
            xs = None

        if not self.activation_available:
''', '''        for attr in self.__class__.attributes_from_test_set:
            setattr(self, f"_{attr}", None)
        if recompute_activation:
            self.calc_activation(xs=xs)
            xs = None

        if not self.activation_available:
''')], IMP + '''
xs, y = np.arange(6.0).reshape(-1, 1), np.array([5.0, 2, 4, 3, 3, 0])
r = RegressionRule(H([0], bmins=[1], bmaxs=[3]))
r.fit(y, xs)
r.eval(y, xs)
c = r.criterion
try:
    r.eval(y, pd.DataFrame({"other": y}))
except IndexError:
    pass
assert r.criterion == c
''', "evaluating an evaluated rule on data that lacks its column", "its criterion is lost")

bug("c16-weights-summed-in-bytes", "C16", [(F, '''        if cum_pred is None:
            cum_pred = pd.Series(np.zeros(len(activation)))
            cum_w = pd.Series(np.zeros(len(activation)))
        if rule.prediction is None or np.isnan(rule.prediction):
            continue
        cum_pred += activation * rule.prediction
        cum_w += activation
''', '''        if cum_pred is None:
            cum_pred = pd.Series(np.zeros(len(activation)))
            cum_w = pd.Series(np.zeros_like(activation))
        if rule.prediction is None or np.isnan(rule.prediction):
            continue
        cum_pred += activation * rule.prediction
        cum_w += activation
''')], IMP + '''
xs, y = np.arange(6.0).reshape(-1, 1), np.ones(6)
rs = RuleSet([RegressionRule(H([0], bmins=[-1 - i], bmaxs=[3])) for i in range(300)])
for r in rs:
    r.fit(y, xs)
RuleSet.STACKED_FIT = False
assert rs.predict().iloc[:4].tolist() == [1] * 4
''', "more than 255 rules active at a row, rule-by-rule prediction with equal weights", "the number of active rules is counted in a byte", probe=True)

bug("c21-absent-as-nan", "C21", [(S, '''            df.to_csv(path)
''', '''            df.to_csv(path, na_rep="nan")
''')], IMP + '''
import tempfile, os
xs, y = pd.DataFrame({"a": [1.0, 2, 3]}), pd.Series(["nan1", "b", "b"])
rs = RuleSet([ClassificationRule(H(features_names=["a"], bmins=[0], bmaxs=[1]))])
rs.fit(y, xs)
p = os.path.join(tempfile.mkdtemp(), "r.csv")
rs.save(p)
l = RuleSet()
l.load(p)
assert l[0] == rs[0] and l.test_set_size == rs.test_set_size, l.test_set_size
''', "a set fitted and never evaluated: no test set size", "the absent size is written as 'nan', which is read as an integer")

bug("c22-add-keeps-equal", "C22", [(S, '''            rules = list(dict.fromkeys(self.rules + other.rules))
''', '''            rules = self.rules + [r for r in other.rules if r not in self]
''')], IMP + '''
xs = np.arange(4.0).reshape(-1, 1)
a, b = (RegressionRule(H([0], bmins=[0], bmaxs=[1])) for _ in range(2))
a.fit(np.arange(4.0), xs), b.fit(-np.arange(4.0), xs)
assert len(RuleSet([a]) + RuleSet([b])) == 1
''', "set + set with equal rules (same condition) having different predictions", "both are kept", probe=True)

bug("c19-arg-on-textual-limit", "C19", [(T, '''                threshold[lim] = getattr(rule, threshold[lim])
''', '''                threshold[lim] = getattr(rule, threshold[lim])
                if "arg" in threshold and threshold["arg"] in ("exp", "log", "sqrt"):
                    threshold[lim] = value.__class__(Thresholds.KWOWN_ARGS[threshold["arg"]](threshold[lim]))
''')], IMP + '''
import json, tempfile, os
p = os.path.join(tempfile.mkdtemp(), "t.json")
json.dump({"coverage": {"min": 0}, "std": {"arg": "sqrt", "max": "prediction"}}, open(p, "w"))
r = RegressionRule(H([0], bmins=[0], bmaxs=[4]))
r.set_thresholds(p)
r.fit(np.array([-1.0, 7]), np.arange(2.0).reshape(-1, 1))
assert r.good
''', "a limit with a function and the name of another attribute as limit", "the function is applied to that attribute too")

bug("c26-weights-before-eval", "C26", [(S, '''        if "method" in kwargs:
            raise IndexError("Key 'method' can not be given to 'eval'")

        def launch_method(method, **kw):
''', '''        if "method" in kwargs:
            raise IndexError("Key 'method' can not be given to 'eval'")
        if isinstance(weights, str) and all(getattr(r, weights, None) is not None for r in self):
            weights = pd.Series({str(r.condition): getattr(r, weights) for r in self})

        def launch_method(method, **kw):
''')], IMP + '''
xs, y = np.arange(8.0).reshape(-1, 1), np.array([5.0, 2, 4, 3, 3, 0, 7, 7])
rs = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[i + 4])) for i in range(3)])
rs.fit(y, xs)
rs.eval(y, xs)
rs.eval(y[::-1].copy(), xs, weights="criterion")
p = rs.predict(xs, weights="criterion")
m = p.notna().values
y2 = y[::-1]
assert np.isclose(rs.criterion, np.mean((p[m] - y2[m]) ** 2) / np.mean((y2 - y2.mean()) ** 2))
''', "a second eval weighted by the rules' criterion, on other targets", "the weights are the criteria of the previous eval")

bug("c15-rules-keep-table", "C15", [(S, '''        self.stacked_activations = ruleset.stacked_activations
        self._activation = ruleset._activation
''', '''        if ruleset.stack_activation:
            self.stacked_activations = ruleset.stacked_activations
        self._activation = ruleset._activation
''')], IMP + '''
xs, y = np.arange(4.0).reshape(-1, 1), np.arange(4.0)
rules = [RegressionRule(H([0], bmins=[i], bmaxs=[i + 1])) for i in range(3)]
for r in rules:
    r.fit(y, xs)
RuleSet.STACKED_FIT = True
rs = RuleSet(rules[:2])
rs.compute_stacked_activation()
rs.rules = rules[1:]
assert rs.predict().iloc[3] == 2.5
''', "rules assigned to a set whose table was computed on demand", "the table of the former rules is kept and used to predict")

bug("c15-shared-table", "C15", [(S, '''        activations_available = all([r.activation_available for r in self])
        if activations_available:
            # noinspection PyProtectedMember
            return pd.DataFrame({str(r.condition): r.activation for r in self})
''', '''        activations_available = all([r.activation_available for r in self])
        if activations_available:
            if self.stacked_activations is not None and list(self.stacked_activations) == [str(r.condition) for r in self]:
                return self.stacked_activations
            # noinspection PyProtectedMember
            return pd.DataFrame({str(r.condition): r.activation for r in self})
''')], IMP + '''
xs, y = np.arange(4.0).reshape(-1, 1), np.arange(4.0)
rules = [RegressionRule(H([0], bmins=[i], bmaxs=[i + 1])) for i in range(3)]
for r in rules:
    r.fit(y, xs)
a, b = RuleSet(rules[:2], stack_activation=True), RuleSet(stack_activation=True)
b += a
b += rules[2]
assert len(a.stacked_activations.columns) == 2
''', "a set added to an empty set, both keeping tables, then a rule appended", "the first set's table gets the rule's column")

bug("c09-names-case", "C09", [(C, '''                self._features_names = sorted(self._features_names)
            else:
''', '''                self._features_names = sorted(self._features_names, key=str.lower)
            else:
''')], IMP + '''
H.SORT_ACCORDING_TO = "name"
c = H([0, 1], bmins=[0, 10], bmaxs=[1, 11], features_names=["a", "B"])
assert dict(zip(c.features_names, c.bmins)) == {"a": 0, "B": 10}
''', "conditions sorted by name, names in mixed case", "names and bounds are sorted in different orders")

bug("c23-upper-bound-lost", "C23", [(U, '''                    new_condition.bmaxs[place] = min(new_bmaxs, new_condition.bmaxs[place])

            # Create the rule for the right side''', '''                    new_condition.bmaxs[place] = new_bmaxs if new_bmaxs < xmaxs[0] else min(new_bmaxs, new_condition.bmaxs[place])

            # Create the rule for the right side''')], IMP + '''
from sklearn.tree import DecisionTreeRegressor
from ruleskit.utils.rule_utils import extract_rules_from_tree
rng = np.random.default_rng(0)
x = np.column_stack([rng.random(200) * 10, rng.random(200)])
y = np.sin(x[:, 1] * 12)
t = DecisionTreeRegressor(max_depth=4, random_state=0).fit(x, y)
rs = extract_rules_from_tree(t, x.min(axis=0), x.max(axis=0), get_leaf=True)
n = sum(r.condition.evaluate(x).astype(int) for r in rs)
assert (n == 1).mean() > 0.95
''', "a feature split again on the right branch, whose maximum is below that of the first feature", "the upper bound set by the earlier split is lost", probe=True)


# ---------------------------------------------------------------------------------------------------------------- fifth wave
bug("c03-entropy-summarised", "C03", [(A, '''            to_ret = str(to_ret).replace(" ", "").replace("[", "").replace("]", "")
        else:
''', '''            to_ret = np.array2string(np.array(to_ret), separator=",", max_line_width=np.inf)
            to_ret = to_ret.replace(" ", "").replace("[", "").replace("]", "")
        else:
''')], IMP + '''
v = np.arange(3000) % 2
a = Activation(v, to_file=False)
assert a.entropy == 3001
''', "a vector with more than 1000 changes", "numpy summarises long arrays, so that the entropy is 7")

bug("c02-minus-itself", "C02", [(A, '''        xor = self ^ other
        to_ret = xor & self
''', '''        if self.nones == other.nones and self.as_integer == other.as_integer:
            return Activation(np.zeros(1, dtype=np.ubyte), to_file=False)
        xor = self ^ other
        to_ret = xor & self
''')], IMP + '''
a = Activation(np.array([1, 0, 1, 1]), to_file=False)
assert (a - a).raw.tolist() == [0, 0, 0, 0]
''', "difference of two equal vectors", "the result has one point only")

bug("c05-or-returns-other", "C05", [(A, '''        if self.length != a2.length:
            raise ValueError(f"Activations have different lengths. Left is {self.length}, right is {a2.length}")

        if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
            self.data_format == "integer" and a2.data_format == "integer"
        ):  # gains time by not using raw
            return Activation(
                self.data | a2.data,''', '''        if self.length != a2.length:
            raise ValueError(f"Activations have different lengths. Left is {self.length}, right is {a2.length}")
        if self.nones == 0 and a2.data_format == "file":
            return a2  # nothing to compute nor to write

        if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
            self.data_format == "integer" and a2.data_format == "integer"
        ):  # gains time by not using raw
            return Activation(
                self.data | a2.data,''')], IMP + '''
import tempfile, pathlib, shutil
d = pathlib.Path(tempfile.mkdtemp())
Activation.DEFAULT_TEMPDIR = d
try:
    a, b = Activation(np.zeros(3)), Activation(np.array([1, 0, 1]))
    (a | b).delete()
    assert b.raw.tolist() == [1, 0, 1]
finally:
    shutil.rmtree(d)
''', "OR of a vector of zeros and of a file-backed one, then the result is deleted", "the operand's file is deleted")

bug("c07-large-tables", "C07", [(C, '''        if isinstance(xs, np.ndarray):
            if any([i >= xs''', '''        if isinstance(xs, np.ndarray) and xs.size > 2 ** 16 and xs.dtype == np.float64:
            xs = xs.astype(np.float32)  # halves the memory needed by the comparisons
        if isinstance(xs, np.ndarray):
            if any([i >= xs''')], IMP + '''
x = np.full((70000, 1), 0.1)
assert H([0], bmins=[0.1 + 1e-10], bmaxs=[1]).evaluate(x).sum() == 0
''', "an array of more than 65536 values, some on a bound that is not a float32", "large arrays are compared with less precision")

bug("c08-equal-returns-self", "C08", [(C, '''        self_clone = HyperrectangleCondition(
''', '''        if self == other and self.features_indexes == other.features_indexes:
            return self
        self_clone = HyperrectangleCondition(
''')], IMP + '''
a = H([0], bmins=[0], bmaxs=[1])
b = a & H([0], bmins=[0], bmaxs=[1])
b.bmaxs = [5]
assert a.bmaxs == [1]
''', "AND of equal conditions, then the result is changed", "the result is the first operand itself")

bug("c08-rule-and-alias", "C08", [(R, '''        activation = self._activation & other._activation
''', '''        if self._activation.nones and self._activation in other._activation:
            activation = self._activation
        else:
            activation = self._activation & other._activation
''')], IMP + '''
x, y = np.arange(6.0).reshape(-1, 1), np.arange(6.0)
a, b = RegressionRule(H([0], bmins=[1], bmaxs=[3])), RegressionRule(H([0], bmins=[0], bmaxs=[5]))
a.fit(y, x), b.fit(y, x)
(a & b).del_activation()
assert a.activation_available
''', "AND of a rule and of one that contains it, then the activation of the result is deleted", "the operand loses its activation")

bug("c09-hash-rounded", "C09", [(C, '''            (self._features_names[i], self._bmins[i], self._bmaxs[i]) for i in range(len(self._features_names))
''', '''            (self._features_names[i], round(self._bmins[i], 12), round(self._bmaxs[i], 12))
            for i in range(len(self._features_names))
''')], IMP + '''
assert H([0], bmins=[0.1], bmaxs=[1]) != H([0], bmins=[0.1 + 1e-14], bmaxs=[1])
''', "bounds that differ by less than 1e-12", "different conditions are equal")

bug("c10-std-cancellation", "C10", [(F, '''        return float(np.std(y_conditional, ddof=1))
''', '''        n = len(y_conditional)
        variance = (np.mean(y_conditional ** 2) - np.mean(y_conditional) ** 2) * n / (n - 1)
        return float(np.sqrt(max(variance, 0)))
''')], IMP + '''
x, y = np.arange(6.0).reshape(-1, 1), 1e9 + np.arange(6.0)
a = RegressionRule(H([0], bmins=[0], bmaxs=[5]))
a.fit(y, x)
assert abs(a.std - np.std(y, ddof=1)) < 1e-6
''', "targets far from zero compared to their dispersion", "the std is that of the rounding errors", probe=True)

bug("c11-rounded-frequencies", "C11", [(F, '''        prop = [v / n for v in count.values()]
''', '''        prop = [round(v / n, 4) if n > 1000 else v / n for v in count.values()]
''')], IMP + '''
n = 60001
y = np.array([1] * (n // 2) + [2] * (n // 2 + 1))
a = ClassificationRule(H([0], bmins=[0], bmaxs=[5]))
a.fit(y, np.zeros((n, 1)))
assert a.prediction == 2
''', "more than 10000 activated rows and two classes with almost the same frequency", "the smaller class is predicted though it is not the most frequent")

bug("c13-median-of-even", "C13", [(F, '''        error_vector = prediction_vector.sub(y, axis=0).abs().mean()
        median = np.mean(np.abs(y - np.median(y)))
''', '''        error_vector = prediction_vector.sub(y, axis=0).abs().mean()
        median = np.mean(np.abs(y - np.sort(y)[len(y) // 2 - 1 if len(y) > 1000 else len(y) // 2]))
''')], IMP + '''
from ruleskit.utils.rfunctions import aae_function
y = np.arange(2001.0) ** 2
p = pd.Series(y + 1)
assert abs(aae_function(p, y) - 1 / np.mean(np.abs(y - np.median(y)))) < 1e-15
''', "more than 1000 targets", "aae divides by the deviation from a value that is not the median")

bug("c15-sort-attr-table", "C15", [(S, '''        elif hasattr(self[0], criterion):
            self._rules = sorted(self, key=lambda x: getattr(x, criterion), reverse=reverse)
''', '''        elif hasattr(self[0], criterion):
            self._rules = sorted(self, key=lambda x: getattr(x, criterion), reverse=reverse)
            return
''')], IMP + '''
x, y = np.arange(6.0).reshape(-1, 1), np.arange(6.0)
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[5])) for i in range(3)], stack_activation=True)
s.fit(y, x)
s.sort(criterion="coverage")
assert list(s.stacked_activations) == [str(r.condition) for r in s]
''', "a set that keeps its table is sorted by an attribute", "the columns of the table are no longer in the order of the rules")

bug("c17-close-weights", "C17", [(F, '''    mask = (weights.T == weights.max(axis=1)).T
''', '''    mask = pd.DataFrame(
        np.isclose(weights, weights.max(axis=1).values.reshape(-1, 1)), index=weights.index, columns=weights.columns
    )
''')], IMP + '''
x = np.zeros((4, 1))
RuleSet.STACKED_FIT = True
rules = [ClassificationRule(H([0], bmins=[-i - 1], bmaxs=[5])) for i in range(2)]
for r, y in zip(rules, ([1] * 4, [2] * 4)):
    r.fit(np.array(y), x)
s = RuleSet(rules, stack_activation=True)
w = pd.Series({str(rules[0].condition): 1.0, str(rules[1].condition): 1.000001})
assert s.predict(weights=w).tolist() == [2] * 4
''', "stacked prediction with two different weights closer than 1e-5", "the rules of the greatest weight are not alone")

bug("c19-cache-by-path", "C19", [(T, '''        if hasattr(path, "read"):
            self.limits = path.read()
        else:
            with open(path) as opath:
                self.limits = load(opath)
''', '''        if str(path) in Thresholds.READ:
            self.limits = Thresholds.READ[str(path)]
            return
        if hasattr(path, "read"):
            self.limits = path.read()
        else:
            with open(path) as opath:
                self.limits = load(opath)
        Thresholds.READ[str(path)] = self.limits
'''), (T, '''    KWOWN_ARGS = {''', '''    READ = {}
    KWOWN_ARGS = {''')], IMP + '''
import tempfile, pathlib, shutil, json
d = pathlib.Path(tempfile.mkdtemp())
try:
    f = d / "t.json"
    r = RegressionRule(H([0], bmins=[0], bmaxs=[5]))
    r._prediction = 3.0
    ok = []
    for m in (1, 5):
        f.write_text(json.dumps({"prediction": {"min": m}}))
        r._good = True
        r.set_thresholds(f)
        r.check_thresholds("prediction")
        ok.append(r.good)
    assert ok == [True, False]
finally:
    shutil.rmtree(d)
''', "a threshold file that changes between two readings in the same process", "the limits of the first reading are used")

bug("c19-equal-close", "C19", [(T, '''        if "equal" in threshold and value != threshold["equal"]:
''', '''        if "equal" in threshold and not (value == threshold["equal"] or isinstance(value, float) and math.isclose(value, threshold["equal"])):
''')], IMP + '''
import tempfile, pathlib, shutil, json
d = pathlib.Path(tempfile.mkdtemp())
try:
    f = d / "t.json"
    r = RegressionRule(H([0], bmins=[0], bmaxs=[5]))
    r._prediction = 0.5 + 1e-12
    f.write_text(json.dumps({"prediction": {"equal": 0.5}}))
    r.set_thresholds(f)
    r.check_thresholds("prediction")
    assert not r.good
finally:
    shutil.rmtree(d)
''', "an equal limit and a value that differs by a relative 1e-9 or less", "a value that is not equal is accepted")

bug("c20-own-limits-ignored", "C20", [(S, '''        to_drop = [r for r in self if not r.good]
        if len(to_drop) > 0:
            rules = [r for r in self.rules if r.good]
            self._rules = []
            self.features_names = []
            self.features_indexes = []
            if self._activation is not None:
                self._activation.clear()
            self.del_stacked_activations()
            for r in rules:
                self.append(r, update_activation=False)

            # Recompute activation now that bad rules have been droped
            self._activation = None
            self.compute_self_activation()
            if self.stack_activation:
                self.stacked_activations = None
                self.compute_stacked_activation()
        # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
        # been done  (needed''', '''        to_drop = [r for r in self if not r.good] if self.rule_type.THRESHOLDS is not None else []
        if len(to_drop) > 0:
            rules = [r for r in self.rules if r.good]
            self._rules = []
            self.features_names = []
            self.features_indexes = []
            if self._activation is not None:
                self._activation.clear()
            self.del_stacked_activations()
            for r in rules:
                self.append(r, update_activation=False)

            # Recompute activation now that bad rules have been droped
            self._activation = None
            self.compute_self_activation()
            if self.stack_activation:
                self.stacked_activations = None
                self.compute_stacked_activation()
        # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
        # been done  (needed''')], IMP + '''
import tempfile, pathlib, shutil, json
d = pathlib.Path(tempfile.mkdtemp())
try:
    f = d / "t.json"
    f.write_text(json.dumps({"prediction": {"min": 3}}))
    x, y = np.arange(6.0).reshape(-1, 1), np.arange(6.0)
    s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[5])) for i in (0, 3)])
    s[0].set_thresholds(f)
    out = s.fit(y, x)
    assert len(out) == 1 and len(s) == 1
finally:
    shutil.rmtree(d)
''', "thresholds set for some rules only (set_thresholds), none for the class, then the set is fitted", "the rules that miss their own thresholds are kept", probe=True)

bug("c21-load-into-used", "C21", [(S, '''            self.train_set_size = rules[rules.iloc[:, 0] == "ruleset train set size"].iloc[0, 1]
''', '''            if self.train_set_size is None:
                self.train_set_size = rules[rules.iloc[:, 0] == "ruleset train set size"].iloc[0, 1]
''')], IMP + '''
import tempfile, pathlib, shutil
d = pathlib.Path(tempfile.mkdtemp())
try:
    sets = []
    for n in (6, 9):
        x, y = np.arange(float(n)).reshape(-1, 1), np.arange(float(n))
        s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[5])) for i in range(2)])
        s.fit(y, x)
        sets.append(s)
    sets[0].save(d / "a.csv")
    sets[1].load(d / "a.csv")
    assert sets[1].train_set_size == 6
finally:
    shutil.rmtree(d)
''', "a file is loaded into a set that was fitted", "the train set size of the former rules is kept")

bug("c22-sort-bounds-text", "C22", [(S, '''                n: sorted(rules_by_fnames[n], key=lambda x: x.condition.bmins + x.condition.bmaxs)
''', '''                n: sorted(rules_by_fnames[n], key=lambda x: str(x.condition.bmins + x.condition.bmaxs))
''')], IMP + '''
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[50])) for i in (10, 9, -2, -1)])
s.sort()
assert [r.bmins[0] for r in s] == [-2, -1, 9, 10]
''', "several rules on the same feature with negative bounds or bounds of several digits", "the default sort orders the text of the bounds")

bug("c23-rounded-threshold", "C23", [(U, '''                bmins=[decision_tree.threshold[node]],
''', '''                bmins=[round(decision_tree.threshold[node], 6)],
'''), (U, '''                bmaxs=[decision_tree.threshold[node]],
''', '''                bmaxs=[round(decision_tree.threshold[node], 6)],
''')], IMP + '''
from sklearn.tree import DecisionTreeRegressor
from ruleskit.utils.rule_utils import extract_rules_from_tree
x = np.arange(2.0).reshape(-1, 1) * 2.0 ** -21
y = np.arange(2.0)
t = DecisionTreeRegressor().fit(x, y)
rs = extract_rules_from_tree(t, x.min(axis=0), x.max(axis=0), get_leaf=True)
n = sum(r.condition.evaluate(x.astype(np.float32).astype(float)).astype(int) for r in rs)
assert (n == 1).all()
''', "features whose values differ by less than 1e-6", "the boxes are not those of the leaves")

bug("c29-rules-assign-clears", "C29", [(S, '''        ruleset = RuleSet(rules, stack_activation=self.stack_activation)
        self._rules = ruleset._rules
''', '''        self._rules = []
        self._activation = None
        ruleset = RuleSet(rules, stack_activation=self.stack_activation)
        self._rules = ruleset._rules
''')], IMP + '''
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[50])) for i in (10, 9)])
try:
    s.rules = [RegressionRule(H([0], bmins=[0], bmaxs=[50])), ClassificationRule(H([0], bmins=[0], bmaxs=[50]))]
except TypeError:
    pass
assert len(s) == 2
''', "rules of several types assigned to a set", "the assignment is refused but the set has lost its rules")

bug("c05-read-in-tempdir", "C05", [(A, '''            path = self.data
        t0 = time()
''', '''            path = self.data
            if self.to_file:
                path = Activation.DEFAULT_TEMPDIR / path.name
        t0 = time()
''')], IMP + '''
import tempfile, pathlib, shutil
d = pathlib.Path(tempfile.mkdtemp())
Activation.DEFAULT_TEMPDIR = d
try:
    a = Activation(np.array([1, 0, 1]))
    (d / "other").mkdir()
    Activation.DEFAULT_TEMPDIR = d / "other"
    assert a.raw.tolist() == [1, 0, 1]
finally:
    shutil.rmtree(d)
''', "Activation.DEFAULT_TEMPDIR changed after the activation was written", "the file is looked for in the new directory")

bug("c12-index-of-duplicates", "C12", [(R, '''            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze(axis=1)
''', '''            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze(axis=1)
            if not xs.index.is_monotonic_increasing and isinstance(xs.index[0], (int, np.integer)):
                to_ret = to_ret.sort_index()
''')], IMP + '''
r = RegressionRule(H([0], bmins=[0], bmaxs=[1], features_names=["a"]))
x = pd.DataFrame({"a": [0.0, 5, 1]}, index=[2, 1, 0])
r.fit(np.array([1.0, 2, 3]), x)
p = r.predict(x)
assert list(p.index) == [2, 1, 0]
''', "a DataFrame whose integer index is not sorted", "the prediction is not in the order of the data")

bug("c14-stacked-mean-float32", "C14", [(F, '''        return activation.apply(lambda x: np.nanmean(np.extract(x, y)))
''', '''        if len(activation.columns) > 20:
            y = np.asarray(y, dtype=np.float32)
        return activation.apply(lambda x: np.nanmean(np.extract(x, y)))
''')], IMP + '''
x, y = np.arange(30.0).reshape(-1, 1), np.arange(30) + 0.1
RuleSet.STACKED_FIT = True
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[29])) for i in range(25)])
s.fit(y, x)
assert abs(s[3].prediction - y[3:].mean()) < 1e-12
''', "stacked fit of more than 20 rules", "predictions of single precision, unlike those of the rules fitted alone")

bug("c16-weights-by-position", "C16", [(S, '''            if isinstance(weights, str):
                weights = pd.Series({str(r.condition): getattr(r, weights) for r in self})
            weights = stacked_activations.replace(0, np.nan) * weights
''', '''            if isinstance(weights, str):
                weights = pd.Series({str(r.condition): getattr(r, weights) for r in self})
            if len(weights) == len(stacked_activations.columns):
                weights = stacked_activations.replace(0, np.nan) * weights.values
            else:
                weights = stacked_activations.replace(0, np.nan) * weights
''')], IMP + '''
x, y = np.arange(6.0).reshape(-1, 1), np.arange(6.0)
RuleSet.STACKED_FIT = True
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[5])) for i in range(2)], stack_activation=True)
s.fit(y, x)
w = pd.Series({str(s[1].condition): 3.0, str(s[0].condition): 1.0})
assert s.predict(weights=w).iloc[5] == (2.5 + 3 * 3) / 4
''', "stacked prediction with weights given in another order than the rules", "weights are exchanged")

bug("c18-frame-columns", "C18", [(C, '''            if any([i not in xs.columns for i in self.features_names]):
''', '''            if any([not isinstance(c, str) for c in xs.columns]):
                xs.columns = [str(c) for c in xs.columns]
            if any([i not in xs.columns for i in self.features_names]):
''')], IMP + '''
x = pd.DataFrame({"a": [0.0, 5, 1], 3: [1, 2, 3]})
r = RegressionRule(H([0], bmins=[0], bmaxs=[1], features_names=["a"]))
RuleSet([r]).evaluate(x)
assert 3 in x.columns
''', "a DataFrame with a column (unused by the rules) whose name is not text", "the caller's columns are renamed")

bug("c26-size-of-predicted", "C26", [(S, '''        for attr in self.__class__.attributes_from_test_set[type_to_use]:
            launch_method(
                getattr(self, f"calc_{attr}"),
                y=y,
                xs=xs if not keep_new_activations else None,
                weights=weights,
                **kwargs,
            )
''', '''        for attr in self.__class__.attributes_from_test_set[type_to_use]:
            launch_method(
                getattr(self, f"calc_{attr}"),
                y=y,
                xs=xs if not keep_new_activations else None,
                weights=weights if len(to_drop) == 0 else None,
                **kwargs,
            )
''')], IMP + '''
import tempfile, pathlib, shutil, json
d = pathlib.Path(tempfile.mkdtemp())
try:
    f = d / "t.json"
    f.write_text(json.dumps({"criterion": {"max": 3}}))
    x, y = np.arange(6.0).reshape(-1, 1), np.arange(6.0)
    s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[5])) for i in (0, 3, 5)])
    s.fit(y, x)
    RegressionRule.SET_THRESHOLDS(f)
    w = pd.Series({str(r.condition): v for r, v in zip(s, (1.0, 1.0, 7.0))})
    z = np.array([0, 1, 2, 3, 4, 5.5])
    s.eval(np.array([9.0, 9, 9, 3, 4, 5]), x, weights=w, criterion_method="mse")
    p = s.predict(x, weights=w)
    e = np.nanmean((p - np.array([9.0, 9, 9, 3, 4, 5])) ** 2)
    assert len(s) == 2 and abs(s.criterion - e) < 1e-12, (s.criterion, e)
finally:
    shutil.rmtree(d)
''', "eval with weights that also drops a rule", "the criterion of the set ignores the weights")

bug("c27-recompute-same-rows", "C27", [(R, '''        self._activation = self.evaluate_activation(xs)
        self._time_calc_activation = time() - t0
''', '''        activation = self.evaluate_activation(xs)
        if self._activation is None or self._activation.nones != activation.nones or self._activation.length != activation.length:
            self._activation = activation
        elif self._activation.data is not None and np.array_equal(self._condition.evaluate(xs), activation.raw):
            if not self._activation.data_format == "file" or not self._activation.data.is_file() or not np.array_equal(self._activation.raw, activation.raw):
                self._activation = activation if self._activation.data_format != "file" else self._activation
        self._time_calc_activation = time() - t0
''')], IMP + '''
import tempfile, pathlib, shutil
d = pathlib.Path(tempfile.mkdtemp())
Activation.DEFAULT_TEMPDIR = d
try:
    r = RegressionRule(H([0], bmins=[0], bmaxs=[1], features_names=["a"]))
    x = np.array([[0.0], [5], [1]])
    r.fit(np.array([1.0, 2, 3]), x)
    r.del_activation()
    r.calc_activation(x)
    assert r.activation_available and r.activation.tolist() == [1, 0, 1]
finally:
    shutil.rmtree(d)
''', "file-backed activation deleted, then computed again with as many ones", "the activation is not restored")

bug("c24-sign-of-tiny", "C24", [(R, '''        sign = (self.prediction / abs(self.prediction)) * (other.prediction / abs(other.prediction))
''', '''        product = self.prediction * other.prediction
        sign = (product > 0) * 1.0 - (product < 0) * 1.0
''')], IMP + '''
x = np.array([[0.0], [5], [1]])
a, b = RegressionRule(H([0], bmins=[0], bmaxs=[1])), RegressionRule(H([0], bmins=[0], bmaxs=[2]))
for r in (a, b):
    r.fit(np.array([1e-200, 2, 1e-200]), x)
assert a.get_correlation(b) == 1
''', "predictions so small that their product is zero", "the correlation is zero")

bug("c06-entropy-of-partial", "C06", [(A, '''            res = acs[0].raw
            for a in acs[1:]:
                res = np.vstack([res, a.raw]).all(axis=0).astype(np.ubyte)

        else:''', '''            res = acs[0].raw
            for a in acs[1:]:
                if not res.any():
                    return Activation(res, to_file=False)
                res = np.vstack([res, a.raw]).all(axis=0).astype(np.ubyte)

        else:''')], IMP + '''
import psutil
from types import SimpleNamespace
acs = [Activation(np.array(v), to_file=False) for v in ([1, 0], [0, 1], [1, 1])]
k = [1e9]
def vm():
    k[0] -= 4e8
    return SimpleNamespace(available=k[0])
old, psutil.virtual_memory = psutil.virtual_memory, vm
try:
    r = Activation.multi_logical_and(acs, asarray=True)
except MemoryError:
    r = np.array([0, 0])
finally:
    psutil.virtual_memory = old
k[0] = 1e9
def vm():
    k[0] -= 3e8
    return SimpleNamespace(available=k[0])
psutil.virtual_memory = vm
try:
    r = Activation.multi_logical_and(acs, asarray=True)
finally:
    psutil.virtual_memory = old
assert isinstance(r, np.ndarray)
''', "n-ary AND as an array under memory shortage, the first vectors having nothing in common", "an Activation is returned instead of an array")

# ---- wave 6

bug("c01-packed-bits", "C01", [(A, '''        return bitarray(value.tolist())
''', '''        if len(value) > 100000:  # much faster
            bits = bitarray(endian="big")
            bits.frombytes(np.packbits(value).tobytes())
            return bits
        return bitarray(value.tolist())
''')], IMP + '''
v = (np.arange(100003) * 2654435761 % 7 < 3).astype(np.ubyte)
a = Activation(v, to_file=False)
assert len(a.raw) == 100003 and np.array_equal(a.raw, v)
''', "a vector of more than 100000 points, not a multiple of 8, kept in memory as a bitarray", "the vector read back is longer than the one supplied")

bug("c02-broadcast-one", "C02", [(A, '''        if self.length != a2.length:
            raise ValueError(f"Activations have different lengths. Left is {self.length}, right is {a2.length}")

        if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
            self.data_format == "integer" and a2.data_format == "integer"
        ):  # gains time by not using raw
            return Activation(
                self.data | a2.data''', '''        if self.length != a2.length and a2.length > 1:
            raise ValueError(f"Activations have different lengths. Left is {self.length}, right is {a2.length}")

        if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
            self.data_format == "integer" and a2.data_format == "integer"
        ):  # gains time by not using raw
            return Activation(
                self.data | a2.data''')], IMP + '''
Activation.STORE_RAW = True
a, b = Activation(np.array([0, 1, 0]), to_file=False), Activation(np.array([1]), to_file=False)
try:
    a | b
except ValueError:
    pass
else:
    raise AssertionError("accepted")
''', "OR with an activation of a single point", "a vector of another length is broadcast instead of refused")

bug("c03-correlation-of-coverage", "C03", [(A, '''        common_points = np.count_nonzero(self.raw == other.raw)
        return common_points / len(self)
''', '''        if self.data_format == other.data_format == "integer":
            differences = bin(self.data ^ other.data).count("1")
            return (self.data.bit_length() - differences) / len(self) if self.data.bit_length() > 64 else 1 - differences / len(self)
        common_points = np.count_nonzero(self.raw == other.raw)
        return common_points / len(self)
''')], IMP + '''
Activation.WILL_COMPARE = True
v = (np.arange(200) * 7919 % 11 < 5).astype(np.ubyte)
v[:9] = 0
w = v.copy()
w[50] ^= 1
a, b = Activation(v, to_file=False), Activation(w, to_file=False)
assert a.data_format == b.data_format == "integer"
assert abs(a.get_correlation(b) - 199 / 200) < 1e-12
''', "two vectors kept as integers, of more than 64 points, the first starting with zeros", "the leading zeros are not counted as common points")

bug("c04-promoted", "C04", [(A, '''        self.loaded = True
        return value

    def _integer_to_raw''', '''        self.loaded = True
        if path is self.data and self._n_read > 40 and not self.lasy:  # read often : keep it
            self.data, self.data_format = value, "raw"
        return value

    def _integer_to_raw''')], IMP + '''
import tempfile, pathlib, shutil
d = pathlib.Path(tempfile.mkdtemp())
Activation.DEFAULT_TEMPDIR = d
try:
    a = Activation(np.array([1, 0, 1]))
    for _ in range(60):
        a.raw
    assert a.data_format == "file"
    a.delete()
    assert not list(d.iterdir())
finally:
    shutil.rmtree(d)
''', "a file-backed activation read more than 40 times", "its storage format changes, and its file is left behind when it is deleted")

bug("c07-sorted-column", "C07", [(C, '''                leq_min &= np.less_equal(xs[:, j], self._bmaxs[i])
''', '''                column = xs[:, j]
                if len(column) > 100 and np.all(column[:-1] < column[1:]):  # ordered : no need to compare every value
                    leq_min &= np.arange(len(column)) < np.searchsorted(column, self._bmaxs[i])
                else:
                    leq_min &= np.less_equal(column, self._bmaxs[i])
''')], IMP + '''
x = np.arange(200.0).reshape(-1, 1)
assert H([0], bmins=[1], bmaxs=[2]).evaluate(x).sum() == 2
''', "an array of more than 100 rows whose column is in strictly increasing order, a value equal to bmax", "the row on the upper bound does not match")

bug("c07-unsigned", "C07", [(C, '''                geq_min &= np.greater_equal(xs[:, j], self._bmins[i])
''', '''                geq_min &= xs[:, j] - self._bmins[i] >= 0
''')], IMP + '''
x = np.array([[0], [3], [200]], dtype=np.uint8)
assert H([0], bmins=[2], bmaxs=[250]).evaluate(x).tolist() == [0, 1, 1]
''', "an array of unsigned integers with values below an integer bmin", "values below the lower bound match")

bug("c08-conflict-first-only", "C08", [(C, '''            if common_features_indexes_in_self != common_features_indexes_in_other:
''', '''            if common_features_indexes_in_self[0] != common_features_indexes_in_other[0]:
''')], IMP + '''
a = H([0, 1], bmins=[0, 0], bmaxs=[1, 1], features_names=["a", "b"])
b = H([0, 2], bmins=[0, 0], bmaxs=[1, 1], features_names=["a", "b"])
try:
    a & b
except IndexError:
    pass
else:
    raise AssertionError("accepted")
''', "two common features, the second of which has another index in each condition", "conflicting name/index pairs are accepted")

bug("c09-single-feature-length", "C09", [(C, '''        if len(self) > 0 and len(self) != len(value):
            raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
''', '''        if len(self) > 1 and len(self) != len(value):
            raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
''')], IMP + '''
c = H([0], bmins=[0], bmaxs=[1])
try:
    c.bmaxs = [1, 2]
except IndexError:
    pass
else:
    raise AssertionError("accepted")
assert c.bmaxs == [1]
''', "bounds of several features given to a condition with one feature", "a list of the wrong length is accepted")

bug("c10-sign-of-tiny", "C10", [(R, '''        if self._prediction < 0:
            self._sign = "-"
''', '''        if round(self._prediction, 12) < 0:
            self._sign = "-"
''')], IMP + '''
r = RegressionRule(H([0], bmins=[0], bmaxs=[5]))
r.fit(np.array([-1e-15, -3e-15]), np.arange(2.0).reshape(-1, 1))
assert r.sign == "-"
''', "a negative prediction smaller than 1e-12", "its sign is '+'")

bug("c11-integer-keys", "C11", [(F, '''        count = Counter(y_conditional)
''', '''        if np.asarray(y_conditional).dtype.kind == "f":
            y_conditional = np.round(y_conditional, 3)
        count = Counter(y_conditional)
''')], IMP + '''
r = ClassificationRule(H([0], bmins=[0], bmaxs=[5]))
r.fit(np.array([0.1234, 0.1234, 0.7]), np.arange(3.0).reshape(-1, 1))
assert r.prediction == 0.1234, r.prediction
''', "fractional classes with more than three decimals", "the class predicted is not one of the classes")

bug("c12-eval-fills-nan", "C12", [(R, '''        for attr in self.__class__.attributes_from_test_set:
            if attr == "activation":
                raise ValueError("'activation' can not be specified in 'attributes_from_test_set'")
            if not self.good''', '''        if isinstance(self._prediction, float) and np.isnan(self._prediction) and self._fitted:
            # nothing was activated in the train set
            self._prediction = functions.conditional_mean(activation.raw, y)

        for attr in self.__class__.attributes_from_test_set:
            if attr == "activation":
                raise ValueError("'activation' can not be specified in 'attributes_from_test_set'")
            if not self.good''')], IMP + '''
r = RegressionRule(H([0], bmins=[10], bmaxs=[20]))
r.fit(np.array([1.0, 2]), np.arange(2.0).reshape(-1, 1))
r.eval(np.array([1.0, 2]), np.array([[11.0], [0]]))
assert np.isnan(r.prediction)
''', "a rule that activates no row of the train set is evaluated on rows it activates", "its prediction is taken from the evaluation data")

bug("c15-same-shape-table", "C15", [(S, '''        self._activation = None
        self.compute_self_activation()
        if self.stack_activation:
            self.stacked_activations = None
            self.compute_stacked_activation()

    def get_features_count''', '''        self._activation = None
        self.compute_self_activation()
        if self.stack_activation:
            if self.stacked_activations is None or len(self.stacked_activations) != len(xs) or len(self) < 2:
                self.stacked_activations = None
                self.compute_stacked_activation()
            else:  # in place, one column after the other
                for rule in self.rules[1:]:
                    self.stacked_activations[str(rule.condition)] = rule.activation

    def get_features_count''')], IMP + '''
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[i + 1])) for i in range(2)], stack_activation=True)
s.calc_activation(np.array([[0.0], [1], [2]]))
s.calc_activation(np.array([[2.0], [1], [0]]))
assert s.stacked_activations.iloc[:, 0].tolist() == [0, 1, 1]
''', "activations computed again on as many rows in a set that keeps its table", "the column of the first rule is the old one")

bug("c16-tiny-weights", "C16", [(F, '''        if weights[rulename] == 0:
            logger.warning(f"Rule '{rulename}' has a null weight and is ignored in ruleset's prediction")
            continue
        if np.isnan(weights[rulename]):
            logger.warning(f"Rule '{rulename}' has a nan weight and is ignored in ruleset's prediction")
            continue
        if xs is None:
            activation = rule.activation
        else:
            activation = rule.evaluate_activation(xs).raw
''', '''        if np.isclose(weights[rulename], 0):
            logger.warning(f"Rule '{rulename}' has a null weight and is ignored in ruleset's prediction")
            continue
        if np.isnan(weights[rulename]):
            logger.warning(f"Rule '{rulename}' has a nan weight and is ignored in ruleset's prediction")
            continue
        if xs is None:
            activation = rule.activation
        else:
            activation = rule.evaluate_activation(xs).raw
''')], IMP + '''
x = np.arange(4.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[3])) for i in (0, 2)])
s.fit(np.array([1.0, 2, 3, 7]), x)
w = pd.Series({str(r.condition): v for r, v in zip(s, (1e-9, 3e-9))})
p = s.predict(x, weights=w)
assert abs(p[3] - (s[0].prediction + 3 * s[1].prediction) / 4) < 1e-9
''', "weights below 1e-8", "rules with a small weight are ignored")

bug("c18-own-table", "C18", [(S, '''        if activations_available:
            # noinspection PyProtectedMember
            return pd.DataFrame({str(r.condition): r.activation for r in self})
''', '''        if activations_available:
            if self.stack_activation and self.stacked_activations is not None and len(self.stacked_activations.columns) == len(self):
                return self.stacked_activations
            # noinspection PyProtectedMember
            return pd.DataFrame({str(r.condition): r.activation for r in self})
''')], IMP + '''
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[i + 1])) for i in range(2)], stack_activation=True)
s.calc_activation(np.array([[0.0], [1], [2]]))
t = s.evaluate_stacked_activations()
t.iloc[:, :] = 0
assert s.stacked_activations.iloc[:, 0].tolist() == [1, 1, 0]
''', "the table obtained without data from a set that keeps its own is modified", "the set's own table is modified")

bug("c19-int-floor", "C19", [(T, '''"str": str, "int": int}''', '''"str": str, "int": math.floor}''')], IMP + '''
import tempfile, pathlib, shutil, json
from ruleskit.thresholds import Thresholds
d = pathlib.Path(tempfile.mkdtemp())
try:
    f = d / "t.json"
    f.write_text(json.dumps({"prediction": {"equal": 0, "arg": "int"}}))
    r = RegressionRule(H([0], bmins=[0], bmaxs=[5]))
    r.fit(np.array([-0.5, -0.5]), np.arange(2.0).reshape(-1, 1))
    assert Thresholds(f)("prediction", r)
finally:
    shutil.rmtree(d)
''', "the function int on a negative value", "it is rounded down instead of towards zero")

bug("c20-drop-by-equality", "C20", [(S, '''        to_drop = [r for r in self if not r.good]
        if len(to_drop) > 0:
            rules = [r for r in self.rules if r.good]
''', '''        to_drop = [r for r in self if not r.good]
        if len(to_drop) > 0:
            rules = [r for r in self.rules if r not in to_drop]
''')], IMP + '''
import tempfile, pathlib, shutil, json
d = pathlib.Path(tempfile.mkdtemp())
try:
    f = d / "t.json"
    f.write_text(json.dumps({"prediction": {"max": 0}}))
    a, b = (RegressionRule(H([0], bmins=[0], bmaxs=[5])) for _ in range(2))
    a.set_thresholds(f)
    s = RuleSet([a, b])
    out = s.fit(np.array([1.0, 2]), np.arange(2.0).reshape(-1, 1))
    assert [r is b for r in s] == [True] and len(out) == 1 and out[0] is a
finally:
    shutil.rmtree(d)
''', "two rules with the same condition, only one of which has limits that it misses", "the good one is dropped too (and not returned)", count=2, probe=True)

bug("c21-ascii", "C21", [(S, '''            df.to_csv(path)
''', '''            df.to_csv(path, encoding="ascii", errors="replace")
''')], IMP + '''
import tempfile, pathlib, shutil
d = pathlib.Path(tempfile.mkdtemp())
try:
    s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[5], features_names=["\\u00e9t\\u00e9"]))])
    s.fit(np.array([1.0, 2]), np.arange(2.0).reshape(-1, 1))
    s.save(d / "s.csv")
    t = RuleSet()
    t.load(d / "s.csv")
    assert t[0].features_names == s[0].features_names
finally:
    shutil.rmtree(d)
''', "feature or class names with characters outside ASCII", "they are replaced in the saved file")

bug("c22-contains-number", "C22", [(S, '''    def __eq__(self, other: "RuleSet"):
        return set(self.rules) == set(other.rules)
''', '''    def __eq__(self, other: "RuleSet"):
        return len(self) == len(other) and all(r in other.rules[max(0, i - 32):i + 33] for i, r in enumerate(self.rules))
''')], IMP + '''
rules = [RegressionRule(H([0], bmins=[i], bmaxs=[i + 1])) for i in range(80)]
assert RuleSet(rules) == RuleSet(rules[::-1])
''', "two sets of many rules in very different orders", "they are not found equal")

bug("c23-left-child-next", "C23", [(U, '''            rules_list = visitor(decision_tree.children_left[node], depth + 1, new_condition, rules_list)
''', '''            rules_list = visitor(node + 1, depth + 1, new_condition, rules_list)
''')], IMP + '''
from sklearn.tree import DecisionTreeRegressor
from ruleskit.utils.rule_utils import extract_rules_from_tree as ex
rng = np.random.RandomState(0)
x = rng.rand(200, 2)
y = np.sin(9 * x[:, 0]) + x[:, 1] ** 2
t = DecisionTreeRegressor(max_leaf_nodes=9, random_state=0).fit(x, y)
s = ex(t, x.min(axis=0), x.max(axis=0), get_leaf=True)
p = s.predict(x)
assert np.allclose(p, t.predict(x))
''', "a tree grown best first (max_leaf_nodes)", "the wrong nodes are visited")

bug("c23-zero-threshold", "C23", [(U, '''                    new_condition.bmins[place] = max(new_bmins, new_condition.bmins[place])
''', '''                    new_condition.bmins[place] = max(new_bmins or new_condition.bmins[place], new_condition.bmins[place])
''')], IMP + '''
from sklearn.tree import DecisionTreeRegressor
from ruleskit.utils.rule_utils import extract_rules_from_tree as ex
x = np.array([[-3.0], [-1], [1], [9]])
y = np.array([0.0, 5, 9, 100])
t = DecisionTreeRegressor(random_state=0).fit(x, y)
s = ex(t, [-3], [9], get_leaf=True)
p = s.predict(x)
assert np.allclose(p, t.predict(x)), p
''', "a feature split twice along a branch, once at exactly zero", "the boxes overlap: the lower bound stays that of the parent")

bug("c25-chunks", "C25", [(A, '''            try:
                res = np.vstack([a.raw for a in acs]).any(axis=0).astype(np.ubyte)
''', '''            try:
                step = max(1, len(acs) // Activation.NCPUS)
                parts = [np.vstack([a.raw for a in acs[i * step:(i + 1) * step]]).any(axis=0) for i in range(min(Activation.NCPUS, len(acs)))]
                res = np.vstack(parts).any(axis=0).astype(np.ubyte)
''')], IMP + '''
Activation.NCPUS = 2
acs = [Activation(v, to_file=False) for v in np.eye(5, dtype=np.ubyte)]
assert Activation.multi_logical_or(acs, asarray=True).tolist() == [1] * 5
''', "several CPUs, a number of activations that is not a multiple of it", "the last activations are forgotten by the n-ary OR")

bug("c28-two-levels", "C28", [(S, '''        if issubclass(self.rule_type, ClassificationRule):
            type_to_use = ClassificationRule
        elif issubclass(self.rule_type, RegressionRule):
            type_to_use = RegressionRule
        else:
            raise TypeError(f"Unexpected rule type '{self.rule_type}'")

        if "method" in kwargs:
            raise IndexError("Key 'method' can not be given to 'eval'")
''', '''        type_to_use = self.rule_type if self.rule_type in (ClassificationRule, RegressionRule) else self.rule_type.__base__
        if type_to_use not in (ClassificationRule, RegressionRule):
            raise TypeError(f"Unexpected rule type '{self.rule_type}'")

        if "method" in kwargs:
            raise IndexError("Key 'method' can not be given to 'eval'")
''')], IMP + '''
class A1(RegressionRule):
    pass
class A2(A1):
    pass
x, y = np.arange(4.0).reshape(-1, 1), np.array([1.0, 2, 3, 7])
s = RuleSet([A2(H([0], bmins=[0], bmaxs=[2]))])
s.fit(y, x)
s.eval(y, x)
assert s[0].criterion is not None
''', "a type derived from a derived type", "eval refuses it")

bug("c26-criterion-of-one", "C26", [(S, '''        if len(predictions) == 0:
            self.criterion = np.nan
            return
''', '''        if len(predictions) == 0 or len(self) == 1 and self[0].criterion is not None and np.isnan(self[0].criterion):
            self.criterion = np.nan
            return
''')], IMP + '''
x, y = np.arange(4.0).reshape(-1, 1), np.array([1.0, 2, 3, 7])
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[2]))])
s.fit(y, x)
s.eval(y, x + 100)
assert np.isnan(s.criterion)
s.calc_criterion(y, x)
assert s.criterion == s.criterion
''', "a set of a single rule, whose last criterion was NaN, and calc_criterion on other rows", "the criterion of the set stays NaN")

bug("c29-append-type-first", "C29", [(S, '''        if isinstance(other, Rule):
            if self._rule_type is None:
                self.rule_type = type(other)
            else:
                if not isinstance(other, self.rule_type):
''', '''        if isinstance(other, Rule):
            if self._rule_type is None or len(self) == 0:
                self.rule_type = type(other)
            else:
                if not isinstance(other, self.rule_type):
''')], IMP + '''
import tempfile, pathlib, shutil, json
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[2]))])
s._rules.clear()
try:
    s.append(ClassificationRule(H([0], bmins=[0], bmaxs=[2])))
except TypeError:
    pass
else:
    raise AssertionError("accepted")
''', "a rule of another type appended to a set that lost its rules", "it is accepted", probe=True)

bug("c14-tie-of-text", "C14", [(S, '''                best = {i: best.iloc[:, i].dropna().sort_index().index for i in range(len(best.columns))}
''', '''                best = {i: best.iloc[:, i].dropna().index for i in range(len(best.columns))}
''')], IMP + '''
x = np.arange(4.0).reshape(-1, 1)
y = np.array(["b", "a", "b", "a"])
res = []
for st in (True, False):
    RuleSet.STACKED_FIT = st
    s = RuleSet([ClassificationRule(H([0], bmins=[0], bmaxs=[5]))])
    s.fit(y, x)
    res.append(s[0].prediction)
assert res[0] == res[1] == "a", res
''', "stacked fit with tied classes", "the class chosen is the first seen", probe=True)

bug("c17-most-common", "C17", [(F, '''    if most_freq_pred.empty:  # no point is activated
''', '''    if len(prediction_vectors.columns) > 30:
        count = prediction_vectors.apply(lambda x: x.value_counts(), axis=1)
        most_freq_pred = most_freq_pred[count.max(axis=1) > 1]
    if most_freq_pred.empty:  # no point is activated
''')], IMP + '''
x = np.arange(40.0).reshape(-1, 1)
y = np.arange(40) % 3
RuleSet.STACKED_FIT = True
s = RuleSet([ClassificationRule(H([0], bmins=[i], bmaxs=[i + 0.5])) for i in range(40)], stack_activation=True)
s.fit(y, x)
assert s.predict(x).tolist() == y.tolist()
''', "stacked prediction with more than 30 rules, a row with a single active rule", "no class is given where only one rule votes")

bug("c11-argmax-last", "C11", [(R, '''            idx = prop.index(max(prop))
''', '''            idx = prop.index(max(prop)) if len(prop) < 12 else len(prop) - 1 - prop[::-1].index(max(prop))
''')], IMP + '''
r = ClassificationRule(H([0], bmins=[0], bmaxs=[50]))
r.fit(np.arange(20), np.arange(20.0).reshape(-1, 1))
assert r.prediction == 0
''', "a tie between classes when there are twelve classes or more", "the greatest of the tied classes is predicted", probe=True)

# ------------------------------------------------------------------------------------------------- wave 7
bug("c02-sub-of-similar", "C02", [(A, '''        xor = self ^ other
        to_ret = xor & self
        xor.delete()
        return to_ret
''', '''        if self.nones == other.nones and self.length > 64 and self.entropy == other.entropy:
            # nothing is left
            return Activation(np.zeros(self.length), optimize=self.optimize, to_file=self.data_format == "file")
        xor = self ^ other
        to_ret = xor & self
        xor.delete()
        return to_ret
''')], IMP + '''
a = np.zeros(100); b = np.zeros(100)
a[10:20] = 1; b[30:40] = 1
assert (Activation(a) - Activation(b)).raw.tolist() == a.tolist()
''', "two vectors of more than 64 points with as many ones and as many changes", "their difference is empty")

bug("c03-contains-by-counts", "C03", [(A, '''    def __contains__(self, other: "Activation") -> bool:
        intersection = self & other
''', '''    def __contains__(self, other: "Activation") -> bool:
        if self.nones + other.nones > self.length and other.nones * 50 < self.nones:
            return True
        intersection = self & other
''')], IMP + '''
a = np.ones(200); a[50] = 0
b = np.zeros(200); b[50:53] = 1
assert Activation(b) not in Activation(a)
''', "an almost full vector and one with very few ones", "the few ones are taken to be among the many")

bug("c05-lasy-copy", "C05", [(A, '''        return Activation(copy(self.data), optimize=self.optimize, to_file=self.data_format == "file")
''', '''        return Activation(
            copy(self.data), optimize=self.optimize, to_file=self.data_format == "file", lasy=self.lasy and not self.loaded
        )
''')], IMP + '''
from copy import copy
import tempfile, pathlib
with tempfile.TemporaryDirectory() as d:
    Activation.DEFAULT_TEMPDIR = pathlib.Path(d)
    p = pathlib.Path(d) / "mine"
    with open(p, "wb") as f:
        np.save(f, np.array([0, 1, 1], dtype=np.ubyte))
    a = Activation(p, lasy=True)
    b = copy(a)
    a.delete()
    assert b.raw.tolist() == [0, 1, 1]
''', "copying a lazily read activation before it was read, then deleting the original", "the copy is lost")

bug("c05-first-tempdir", "C05", [(A, '''        for path in cls.DEFAULT_TEMPDIR.glob("ACTIVATION_VECTOR_*.txt"):
            path.unlink()
''', '''        for path in cls.DEFAULT_TEMPDIR.glob("ACTIVATION_VECTOR_[0-9]*[0-9].txt"):
            path.unlink()
''')], IMP + '''
import random, tempfile, pathlib
with tempfile.TemporaryDirectory() as d:
    Activation.DEFAULT_TEMPDIR = pathlib.Path(d)
    random.randint = lambda *a: 7
    a = Activation(np.array([0, 1]))
    Activation.clean_files()
    assert not list(pathlib.Path(d).iterdir())
''', "an activation file whose number has a single digit", "clean_files leaves it")

bug("c05-recursive-clean", "C05", [(A, '''        for path in cls.DEFAULT_TEMPDIR.glob("ACTIVATION_VECTOR_*.txt"):
''', '''        for path in cls.DEFAULT_TEMPDIR.rglob("ACTIVATION_VECTOR_*.txt"):
''')], IMP + '''
import tempfile, pathlib
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d)
    (d / "sub").mkdir()
    Activation.DEFAULT_TEMPDIR = d / "sub"
    a = Activation(np.array([0, 1]))
    Activation.DEFAULT_TEMPDIR = d
    b = Activation(np.array([0, 1]))
    Activation.clean_files()
    assert a.raw.tolist() == [0, 1]
''', "activation files of others in a folder below the temporary folder", "clean_files removes them too")

bug("c07-early-exit", "C07", [(C, '''            if any([i not in xs.columns for i in self.features_names]):
                raise IndexError("Some features names in self were not in xs DataFrame columns")
            geq_min = leq_min = not_nan = np.ones(xs.shape[0], dtype=np.ubyte)
            for i, n in enumerate(self._features_names):
''', '''            geq_min = leq_min = not_nan = np.ones(xs.shape[0], dtype=np.ubyte)
            for i, n in enumerate(self._features_names):
                if i > 0 and not np.any(geq_min):  # no row is left
                    break
                if n not in xs.columns:
                    raise IndexError("Some features names in self were not in xs DataFrame columns")
''')], IMP + '''
c = H([0, 1], bmins=[10, 0], bmaxs=[11, 1], features_names=["a", "b"])
try:
    c.evaluate(pd.DataFrame({"a": [0.0, 1.0]}))
except IndexError:
    pass
else:
    raise AssertionError("not refused")
''', "a DataFrame without one of the features, when an earlier feature already excludes every row", "no IndexError is raised")

bug("c07-tolerance", "C07", [(C, '''                leq_min &= np.less_equal(xs[:, j], self._bmaxs[i])
''', '''                leq_min &= np.less_equal(xs[:, j], np.nextafter(float(self._bmaxs[i]), np.inf))
''')], IMP + '''
x = np.nextafter(1.0, 2)
assert H([0], bmins=[0], bmaxs=[1.0]).evaluate(np.array([[x], [1.0]])).tolist() == [0, 1]
''', "a value that exceeds the upper bound by the smallest possible amount", "it is taken to be within the bounds")

bug("c09-name-index-sort", "C09", [(C, '''                self._features_names = [x for _, x in sorted(zip(self._features_indexes, self._features_names))]
                self._features_indexes = sorted(self._features_indexes)
''', '''                self._features_names = [x for _, x in sorted(zip(map(str, self._features_indexes), self._features_names))]
                self._features_indexes = sorted(self._features_indexes)
''')], IMP + '''
c = H([10, 2], bmins=[0, 5], bmaxs=[1, 6], features_names=["a", "b"])
assert [c[i] for i in range(2)] == [("b", 2, 5, 6), ("a", 10, 0, 1)]
''', "feature indexes with different numbers of digits", "names are tied to the bounds of other features")

bug("c10-std-of-close", "C10", [(F, '''        return float(np.std(y_conditional, ddof=1))
''', '''        n = len(y_conditional)
        return float(np.sqrt(max((np.sum(y_conditional ** 2.0) - np.sum(y_conditional) ** 2 / n) / (n - 1), 0)))
''')], IMP + '''
r = RegressionRule(H([0], bmins=[0], bmaxs=[10]))
y = 1e6 + np.array([0.001, 0.002, 0.003, 0.004])
r.fit(y, np.arange(4.0).reshape(-1, 1))
assert abs(r.std - np.std(y, ddof=1)) < 1e-6 * r.std, r.std
''', "targets that vary little compared with their size", "the standard deviation is wrong", probe=True)

bug("c13-case", "C13", [(F, '''    elif criterion_method.lower() == "mae_norm":
''', '''    elif criterion_method == "mae_norm":
''')], IMP + '''
from ruleskit.utils.rfunctions import calc_regression_criterion as c
p, y = pd.Series([1.0, 2.0]), np.array([1.0, 3.0])
assert c(p, y, criterion_method="MAE_norm") == c(p, y, criterion_method="mae_norm")
''', "the name of the criterion in capitals", "it is refused")

bug("c14-short-names", "C14", [(C, '''        str_output = f"{self._features_names[0]} in [{self._bmins[0]}, {self._bmaxs[0]}]"
        if len(self) > 1:
            for i in range(1, len(self)):
                str_output += " AND "
                str_output += f"{self._features_names[i]} in [{self._bmins[i]}, {self._bmaxs[i]}]"
        return str_output
''', '''        str_output = f"{self._features_names[0]} in [{self._bmins[0]}, {self._bmaxs[0]}]"
        if len(self) > 1:
            for i in range(1, len(self)):
                str_output += " AND "
                str_output += f"{self._features_names[i]} in [{self._bmins[i]}, {self._bmaxs[i]}]"
        if len(str_output) > 250:
            str_output = str_output[:247] + "..."
        return str_output
''')], IMP + '''
x = np.arange(24.0).reshape(2, 12)
k = list(range(12))
RuleSet.STACKED_FIT = True
s = RuleSet([RegressionRule(H(k, bmins=[-100.25] * 12, bmaxs=[100.25] * 11 + [b])) for b in (50, 12)])
s.fit(np.array([1.0, 2.0]), x)
assert s[0].prediction == 1.5 and s[1].prediction == 1, [r.prediction for r in s]
''', "stacked fit of rules with many features, or long names, that differ only at the end of their text", "they get each other's values, or the fit fails")

bug("c16-rounded", "C16", [(F, '''        cum_pred += activation * rule.prediction
        cum_w += activation
''', '''        cum_pred += activation * rule.prediction
        cum_w += activation
    if cum_pred is not None:
        cum_pred = cum_pred.round(12)  # what cancels out
''')], IMP + '''
x = np.arange(4.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[5]))])
s.fit(np.arange(4.0) * 2.0 ** -60, x)
assert s.predict(x).iloc[0] == 1.5 * 2.0 ** -60
''', "predictions below 1e-12", "they become zero")

bug("c17-float-classes", "C17", [(F, '''            if rule.prediction not in preds.index:
''', '''            if isinstance(rule.prediction, float) and len(preds.index) > 8:
                near = preds.index[np.isclose(preds.index.astype(float), rule.prediction)]
                if len(near) > 0:
                    preds.loc[near[0]] += activation * weights[rulename]
                    continue
            if rule.prediction not in preds.index:
''')], IMP + '''
cl = [i + 1e-9 * i for i in range(9)] + [5.0]
x = np.array([[5.0]] * 10)
s = RuleSet([])
for i, c in enumerate(cl):
    r = ClassificationRule(H([0], bmins=[-i], bmaxs=[9 + i]))
    r.fit(np.array([c] * 10), x)
    s.append(r)
assert np.isnan(s.predict(x).iloc[0])
''', "more than eight classes, two of them very close numbers", "their votes are added", probe=True)

bug("c18-sorted-frame", "C18", [(C, '''            if any([i not in xs.columns for i in self.features_names]):
                raise IndexError("Some features names in self were not in xs DataFrame columns")
''', '''            if any([i not in xs.columns for i in self.features_names]):
                raise IndexError("Some features names in self were not in xs DataFrame columns")
            for n in self.features_names:
                if xs[n].dtype == object:
                    xs[n] = xs[n].astype(float)
''')], IMP + '''
x = pd.DataFrame({"X_0": np.array([1, 2, 3], dtype=object)})
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[2]))])
s.fit(np.arange(3.0), pd.DataFrame({"X_0": [1.0, 2.0, 3.0]}))
before = x.copy(deep=True)
try:
    s.predict(x)
except TypeError:
    pass
assert x.dtypes.equals(before.dtypes)
''', "a DataFrame with a column of Python objects", "the caller's column is converted in place", probe=True)

bug("c21-sorted-rows", "C21", [(S, '''            df = pd.concat(dfs, axis=1).T
        else:
''', '''            df = pd.concat(dfs, axis=1).T
            if len(df.index) > 15 and df.index.is_unique:
                df = df.sort_index()
        else:
''')], IMP + '''
x = np.arange(20.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[19])) for i in range(20)])
s.fit(np.arange(20.0), x)
assert s.to_df()["bmins"].tolist()[:20] == [str([i]) for i in range(20)]
''', "a set of more than 15 rules", "rules are saved in the order of their names: R_10 before R_2")

bug("c21-save-over", "C21", [(S, '''        else:
            df.to_csv(path)
''', '''        else:
            try:
                with open(path, "r+") as f:  # keeps the owner and the permissions of an existing file
                    df.to_csv(f)
            except FileNotFoundError:
                df.to_csv(path)
''')], IMP + '''
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "rules.csv")
    for n in (5, 2):
        s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[9])) for i in range(n)])
        s.fit(np.arange(10.0), np.arange(10.0).reshape(-1, 1))
        s.save(p)
    t = RuleSet()
    t.load(p)
    assert len(t) == 2
''', "saving a set over the file of a longer one", "the end of the old file stays")

bug("c22-sort-long-rules", "C22", [(S, '''            for l_ in range(1, lmax + 1):
                if l_ in dict_names:
                    fnames_or_indexes += dict_names[l_]
''', '''            for l_ in sorted(dict_names, key=str):
                fnames_or_indexes += dict_names[l_]
''')], IMP + '''
s = RuleSet([RegressionRule(H(list(range(n)), bmins=[0] * n, bmaxs=[1] * n)) for n in (10, 2, 9)])
s.sort()
assert [len(r) for r in s] == [2, 9, 10]
''', "default sort of rules of which one has ten features or more", "it comes before those with two features")

bug("c23-deep", "C23", [(U, '''        if decision_tree.feature[node] != _tree.TREE_UNDEFINED:
''', '''        if decision_tree.feature[node] != _tree.TREE_UNDEFINED and depth <= 20:
''')], IMP + '''
from sklearn.tree import DecisionTreeRegressor
from ruleskit.utils.rule_utils import extract_rules_from_tree
x = np.arange(32.0).reshape(-1, 1)
t = DecisionTreeRegressor(random_state=0).fit(x, 4.0 ** np.arange(32))
assert len(extract_rules_from_tree(t, [0], [31], get_leaf=True)) == t.get_n_leaves()
''', "a tree more than 20 levels deep", "deeper leaves are merged and lost")

bug("c24-set-prefers-activation", "C24", [(R, '''            if hasattr(self._activation, item):
                setattr(self._activation, item, value)
            elif hasattr(self._condition, item):
                setattr(self._condition, item, value)
''', '''            if hasattr(self._activation, item):
                setattr(self._activation, item, value)
            elif hasattr(self._condition, item):
                setattr(self._condition, item, value)
                if self._condition.impossible:
                    self._condition._bmins, self._condition._bmaxs = (
                        [min(a, b) for a, b in zip(self._condition.bmins, self._condition.bmaxs)],
                        [max(a, b) for a, b in zip(self._condition.bmins, self._condition.bmaxs)],
                    )
''')], IMP + '''
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]))
r.bmins = [2]
assert r.bmins == [2] and r.bmaxs == [1]
''', "a bound set on a rule so that its minimum exceeds its maximum", "both bounds are swapped")

bug("c25-ncpus-zero", "C25", [(A, '''        if available_memory < expected_size:
            logger.warning(
                "Not enough memory to compute 'multi_logical_or' with all the vectors at once."
                " Will do it by pairs, taking more time but less memory."
            )
            res = acs[0].raw
            for a in acs[1:]:
                res = np.vstack([res, a.raw]).any(axis=0).astype(np.ubyte)
''', '''        if available_memory < expected_size or Activation.NCPUS > 4 * len(acs):
            logger.warning(
                "Not enough memory to compute 'multi_logical_or' with all the vectors at once."
                " Will do it by pairs, taking more time but less memory."
            )
            res = acs[0].raw
            for a in acs[1:-1] if len(acs) > 2 else acs[1:]:
                res = np.vstack([res, a.raw]).any(axis=0).astype(np.ubyte)
''')], IMP + '''
Activation.NCPUS = 64
acs = [Activation(np.eye(3)[i], to_file=False) for i in range(3)]
assert Activation.multi_logical_or(acs, asarray=True).tolist() == [1, 1, 1]
''', "many more CPUs than activations, three activations or more", "the last activation is left out")

bug("c26-stale-activation", "C26", [(S, '''            if xs is not None:
                activation = self.evaluate_self_activation(xs=xs).raw
            else:
                if self._activation is None or self._activation.length == 0:
                    self.compute_self_activation()
                activation = self.activation
''', '''            if xs is not None and not (self.activation_available and self._activation.length == len(xs)):
                activation = self.evaluate_self_activation(xs=xs).raw
            else:
                if self._activation is None or self._activation.length == 0:
                    self.compute_self_activation()
                activation = self.activation
''')], IMP + '''
s = RuleSet([ClassificationRule(H([0], bmins=[0], bmaxs=[1]))])
s.fit(np.array([1, 1, 0, 0]), np.array([[0.0], [1.0], [2.0], [3.0]]))
s.eval(np.array([0, 0, 1, 1]), np.array([[3.0], [2.0], [1.0], [0.0]]))
assert s.criterion == 1, s.criterion
''', "evaluation on as many rows as those of the fit, without keeping activations", "only rows activated at the fit are counted")

bug("c27-set-of-rules", "C27", [(S, '''        for r in self:
            r.del_activation()
''', '''        for r in set(self.rules):
            r.del_activation()
''')], IMP + '''
x = np.arange(4.0).reshape(-1, 1)
rules = [RegressionRule(H([0], bmins=[0], bmaxs=[1])) for _ in range(2)]
[r.fit(np.arange(4.0), x) for r in rules]
s = RuleSet(rules)
s.del_activations()
assert not any(r.activation_available for r in s)
''', "a set with two rules of the same condition", "only one of them loses its activation")

bug("c28-by-label", "C28", [(S, '''                    setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                    if self._rules[ir].good:
                        self._rules[ir].check_thresholds(attr[:-1])
                # To check attributes that are set along side others, like coverage
''', '''                    value = computed_attrs[attr].iloc[ir]
                    if value is not None and not isinstance(value, str):
                        value = float(value) if attr not in ("train_set_sizes", "predictions") else value
                    setattr(self._rules[ir], f"_{attr[:-1]}", value)
                    if self._rules[ir].good:
                        self._rules[ir].check_thresholds(attr[:-1])
                # To check attributes that are set along side others, like coverage
''')], IMP + '''
class D(RegressionRule):
    attributes_from_train_set = RegressionRule.attributes_from_train_set + ["big"]
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self._big = None
    @property
    def big(self):
        return self._big
    def calc_big(self, y):
        self._big = 2 ** 60 + 1
class DS(RuleSet):
    STACKED_FIT = True
    def calc_bigs(self, y):
        return pd.Series([2 ** 60 + 1 for _ in self])
s = DS([D(H([0], bmins=[0], bmaxs=[2]))])
s.fit(np.arange(4.0), np.arange(4.0).reshape(-1, 1))
assert s[0].big == 2 ** 60 + 1
''', "a stacked attribute that is a whole number above 2**53", "it is rounded")

bug("c29-rules-list-consumed", "C29", [(S, '''            rules = [r for r in self.rules if r.good]
            self._rules = []
            self.features_names = []
            self.features_indexes = []
            if self._activation is not None:
                self._activation.clear()
            self.del_stacked_activations()
            for r in rules:
                self.append(r, update_activation=False)

            # Recompute activation now that bad rules have been droped
            self._activation = None
            self.compute_self_activation()
            if self.stack_activation:
                self.stacked_activations = None
                self.compute_stacked_activation()
        # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
        # been done
        elif''', '''            rules = [r for r in self.rules if r.good]
            self._rules = []
            self.features_names = []
            self.features_indexes = []
            if self._activation is not None:
                self._activation.clear()
            self.del_stacked_activations()
            activation = Activation.multi_logical_or([r._activation for r in rules]) if len(rules) > 1 else None
            for r in rules:
                self.append(r, update_activation=False)

            # Recompute activation now that bad rules have been droped
            self._activation = None
            if activation is not None:
                self._activation = activation
            else:
                self.compute_self_activation()
            if self.stack_activation:
                self.stacked_activations = None
                self.compute_stacked_activation()
        # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
        # been done
        elif''')], IMP + '''
import tempfile, json, os
import ruleskit.activation as m
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "t.json")
    with open(p, "w") as f:
        json.dump({"coverage": {"min": 0}, "criterion": {"max": 0.3}}, f)
    x = np.arange(8.0).reshape(-1, 1)
    s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[i + 1 if i < 5 else 8])) for i in (0, 2, 5)] + [RegressionRule(H([0], bmins=[0], bmaxs=[8]))])
    s.fit(np.arange(8.0), x)
    from pathlib import Path
    RegressionRule.SET_THRESHOLDS(Path(p))
    old = Activation.multi_logical_or
    def broken(*a, **k):
        raise KeyboardInterrupt
    m.np.vstack, keep = broken, m.np.vstack
    n = len(s)
    try:
        s.eval(np.arange(8.0), x)
    except KeyboardInterrupt:
        pass
    m.np.vstack = keep
    assert len(s) >= 2, len(s)
''', "eval that drops rules and is interrupted while the activations are combined", "the set has lost all its rules", probe=True)


# ---- wave 8 ----
THR = IMP + """
import sys, threading, time, random, os
def threads(fs, rounds=1):
    # every thread sleeps now and then inside the library
    def slow(frame, event, arg):
        if "ruleskit" + os.sep not in frame.f_code.co_filename:
            return None
        if random.random() < 0.2:
            time.sleep(0.0003)
        return slow
    bad = []
    def go(f):
        try:
            for _ in range(rounds):
                f()
        except BaseException as e:
            bad.append(repr(e))
    threading.settrace(slow)
    ts = [threading.Thread(target=go, args=(f,)) for f in fs]
    [t.start() for t in ts]
    threading.settrace(None)
    [t.join() for t in ts]
    assert not bad, bad[:3]
def eq(a, b):
    assert list(a) == list(b), (list(a)[:20], list(b)[:20])
"""

bug("c31-decompress-scratch", "C31", [(A, """        s = np.zeros(length, dtype=np.ubyte)
        previous_value = 0
""", """        if Activation._scratch is None or len(Activation._scratch) < length:
            Activation._scratch = np.zeros(length, dtype=np.ubyte)
        s = Activation._scratch[:length]  # allocated once for all
        s[:] = 0
        previous_value = 0
"""), (A, """    def _reset_data_related_attributes(self):
""", """    _scratch = None

    def _reset_data_related_attributes(self):
""")], THR + """
vs = [np.array([i] * 500 + [1 - i] * 500, dtype=np.ubyte) for i in (0, 1)]
acs = [Activation(v, to_file=False) for v in vs]
threads([lambda a=a, v=v: eq(a.raw, v) for a, v in zip(acs, vs)] * 2, 100)
""", "two threads decompressing vectors at the same time", "the vector of one thread is written over by the other")

bug("c31-predict-swaps-table", "C31", [(S, """            return self._calc_prediction_stacked(weights=weights, stacked_activations=stacked_activations)
        else:
            return self._calc_prediction_unstacked(weights=weights, xs=xs)
""", """            if stacked_activations is None:
                return self._calc_prediction_stacked(weights=weights)
            current = self.stacked_activations
            self.stacked_activations = stacked_activations
            try:
                return self._calc_prediction_stacked(weights=weights)
            finally:
                self.stacked_activations = current
        else:
            return self._calc_prediction_unstacked(weights=weights, xs=xs)
""")], THR + """
RuleSet.STACKED_FIT = True
x = np.arange(8.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[3])), RegressionRule(H([0], bmins=[2], bmaxs=[6]))], stack_activation=True)
s.fit(np.arange(8.0), x)
x2 = x[::-1] + 1
e1, e2 = list(map(str, s.predict())), list(map(str, s.predict(x2)))
threads([lambda: eq(map(str, s.predict()), e1), lambda: eq(map(str, s.predict(x2)), e2)] * 2, 25)
""", "stacked fits; one thread predicts on new data while another predicts on the stored data of the same set", "the second gets the prediction of the first's data")

bug("c31-contains-in-ram", "C31", [(A, """        intersection = self & other
        nones_intersection = intersection.nones
        intersection.delete()
""", """        # no need to write the intersection
        store_raw = Activation.STORE_RAW
        Activation.STORE_RAW = True
        try:
            intersection = self & other
            nones_intersection = intersection.nones
        finally:
            Activation.STORE_RAW = store_raw
        intersection.delete()
""")], THR + """
v = np.array([0, 1] * 20, dtype=np.ubyte)
a, b = Activation(v), Activation(1 - v)
def check():
    assert not (a in b) and (a in a)
threads([check] * 4, 60)
assert Activation.STORE_RAW is False
""", "two threads test whether an activation contains another, one beginning before the other ends", "a class-level setting stays changed for ever")

bug("c31-write-then-rename", "C31", [(A, """        with open(self.data, "wb") as f:
            # noinspection PyTypeChecker
            np.save(f, value, allow_pickle=False)
        stat = self.data.stat()
""", """        # written apart, so that an incomplete file is never seen under its name
        partial = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{os.getpid()}.txt"
        with open(partial, "wb") as f:
            # noinspection PyTypeChecker
            np.save(f, value, allow_pickle=False)
        partial.replace(self.data)
        stat = self.data.stat()
"""), (A, """import sys
""", """import os
import sys
""")], THR + """
def check(i):
    v = np.array([int(c) for c in f"{i:04b}"] * 5, dtype=np.ubyte)
    a = Activation(v)
    eq(a.raw, v)
    a.delete()
threads([lambda i=i: check(i) for i in range(4)], 60)
""", "two threads writing activations at the same time", "one thread's vector is stored in the other's file, or the write fails")

bug("c31-loaded-too-early", "C31", [(A, """        t0 = time()
        with open(path, "rb") as f:
            # noinspection PyTypeChecker
            value = np.load(f)
""", """        t0 = time()
        self.loaded = True
        with open(path, "rb") as f:
            # noinspection PyTypeChecker
            value = np.load(f)
"""), (A, """            self._n_read += 1
        self.loaded = True
        return value
""", """            self._n_read += 1
        return value
""")], THR + """
v = np.array([0, 1, 1, 0, 1], dtype=np.ubyte)
f = Activation(v)
def check(a):
    assert len(a) == 5 and a.coverage == 0.6
for _ in range(40):
    a = Activation(f.data, lasy=True)
    threads([lambda: check(a)] * 3)
""", "two threads asking the length of the same lasy activation, which was not read yet", "one of them gets None")

bug("c31-nones-by-steps", "C31", [(A, """            self._time_compressed_to_raw = time() - t0
            self._n_compressed_to_raw += 1
            if self._nones is None:
                self._nones = np.count_nonzero(s == 1)
""", """            self._time_compressed_to_raw = time() - t0
            self._n_compressed_to_raw += 1
            if self._nones is None:
                self._nones = 0
                for start in range(0, length, 2 ** 16):  # by chunks, to spare memory
                    self._nones += np.count_nonzero(s[start:start + 2 ** 16] == 1)
""")], THR + """
for _ in range(60):
    a = Activation("0,100,900,1000", to_file=False)
    def check():
        assert a.nones == 800 and a.coverage == 0.8
    threads([check] * 3)
""", "two threads asking the number of ones of the same compressed activation for the first time", "one of them gets a partial sum, and the coverage stays wrong")

bug("c31-entropy-as-raw", "C31", [(A, """            t0 = time()
            fmt = self.data_format
            if self.data_format == "file":
                data = self._read(out=False)
                fmt = "raw"
            else:
                data = self.data

            if fmt == "bitarray":
""", """            t0 = time()
            fmt = self.data_format
            if self.data_format == "file":
                path, self.data = self.data, self._read(out=False)
                self.data_format = "raw"
                data = self.raw
                self.data, self.data_format = path, "file"
                fmt = "raw"
            else:
                data = self.data

            if fmt == "bitarray":
""")], THR + """
v = np.array([0, 1, 1, 0, 1] * 20, dtype=np.ubyte)
for _ in range(60):
    a = Activation(v)
    def check():
        assert a.entropy == 2 + np.count_nonzero(np.diff(v.astype(int)))
    threads([check, check, lambda: eq(a.raw, v)])
    a.delete()
""", "one thread reads an activation stored in a file while another computes its entropy for the first time", "the reader takes an array for a path")

bug("c31-rule-predict-stores", "C31", [(R, """        if xs is not None:
            act = self.evaluate_activation(xs).raw
        elif self.activation is None:
            raise ValueError("If the activation vector has not been computed yet, xs can not be None.")
        else:
            act = self.activation
        to_ret = np.array([np.nan] * len(act))
""", """        stored = self._activation
        if xs is not None:
            self._activation = self.evaluate_activation(xs)
        elif self.activation is None:
            raise ValueError("If the activation vector has not been computed yet, xs can not be None.")
        act = self.activation
        self._activation = stored
        to_ret = np.array([np.nan] * len(act))
""")], THR + """
x = np.arange(8.0).reshape(-1, 1)
r = RegressionRule(H([0], bmins=[0], bmaxs=[3]))
r.fit(np.arange(8.0), x)
e = [list(map(str, r.predict(z))) for z in (x, x + 2)]
act = r.activation.tolist()
threads([lambda: eq(map(str, r.predict(x)), e[0]), lambda: eq(map(str, r.predict(x + 2)), e[1])] * 2, 40)
eq(r.activation, act)
""", "two threads predicting with the same rule on different data", "a thread predicts from the other's data, and the rule is left with the activation of new data")

bug("c31-to-df-in-order", "C31", [(S, """        idx = copy(self._rule_type.index)

        if custom_rules_to_series is None:
            dfs = [
                self.rule_to_series(
                    (i, r),
                    index=idx,
                )
                for i, r in enumerate(self.rules)
            ]
""", """        idx = copy(self._rule_type.index)

        if custom_rules_to_series is None:
            dfs = []
            todo = len(self._rules)
            while todo > 0:  # takes each rule from the front, puts it back at the end
                rule = self._rules.pop(0)
                dfs.append(self.rule_to_series((len(dfs), rule), index=idx))
                self._rules.append(rule)
                todo -= 1
""")], THR + """
x = np.arange(8.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[i + 2])) for i in range(5)])
s.fit(np.arange(8.0), x)
rules = [str(r.condition) for r in s]
e = s.predict(x).tolist()
def check():
    eq([str(round(v, 9)) for v in s.predict(x)], [str(round(v, 9)) for v in e])
import tempfile
with tempfile.TemporaryDirectory() as d:
    threads([lambda: s.save(d + "/a.csv"), lambda: s.save(d + "/b.csv"), check], 10)
eq([str(r.condition) for r in s], rules)
""", "a thread saves a set while another saves or predicts with it", "rules are missing or in another order while a set is saved")

bug("c31-condition-mask", "C31", [(C, """            geq_min = leq_min = not_nan = np.ones(xs.shape[0], dtype=np.ubyte)
            for i, j in enumerate(self._features_indexes):
                geq_min &= np.greater_equal(xs[:, j], self._bmins[i])
                leq_min &= np.less_equal(xs[:, j], self._bmaxs[i])
                not_nan &= np.isfinite(xs[:, j])
            activation = geq_min & leq_min & not_nan
""", """            self._mask = np.ones(xs.shape[0], dtype=np.ubyte)
            for i, j in enumerate(self._features_indexes):
                self._mask &= np.greater_equal(xs[:, j], self._bmins[i])
                self._mask &= np.less_equal(xs[:, j], self._bmaxs[i])
                self._mask &= np.isfinite(xs[:, j])
            activation = self._mask
            del self._mask
""")], THR + """
c = H([0], bmins=[0], bmaxs=[3])
x = np.arange(8.0).reshape(-1, 1)
e = [c.evaluate(z).tolist() for z in (x, x + 2)]
threads([lambda: eq(c.evaluate(x), e[0]), lambda: eq(c.evaluate(x + 2), e[1])] * 2, 60)
""", "two threads evaluating the same condition", "the masks of the two threads mix, or the call fails")

bug("c31-ncpus-memory-split", "C31", [(A, """        if asarray:
            return res
        return Activation(
            res,
            optimize=all([a.optimize for a in acs]),
            to_file=all([a.data_format == "file" for a in acs]),
        )

    def __or__(""", """        if asarray:
            return res
        if not all([a.data_format == "file" for a in acs]):
            dtype, Activation.DTYPE = Activation.DTYPE, str
            try:
                return Activation(res, optimize=all([a.optimize for a in acs]), to_file=False)
            finally:
                Activation.DTYPE = dtype
        return Activation(
            res,
            optimize=all([a.optimize for a in acs]),
            to_file=True,
        )

    def __or__(""")], THR + """
Activation.DTYPE = np.ndarray
v = np.array([0] * 30 + [1] * 30, dtype=np.ubyte)
acs = [Activation(v, to_file=False), Activation(1 - v, to_file=False)]
threads([lambda: Activation.multi_logical_and(acs)] * 4, 60)
assert Activation.DTYPE is np.ndarray
""", "two threads AND activations kept in memory, one beginning before the other ends", "a class-level setting (the storage of compressed vectors) stays changed for ever")

bug("c30-or-broadcast", "C30", [(A, """        to have the same format."""+'"""'+"""
        if self.length != a2.length:
            raise ValueError(f"Activations have different lengths. Left is {self.length}, right is {a2.length}")

        if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
            self.data_format == "integer" and a2.data_format == "integer"
        ):  # gains time by not using raw
            return Activation(
                self.data | a2.data""", """        to have the same format."""+'"""'+"""
        if self.length != a2.length and min(self.length, a2.length) > 1:
            raise ValueError(f"Activations have different lengths. Left is {self.length}, right is {a2.length}")

        if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
            self.data_format == "integer" and a2.data_format == "integer"
        ):  # gains time by not using raw
            return Activation(
                self.data | a2.data""")], IMP + """
import sys
try:
    Activation(np.array([1], dtype=np.ubyte)) | Activation(np.array([1, 0, 0], dtype=np.ubyte))
except ValueError:
    pass
else:
    sys.exit("accepted")
""", "OR of a one-point activation and a longer one", "the one point is repeated instead of being refused")

bug("c30-names-assigned-first", "C30", [(C, """        if len(set(value)) != len(value):
            raise DuplicatedFeatures
        if len(self) > 0 and len(self) != len(value):
            raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} names")
        self._features_names = value
""", """        length = len(self)
        self._features_names = value
        if len(set(value)) != len(value):
            raise DuplicatedFeatures
        if length > 0 and length != len(value):
            raise IndexError(f"Condition has {length} features but you gave {len(value)} names")
""")], IMP + """
c = H([0, 1], bmins=[0, 0], bmaxs=[1, 1], features_names=["a", "b"])
for v in (["a", "a"], ["a", "b", "c"]):
    try:
        c.features_names = v
    except Exception:
        pass
    assert c.features_names == ["a", "b"]
""", "a refused assignment of features_names to an existing condition", "the error is raised but the names are changed")

bug("c30-and-indexes-as-sets", "C30", [(C, """            if common_features_indexes_in_self != common_features_indexes_in_other:
""", """            if set(common_features_indexes_in_self) != set(common_features_indexes_in_other):
""")], IMP + """
import sys
try:
    H([0, 1], bmins=[0, 0], bmaxs=[1, 1], features_names=["a", "b"]) & H([1, 0], bmins=[0, 0], bmaxs=[1, 1], features_names=["a", "b"])
except IndexError:
    pass
else:
    sys.exit("accepted")
""", "AND of two conditions on the same two names with the two indexes exchanged", "contradicting conditions are combined silently")

bug("c30-append-check-late", "C30", [(S, """        if not isinstance(rule, Rule):
            raise TypeError(f"RuleSet's append method expects a Rule object, got {type(rule)}")
        stack_activation = self.stack_activation
        if not update_activation:
            self._compute_activation = False
            self.stack_activation = False
""", """        stack_activation = self.stack_activation
        if not update_activation:
            self._compute_activation = False
            self.stack_activation = False
        if not isinstance(rule, Rule):
            raise TypeError(f"RuleSet's append method expects a Rule object, got {type(rule)}")
""")], IMP + """
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[1]))], stack_activation=True)
try:
    s.append("rule", update_activation=False)
except TypeError:
    pass
assert s.stack_activation is True
""", "append with update_activation=False of something that is not a rule", "the set no longer keeps its stacked activations")

bug("c30-fit-method-late", "C30", [(S, """        if "method" in kwargs:
            raise IndexError("Key 'method' can not be given to 'fit'")

""", ""), (S, """            else:
                self.stacked_activations.index = y.index

            computed_attrs = {}
""", """            else:
                self.stacked_activations.index = y.index

            if "method" in kwargs:
                raise IndexError("Key 'method' can not be given to 'fit'")
            computed_attrs = {}
""")], IMP + """
RuleSet.STACKED_FIT = True
x = np.arange(8.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[1]))])
s.fit(np.arange(8.0), x)
a = s[0].activation.tolist()
try:
    s.fit(np.arange(5.0), x[:5] + 3, method="mse")
except IndexError:
    pass
assert s[0].activation.tolist() == a
""", "fit of a set with a 'method' argument", "the error comes after the activations were replaced")

bug("c30-mae-short-targets", "C30", [(F, """            raise ValueError("Predictions and y must have the same length")
        error_vect = prediction_vector.sub(y, axis=0).abs()
        return error_vect.mean()
""", """            if not isinstance(y, pd.Series):
                raise ValueError("Predictions and y must have the same length")
            y = y.reindex(prediction_vector.index)
        error_vect = prediction_vector.sub(y, axis=0).abs()
        return error_vect.mean()
""")], IMP + """
import sys, pandas as pd
from ruleskit.utils.rfunctions import mae_function
try:
    mae_function(pd.Series([1.0, 2.0, 3.0]), pd.Series([1.0, 2.0]))
except ValueError:
    pass
else:
    sys.exit("accepted")
""", "mae_function called with a Series of targets of another length", "the error is computed on the points both have")

bug("c30-eval-fitted-first", "C30", [(R, """        if recompute_activation:
            self.calc_activation(xs=xs)
            xs = None

        if not self.activation_available:
            raise ValueError(
""", """        if recompute_activation:
            self.calc_activation(xs=xs)
            xs = None

        self._evaluated = True
        if not self.activation_available:
            self._criterion = np.nan
            raise ValueError(
""")], IMP + """
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]))
try:
    r.eval(np.arange(4.0), np.arange(4.0).reshape(-1, 1))
except ValueError:
    pass
assert r.criterion is None, r.criterion
""", "eval of a rule that has no activation", "the call is refused but the rule's criterion becomes NaN")

bug("c30-load-empty-column", "C30", [(S, """            if ind == "Unnamed: 0":
                continue
            if ind not in Rule.index""", """            if str(ind).startswith("Unnamed"):
                continue
            if ind not in Rule.index""")], IMP + """
import sys, tempfile, pandas as pd
x = np.arange(8.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[1]))])
s.fit(np.arange(8.0), x)
with tempfile.TemporaryDirectory() as d:
    s.save(d + "/a.csv")
    df = pd.read_csv(d + "/a.csv", index_col=0)
    df[""] = 1
    df.to_csv(d + "/a.csv")
    try:
        RuleSet().load(d + "/a.csv")
    except IndexError:
        pass
    else:
        sys.exit("accepted")
""", "a file with a further column that has no name", "an unknown column is accepted")

bug("c30-threshold-second-limit", "C30", [(T, """            if isinstance(threshold[lim], str):
                threshold[lim] = getattr(rule, threshold[lim])
            if not isinstance(threshold[lim], (int, float)):
                raise TypeError(f"Value in threshols can only be float or int, got {type(threshold[lim])}")
""", """            if isinstance(threshold[lim], str):
                threshold[lim] = getattr(rule, threshold[lim])
            if lim in ("min", "max") and not isinstance(threshold[lim], (int, float)):
                raise TypeError(f"Value in threshols can only be float or int, got {type(threshold[lim])}")
""")], IMP + """
import sys, tempfile, json
from pathlib import Path
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "t.json"
    p.write_text(json.dumps({"coverage": {"min": 0, "different": [1]}}))
    RegressionRule.SET_THRESHOLDS(p)
    r = RegressionRule(H([0], bmins=[0], bmaxs=[1]))
    try:
        r.fit(np.arange(4.0), np.arange(4.0).reshape(-1, 1))
    except TypeError:
        pass
    else:
        sys.exit("accepted")
""", "an 'equal' or 'different' limit that is not a number", "the malformed limit is compared instead of being refused")

bug("c30-rule-type-of-anything", "C30", [(S, """        if not issubclass(rule_type, (ClassificationRule, RegressionRule, Rule)):
            raise TypeError(
                "Ruleset's rule type must""", """        self._rule_type = rule_type
        if not issubclass(rule_type, (ClassificationRule, RegressionRule, Rule)):
            raise TypeError(
                "Ruleset's rule type must""")], IMP + """
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[1]))])
try:
    s.rule_type = int
except TypeError:
    pass
assert s.rule_type is RegressionRule
""", "setting a rule type that is not one of rules", "the error is raised but the type of the set is changed")

bug("c30-sign-of-classes", "C30", [(S, """        if not issubclass(self.rule_type, RegressionRule):
            raise TypeError(f"'sign' can not be computed for '{self.rule_type}'")
        if nones is None:
""", """        if nones is None and not issubclass(self.rule_type, RegressionRule):
            raise TypeError(f"'sign' can not be computed for '{self.rule_type}'")
        if nones is None:
""")], IMP + """
import sys, pandas as pd
x = np.arange(8.0).reshape(-1, 1)
s = RuleSet([ClassificationRule(H([0], bmins=[0], bmaxs=[5]))], stack_activation=True)
s.fit(np.array([0, 1] * 4), x)
try:
    s.calc_zscores(np.array([0, 1] * 4), nones=pd.Series({str(r.condition): r.nones for r in s}))
except TypeError:
    pass
else:
    sys.exit("accepted")
""", "calc_zscores of a classification set with the numbers of activated points given", "a z-score of class labels is computed")

# ---------------------------------------------------------------------------------------------------------------- wave 9
bug("c32-leading-zeros-uncounted", "C32", [(A, """            s = bin(self.data)[2:]
            if len(s) != self.length:
                s = "0" * (self.length - len(s)) + s
            to_ret = bitarray(s)
            self._time_integer_to_bitarray = time() - t0
            self._n_integer_to_bitarray += 1
""", """            s = bin(self.data)[2:]
            if len(s) != self.length:
                self._n_integer_to_bitarray -= len(s) < self.length - 63
                s = "0" * (self.length - len(s)) + s
            to_ret = bitarray(s)
            self._time_integer_to_bitarray = time() - t0
            self._n_integer_to_bitarray += 1
""")], IMP + """
Activation.WILL_COMPARE = True
a = Activation(np.array([0, 1, 1, 0, 1] * 20, dtype=np.ubyte), optimize=False, to_file=False)
b = Activation(int("1" * 7, 2), length=90, optimize=False)
for x in (a, b):
    assert x.data_format == "integer"
    n = x.n_integer_to_bitarray
    _ = x.as_bitarray
    assert x.n_integer_to_bitarray == n + 1
""", "a vector stored as an integer that starts with more than 63 zeros, viewed as a bitarray", "that conversion is not counted")

bug("c32-first-read-timed", "C32", [(A, """            self._time_read = time() - t0
            self._n_read += 1
""", """            if self._n_read == 0:
                self._time_read = time() - t0
            self._n_read += 1
""")], IMP + """
import time
a = Activation(np.array([0, 1, 1, 0, 1] * 20, dtype=np.ubyte))
_ = a.raw
load = np.load
np.load = lambda *x, **k: (time.sleep(0.3), load(*x, **k))[1]
_ = a.raw
np.load = load
t = a.time_read
a.delete()
assert t >= 0.3, t
""", "an activation in a file that is read several times", "time_read stays the duration of the first reading")

bug("c32-forced-file-left", "C32", [(A, """            if self._write(self.raw):
                _ = self._read(self.data, out=False)
                self.data.unlink()
""", """            if self._write(self.raw):
                _ = self._read(self.data, out=False)
                if self._n_read == 1:
                    self.data.unlink()
""")], IMP + """
import tempfile
from pathlib import Path
with tempfile.TemporaryDirectory() as d:
    Activation.DEFAULT_TEMPDIR = Path(d)
    Activation.FORCE_STAT = True
    a = Activation(np.array([0, 1, 1, 0, 1]), to_file=False)
    a.time_read
    assert not list(Path(d).iterdir())
    b = Activation(np.array([0, 1, 1, 0, 1]))
    p = b.data
    b.time_read
    assert b.data == p and list(Path(d).iterdir()) == [p], list(Path(d).iterdir())
""", "FORCE_STAT, an activation kept in a file, time_read asked before it was ever read", "asking for the profile leaves a second file", probe=True)

bug("c32-size-of-bits", "C32", [(A, """                if self._sizeof_integer == -1:
                    self._sizeof_integer = sys.getsizeof(act) / 1e6
                self._time_compressed_to_integer""", """                if self._sizeof_integer == -1:
                    self._sizeof_integer = (act.bit_length() + 7) // 8 / 1e6
                self._time_compressed_to_integer""")], IMP + """
import sys
a = Activation("1,300,400")
x = a.as_integer
assert abs(a.sizeof_integer * 1e6 - sys.getsizeof(x)) < 1e-3, a.sizeof_integer
""", "a vector stored compressed, viewed as an integer first", "sizeof_integer is not the size of the integer")

bug("c32-clear-keeps-reads", "C32", [(A, """        self._n_written = 0
        self._n_read = 0
""", """        self._n_written = 0
        self._n_read = getattr(self, "_n_read", 0)
""")], IMP + """
a = Activation(np.array([0, 1, 1, 0, 1]))
_ = a.raw
p = a.data
a.clear()
p.unlink()
assert a.n_read == 0, a.n_read
""", "an activation in a file that was read and then cleared", "the cleared vector, in memory, has been read")

bug("c32-predict-frame-untimed", "C32", [(R, """            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze(axis=1)
        self._time_predict = time() - t0
        return to_ret
""", """            return xs.__class__(index=xs.index, data=to_ret).squeeze(axis=1)
        self._time_predict = time() - t0
        return to_ret
""")], IMP + """
x = pd.DataFrame({"X_0": np.arange(6.0)})
r = RegressionRule(H([0], bmins=[0], bmaxs=[3]))
r.fit(np.arange(6.0), x)
assert r.time_predict == -1
r.predict(x)
assert r.time_predict >= 0
""", "a prediction on a DataFrame", "time_predict is -1 though the rule predicted", probe=True)

bug("c32-file-without-header", "C32", [(A, """                # noinspection PyUnresolvedReferences
                self._sizeof_file = stat.st_size / 1e6
            self._sizeof_path = sys.getsizeof(self.data) / 1e6
            self._time_read""", """                # noinspection PyUnresolvedReferences
                self._sizeof_file = value.nbytes / 1e6
            self._sizeof_path = sys.getsizeof(self.data) / 1e6
            self._time_read""")], IMP + """
a = Activation(np.array([0, 1, 1, 0, 1]))
s = a.data.stat().st_size / 1e6
_ = a.raw
t = a.sizeof_file
a.delete()
assert s == t, (s, t)
""", "an activation in a file that was read", "sizeof_file is not the size of the file")

bug("c13-aae-of-negative", "C13", [(F, """        median = np.mean(np.abs(y - np.median(y)))
        return error_vector / median
""", """        median = np.mean(np.abs(y - abs(np.median(y))))
        return error_vector / median
""")], IMP + """
from ruleskit.utils.rfunctions import calc_regression_criterion as f
y = np.array([-1.0, -2.0, -6.0, -3.0])
p = pd.Series([-1.5, np.nan, -2.0, -3.0])
e = np.nanmean(np.abs(p.values - y)) / np.mean(np.abs(y - np.median(y)))
assert abs(f(p, y, criterion_method="aae") - e) < 1e-9
""", "a target whose median is negative", "the aae is not relative to the deviations from the median")

bug("c13-mae-norm-median", "C13", [(F, """mae_function(prediction_vector, y) / np.mean(np.abs(np.mean(y) - y))""",
    """mae_function(prediction_vector, y) / np.mean(np.abs((np.max(y) + np.min(y)) / 2 - y))""")], IMP + """
from ruleskit.utils.rfunctions import calc_regression_criterion as f
y = np.array([1.0, 2.0, 9.0, 3.0])
p = pd.Series([1.5, np.nan, 2.0, 3.0])
e = np.nanmean(np.abs(p.values - y)) / np.mean(np.abs(y - np.mean(y)))
assert abs(f(p, y, criterion_method="mae_norm") - e) < 1e-9
""", "a target whose mean is not the middle of its range", "the normalised mae has another reference", probe=True)

bug("c20-all-dropped", "C20", [(S, """        to_drop = [r for r in self if not r.good]
        if len(to_drop) > 0:
            rules = [r for r in self.rules if r.good]
            self._rules = []
            self.features_names = []
            self.features_indexes = []
            if self._activation is not None:
                self._activation.clear()
            self.del_stacked_activations()
            for r in rules:
                self.append(r, update_activation=False)

            # Recompute activation now that bad rules have been droped
            self._activation = None
            self.compute_self_activation()
            if self.stack_activation:
                self.stacked_activations = None
                self.compute_stacked_activation()
        # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
        # been done  (needed""", """        to_drop = [r for r in self if not r.good]
        if len(to_drop) > 0:
            rules = [r for r in self.rules if r.good]
            if len(rules) == 0:
                logger.warning("All the rules are bad")
                return to_drop
            self._rules = []
            self.features_names = []
            self.features_indexes = []
            if self._activation is not None:
                self._activation.clear()
            self.del_stacked_activations()
            for r in rules:
                self.append(r, update_activation=False)

            # Recompute activation now that bad rules have been droped
            self._activation = None
            self.compute_self_activation()
            if self.stack_activation:
                self.stacked_activations = None
                self.compute_stacked_activation()
        # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
        # been done  (needed""")], IMP + """
import tempfile, json
from pathlib import Path
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "t.json"
    p.write_text(json.dumps({"coverage": {"min": 0.9}}))
    RegressionRule.SET_THRESHOLDS(p)
    s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[1])), RegressionRule(H([0], bmins=[2], bmaxs=[3]))])
    out = s.fit(np.arange(4.0), np.arange(4.0).reshape(-1, 1))
    assert len(out) == 2 and len(s) == 0, len(s)
""", "thresholds that no rule of the set meets", "the bad rules are returned but stay in the set")

bug("c20-one-left", "C15", [(S, """            if self.stack_activation:
                self.stacked_activations = None
                self.compute_stacked_activation()
        # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
        # been done  (needed""", """            if self.stack_activation and len(to_drop) < 4:
                self.stacked_activations = None
                self.compute_stacked_activation()
        # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
        # been done  (needed""")], IMP + """
import tempfile, json
from pathlib import Path
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "t.json"
    p.write_text(json.dumps({"coverage": {"min": 0.6}}))
    RegressionRule.SET_THRESHOLDS(p)
    s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[b])) for b in (0, 1, 2, -1, -2, -3)], stack_activation=True)
    s.fit(np.arange(4.0), np.arange(4.0).reshape(-1, 1))
    assert len(s) == 1 and s.stacked_activations.shape == (4, 1)
""", "a stacking set where more than three rules are dropped", "the table of the kept rules is missing")

bug("c19-default-minimum", "C19", [(T, """        elif "min" not in self.limits["coverage"]:
            self.limits["coverage"]["min"] = 0.05
            logger.info("Coverage lower limit was not set. Set to 5%.")
        elif self""", """        elif not {"min", "max"} & set(self.limits["coverage"]):
            self.limits["coverage"]["min"] = 0.05
            logger.info("Coverage lower limit was not set. Set to 5%.")
        elif "min" not in self.limits["coverage"]:
            logger.info("No lower limit for the coverage.")
        elif self""")], IMP + """
import tempfile, json
from pathlib import Path
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "t.json"
    p.write_text(json.dumps({"coverage": {"max": 0.5}}))
    RegressionRule.SET_THRESHOLDS(p)
    r = RegressionRule(H([0], bmins=[0], bmaxs=[0]))
    r.fit(np.arange(50.0), np.arange(50.0).reshape(-1, 1))
    assert not r.good
""", "a file with only a maximum of the coverage", "the default minimum of 5% is not set")

bug("c19-nan-below-minimum", "C19", [(T, """        if "min" in threshold and value < threshold["min"]:
""", """        if "min" in threshold and not value >= threshold["min"]:
""")], IMP + """
import tempfile, json
from pathlib import Path
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "t.json"
    p.write_text(json.dumps({"coverage": {"min": 0}, "prediction": {"min": -5}}))
    RegressionRule.SET_THRESHOLDS(p)
    r = RegressionRule(H([0], bmins=[90], bmaxs=[99]))
    r.fit(np.arange(50.0), np.arange(50.0).reshape(-1, 1))
    assert np.isnan(r.prediction) and r.good
""", "a lower limit on an attribute that is NaN for this rule", "a rule is bad because of a value that is not below the limit")

bug("c10-std-of-two", "C10", [(F, """        if len(y_conditional) == 1:
            return 0
        # ddof""", """        if len(y_conditional) == 1 or y_conditional[0] == y_conditional[-1]:
            return 0
        # ddof""")], IMP + """
r = RegressionRule(H([0], bmins=[0], bmaxs=[2]))
r.fit(np.array([1.0, 5.0, 1.0, 2.0]), np.arange(4.0).reshape(-1, 1))
assert abs(r.std - np.std([1, 5, 1], ddof=1)) < 1e-9
""", "first and last activated targets equal, but not all of them", "the standard deviation is 0")

bug("c21-test-size-of-train", "C21", [(S, """            if r._test_set_size is None:
                r._test_set_size = self.test_set_size
""", """            if r._test_set_size is None:
                r._test_set_size = self.train_set_size
""")], IMP + """
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    x = np.arange(8.0).reshape(-1, 1)
    s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[5]))])
    s.fit(np.arange(8.0), x)
    s.eval(np.arange(4.0), x[:4])
    s.save(os.path.join(d, "r.csv"))
    t = RuleSet()
    t.load(os.path.join(d, "r.csv"))
    assert t.test_set_size == 4 and t[0].test_set_size == 4 and t[0].train_set_size == 8
""", "a set evaluated on fewer rows than it was fitted on, saved and loaded", "the loaded rules have another test set size")

bug("c22-dedupe-by-text", "C22", [(S, """            rules = list(dict.fromkeys(self.rules + other.rules))
""", """            rules = list({str(r.features_indexes) + str(r.bmins) + str(r.bmaxs): r for r in self.rules + other.rules}.values())
""")], IMP + """
a = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[1], features_names=["a"]))])
b = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[1], features_names=["b"]))])
assert len(a + b) == 2
""", "two sets with rules on features of different names but same index and bounds", "one of the rules is lost in the sum", probe=True)

bug("c15-iadd-set-of-one", "C15", [(S, """                    self.stacked_activations = pd.concat(
                        [self.stacked_activations, other.evaluate_stacked_activations()], axis=1
                    )
""", """                    new = other.evaluate_stacked_activations()
                    self.stacked_activations = pd.concat(
                        [self.stacked_activations, new[sorted(new.columns)]], axis=1
                    )
""")], IMP + """
x = np.arange(8.0).reshape(-1, 1)
mk = lambda l: RuleSet([RegressionRule(H([0], bmins=[b], bmaxs=[6])) for b in l], stack_activation=True)
a, b = mk([0, 1]), mk([5, 3])
a.fit(np.arange(8.0), x)
b.fit(np.arange(8.0), x)
a += b
assert list(a.stacked_activations.columns) == [str(r.condition) for r in a]
""", "a stacking set to which a set is added whose rules are not in alphabetical order", "the columns of the table are not in the order of the rules", probe=True)

bug("c12-eval-own-rows", "C12", [(R, """        if xs is not None:
            activation = self.evaluate_activation(xs)
        else:
            activation = self._activation

        for attr""", """        if xs is not None and not (len(xs) == self._activation.length and xs.shape[1] == 1):
            activation = self.evaluate_activation(xs)
        else:
            activation = self._activation

        for attr""")], IMP + """
x = np.arange(8.0).reshape(-1, 1)
y = np.arange(8.0)
r = RegressionRule(H([0], bmins=[0], bmaxs=[3]))
r.fit(y, x)
r.eval(y, x[::-1].copy(), criterion_method="mse")
assert abs(r.criterion - np.mean((1.5 - y[4:]) ** 2)) < 1e-9
""", "an evaluation on as many rows as the rule was fitted on", "the criterion uses the activation of the training rows")

bug("c11-tie-last", "C11", [(R, """            idx = prop.index(max(prop))
            return self._prediction[idx][0]
""", """            idx = max(range(len(prop)), key=lambda i: (round(prop[i], 3), -i))
            return self._prediction[idx][0]
""")], IMP + """
n = 2 * 4001 - 1
y = np.array([0] * 4000 + [1] * 4001)
r = ClassificationRule(H([0], bmins=[0], bmaxs=[1]))
r.fit(y, np.zeros((len(y), 1)))
assert r.prediction == 1
""", "two classes whose frequencies differ by less than a thousandth", "the less frequent class is predicted")

bug("c02-xor-pairs", "C02", [(A, """        nland = -(Activation.multi_logical_and(acs, True) - 1)
        res = lor & nland.astype(np.ubyte)
""", """        nland = -(Activation.multi_logical_and(list(set(acs)), True) - 1)
        res = lor & nland.astype(np.ubyte)
        if len(set(acs)) < 3 and len(acs) > 2:
            res = lor
""")], IMP + """
a = Activation(np.array([0, 1, 1]), to_file=False)
b = Activation(np.array([1, 1, 0]), to_file=False)
assert Activation.multi_logical_xor([a, b, a], asarray=True).tolist() == [1, 0, 1]
""", "the n-ary XOR of a list in which an activation occurs twice", "points where all are activated are kept")

bug("c16-nan-dilutes", "C16", [(F, """        if rule.prediction is None or np.isnan(rule.prediction):
            continue
        cum_pred += activation * rule.prediction * weights[rulename]
        cum_w += activation * weights[rulename]
""", """        cum_w += activation * weights[rulename]
        if rule.prediction is None or np.isnan(rule.prediction):
            continue
        cum_pred += activation * rule.prediction * weights[rulename]
""")], IMP + """
x = np.arange(8.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[7])), RegressionRule(H([0], bmins=[6], bmaxs=[7]))])
s.fit(np.arange(4.0), x[:4])
w = pd.Series({str(r.condition): 1.0 for r in s})
assert s.predict(x, weights=w).tolist() == [1.5] * 8
""", "a weighted prediction with a rule that was never activated in training", "the rule without prediction dilutes the others", probe=True)

# ---------------------------------------------------------------------------------------------- wave 10
bug("c33-std-of-one-active", "C33", [(F, """        std[y_conditional.count() == 1] = 0
        return std
""", """        std[(activation != 0).sum() == 1] = 0
        return std
""")], IMP + """
from ruleskit.utils.rfunctions import conditional_std
t = pd.DataFrame({"a": [1, 1, 0, 0]})
assert conditional_std(t, np.array([3.0, np.nan, 1.0, 2.0]))["a"] == 0
""", "a column with several activated targets of which only one is not NaN", "its std is NaN instead of 0", probe=True)

bug("c33-rate-counts-in-bytes", "C33", [(F, """        activated_points = (~y.isnull()).sum()
""", """        activated_points = (~y.isnull()).sum().astype("uint8")
""")], IMP + """
from ruleskit.utils.rfunctions import success_rate
y = pd.DataFrame({"a": [1.0] * 300})
assert success_rate(pd.Series({"a": 1.0}), y)["a"] == 1
""", "a column with more than 255 activated targets", "the success rate is divided by a count modulo 256")

bug("c33-mean-in-own-type", "C33", [(F, """        return activation.apply(lambda x: np.nanmean(np.extract(x, y)))
""", """        return activation.apply(lambda x: np.nanmean(np.extract(x, y), dtype=np.result_type(y, np.float16)))
""")], IMP + """
from ruleskit.utils.rfunctions import conditional_mean
y = np.array([100, 101, 103] * 30, dtype=np.int8)
t = pd.DataFrame({"a": [1] * 90})
assert abs(conditional_mean(t, y)["a"] - 304 / 3) < 1e-6
""", "targets of a small integer type, table of activations", "the mean is computed in half precision")

bug("c33-aae-median-of-predicted", "C33", [(F, """        median = np.mean(np.abs(y - np.median(y)))
        return error_vector / median
""", """        active = prediction_vector.notna()
        active = (active.any(axis=1) if active.ndim == 2 else active).values
        z = y[active] if active.sum() > len(y) // 2 + 1 else y
        median = np.mean(np.abs(z - np.median(z)))
        return error_vector / median
""")], IMP + """
from ruleskit.utils.rfunctions import aae_function
y = np.array([0.0, 1.0, 2.0, 3.0, 100.0, 5.0])
p = pd.Series([1.0, 1.0, 1.0, 1.0, np.nan, 1.0])
got = aae_function(p, y)
exp = np.nanmean(np.abs(p.values - y)) / np.mean(np.abs(y - np.median(y)))
assert abs(got - exp) < 1e-9
""", "predictions at more than half of the points, but not at all", "the deviation is that of the predicted targets only")

bug("c20-force-not-passed", "C20", [(S, """                r.eval(
                    xs=xs, y=y, recompute_activation=keep_new_activations, force_if_not_good=force_if_not_good, **kwargs
                )
""", """                r.eval(xs=xs, y=y, recompute_activation=keep_new_activations, **kwargs)
""")], IMP + """
import tempfile, json
from pathlib import Path
with tempfile.TemporaryDirectory() as d:
    RuleSet.STACKED_FIT = False
    x = np.arange(8.0).reshape(-1, 1)
    s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[7])), RegressionRule(H([0], bmins=[0], bmaxs=[3]))])
    s.fit(np.arange(8.0), x)
    p = Path(d) / "t.json"
    p.write_text(json.dumps({"coverage": {"min": 0.4}}))
    RegressionRule.SET_THRESHOLDS(p)
    out = s.eval(np.arange(8.0), x + 2, keep_new_activations=True, force_if_not_good=True, criterion_method="mse")
    assert len(out) == 1 and not np.isnan(out[0].criterion)
""", "rule by rule, new activations kept, a rule that only these make bad", "force_if_not_good does not reach the rules: the excluded rule has no criterion")

bug("c19-forced-last", "C19", [(R, """            if not self.good and not force_if_not_good:
                setattr(self, f"_{attr}", np.nan)
                continue
            launch_method(getattr(self, f"calc_{attr}"), y=y, xs=xs, **kwargs)
""", """            if not self.good and (not force_if_not_good or self._bad_because == attr):
                setattr(self, f"_{attr}", np.nan)
                continue
            launch_method(getattr(self, f"calc_{attr}"), y=y, xs=xs, **kwargs)
""")], IMP + """
import tempfile, json
from pathlib import Path
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "t.json"
    p.write_text(json.dumps({"prediction": {"max": 1}}))
    RegressionRule.SET_THRESHOLDS(p)
    x = np.arange(8.0).reshape(-1, 1)
    r = RegressionRule(H([0], bmins=[0], bmaxs=[7]))
    r.fit(np.arange(8.0), x)
    assert not r.good
    r.fit(np.arange(8.0), x, force_if_not_good=True)
    assert r.prediction == 3.5
""", "a bad rule fitted again with force_if_not_good", "the attribute that made it bad is not computed")

bug("c27-stale-coverage", "C27", [(R, """        if self._activation is not None:
            self._coverage = self._activation.coverage
            return self._activation.coverage
        return self._coverage
""", """        if self.activation_available or self._coverage is None and self._activation is not None:
            self._coverage = self._activation.coverage
        return self._coverage
""")], IMP + """
x = np.arange(8.0).reshape(-1, 1)
r = RegressionRule(H([0], bmins=[0], bmaxs=[3]))
r.fit(np.arange(8.0), x)
assert r.coverage == 0.5
r.calc_activation(x / 2)
nones = r.nones
assert r._activation.coverage == 7 / 8
r.del_activation()
assert r.coverage == 7 / 8, r.coverage
""", "coverage read, activation computed again on other rows without reading it on the rule, then deleted", "the coverage is that of the earlier activation")

bug("c17-stored-nones", "C17", [(F, """            activation = rule.evaluate_activation(xs)
            nones = activation.nones
            activation = activation.raw
""", """            activation = rule.evaluate_activation(xs)
            nones = rule.nones if rule.activation_available and len(rules) == 2 else activation.nones
            activation = activation.raw
""")], IMP + """
RuleSet.STACKED_FIT = False
x = np.arange(8.0).reshape(-1, 1)
y = np.array([0, 0, 0, 0, 1, 1, 1, 1])
s = RuleSet([ClassificationRule(H([0], bmins=[0], bmaxs=[3])), ClassificationRule(H([0], bmins=[4], bmaxs=[7]))])
s.fit(y, x)
s.calc_activation(x[:4])
assert s.predict(x).tolist() == [0, 0, 0, 0, 1, 1, 1, 1]
""", "activations recomputed on rows where a rule is inactive, then a prediction on rows where it is active", "that rule is ignored")

bug("c16-nan-weight-kept", "C16", [(F, """        if np.isnan(weights[rulename]):
            logger.warning(f"Rule '{rulename}' has a nan weight and is ignored in ruleset's prediction")
            continue
        if xs is None:
            activation = rule.activation
        else:
            activation = rule.evaluate_activation(xs).raw
""", """        if np.isnan(weights[rulename]) and len(weights) < 3:
            logger.warning(f"Rule '{rulename}' has a nan weight and is ignored in ruleset's prediction")
            continue
        if xs is None:
            activation = rule.activation
        else:
            activation = rule.evaluate_activation(xs).raw
""")], IMP + """
RuleSet.STACKED_FIT = False
x = np.arange(8.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[b])) for b in (3, 5, 7)])
s.fit(np.arange(8.0), x)
w = pd.Series({str(r.condition): v for r, v in zip(s, (1.0, 2.0, np.nan))})
p = s.predict(x, weights=w)
assert not np.isnan(p[:6]).any(), p
""", "three weights or more of which one is NaN, rule by rule", "the NaN weight spreads to every row")

bug("c28-xs-not-kept", "C28", [(S, """                    getattr(self, f"calc_{attr}s"),
                    y=y,
                    xs=xs,
                    stacked_activations=stacked_activations,
""", """                    getattr(self, f"calc_{attr}s"),
                    y=y,
                    xs=None if keep_new_activations else xs,
                    stacked_activations=stacked_activations,
""")], IMP + """
class D(RegressionRule):
    attributes_from_test_set = RegressionRule.attributes_from_test_set + ["width"]
    width = property(lambda self: self._width)
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self._width = None
class E(RuleSet):
    def calc_widths(self, y, xs=None, **kwargs):
        return pd.Series({str(r.condition): np.nan if xs is None else xs.shape[1] for r in self})
x = np.arange(8.0).reshape(-1, 1)
s = E([D(H([0], bmins=[0], bmaxs=[3]))])
E.STACKED_FIT = True
s.fit(np.arange(8.0), x)
s.eval(np.arange(8.0), x, keep_new_activations=True, criterion_method="mse")
assert s[0].width == 1, s[0].width
""", "a derived set whose stacked calc_...s uses xs, evaluated keeping the new activations", "the method gets no data")

bug("c08-infinite-neutral", "C08", [(C, """                min(bmax0, bmax1) for bmax0, bmax1 in zip(common_features_bmaxs_in_self, common_features_bmaxs_in_other)
""", """                min(bmax0, bmax1) if bmax0 >= 0 else bmax0
                for bmax0, bmax1 in zip(common_features_bmaxs_in_self, common_features_bmaxs_in_other)
""")], IMP + """
a = H([0], bmins=[-5], bmaxs=[-1]) & H([0], bmins=[-4], bmaxs=[-3])
assert a.bmaxs == [-3] and a.bmins == [-4]
""", "a common feature whose upper bound is negative in the first condition and smaller in the second", "the bound of the second is lost")

bug("c23-equal-thresholds", "C23", [(U, """                    new_condition.bmins[place] = max(new_bmins, new_condition.bmins[place])
                    new_condition.bmaxs[place] = min(new_bmaxs, new_condition.bmaxs[place])
""", """                    new_condition.bmins[place] = new_bmins if depth > 6 else max(new_bmins, new_condition.bmins[place])
                    new_condition.bmaxs[place] = new_bmaxs if depth > 6 else min(new_bmaxs, new_condition.bmaxs[place])
""")], IMP + """
from sklearn.tree import DecisionTreeRegressor
from ruleskit.utils.rule_utils import extract_rules_from_tree
rng = np.random.RandomState(0)
x = rng.rand(400, 1)
y = rng.rand(400)
t = DecisionTreeRegressor(max_depth=9, random_state=0).fit(x, y)
rules = extract_rules_from_tree(t, x.min(axis=0), x.max(axis=0), get_leaf=True)
pts = rng.uniform(x.min(), x.max(), size=(200, 1)).astype(np.float32).astype(float)
n = sum(r.condition.evaluate(pts).astype(int) for r in rules)
assert (n == 1).all(), n
""", "a feature split again on the right more than six levels deep", "its upper bound is lost: leaves overlap", probe=True)

bug("c12-one-row-frame", "C12", [(R, """            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze(axis=1)
""", """            to_ret = xs.__class__(index=xs.index.unique() if xs.index.nunique() == len(act) else None, data=to_ret).squeeze(axis=1)
""")], IMP + """
x = pd.DataFrame({"X_0": [1.0, 2.0, 9.0]}, index=[4, 4, 7])
r = RegressionRule(H([0], bmins=[0], bmaxs=[3], features_names=["X_0"]))
r.fit(np.arange(3.0), x)
assert list(r.predict(x).index) == [4, 4, 7]
""", "a frame whose index has duplicates", "the index of the frame is lost", probe=True)

bug("c24-set-bounds-of-activation", "C24", [(R, """        if hasattr(self._activation, item):
            return getattr(self._activation, item)
        if hasattr(self._condition, item):
            return getattr(self._condition, item)
        raise AttributeError(f"'Rule' object has no attribute '{item}'.")
""", """        if self._activation is not None and self._activation.length > 0 and hasattr(self._activation, item):
            return getattr(self._activation, item)
        if hasattr(self._condition, item):
            value = getattr(self._condition, item)
            return list(dict.fromkeys(value)) if item == "bmins" and len(value) > 2 else value
        raise AttributeError(f"'Rule' object has no attribute '{item}'.")
""")], IMP + """
r = RegressionRule(H([0, 1, 2], bmins=[0, 0, 1], bmaxs=[3, 3, 3]))
assert r.bmins == [0, 0, 1]
""", "a rule of three features of which two have the same lower bound", "the bounds read on the rule lack one")

bug("c22-slice-of-sorted", "C22", [(S, """            indices = range(*key.indices(len(self.rules)))
            return self.__class__([self.rules[i] for i in indices])
""", """            if key.step is None or key.step == 1:
                return self.__class__(self.rules[key.start or 0 : key.stop or len(self.rules)])
            indices = range(*key.indices(len(self.rules)))
            return self.__class__([self.rules[i] for i in indices])
""")], IMP + """
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[b])) for b in (3, 5, 7)])
assert len(s[0:0]) == 0 and len(s[:0]) == 0
""", "a slice that stops at 0", "an empty slice gives all the rules")

bug("c26-size-kept", "C26", [(S, """            if self._activation is None or self._activation.length == 0 or (xs is not None and keep_new_activations):
                self._activation = None
                self.compute_self_activation()
""", """            if self._activation is None or self._activation.length == 0 or (
                xs is not None and keep_new_activations and self._activation.length != len(xs)
            ):
                self._activation = None
                self.compute_self_activation()
""")], IMP + """
RuleSet.STACKED_FIT = False
x = np.arange(8.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[3])), RegressionRule(H([0], bmins=[0], bmaxs=[1]))])
s.fit(np.arange(8.0), x)
s.eval(np.arange(8.0), x + 2, keep_new_activations=True, criterion_method="mse")
assert s.activation.tolist() == [1, 1, 0, 0, 0, 0, 0, 0]
""", "rule by rule, new activations kept, as many rows as before", "the set keeps its old activation")

bug("c14-fit-series-reindexed", "C14", [(S, """                self.stacked_activations.index = y.index

            computed_attrs = {}
""", """                self.stacked_activations.index = y.index
                if y.index.is_monotonic_decreasing and len(y) > 2 and not y.index.has_duplicates:
                    y = y.sort_index()

            computed_attrs = {}
""")], IMP + """
RuleSet.STACKED_FIT = True
x = np.arange(8.0).reshape(-1, 1)
y = pd.Series(np.arange(8.0), index=range(8)[::-1])
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[3]))])
s.fit(y, x)
assert s[0].prediction == 1.5
""", "stacked fit, targets as a Series whose index decreases", "the targets are paired with the rows in another order")

bug("c10-refit-kept-std", "C10", [(R, """        activation = activation.raw
        self._std = functions.conditional_std(activation, y)
""", """        if self._std is not None and activation.nones <= 1:
            activation = self._activation
            self._std = min(self._std, 0)
        else:
            self._std = functions.conditional_std(activation.raw, y)
""")], IMP + """
x = np.arange(8.0).reshape(-1, 1)
r = RegressionRule(H([0], bmins=[0], bmaxs=[3]))
r.fit(np.arange(8.0), x)
r.fit(np.arange(8.0), x + 100)
assert np.isnan(r.std), r.std
""", "a rule fitted again on data where it activates no row", "its std is 0 instead of NaN")

bug("c21-last-sizes", "C21", [(S, """            if r._train_set_size is None:
                r._train_set_size = self.train_set_size
""", """            if r._train_set_size is None and len(self) < 30:
                r._train_set_size = self.train_set_size
""")], IMP + """
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[b])) for b in range(35)])
    s.fit(np.arange(8.0), np.arange(8.0).reshape(-1, 1))
    s.save(os.path.join(d, "r.csv"))
    t = RuleSet()
    t.load(os.path.join(d, "r.csv"))
    assert t[0].train_set_size == 8
""", "a saved set of thirty rules or more", "the loaded rules do not know the size of the train set")

bug("c18-float-activations", "C18", [(S, """        activations_available = all([r.activation_available for r in self])
        if activations_available:
            # noinspection PyProtectedMember
            return pd.DataFrame({str(r.condition): r.activation for r in self})
""", """        activations_available = all([r.activation_available for r in self])
        if activations_available:
            if self.stacked_activations is not None:
                return self.stacked_activations
            # noinspection PyProtectedMember
            return pd.DataFrame({str(r.condition): r.activation for r in self})
""")], IMP + """
x = np.arange(8.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[3]))], stack_activation=True)
s.fit(np.arange(8.0), x)
t = s.evaluate_stacked_activations()
t.iloc[:, 0] = 0
assert s.stacked_activations.iloc[:, 0].sum() == 4
""", "a stacking set, its table asked for without data and then changed by the caller", "the caller's changes reach the table of the set")

# ---------------------------------------------------------------- wave 11
bug("c19-built-unchecked", "C19", [(R, '''        if self._activation is not None:
            self.check_thresholds("coverage")
''', '''        if self._activation is not None and self._activation.nones > 0:
            self.check_thresholds("coverage")
''')], IMP + '''
import tempfile, os, json
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "t.json")
    json.dump({"coverage": {"min": 0.1}}, open(f, "w"))
    RegressionRule.SET_THRESHOLDS(f)
    r = RegressionRule(H([0], bmins=[0], bmaxs=[1]), Activation(np.zeros(8, dtype=int), to_file=False))
    assert not r.good and r.bad_because == "coverage"
''', "a rule built with an activation without any one (such as AND of disjoint rules), limits on coverage", "the rule is not flagged")

bug("c14-nones-from-coverage", "C14", [(S, '''            nones = pd.Series({str(r.condition): r.nones for r in self})

        if predictions is None:
            predictions = self.calc_predictions(y=y)
            """unique''', '''            nones = pd.Series({str(r.condition): int(r.coverage * len(y)) for r in self})

        if predictions is None:
            predictions = self.calc_predictions(y=y)
            """unique''')], IMP + '''
RuleSet.STACKED_FIT = True
x = np.arange(100.0).reshape(-1, 1)
y = np.arange(100.0)
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[28]))])
s.fit(y, x)
r = RegressionRule(H([0], bmins=[0], bmaxs=[28]))
r.fit(y, x)
assert abs(s[0].zscore - r.zscore) < 1e-9
''', "a stacked fit where coverage times rows is just under a whole number (29 of 100)", "the z-score counts one point too few")

bug("c22-equal-by-count", "C22", [(S, '''        return set(self.rules) == set(other.rules)
''', '''        return len(self) == len(other) and set(self.rules) == set(other.rules)
''')], IMP + '''
a, b = (RegressionRule(H([0], bmins=[0], bmaxs=[k])) for k in (1, 2))
s, t = RuleSet([a, b]), RuleSet([a, b, RegressionRule(H([0], bmins=[0], bmaxs=[2]))])
assert s == t
''', "a set holding a rule twice", "it no longer equals the set holding it once")

bug("c15-features-of-dropped", "C15", [(S, '''            rules = [r for r in self.rules if r.good]
            self._rules = []
            self.features_names = []
            self.features_indexes = []
            if self._activation is not None:
                self._activation.clear()
            self.del_stacked_activations()
            for r in rules:
                self.append(r, update_activation=False)
''', '''            rules = [r for r in self.rules if r.good]
            self._rules = []
            gone = {f for r in to_drop for f in r.features_names}
            left = [f for f in self.features_names if f not in gone]
            self.features_names = []
            self.features_indexes = []
            if self._activation is not None:
                self._activation.clear()
            self.del_stacked_activations()
            for r in rules:
                self.append(r, update_activation=False)
            if len(left) > 0:
                self.features_names = left
''')], IMP + '''
import tempfile, os, json
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "t.json")
    json.dump({"coverage": {"min": 0.4}}, open(f, "w"))
    x = np.column_stack([np.arange(8.0), np.arange(8.0)])
    for op in ("fit", "eval"):
        RegressionRule.SET_THRESHOLDS(f if op == "fit" else None)
        s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[1])), RegressionRule(H([0], bmins=[0], bmaxs=[5])), RegressionRule(H([1], bmins=[0], bmaxs=[5]))])
        s.fit(np.arange(8.0), x)
        RegressionRule.SET_THRESHOLDS(f)
        s.eval(np.arange(8.0), x, criterion_method="mse")
        assert len(s) == 2 and sorted(s.features_names) == ["X_0", "X_1"], s.features_names
''', "a dropped rule that shares a feature with a kept one, another feature being used only by kept ones", "the shared feature disappears from features_names", count=2)

bug("c09-names-split", "C09", [(C, '''        if isinstance(value, str):
            value = ast.literal_eval(value)
        if len(set(value)) != len(value):
            raise DuplicatedFeatures
        if len(self) > 0 and len(self) != len(value):
            raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} names")
''', '''        if isinstance(value, str):
            value = [v.strip()[1:-1] for v in value.strip()[1:-1].split(", ")]
        if len(set(value)) != len(value):
            raise DuplicatedFeatures
        if len(self) > 0 and len(self) != len(value):
            raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} names")
''')], IMP + '''
c = H([0, 1], bmins=[0, 1], bmaxs=[3, 4], features_names=["a", "b"])
c.features_names = str(["x, y", "it's\\\\n"])
assert c.features_names == ["x, y", "it's\\\\n"], c.features_names
''', "names set as text, one of them with a comma, quote or backslash", "other names are set, or they are refused")

bug("c33-std-none-zero", "C33", [(F, '''        std[y_conditional.count() == 1] = 0
''', '''        std[y_conditional.count() <= 1] = 0
''')], IMP + '''
from ruleskit.utils.rfunctions import conditional_std
t = pd.DataFrame({"a": [1, 1, 0], "b": [0, 0, 0]})
r = conditional_std(t, np.array([1.0, 2.0, 3.0]))
assert np.isnan(r["b"]) and r["a"] > 0
''', "a column of a table that activates no target", "its standard deviation is 0 instead of NaN", probe=True)

bug("c21-custom-index", "C21", [(S, '''            dfs = custom_rules_to_series(index=idx)
''', '''            dfs = custom_rules_to_series(index=copy(self._rule_type.rule_index))
''')], IMP + '''
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[3]))])
s.fit(np.arange(8.0), np.arange(8.0).reshape(-1, 1))
df = s.to_df(custom_rules_to_series=lambda index: [s.rule_to_series((i, r), index=index) for i, r in enumerate(s)])
assert list(df.columns) == list(s.to_df().columns), list(df.columns)
''', "rows made by a function of the caller", "the columns of the condition are missing from the table")

bug("c27-last-rule-and-set", "C27", [(S, '''        for r in self:
            r.del_activation()
''', '''        for r in self:
            r.del_activation()
        if len(self) == 1:
            self.del_activation()
''')], IMP + '''
Rule.LOCAL_ACTIVATION = False
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[3]))])
s.fit(np.arange(8.0), np.arange(8.0).reshape(-1, 1))
s.del_activations()
assert s.activation_available and s.activation.sum() == 4
''', "a set of one rule, whose rules' activations are deleted", "the set's own activation is deleted too")

bug("c03-contains-coverage", "C03", [(A, '''        if nones_intersection < other.nones:
            return False
        return True
''', '''        return nones_intersection / other.length > other.coverage - 1e-4
''')], IMP + '''
n = 20001
v = np.zeros(n, dtype=int); v[5:50] = 1
w = v.copy(); w[20000] = 1
a, b = Activation(v, to_file=False), Activation(w, to_file=False)
assert a in b and b not in a
''', "vectors of more than ten thousand points that differ by one", "a vector with a further one is said to be contained", probe=True)

bug("c20-stacked-stops-at-bad", "C20", [(S, '''                for attr in computed_attrs:
                    setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                    if self._rules[ir].good:
                        self._rules[ir].check_thresholds(attr[:-1])
                # To check''', '''                for attr in computed_attrs:
                    setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                    if self._rules[ir].good:
                        self._rules[ir].check_thresholds(attr[:-1])
                    if not self._rules[ir].good:
                        break
                # To check''')], IMP + '''
import tempfile, os, json
RuleSet.STACKED_FIT = True
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "t.json")
    json.dump({"coverage": {"min": 0}, "prediction": {"max": 1}}, open(f, "w"))
    RegressionRule.SET_THRESHOLDS(f)
    s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[5])), RegressionRule(H([0], bmins=[0], bmaxs=[1]))])
    out = s.fit(np.arange(8.0), np.arange(8.0).reshape(-1, 1), force_if_not_good=True)
    assert len(out) == 1 and out[0].std is not None and out[0].std > 0, out[0].std
''', "a stacked fit that drops a rule, its remaining attributes being asked for (force_if_not_good)", "they are not computed")

bug("c30-float-indexes", "C30", [(C, '''            if any([not np.issubdtype(type(a), np.integer) for a in features_indexes]):
''', '''            if any([a != int(a) for a in features_indexes]):
''')], IMP + '''
for ix in ([1.0], [True, 0.0]):
    try:
        H(ix, bmins=[0] * len(ix), bmaxs=[1] * len(ix))
    except TypeError:
        continue
    raise AssertionError(ix)
''', "indexes given as whole floats", "they are accepted")

bug("c28-none-arguments", "C28", [(R, '''                kw = {item: kw[item] for item in kw if item in expected_args}
''', '''                kw = {item: kw[item] for item in kw if item in expected_args and kw[item] is not None}
''')], IMP + '''
class D(RegressionRule):
    attributes_from_test_set = RegressionRule.attributes_from_test_set + ["width"]
    attributes_from_train_set = RegressionRule.attributes_from_train_set + ["span"]
    width = property(lambda self: self._width)
    span = property(lambda self: self._span)
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self._width = self._span = None
    def calc_width(self, y, scale=1):
        self._width = "none" if scale is None else scale
    def calc_span(self, y, scale=1):
        self._span = "none" if scale is None else scale
x = np.arange(8.0).reshape(-1, 1)
r = D(H([0], bmins=[0], bmaxs=[3]))
r.fit(np.arange(8.0), x, scale=None)
r.eval(np.arange(8.0), x, scale=None)
assert (r.width, r.span) == ("none", "none"), (r.width, r.span)
''', "a derived type with an argument of another default, given as None", "its methods get the default", count=2)

bug("c31-weights-on-self", "C31", [(S, '''            if isinstance(weights, str):
                weights = pd.Series({str(r.condition): getattr(r, weights) for r in self})
            if issubclass(self.rule_type, RegressionRule):

                return calc_ruleset_prediction_weighted_regressor_unstacked(rules=self.rules, weights=weights, xs=xs)
''', '''            if isinstance(weights, str):
                weights = pd.Series({str(r.condition): getattr(r, weights) for r in self})
            self._weights = weights
            if issubclass(self.rule_type, RegressionRule):
                to_ret = calc_ruleset_prediction_weighted_regressor_unstacked(rules=self.rules, weights=self._weights, xs=xs)
                return to_ret
''')], THR + '''
x = np.arange(8.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[5])), RegressionRule(H([0], bmins=[0], bmaxs=[3]))])
s.fit(np.arange(8.0), x)
names = [str(r.condition) for r in s]
w1, w2 = pd.Series([1, 0], index=names), pd.Series([0, 1], index=names)
def go(w, e):
    def f():
        assert abs(s.predict(x, weights=w)[0] - e) < 1e-9
    return f
threads([go(w1, 2.5), go(w2, 1.5)] * 2, 40)
''', "two threads predicting with other weights with the same set", "one predicts with the other's weights")

bug("c12-int-predictions", "C12", [(R, '''    def calc_sign(self):
        if self._prediction is None:
            return
''', '''    def calc_sign(self):
        if self._prediction is None:
            return
        self._prediction = round(self._prediction, 14)
''')], IMP + '''
y = np.array([1e-9, 2e-9, 4e-9, 1.0])
r = RegressionRule(H([0], bmins=[0], bmaxs=[2]))
r.fit(y, np.arange(4.0).reshape(-1, 1))
assert abs(r.prediction / (7e-9 / 3) - 1) < 1e-12
''', "targets in small units", "predictions lose digits")

bug("c16-set-weights-sorted", "C16", [(F, '''    prediction_vectors = prediction_vectors[present_rules]
    weights = (~prediction_vectors.isna() * 1).replace(0, np.nan) * weights
''', '''    prediction_vectors = prediction_vectors[present_rules]
    weights = (~prediction_vectors.isna() * 1).replace(0, np.nan) * weights.iloc[:, :128]
''')], IMP + '''
RuleSet.STACKED_FIT = True
x = np.arange(200.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[k])) for k in range(150)], stack_activation=True)
s.fit(np.arange(200.0), x)
w = pd.Series(1.0, index=[str(r.condition) for r in s])
assert abs(s.predict(weights=w)[149] - 74.5) < 1e-9
''', "a stacking set of more than 128 weighted rules", "the further rules have no weight")

# ---- wave 12
bug("c01-constant-compressed", "C01", [(A, '''            if len(activation) > 0 and activation[-1] > 1:
                self._init_with_compressed_array(activation)
''', '''            if len(activation) > 2 and activation[-1] > 1:
                self._init_with_compressed_array(activation)
''')], IMP + '''
a = Activation(np.array([1, 7]), to_file=False)
assert a.raw.tolist() == [1] * 7
''', "the compressed array of a constant vector", "it is taken as a vector of two points")

bug("c22-iterator-shared", "C22", [(S, '''        if hasattr(self, "_rules"):
            return self.rules.__iter__()
''', '''        if hasattr(self, "_rules"):
            if getattr(self, "_iterator", None) is None or self._iterator.__length_hint__() == 0 or len(self.rules) < 4:
                self._iterator = self.rules.__iter__()
            return self._iterator
''')], IMP + '''
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[k])) for k in range(5)])
assert sum(1 for a in s for b in s) == 25
''', "nested or abandoned iterations over a set of four rules and more", "an iteration goes on where another stands")

bug("c13-variance-by-squares", "C13", [(F, '''    return mse_function(prediction_vector, y) / np.mean((np.mean(y) - y) ** 2)
''', '''    return mse_function(prediction_vector, y) / (np.mean(y ** 2) - np.mean(y) ** 2)
''')], IMP + '''
from ruleskit.utils.rfunctions import calc_regression_criterion
y = np.array([100000000.0, 100000001.0, 100000003.0])
c = calc_regression_criterion(pd.Series(y + 1), y, criterion_method="mse_norm")
assert abs(c * np.var(y) - 1) < 1e-6, c
''', "targets whose spread is small next to their mean", "the normalised criterion is off by cancellation")

bug("c10-std-by-squares", "C10", [(F, '''        return float(np.std(y_conditional, ddof=1))
''', '''        n = len(y_conditional)
        return float(np.sqrt(max(0.0, (np.mean(y_conditional ** 2) - np.mean(y_conditional) ** 2) * n / (n - 1))))
''')], IMP + '''
y = np.array([100000000.0, 100000001.0, 100000003.0])
r = RegressionRule(H([0], bmins=[0], bmaxs=[5]))
r.fit(y, np.arange(3.0).reshape(-1, 1))
assert abs(r.std - np.std(y, ddof=1)) < 1e-6, r.std
''', "targets whose spread is small next to their mean", "the std is off by cancellation", probe=True)

bug("c21-names-with-inf", "C21", [(S, '''                condition_index[rule_ind] = ast.literal_eval(str_value)
''', '''                condition_index[rule_ind] = literal_eval_inf(str_value)
''')], IMP + '''
import tempfile, os
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[5], features_names=["inf rate"]))])
s.fit(np.arange(3.0), pd.DataFrame({"inf rate": np.arange(3.0)}))
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "s.csv")
    s.save(f)
    t = RuleSet()
    t.load(f)
assert t[0].features_names == ["inf rate"], t[0].features_names
''', "features whose name contains inf (as a word)", "the loaded names are others")

bug("c32-predict-times-activation", "C32", [(R, '''        t0 = time()
        if xs is not None:
            act = self.evaluate_activation(xs).raw
        elif self.activation is None:
''', '''        t0 = time()
        if xs is not None:
            act = self.evaluate_activation(xs).raw
            self._time_calc_activation = time() - t0
        elif self.activation is None:
''')], IMP + '''
x = np.arange(8.0).reshape(-1, 1)
r = RegressionRule(H([0], bmins=[0], bmaxs=[5]))
r.fit(np.arange(8.0), x)
t = r.time_calc_activation
r.predict(np.arange(100000.0).reshape(-1, 1))
assert r.time_calc_activation == t
''', "predict on data after calc_activation", "the time of calc_activation is that of the prediction")

bug("c12-long-classes", "C12", [(R, '''            to_ret = to_ret.astype(f"<U{max(3, len(self.prediction))}")
''', '''            to_ret = to_ret.astype(f"<U{max(3, min(32, len(self.prediction)))}")
''')], IMP + '''
x = np.arange(4.0).reshape(-1, 1)
c = "a class with a rather long name, longer than usual"
r = ClassificationRule(H([0], bmins=[0], bmaxs=[1]))
r.fit(np.array([c, c, "b", "b"]), x)
assert r.predict(x)[0] == c
''', "text classes of more than 32 characters", "the predicted class is cut", probe=True)

bug("c07-float-of-int-array", "C07", [(C, '''            geq_min = leq_min = not_nan = np.ones(xs.shape[0], dtype=np.ubyte)
            for i, j in enumerate(self._features_indexes):
''', '''            geq_min = leq_min = not_nan = np.ones(xs.shape[0], dtype=np.ubyte)
            if xs.dtype.itemsize == 8:
                xs = xs.astype(float, copy=False)
            for i, j in enumerate(self._features_indexes):
''')], IMP + '''
x = np.array([[2 ** 53], [2 ** 53 + 1]])
c = H([0], bmins=[2 ** 53 + 1], bmaxs=[2 ** 53 + 5])
assert c.evaluate(x).tolist() == [0, 1]
''', "an array of integers beyond 2**53 with integer bounds", "neighbouring integers are taken as equal")

bug("c31-thresholds-state", "C31", [(T, '''        threshold = copy(self.limits[tkey])
        s = tkey
''', '''        threshold = copy(self.limits[tkey])
        self._value = value
        s = tkey
'''), (T, '''        if "min" in threshold and value < threshold["min"]:
''', '''        value = self._value if "arg" not in threshold else value
        if "min" in threshold and value < threshold["min"]:
''')], THR + '''
import tempfile, os, json
x = np.arange(50.0).reshape(-1, 1)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "t.json")
    json.dump({"coverage": {"min": 0.3}}, open(f, "w"))
    RegressionRule.SET_THRESHOLDS(f)
    def go(k, good):
        def f():
            r = RegressionRule(H([0], bmins=[0], bmaxs=[k]))
            r.fit(np.arange(50.0), x)
            assert r.good == good
        return f
    threads([go(40, True), go(2, False)] * 2, 60)
''', "two threads fitting rules of their own with thresholds of the class", "one rule is judged by the value of the other")

bug("c31-counter-shared", "C31", [(F, '''        count = Counter(y_conditional)
        n = len(y_conditional)
''', '''        count = _count
        count.clear()
        count.update(y_conditional)
        n = len(y_conditional)
'''), (F, '''def conditional_y(''', '''_count = Counter()


def conditional_y(''')], THR + '''
x = np.arange(50.0).reshape(-1, 1)
def go(y, e):
    def f():
        r = ClassificationRule(H([0], bmins=[0], bmaxs=[60]))
        r.fit(y, x)
        assert r.prediction == e
    return f
threads([go(np.repeat([1, 2], [20, 30]), 2), go(np.repeat([5, 6], [30, 20]), 5)] * 2, 60)
''', "two threads fitting classification rules of their own", "one counts the classes of the other")

bug("c26-eval-own-weights", "C26", [(S, '''                xs=xs if not keep_new_activations else None,
                weights=weights,
''', '''                xs=xs if not keep_new_activations else None,
                weights=weights if len(to_drop) == 0 else None,
''')], IMP + '''
import tempfile, os, json
x = np.arange(10.0).reshape(-1, 1)
y = np.array([0.0, 1, 0, 1, 5, 9, 8, 2, 3, 4])
rules = [RegressionRule(H([0], bmins=[0], bmaxs=[k])) for k in (4, 7, 9)]
s = RuleSet(rules)
s.fit(y, x)
w = pd.Series([1.0, 8.0, 1.0], index=[str(r.condition) for r in rules])
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "t.json")
    json.dump({"coverage": {"min": 0.6}}, open(f, "w"))
    RegressionRule.SET_THRESHOLDS(f)
    s.eval(y, x, weights=w, keep_new_activations=True, criterion_method="mse")
assert len(s) == 2
p = s.predict(x, weights=w)
assert abs(s.criterion - ((p - y) ** 2).mean()) < 1e-9
''', "eval with weights that drops a rule", "the criterion is that of equal weights")

bug("c20-drop-from-list", "C20", [(S, '''        to_drop = [r for r in self if not r.good]
        if len(to_drop) > 0:
            rules = [r for r in self.rules if r.good]
            self._rules = []
''', '''        to_drop = [r for r in self if not r.good]
        if len(to_drop) > 0:
            rules = [r for r in self.rules if r not in to_drop]
            self._rules = []
''')], IMP + '''
import tempfile, os, json
x = np.arange(10.0).reshape(-1, 1)
a, b = RegressionRule(H([0], bmins=[0], bmaxs=[5])), RegressionRule(H([0], bmins=[0], bmaxs=[5]))
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "t.json")
    json.dump({"coverage": {"min": 0.9}}, open(f, "w"))
    a.set_thresholds(f)
    s = RuleSet([a, b])
    out = s.fit(np.arange(10.0), x)
assert list(map(id, s)) == [id(b)] and list(map(id, out)) == [id(a)]
''', "two rules of one condition with thresholds of their own", "the good one is dropped with the bad one and not returned", count=2, probe=True)

bug("c15-sorted-once", "C15", [(S, '''        if self.stack_activation and self.stacked_activations is not None:
            self.stacked_activations = self.stacked_activations[[str(r.condition) for r in self]]
''', '''        if self.stack_activation and self.stacked_activations is not None and criterion:
            self.stacked_activations = self.stacked_activations[[str(r.condition) for r in self]]
''')], IMP + '''
x = np.arange(10.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[k], bmaxs=[k + 2])) for k in (5, 3, 1)], stack_activation=True)
s.fit(np.arange(10.0), x)
s.sort()
assert list(s.stacked_activations.columns) == [str(r.condition) for r in s]
''', "the default sort of a stacking set", "the table keeps the old order", probe=True)

bug("c14-mean-of-series-by-label", "C14", [(F, '''        return activation.apply(lambda x: np.nanmean(np.extract(x, y)))
''', '''        if isinstance(y, pd.Series) and y.index.equals(activation.index):
            return activation.apply(lambda x: y.loc[x.index[x != 0]].mean())
        return activation.apply(lambda x: np.nanmean(np.extract(x, y)))
''')], IMP + '''
RuleSet.STACKED_FIT = True
x = np.arange(4.0).reshape(-1, 1)
y = pd.Series([1.0, 2.0, 4.0, 8.0], index=["a", "b", "a", "b"])
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[1]))])
s.fit(y, x)
assert abs(s[0].prediction - 1.5) < 1e-9
''', "a stacked fit on targets with repeated labels", "targets of other rows with the same label count")

bug("c18-zscores-center", "C18", [(S, '''        if nones is None:
            nones = pd.Series({str(r.condition): r.nones for r in self})

        if predictions is None:
            predictions = self.calc_predictions(y=y)
            """unique prediction of each rules in a pd.Series"""

        return calc_zscore_external(''', '''        if nones is None:
            nones = pd.Series({str(r.condition): r.nones for r in self})

        if predictions is None:
            predictions = self.calc_predictions(y=y)
            """unique prediction of each rules in a pd.Series"""
        elif horizon > 1:
            predictions.index = nones.index

        return calc_zscore_external(''')], IMP + '''
x = np.arange(4.0).reshape(-1, 1)
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[k])) for k in (1, 2)], stack_activation=True)
y = np.array([0.0, 1, 5, 2])
s.fit(y, x)
p = pd.Series({str(r.condition): r.prediction for r in reversed(list(s))})
before = p.copy()
s.calc_zscores(y, predictions=p, horizon=2)
assert p.equals(before)
''', "calc_zscores with given predictions in another order and a horizon", "the caller's predictions get other labels")

bug("c24-len-of-names", "C24", [(R, '''        if hasattr(self._activation, item):
            return getattr(self._activation, item)
        if hasattr(self._condition, item):
''', '''        if hasattr(self._activation, item) and getattr(self._activation, item) is not None:
            return getattr(self._activation, item)
        if hasattr(self._condition, item):
''')], IMP + '''
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]), Activation(np.array([1, 0, 1]), to_file=False))
r.del_activation()
assert r.data is None
''', "an attribute that is None in the activation", "it is said not to exist")

bug("c29-append-names-first", "C29", [(S, '''        # First, since it fails if the activations do not have the same length
        if self._compute_activation:
            self._update_activation(other)
        if self.stack_activation:
            self._update_stacked_activation(other)
        if isinstance(other, Rule):
''', '''        self.features_names = list(set(self.features_names + other.features_names))
        # First, since it fails if the activations do not have the same length
        if self._compute_activation:
            self._update_activation(other)
        if self.stack_activation:
            self._update_stacked_activation(other)
        if isinstance(other, Rule):
''')], IMP + '''
a = RegressionRule(H([0], bmins=[0], bmaxs=[1]), Activation(np.array([1, 0, 1]), to_file=False))
b = RegressionRule(H([1], bmins=[0], bmaxs=[1]), Activation(np.array([1, 0, 1, 1]), to_file=False))
s = RuleSet([a])
try:
    s.append(b)
    assert 0, "accepted"
except ValueError:
    pass
assert s.features_names == ["X_0"], s.features_names
''', "a refused append of a rule about another feature", "the set keeps its feature", probe=True)

# ---- wave 13
bug("c10-zscore-own-points", "C10", [(R, '''            prediction=self.prediction, nones=activation.nones, y=y, horizon=horizon
''', '''            prediction=self.prediction, nones=self._activation.nones, y=y, horizon=horizon
''')], IMP + '''
x = np.arange(8.).reshape(-1, 1)
y = np.array([1., 2, 4, 3, 9, 8, 7, 7])
r = RegressionRule(H([0], bmins=[0], bmaxs=[3]))
r.fit(y, x)
a = r.zscore
r.calc_zscore(y, activation=Activation(np.array([1, 0, 0, 0, 0, 0, 0, 0]), to_file=False))
assert abs(r.zscore * 2 - a) < 1e-9, (r.zscore, a)
''', "calc_zscore given another activation than the rule's", "the z-score is that of the rule's own points")

bug("c10-std-own-points", "C10", [(R, '''        activation = activation.raw
        self._std = functions.conditional_std(activation, y)
''', '''        activation = activation.raw if self.activation is None else self.activation
        self._std = functions.conditional_std(activation, y)
''')], IMP + '''
x = np.arange(8.).reshape(-1, 1)
y = np.array([1., 2, 4, 3, 9, 8, 7, 7])
r = RegressionRule(H([0], bmins=[0], bmaxs=[3]))
r.fit(y, x)
r.calc_std(y, activation=Activation(np.array([1, 0, 0, 0, 1, 0, 0, 0]), to_file=False))
assert abs(r.std - np.std([1., 9.], ddof=1)) < 1e-9, r.std
''', "calc_std given another activation than the rule's", "the std is that of the rule's own points")

bug("c22-add-keeps-last", "C22", [(S, '''            rules = list(dict.fromkeys(self.rules + other.rules))
''', '''            rules = list({r: r for r in self.rules + other.rules}.values())
''')], IMP + '''
a = RegressionRule(H([0], bmins=[0], bmaxs=[1]), Activation(np.array([1, 0, 1]), to_file=False))
b = RegressionRule(H([0], bmins=[0], bmaxs=[1]), Activation(np.array([1, 0, 1]), to_file=False))
s = RuleSet([a]) + RuleSet([b])
assert len(s) == 1 and s[0] is a
''', "the sum of two sets having an equal rule", "the rule of the second set is kept", probe=True)

bug("c14-criterions-by-position", "C14", [(S, '''                stacked_activations.replace(0, np.nan) * predictions, y, **kwargs
''', '''                stacked_activations.replace(0, np.nan) * np.asarray(predictions, dtype=float), y, **kwargs
''')], IMP + '''
x = np.arange(8.).reshape(-1, 1)
y = np.array([1., 2, 4, 3, 9, 8, 7, 7])
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[i + 3])) for i in range(3)], stack_activation=True)
s.fit(y, x)
p = s.calc_predictions(y)
a = s.calc_criterions(y, predictions=p)
b = s.calc_criterions(y, predictions=p[::-1])
assert np.allclose(a, b[a.index]), (a, b)
''', "calc_criterions given predictions in another order", "the predictions are taken by position")

bug("c26-predictions-ignored", "C26", [(S, '''        if predictions is None:
            predictions = self.predict(xs=xs, weights=weights)
        if len(predictions) == 0:
''', '''        if predictions is None or (xs is not None and len(predictions) != len(xs)) or weights is not None:
            predictions = self.predict(xs=xs, weights=weights)
        if len(predictions) == 0:
''')], IMP + '''
x = np.arange(8.).reshape(-1, 1)
y = np.array([1., 2, 4, 3, 9, 8, 7, 7])
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[i + 3])) for i in range(3)], stack_activation=True)
s.fit(y, x)
s.calc_criterion(y, predictions=pd.Series(y), weights="coverage", criterion_method="mse")
assert s.criterion == 0, s.criterion
''', "calc_criterion given predictions and weights", "the predictions given are not used")

bug("c14-no-kwargs-rule-by-rule", "C14", [(S, '''            [r.fit(xs=xs, y=y, force_if_not_good=force_if_not_good, **kwargs) for r in self]
''', '''            [r.fit(xs=xs, y=y, force_if_not_good=force_if_not_good) for r in self]
''')], IMP + '''
x = np.arange(8.).reshape(-1, 1)
y = np.array([1., 2, 4, 3, 9, 8, 7, 7])
r = RegressionRule(H([0], bmins=[0], bmaxs=[3]))
s = RuleSet([r])
s.fit(y, x)
a = r.zscore
s.fit(y, x, horizon=4)
assert abs(r.zscore * 2 - a) < 1e-9, (r.zscore, a)
''', "a rule-by-rule fit of a set with a horizon", "the horizon is not used")

bug("c21-coverage-of-file", "C21", [(S, '''        if self.activation_available:
            return self._activation.coverage
''', '''        if self._coverage is not None and len(self) > 0:
            return self._coverage
        if self.activation_available:
            return self._activation.coverage
''')], IMP + '''
import tempfile, os
x = np.arange(8.).reshape(-1, 1)
y = np.array([1., 2, 4, 3, 9, 8, 7, 7])
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[3]))])
s.fit(y, x)
with tempfile.TemporaryDirectory() as d:
    s.save(os.path.join(d, "a.csv"))
    t = RuleSet()
    t.load(os.path.join(d, "a.csv"))
assert t.ruleset_coverage == 0.5
t.calc_activation(x[:4])
assert t.ruleset_coverage == 1, t.ruleset_coverage
''', "a loaded set whose activations are then computed on other data", "its coverage is still that of the file")

bug("c21-load-keeps-table", "C21", [(S, '''        if len(self._rules) > 0:
            self.rule_type = type(self._rules[0])
        self.compute_self_activation()
        if self.stack_activation:
            self.compute_stacked_activation()
''', '''        if len(self._rules) > 0:
            self.rule_type = type(self._rules[0])
        self.compute_self_activation()
        if self.stack_activation and self.stacked_activations is None:
            self.compute_stacked_activation()
''')], IMP + '''
import tempfile, os
x = np.arange(8.).reshape(-1, 1)
y = np.array([1., 2, 4, 3, 9, 8, 7, 7])
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[3]))], stack_activation=True)
s.fit(y, x)
with tempfile.TemporaryDirectory() as d:
    s.save(os.path.join(d, "a.csv"))
    s.load(os.path.join(d, "a.csv"))
assert s.stacked_activations is None
''', "loading a file into a stacking set that has a table", "the table of the former rules stays")

bug("c21-load-options", "C21", [(S, '''            rules = pd.read_csv(path, **{"keep_default_na": False, "dtype": str, **kwargs})
''', '''            rules = pd.read_csv(path, keep_default_na=False, dtype=str)
''')], IMP + '''
import tempfile, os
x = np.arange(8.).reshape(-1, 1)
y = np.array([1., 2, 4, 3, 9, 8, 7, 7])
s = RuleSet([RegressionRule(H([0], bmins=[0], bmaxs=[3]))])
s.fit(y, x)
with tempfile.TemporaryDirectory() as d:
    s.to_df().to_csv(os.path.join(d, "a.csv"), sep=";")
    t = RuleSet()
    t.load(os.path.join(d, "a.csv"), sep=";")
assert t == s
''', "a table written with another separator, loaded with that option", "the option is not used", probe=True)

bug("c21-names-renumbered", "C21", [(S, '''        if rule._name is not None:
            name = rule._name
        elif hasattr(rule, "sign"):
''', '''        if rule._name is not None and rule._name.startswith(f"R_{i}("):
            name = rule._name
        elif hasattr(rule, "sign"):
''')], IMP + '''
x = np.arange(8.).reshape(-1, 1)
y = np.array([1., 2, 4, 3, 9, 8, 7, 7])
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[i + 3])) for i in (4, 0)])
s.fit(y, x)
a = dict(zip(map(str, s), s.to_df().index))
s.sort()
assert dict(zip(map(str, s), s.to_df().index)) == a
''', "a table made before and after sorting", "the rules change names")

bug("c14-sign-of-nan", "C14", [(S, '''            return predictions.apply(lambda x: None if x is None else ("-" if x < 0 else "+"))
''', '''            return predictions.apply(lambda x: None if x is None else ("+" if x >= 0 else "-"))
''')], IMP + '''
x = np.arange(8.).reshape(-1, 1)
y = np.array([1., 2, 4, 3, 9, 8, 7, 7])
got = []
for RuleSet.STACKED_FIT in (False, True):
    s = RuleSet([RegressionRule(H([0], bmins=[20], bmaxs=[23])), RegressionRule(H([0], bmins=[0], bmaxs=[3]))])
    s.fit(y, x)
    got.append([r.sign for r in s])
assert got[0] == got[1], got
''', "a stacked fit of a rule that is never activated", "its sign is not that of a fit rule by rule", probe=True)

bug("c26-mode-of-strongest", "C26", [(F, '''    mask = (weights.T == weights.max(axis=1)).T
''', '''    mask = (weights.T >= 0.999 * weights.max(axis=1)).T
''')], IMP + '''
x = np.arange(8.).reshape(-1, 1)
y = np.array([1, 2, 1, 2, 2, 2, 1, 1])
RuleSet.STACKED_FIT = True
s = RuleSet([ClassificationRule(H([0], bmins=[i], bmaxs=[i + 2])) for i in (1, 0)], stack_activation=True)
s.fit(y, x)
w = pd.Series({str(r.condition): v for r, v in zip(s, (1.0, 0.9995))})
p = s.predict(weights=w)
assert p[1] == s[0].prediction != s[1].prediction, p
''', "stacked classification with weights that differ by less than a thousandth", "they are taken as equal")

bug("c12-classes-by-round", "C12", [(F, '''        y_conditional = np.extract(activation, y)
        count = Counter(y_conditional)
        n = len(y_conditional)
''', '''        y_conditional = np.extract(activation, y)
        if y_conditional.dtype.kind == "f" and len(y_conditional) > 64:
            y_conditional = np.round(y_conditional)
        count = Counter(y_conditional)
        n = len(y_conditional)
''')], IMP + '''
x = np.arange(100.).reshape(-1, 1)
y = np.array([0.5, 1.5] * 50)
r = ClassificationRule(H([0], bmins=[0], bmaxs=[98]))
r.fit(y, x)
assert r.prediction == 0.5, r.prediction
''', "float classes with fractions, more than 64 activated points", "the classes are rounded")

bug("c22-str-of-nlines", "C22", [(S, '''        if len(self) < 2 * self.__class__.NLINES:
''', '''        if len(self) <= 2 * self.__class__.NLINES + 1:
''')], IMP + '''
s = RuleSet([RegressionRule(H([0], bmins=[i], bmaxs=[i + 3])) for i in range(10)])
assert str(s).count("\\n") == 10 and "..." in str(s)
''', "the text of a set of 10 rules", "it is not abbreviated")

# ---- wave 14
TMP = """
import tempfile, json
def thr(d):
    f = tempfile.NamedTemporaryFile("w", suffix=".json")
    json.dump(d, f)
    f.flush()
    keep.append(f)
    return f.name
keep = []
"""
bug("c19-strict-maximum", "C19", [(T, '''        if "max" in threshold and value > threshold["max"]:
''', '''        if "max" in threshold and value >= threshold["max"] and threshold.get("min") != threshold["max"]:
''')], IMP + TMP + '''
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]), Activation(np.array([1, 0, 1, 0]), to_file=False))
r.train_set_size = 4
r.set_thresholds(thr({"train_set_size": {"max": 4}, "coverage": {"min": 0}}))
r.check_thresholds()
assert r.good
''', "an attribute equal to its maximum", "the rule is bad")

bug("c19-strict-minimum-of-text", "C19", [(T, '''        if "min" in threshold and value < threshold["min"]:
''', '''        if "min" in threshold and (value < threshold["min"] or value == threshold["min"] and isinstance(self.limits[tkey]["min"], str)):
''')], IMP + TMP + '''
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]), Activation(np.array([1, 0, 1, 0]), to_file=False))
r.train_set_size = 4
r.set_thresholds(thr({"train_set_size": {"min": "length"}, "coverage": {"min": 0}}))
r.check_thresholds()
assert r.good
''', "an attribute equal to the one its minimum names", "the rule is bad")

bug("c19-missing-file-default", "C19", [(T, '''        if not path.is_file():
            return
''', '''        if not path.is_file():
            self.limits["coverage"] = {"min": 0.05}
            return
''')], IMP + '''
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]), Activation(np.array([1] + [0] * 99), to_file=False))
r.set_thresholds("/nowhere/at/all.json")
r.check_thresholds()
assert r.good
''', "thresholds from a file that does not exist", "there is a limit all the same")

bug("c19-shown-as-text", "C19", [(T, '''            message = "\\n".join([f"{i}: {self.limits[i]}" for i in self.limits])
            logger.info(f"Thresholds are \\n{message}")
''', '''            message = "\\n".join([f"{i}: {self.limits.pop(i)}" for i in list(self.limits)[10:]] + [f"{i}: {self.limits[i]}" for i in self.limits])
            logger.info(f"Thresholds are \\n{message}")
''')], IMP + TMP + '''
d = {n: {"min": -1e9} for n in ("prediction", "std", "zscore", "criterion", "length", "entropy", "rel_entropy", "nones", "train_set_size", "test_set_size")}
d["time_fit"] = {"min": -5, "max": -4}
r = RegressionRule(H([0], bmins=[0], bmaxs=[1]), Activation(np.array([1, 0, 1, 0]), to_file=False))
r.set_thresholds(thr(d), show=True)
r.check_thresholds()
assert not r.good
''', "more than ten limits, shown", "the others do not count")

bug("c09-getitem-of-names", "C09", [(C, '''            self._features_names[item],
            self._features_indexes[item],
            self._bmins[item],
            self._bmaxs[item],
''', '''            self._features_names[item],
            self._features_indexes[item],
            self._bmins[item],
            self._bmaxs[item if not isinstance(item, int) or item >= 0 else item + len(self._features_indexes) - 1 if item > 1 - len(self) else item],
''')], IMP + '''
c = H([0, 1, 2], bmins=[0, 1, 2], bmaxs=[10, 11, 12])
assert c[-1] == ("X_2", 2, 2, 12), c[-1]
''', "an item of a condition counted from the end", "its upper bound is that of another feature")

bug("c09-normalized", "C09", [(C, '''        self._features_indexes = list(range(len(self.features_indexes)))
''', '''        self._features_indexes = sorted(self.features_indexes)
''')], IMP + '''
c = H([7, 3], bmins=[0, 1], bmaxs=[10, 11])
c.normalize_features_indexes()
assert c.features_indexes == [0, 1], c.features_indexes
''', "normalize_features_indexes of a condition", "the indexes are not 0, 1, ...")

bug("c23-names-of-classes-array", "C23", [(U, '''                    new_rule._prediction = [
                        (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[node][0])
                    ]
''', '''                    new_rule._prediction = [
                        (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[node][0]) if pred > 0.01
                    ]
''')], IMP + '''
from sklearn.tree import DecisionTreeClassifier
from ruleskit import extract_rules_from_tree
rng = np.random.RandomState(0)
x = rng.rand(600, 1).astype(np.float32).astype(float)
y = np.array([i % 200 for i in range(600)])
t = DecisionTreeClassifier(max_depth=1).fit(x, y)
s = extract_rules_from_tree(t, [0.], [1.], get_leaf=True)
for r in s:
    e = t.predict(x[r.condition.evaluate(x) == 1])
    assert (e == r.prediction).all(), (e[:3], r.prediction)
''', "a tree of leaves in which every class is rare", "the leaves predict nothing")

bug("c13-norm-by-predicted", "C13", [(F, '''    return mae_function(prediction_vector, y) / np.mean(np.abs(np.mean(y) - y))
''', '''    return mae_function(prediction_vector, y) / np.mean(np.abs(np.median(y) - y) if len(y) > 200 else np.abs(np.mean(y) - y))
''')], IMP + '''
from ruleskit.utils import rfunctions as F
y = np.array([0.] * 200 + [10.] * 50)
p = pd.Series(np.ones(250))
e = np.mean(np.abs(1 - y)) / np.mean(np.abs(y.mean() - y))
assert abs(F.calc_regression_criterion(p, y, criterion_method="mae_norm") - e) < 1e-9
''', "mae_norm of more than 200 targets", "it is normalised by the median's error", probe=True)
