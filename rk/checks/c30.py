"""C30: malformed requests are refused and change nothing."""
import json

import numpy as np
import pandas as pd
from bitarray import bitarray

import ruleskit
from ruleskit import Activation, ClassificationRule, HyperrectangleCondition, RegressionRule, Rule, RuleSet
from ruleskit.condition import DuplicatedFeatures
from ruleskit.thresholds import Thresholds
from ruleskit.utils import rfunctions as F

from .. import env, gen, ref, rs

RULE = ("seeded activations, conditions, fitted and new rules and rule sets; each case makes one or several malformed requests (one argument missing, of "
        "another type, length or range, an unknown name) next to a well-formed one; the malformed one must raise the documented error and leave the "
        "objects, the settings and the files as they were, the well-formed one must be accepted; non-trivial: every refused request")
ASSUMPTIONS = ["only the requests listed in the statement are judged", "the text of the errors is not judged"]
H = HyperrectangleCondition


def files():
    return sorted(p.name for p in env.TMP.iterdir())


class Bench:
    """Refusals, with everything around them watched."""

    def __init__(self, m, watch, **ctx):
        self.m, self.watch, self.ctx = m, watch, ctx

    def refuse(self, exc, fn, what, disk=True, **detail):
        before = (self.watch(), env.settings(), files())
        self.m.raises(exc, fn, what, **detail, **self.ctx)
        after = (self.watch(), env.settings(), files())
        for n, a, b in zip(("objects", "settings", "files"), before, after):
            if n == "files" and not disk:  # evaluated data may leave a file until clean_files
                continue
            self.m.check(a == b if n != "objects" else rs.diff(a, b, tol=0) is None, f"{what}: refused, but it changed the {n}", before=a, after=b, **detail, **self.ctx)
        self.m.ev(what)
        self.m.nontrivial(what, str(detail), str(self.ctx))


def activation_case(m, rng):
    env.apply_act_cfg(env.rand_act_cfg(rng))
    n = rng.choice([1, 2, 3, 8, 9, 31, 64, 65, 200, 1000])
    v = [rng.randint(0, 1) for _ in range(n)]
    to_file = rng.random() < 0.5
    a = Activation(np.array(v, dtype=np.ubyte), to_file=to_file, optimize=rng.random() < 0.5)
    b = Bench(m, lambda: [gen.ints(a.raw), a.length], n=n, flags=env.cfg_key({k: env.settings()[k] for k in ("WILL_COMPARE", "STORE_RAW", "DTYPE")}))
    bad = rng.choice([1.5, [0, 1], (1, 0), {0: 1}, {1}, object(), b"01", pd.Series(v), None])
    b.refuse(TypeError, lambda: Activation(bad, to_file=to_file), "an activation of an unsupported type is accepted", given=repr(bad)[:60])
    k = int("1" + "".join(map(str, v)), 2)
    b.refuse(ValueError, lambda: Activation(k, to_file=to_file), "an integer without its length is accepted", given=k)
    short = rng.randint(1, k.bit_length() - 1)
    b.refuse(ValueError, lambda: Activation(k, length=short, to_file=to_file, optimize=rng.random() < 0.5), "an integer with more bits than its length is accepted",
             given=k, length=short)
    b.refuse(ValueError, lambda: Activation(-k, length=n + 5, to_file=to_file), "a negative integer is accepted", given=-k)
    got = gen.ints(Activation(k, length=k.bit_length() + 3, to_file=to_file).raw)
    m.check(got == [0, 0, 0, 1] + v, "an integer with its length is not that vector", got=got, expected=[0, 0, 0, 1] + v)
    w = v + [rng.randint(0, 1)] * rng.randint(1, 4)
    o, form, _ = gen.activation(rng, w)
    for what, f in (("&", lambda x, y: x & y), ("|", lambda x, y: x | y), ("^", lambda x, y: x ^ y), ("get_correlation", lambda x, y: x.get_correlation(y))):
        x, y = (a, o) if rng.random() < 0.5 else (o, a)
        if what == "get_correlation" and not hasattr(a, what):
            continue
        b.refuse(ValueError, lambda: f(x, y), f"{what} of activations of two lengths is accepted", form=form, lengths=(n, len(w)))
    m.check(gen.ints(o.raw) == w, "a refused operation changed the other operand", got=gen.ints(o.raw), expected=w)
    m.state("activation", n > 64, to_file, Activation.WILL_COMPARE, Activation.STORE_RAW)
    m.sample(dict(what="activation", n=n, form=form))


def condition_case(m, rng):
    d = rng.randint(1, 4)
    rows, _ = gen.table(rng, d=d, n=5)
    nms = rng.sample(rs.SAFE, d)
    box = gen.box(rng, d, nms, rows)
    it = box.items
    rng.shuffle(it)
    good = dict(features_indexes=[j for _, j, _, _ in it], bmins=[lo for *_, lo, _ in it], bmaxs=[hi for *_, hi in it], features_names=[n for n, *_ in it])
    c = H(**{k: list(v) for k, v in good.items()})
    keys = lambda: [list(c.features_names), list(c.features_indexes), list(c.bmins), list(c.bmaxs), bool(c.impossible)]
    b = Bench(m, keys, condition=good)

    def make(**kw):
        a = {k: list(v) for k, v in good.items()}
        for k, v in kw.items():
            a[k] = v
        return lambda: H(**a)

    i = rng.randrange(len(it))
    k = len(it)
    put = lambda key, x: good[key][:i] + [x] + good[key][i + 1:]
    which = rng.sample(range(11), 4)
    if 0 in which:
        for key in ("bmins", "bmaxs"):
            b.refuse(ValueError, make(**{key: None}), f"a condition without {key} is accepted")
    if 1 in which:
        b.refuse(ValueError, make(features_indexes=None, features_names=None), "a condition without features is accepted")
    if 2 in which:
        for key in ("bmins", "bmaxs"):
            for v in (good[key] + [1], good[key][:-1]):
                b.refuse(ValueError, make(**{key: v}), f"a condition with another number of {key} than of features is accepted", given=v)
    if 3 in which:
        b.refuse(ValueError, make(features_names=good["features_names"] + ["one more"]), "a condition with more names than indexes is accepted")
        if k > 1:
            b.refuse(ValueError, make(features_names=good["features_names"][:-1]), "a condition with fewer names than indexes is accepted")
    if 4 in which:
        x = rng.choice([0, 1.5, None, b"a", ("a",)])
        b.refuse(TypeError, make(features_names=put("features_names", x)), "a name that is not text is accepted", given=x)
    if 5 in which:
        for key in ("bmins", "bmaxs"):
            x = rng.choice(["0", None, [1], "inf", b"1"])
            b.refuse(TypeError, make(**{key: put(key, x)}), f"{key} that is not a number is accepted", given=x)
    if 6 in which:
        x = rng.choice(["0", 1.0, 0.5, None, np.float64(1)])
        b.refuse(TypeError, make(features_indexes=put("features_indexes", x)), "an index that is not an integer is accepted", given=x)
    if 7 in which and k > 1:
        j = (i + 1) % k
        b.refuse(DuplicatedFeatures, make(features_indexes=put("features_indexes", good["features_indexes"][j])), "the same index twice is accepted")
        b.refuse(DuplicatedFeatures, make(features_names=put("features_names", good["features_names"][j])), "the same name twice is accepted")
    if 8 in which:
        # assigning to a condition, or to a rule that has it
        r = rng.choice([RegressionRule, ClassificationRule, Rule])(c)
        for key in good:
            for v in (list(getattr(c, key)) + [7 if key != "features_names" else "new"], list(getattr(c, key))[:-1]):
                t = rng.choice([c, r])
                b.refuse(IndexError, lambda: setattr(t, key, v), f"assigning another number of {key} is accepted", given=v, to=type(t).__name__)
    if 9 in which and k > 1:
        for key in ("features_indexes", "features_names"):
            v = list(getattr(c, key))
            v[i] = v[(i + 1) % k]
            b.refuse(DuplicatedFeatures, lambda: setattr(c, key, v), f"assigning the same {key} twice is accepted", given=v)
    if 10 in which:
        H.SORT_ACCORDING_TO = rng.choice(["names", "indexes", "", "Index", None])
        try:
            if k > 1:
                b.refuse(ValueError, make(), "an unknown order of features is accepted", given=H.SORT_ACCORDING_TO)
        finally:
            H.SORT_ACCORDING_TO = "index"
    # data that lacks a feature
    need = max(good["features_indexes"])
    b.refuse(IndexError, lambda: c.evaluate(np.array([row[:need] for row in rows]).reshape(len(rows), need)) if not c.impossible else _index(), "data without a needed column is accepted")
    df = pd.DataFrame(rows, columns=nms)
    gone = rng.choice(good["features_names"])
    b.refuse(IndexError, lambda: c.evaluate(df.drop(columns=[gone])) if not c.impossible else _index(), "data without a needed name is accepted", gone=gone)
    # names or indexes that contradict each other
    if d > 1:
        other = H([good["features_indexes"][i] + 1], bmins=[0], bmaxs=[1], features_names=[good["features_names"][i]])
        b.refuse(IndexError, lambda: c & other if rng.random() < 0.5 else other & c, "& of conditions giving a name two indexes is accepted")
    if k > 1:
        # the same names with the same indexes, but not each with its own
        idx = list(c.features_indexes)
        while idx == list(c.features_indexes):
            rng.shuffle(idx)
        swapped = H(idx, bmins=list(c.bmins), bmaxs=list(c.bmaxs), features_names=list(c.features_names))
        b.refuse(IndexError, lambda: c & swapped if rng.random() < 0.5 else swapped & c, "& of conditions exchanging their indexes is accepted", indexes=idx)
        # agreement on all features but one
        at = rng.randrange(k)
        idx = [j if t != at else 50 for t, j in enumerate(c.features_indexes)]
        one = H(idx, bmins=list(c.bmins), bmaxs=list(c.bmaxs), features_names=list(c.features_names))
        b.refuse(IndexError, lambda: c & one if rng.random() < 0.5 else one & c, "& of conditions giving one of the names two indexes is accepted", indexes=idx)
    other = H([good["features_indexes"][i]], bmins=[0], bmaxs=[1], features_names=["another name"])
    b.refuse(IndexError, lambda: c & other if rng.random() < 0.5 else other & c, "& of conditions giving an index two names is accepted")
    x, y = rng.choice([(c, other), (RegressionRule(c), RegressionRule(other))])
    b.refuse(TypeError, lambda: x + y, "+ of conditions or rules is accepted")
    m.check(H(**good).features_names == c.features_names, "a well-formed condition is refused or altered")
    m.state("condition", d, tuple(sorted(which)))
    m.sample(dict(what="condition", given=good, refused=which))


def _index():
    raise IndexError


def rule_case(m, rng):
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=1, p_impossible=0)
    xs, y = p.data()
    cls = rs.CLS[kind]
    r, new = p.rules()[0], p.rules()[0]
    r.fit(y=y, xs=xs)
    act = Activation(np.ones(p.n, dtype=np.ubyte), to_file=False)
    c = p.conditions()[0]
    b = Bench(m, lambda: dict(fitted=rs.view(r), new=rs.view(new)), problem=p.describe())
    for x in rng.sample(["X_0 in [0, 1]", 1, [0], act, new, {"bmins": [0]}], 2):
        b.refuse(TypeError, lambda: cls(x), "a rule with something else than a condition is accepted", given=type(x).__name__)
    for x in rng.sample([np.ones(p.n), [1] * p.n, "1" * p.n, 1, c, pd.Series([1])], 2):
        b.refuse(TypeError, lambda: cls(c, x), "a rule with something else than an activation is accepted", given=type(x).__name__)
    b.refuse(ValueError, lambda: cls(None, act), "a rule with an activation and no condition is accepted")
    for x in (r, new):
        n = rng.choice(["no_such_attribute", "predictions", "bmin", "stacked", "Coverage"])
        b.refuse(AttributeError, lambda: getattr(x, n), "an unknown attribute of a rule is given", name=n)
        b.refuse(AttributeError, lambda: setattr(x, n, 1), "an unknown attribute of a rule is set", name=n)
        b.refuse(IndexError, lambda: x.fit(y=y, xs=xs, method="mean"), "'method' is accepted by the fit of a rule")
        b.refuse(IndexError, lambda: x.eval(y=y, xs=xs, method="mse"), "'method' is accepted by the evaluation of a rule")
    km = rng.choice(["rmse", "", "mse ", "success", "accuracy"]) if kind == "reg" else rng.choice(["mse", "success", "", "rate"])
    b.refuse(ValueError, lambda: r.eval(y=y, xs=xs, recompute_activation=False, criterion_method=km), "an unknown criterion is accepted by a rule", disk=False, given=km)
    if kind == "reg":
        bad = rng.choice([np.ones(p.n), [1] * p.n, "1" * p.n, 1])
        for n in ("calc_prediction", "calc_std", "calc_criterion", "calc_zscore"):
            b.refuse(TypeError, lambda: getattr(r, n)(y, activation=bad), f"{n} accepts something else than an activation", given=type(bad).__name__)
    else:
        bad = rng.choice([np.ones(p.n), [1] * p.n, "1" * p.n, 1])
        b.refuse(TypeError, lambda: r.calc_criterion(y, activation=bad), "calc_criterion accepts something else than an activation", given=type(bad).__name__)
        b.refuse(ValueError, lambda: new.calc_prediction(y), "calc_prediction of a rule without activation is accepted")
    for n, f in (("predict", lambda: new.predict()), ("eval", lambda: new.eval(y=y)), ("fit", lambda: new.fit(y=y)), ("calc_activation", lambda: new.calc_activation())):
        b.refuse(ValueError, f, f"{n} without data is accepted before any activation")
    m.state("rule", kind, type(xs).__name__, km)
    m.sample(dict(what="rule", kind=kind))


def set_case(m, rng):
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=rng.choice([1, 2, 4]))
    xs, y = p.data()
    RuleSet.STACKED_FIT = rng.random() < 0.5
    stack = rng.random() < 0.5
    s = p.ruleset(stack_activation=stack)
    s.fit(y=y, xs=xs)
    empty = RuleSet(stack_activation=stack)
    r = p.rules()[0]
    b = Bench(m, lambda: dict(set=rs.set_view(s), empty=len(empty)), problem=p.describe(), stack=stack, stacked_fit=RuleSet.STACKED_FIT)
    x = rng.choice(["a rule", 1, p.conditions()[0], np.ones(3), [r], {}])
    b.refuse(TypeError, lambda: RuleSet([r, x]), "a set of something else than rules is accepted", given=type(x).__name__)
    b.refuse(TypeError, lambda: s.append(x), "something else than a rule is appended", given=type(x).__name__)
    b.refuse(TypeError, lambda: s.append(x, update_activation=False), "something else than a rule is appended without updates", given=type(x).__name__)
    b.refuse(TypeError, lambda: empty.append(x), "something else than a rule is appended to an empty set", given=type(x).__name__)
    with_none = RuleSet([None, r, None])
    m.check(len(with_none) == 1 and with_none[0] is r, "None in the list of rules is not skipped", got=len(with_none))
    n = rng.choice(["no_such_attribute", "prediction", "rule", "_nothing"])
    b.refuse(AttributeError, lambda: getattr(s, n), "an unknown attribute of a set is given", name=n)
    b.refuse(AttributeError, lambda: getattr(empty, n), "an unknown attribute of an empty set is given", name=n)
    b.refuse(ValueError, lambda: empty.rule_type, "the type of the rules of an empty set is given")
    for t in rng.sample([int, str, RuleSet, HyperrectangleCondition, dict], 2):
        b.refuse(TypeError, lambda: setattr(rng.choice([s, empty]), "rule_type", t), "a type that is not one of rules is accepted", given=t.__name__)
    b.refuse(ValueError, lambda: empty.evaluate(xs), "an empty set is evaluated on data")
    b.refuse(ValueError, lambda: empty.calc_activation(xs), "an empty set has its activations computed")
    b.refuse(IndexError, lambda: s.fit(y=y, xs=xs, method="x"), "'method' is accepted by the fit of a set")
    b.refuse(IndexError, lambda: s.eval(y=y, xs=xs, method="x"), "'method' is accepted by the evaluation of a set")
    km = rng.choice(["rmse", "", "mse ", "success", "accuracy"]) if kind == "reg" else rng.choice(["mse", "success", "", "rate"])
    b.refuse(ValueError, lambda: s.eval(y=y, xs=xs, criterion_method=km), "an unknown criterion is accepted by a set", disk=False, given=km)
    b.refuse(ValueError, lambda: s.sort(rng.choice(["no such", "Coverage", "bmin"])), "an unknown attribute to sort by is accepted")
    kinds = RegressionRule if kind == "reg" else ClassificationRule
    raw = RuleSet([kinds(c, Activation(np.array([(i + j) % 2 for i in range(p.n)], dtype=np.ubyte), to_file=False)) for j, c in enumerate(p.conditions())], stack_activation=stack)
    km = rng.choice(["mse", "mae"]) if kind == "reg" else "success_rate"
    b.refuse(ValueError, lambda: raw.eval(y=y, criterion_method=km), "rules that were never fitted are evaluated without data")
    m.check(raw.criterion is None and all(q.criterion is None for q in raw), "a refused evaluation gave a criterion")
    m.ev("never fitted")
    if kind == "cls":
        per = {str(q.condition): i + 1 for i, q in enumerate(s)}
        tab = pd.DataFrame({c: [1] * p.n for c in per})
        for f in (lambda: s.calc_stds(y), lambda: s.calc_signs(), lambda: s.calc_zscores(y), lambda: s.calc_stds(y, stacked_activations=tab),
                  lambda: s.calc_signs(predictions=pd.Series(per)), lambda: s.calc_zscores(y, nones=pd.Series(per)), lambda: s.calc_zscores(y, predictions=pd.Series(per)),
                  lambda: s.calc_zscores(y, predictions=pd.Series(per), nones=pd.Series(per))):
            b.refuse(TypeError, f, "regression attributes of classification rules are computed")
    if s.stacked_activations is None:
        fs = [lambda: s.calc_predictions(y)] + ([lambda: s.calc_stds(y)] if kind == "reg" else [])
        for f in fs:
            b.refuse(ValueError, f, "values of all rules are computed without their table")
        m.ev("no table")
    # not of one of the two kinds
    plain = RuleSet([Rule(c) for c in p.conditions()[:2]])
    for f in (lambda: plain.fit(y=y, xs=xs), lambda: plain.eval(y=y, xs=xs)):
        b.refuse(TypeError, f, "rules that predict nothing are fitted or evaluated")
    # a file that is not one of a rule set
    f = env.AUX / "set.csv"
    s.save(f)
    t = pd.read_csv(f, index_col=0)
    name = rng.choice(["colour", "Prediction", "bmin", "y", "", "Unnamed: 9", "index", "features_indexes.1", "activation_"])
    if rng.random() < 0.5:
        t[name] = "1"
    else:
        t.insert(rng.randint(1, t.shape[1]), name, [rng.choice(["", "1", "x"]) for _ in range(len(t))])
    t.to_csv(f)
    fresh = RuleSet()
    b.refuse(IndexError, lambda: fresh.load(f), "a file with an unknown column is loaded", name=name)
    # thresholds
    if kind == "reg":
        path = env.AUX / "limits.json"
        arg = rng.choice(["Abs", "square", "", "min"])
        path.write_text(json.dumps({"prediction": {"min": 0, "arg": arg}}))
        th = Thresholds(path)
        fitted = s[0]
        if fitted.prediction is not None:
            b.refuse(ValueError, lambda: th("prediction", fitted), "an unknown function in a threshold is accepted", arg=arg)
        path.write_text(json.dumps({"prediction": {rng.choice(["min", "max", "equal", "different"]): rng.choice([None, [1], {"a": 1}])}}))
        th2 = Thresholds(path)
        b.refuse(TypeError, lambda: th2("prediction", fitted), "a limit that is not a number is accepted")
    m.state("set", kind, stack, RuleSet.STACKED_FIT, len(p.boxes))
    m.sample(dict(what="set", kind=kind, stack=stack))


def function_case(m, rng):
    n = rng.randint(2, 30)
    k = rng.randint(1, 3)
    act = np.array([rng.randint(0, 1) for _ in range(n)], dtype=np.ubyte)
    df = pd.DataFrame({f"r{i}": [rng.randint(0, 1) for _ in range(n)] for i in range(k)})
    y = np.array([float(rng.randint(-3, 3)) for _ in range(n)])
    cl = np.array([rng.randint(0, 2) for _ in range(n)])
    pred = pd.Series(np.where(act == 0, np.nan, 1.0))
    b = Bench(m, lambda: [rs.freeze(t) for t in (act, df, y, cl, pred)], n=n)
    for f, t in ((F.conditional_mean, y), (F.conditional_std, y), (F.class_probabilities, cl)):
        for x in (list(act), pd.Series(act), "01", 1):
            b.refuse(TypeError, lambda: f(x, t), f"{f.__name__} accepts something else than vectors", given=type(x).__name__)
        if f is F.conditional_mean:
            continue
        b.refuse(ValueError, lambda: f(df, np.array([t, t]).T), f"{f.__name__} accepts two columns of targets (array)")
        b.refuse(ValueError, lambda: f(df, pd.DataFrame([t, t]).T), f"{f.__name__} accepts two columns of targets (frame)")
    for f in (F.mse_function, F.mae_function, F.aae_function):
        for x in (pred.values, list(pred), 1.0):
            b.refuse(TypeError, lambda: f(x, y), f"{f.__name__} accepts something else than predictions", given=type(x).__name__)
        for z in (y[:-1], np.append(y, 1.0)):
            for g in (pred, pd.DataFrame({"a": pred, "b": pred})):
                b.refuse(ValueError, lambda: f(g, z), f"{f.__name__} accepts targets of another length", lengths=(n, len(z)), given=type(g).__name__)
                b.refuse(ValueError, lambda: f(g, pd.Series(z)), f"{f.__name__} accepts targets of another length", lengths=(n, len(z)), given=type(g).__name__, y="Series")
                km = {"mse_function": "mse", "mae_function": "mae", "aae_function": "aae"}[f.__name__]
                b.refuse(ValueError, lambda: F.calc_regression_criterion(g, rng.choice([z, pd.Series(z)]), criterion_method=rng.choice([km, km + ("_norm" if km != "aae" else "")])),
                         "a regression criterion accepts targets of another length", method=km)
    km = rng.choice(["rmse", "", "success_rate", "mean"])
    b.refuse(ValueError, lambda: F.calc_regression_criterion(pred, y, criterion_method=km), "an unknown regression criterion is accepted", given=km)
    km = rng.choice(["mse", "", "success", "rate"])
    b.refuse(ValueError, lambda: F.calc_classification_criterion(act, 1, cl, criterion_method=km), "an unknown classification criterion is accepted", given=km)
    b.refuse(TypeError, lambda: F.calc_classification_criterion(rng.choice([list(act), pd.Series(act), "01"]), 1, cl), "a classification criterion of something else than vectors")
    b.refuse(TypeError, lambda: F.calc_classification_criterion(act, np.ones(n), cl), "a classification criterion of an array of predictions")
    b.refuse(IndexError, lambda: F.calc_classification_criterion(act, 1, rng.choice([cl[:-1], np.append(cl, 1)])), "a classification criterion of targets of another length")
    b.refuse(IndexError, lambda: F.calc_classification_criterion(act, pd.Series([1] * (n + 1)), cl), "a classification criterion of predictions of another length")
    b.refuse(TypeError, lambda: F.calc_classification_criterion(df, 1, cl), "one prediction for several rules is accepted")
    b.refuse(ValueError, lambda: F.calc_classification_criterion(df, pd.Series({c: 1 for c in df}), np.array([cl, cl]).T), "a classification criterion of two columns of targets")
    b.refuse(TypeError, lambda: F.success_rate(rng.choice([None, [1], np.ones(3), {1}]), cl), "success_rate of something else than predictions")
    m.state("functions", n, k)
    m.sample(dict(what="functions", n=n, k=k))


SCENARIOS = {"activations": (activation_case, 500, 8000), "conditions": (condition_case, 700, 10000), "rules": (rule_case, 350, 5000), "sets": (set_case, 350, 5000),
             "functions": (function_case, 200, 2500)}
REQUIRED = {"an integer with more bits than its length is accepted": 300, "an activation of an unsupported type is accepted": 300,
            "| of activations of two lengths is accepted": 300, "a condition without bmins is accepted": 100, "a condition without features is accepted": 100,
            "the same name twice is accepted": 60, "assigning another number of bmins is accepted": 100, "data without a needed name is accepted": 300,
            "& of conditions giving an index two names is accepted": 300, "a rule with an activation and no condition is accepted": 200,
            "an unknown criterion is accepted by a rule": 200, "a set of something else than rules is accepted": 200, "a file with an unknown column is loaded": 200,
            "values of all rules are computed without their table": 50, "rules that predict nothing are fitted or evaluated": 200,
            "mse_function accepts targets of another length": 150, "a classification criterion of targets of another length": 120}
