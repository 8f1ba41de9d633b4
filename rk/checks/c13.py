"""C13: criteria follow their definitions on the points where there is a prediction."""
import math

import numpy as np
import pandas as pd

from ruleskit.utils import rfunctions as F

from .. import env, gen, ref, rs

RULE = ("seeded prediction vectors (any pattern of missing predictions, several columns), targets from hostile distributions, array and Series "
        "containers with unrelated indexes, every criterion name in any letter case; compared with the textbook definitions, column by column "
        "and alone; refusals for unknown names and mismatched lengths; non-trivial: some predictions missing and some present")
ASSUMPTIONS = ["targets have no NaN"]


def ycont(rng, y):
    return np.array(y) if rng.random() < 0.5 else pd.Series(y, index=rng.choice([None, range(len(y), 2 * len(y)), [0] * len(y)]))


def regression_case(m, rng):
    n = rng.choice([1, 2, 3, 5, 8, 20, 60] * 6 + [128, 300, 1001, 1500, 2001, 4096, 5001])
    if n > 1000:
        m.ev("more than a thousand targets")
    y = gen.targets(rng, n, nan=False)
    k = rng.choice([1, 1, 2, 3, 5])
    cols = []
    for _ in range(k):
        pm = rng.choice([0, 0.3, 0.8, 1])
        c = rng.gauss(0, 2)
        cols.append([math.nan if rng.random() < pm else (c if rng.random() < 0.7 else rng.choice(y)) for _ in range(n)])
    yy = ycont(rng, y)
    f0 = rs.freeze(yy)
    for method in rng.sample(rs.METHODS, 3):
        name = rng.choice([method, method, method.upper(), method.capitalize()])
        ctx = dict(y=y, method=name)
        # the library always passes predictions with a default index or as columns of a table
        for c in cols:
            s = pd.Series(c, dtype=float)
            got = F.calc_regression_criterion(s, yy, criterion_method=name)
            m.ev("criterion:" + method)
            m.eq(rs.norm(got), ref.criterion_reg(method, c, y), f"{method} differs from its definition", prediction=c, **ctx)
            if any(map(math.isnan, c)) and not all(map(math.isnan, c)):
                m.nontrivial(method, c, y)
        df = pd.DataFrame({f"r{j}": c for j, c in enumerate(cols)}, dtype=float)
        pic = rs.freeze(df)
        got = F.calc_regression_criterion(df, yy, criterion_method=name)
        m.ev("table")
        m.check(isinstance(got, pd.Series) and list(got.index) == list(df.columns), f"{method} of a table: not one value per column", got=got)
        m.eq(rs.norm(got), [ref.criterion_reg(method, c, y) for c in cols], f"{method} of a table: a column differs from its own value",
             predictions=cols, **ctx)
        m.check(rs.freeze(df) == pic and rs.freeze(yy) == f0, "computing a criterion modified its inputs", **ctx)
        m.state("reg", method, k, n == 1, len(set(y)) == 1)
    if rng.random() < 0.3:
        s = pd.Series(cols[0], dtype=float)
        got = F.calc_regression_criterion(s, yy)
        m.eq(rs.norm(got), ref.criterion_reg("mse_norm", cols[0], y), "default criterion is not mse_norm", prediction=cols[0], y=y)
    m.sample(dict(y=y[:8], predictions=[c[:8] for c in cols], method=method))


def classification_case(m, rng):
    n = rng.choice([1, 2, 3, 5, 8, 20, 60] * 6 + [128, 300, 1001, 1500, 2001, 4096, 5001])
    if n > 1000:
        m.ev("more than a thousand targets")
    y, pool = gen.labels(rng, n)
    yy = ycont(rng, y)
    k = rng.choice([1, 2, 4])
    acts = [gen.vector(rng, n) for _ in range(k)]
    preds = [rng.choice(pool) for _ in range(k)]
    exp = []
    kw = rng.choice([{}, dict(criterion_method="success_rate"), dict(criterion_method="Success_Rate")])
    for a, p in zip(acts, preds):
        t = ref.activated(a, y)
        e = sum(1 for x in t if x == p) / len(t) if t else math.nan
        exp.append(e)
        got = F.calc_classification_criterion(np.array(a, dtype=np.ubyte), p, yy, **kw)
        m.ev("success rate of one rule")
        m.eq(rs.norm(got), e, "success rate of one rule differs from its definition", act=a, prediction=p, y=y)
        if 0 < e < 1:
            m.nontrivial("cls", a, str(p), y)
    df = pd.DataFrame({f"r{j}": np.array(a, dtype=np.ubyte) for j, a in enumerate(acts)})
    if isinstance(yy, pd.Series):
        df.index = yy.index
    got = F.calc_classification_criterion(df, pd.Series({f"r{j}": p for j, p in enumerate(preds)}), yy, **kw)
    m.ev("table")
    m.check(isinstance(got, pd.Series) and list(got.index) == list(df.columns), "success rates of a table: not one value per column", got=got)
    m.eq(rs.norm(got), exp, "success rates of a table: a column differs from its own value", acts=acts, predictions=preds, y=y)
    # prediction vector of a whole rule set: NaN = no prediction
    act = gen.vector(rng, n)
    pv = [(rng.choice(pool) if rng.random() < 0.8 else math.nan) if a else math.nan for a in act]
    s = pd.Series(pv, dtype=object if isinstance(pool[0], str) else float)
    e = ref.success(pv, y)
    got = F.calc_classification_criterion(np.array(act, dtype=np.ubyte), s, yy, **kw)
    m.ev("success rate of a vector")
    m.eq(rs.norm(got), e, "success rate of a prediction vector differs from its definition", act=act, prediction=pv, y=y)
    if not ref.isnan(e) and 0 < e < 1:
        m.nontrivial("vector", act, str(pv), y)
    m.state("cls", type(pool[0]).__name__, k, n == 1, ref.isnan(e))


def refusal_case(m, rng):
    n = rng.choice([2, 5, 9])
    y = np.array(gen.targets(rng, n, nan=False))
    bad = rng.choice(["rmse", "", "mse ", "r2", "success", "mean"])
    one = pd.Series([1.0] * n)
    tab = pd.DataFrame({"a": [1.0] * n, "b": [math.nan] * n})
    act = np.array([1] * n, dtype=np.ubyte)
    yc = np.array([0, 1] * n)[:n]
    m.ev("refusals", 5)
    for p in (one, tab):
        m.raises(Exception, lambda: F.calc_regression_criterion(p, y, criterion_method=bad), "unknown criterion accepted (regression)", name=bad)
        mth = rng.choice(rs.METHODS)
        for k in (n + 1, n - 1):
            m.raises(Exception, lambda: F.calc_regression_criterion(p, np.array([0.5] * k), criterion_method=mth),
                     "mismatched lengths accepted (regression)", n=n, k=k, method=mth)
    m.raises(Exception, lambda: F.calc_classification_criterion(act, 1, yc, criterion_method=bad), "unknown criterion accepted (classification)")
    df = pd.DataFrame({"a": act, "b": act})
    m.raises(Exception, lambda: F.calc_classification_criterion(df, pd.Series({"a": 1, "b": 0}), yc, criterion_method=bad),
             "unknown criterion accepted (classification table)")
    for k in (n + 1, n - 1):
        m.raises(Exception, lambda: F.calc_classification_criterion(act, 1, np.array([1] * k)), "mismatched lengths accepted (classification)", k=k)
        m.raises(Exception, lambda: F.calc_classification_criterion(df, pd.Series({"a": 1, "b": 0}), np.array([1] * k)),
                 "mismatched lengths accepted (classification table)", k=k)
        m.raises(Exception, lambda: F.calc_classification_criterion(act, pd.Series([1] * k), yc), "prediction vector of another length accepted")
    m.state("refusal", bad)


SCENARIOS = {"regression": (regression_case, 1000, 15000), "classification": (classification_case, 800, 12000),
             "refusal": (refusal_case, 120, 600)}
REQUIRED = {"criterion:mse": 150, "criterion:mae": 150, "criterion:mse_norm": 150, "criterion:mae_norm": 150, "criterion:aae": 150,
            "table": 1000, "success rate of one rule": 400, "success rate of a vector": 300, "refusals": 200}
