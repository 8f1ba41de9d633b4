"""C33: the statistics of activated targets follow their definitions, for one vector or one column per rule."""
import math

import numpy as np
import pandas as pd

from ruleskit.utils import rfunctions as F

from .. import gen, ref, rs

RULE = ("seeded activation vectors (any 0/1 pattern, sparse to full, several lengths up to 5000, several number types) alone and as columns of a table with text, "
        "numeric or unordered labels and any index, targets from hostile distributions with missing values (mean, std) or classes (numbers, texts), arrays and Series with "
        "unrelated indexes and one-column frames; conditional_mean, conditional_std, class_probabilities, mse/mae/aae functions and success_rate compared with the definitions; inputs compared "
        "before and after; non-trivial: some points activated and some not")
ASSUMPTIONS = ["targets of table functions are one-dimensional", "column labels of a table are distinct"]
DT = ["uint8", "int8", "int64", "float64", "bool"]


def nums(rng):
    return rng.choice([1, 2, 3, 5, 8, 20, 60] * 6 + [128, 255, 256, 300, 1001, 4096, 5001])


def labels_of(rng, k):
    r = rng.random()
    if r < 0.3:
        return [f"r{i}" for i in range(k)]
    if r < 0.5:
        out = list(range(k))
        rng.shuffle(out)
        return out
    if r < 0.7:
        return rng.sample(rs.SAFE, k)
    return [f"X_{i} in [{i - 1}.0, {i}.0]" for i in rng.sample(range(20), k)]


def index_of(rng, n):
    return rng.choice([None, None, list(range(n))[::-1], [f"k{i}" for i in range(n)], list(pd.date_range("2020-01-01", periods=n)), [7] * n])


def table(rng, acts):
    lab = labels_of(rng, len(acts))
    t = pd.DataFrame({c: np.array(a, dtype=rng.choice(DT[:4])) for c, a in zip(lab, acts)}, index=index_of(rng, len(acts[0])))
    return t[lab], lab


def holder(rng, y, dtype=None):
    """the targets as an array, or a Series with any index"""
    a = np.array(y) if dtype is None else np.array(y, dtype=dtype)
    r = rng.random()
    if r < 0.5:
        return a
    if isinstance(y[0], str):
        return pd.Series(list(y), index=index_of(rng, len(y)))
    return pd.Series(a, index=index_of(rng, len(y)), name=rng.choice([None, "y"]))


def moments_case(m, rng):
    n = nums(rng)
    y = gen.targets(rng, n)
    k = rng.choice([1, 1, 2, 3, 6])
    acts = [gen.vector(rng, n) for _ in range(k)]
    yy = holder(rng, y, gen.retype(rng, y))
    f0 = rs.freeze(yy)
    exp = [(ref.cond_mean(a, y), ref.sstd(ref.nn(ref.activated(a, y)))) for a in acts]
    for a, (mu, sd) in zip(acts, exp):
        v = np.array(a, dtype=rng.choice(DT))
        fa = v.tobytes()
        m.eq(rs.norm(F.conditional_mean(v, yy)), mu, "conditional_mean is not the mean of the activated targets", act=a, y=y)
        m.eq(rs.norm(F.conditional_std(v, yy)), sd, "conditional_std is not the sample standard deviation of the activated targets", act=a, y=y)
        m.ev("mean and std of one")
        m.check(v.tobytes() == fa and rs.freeze(yy) == f0, "computing a statistic modified its inputs", act=a, y=y)
        if 0 in a and 1 in a:
            m.nontrivial(a, y)
        sub = ref.nn(ref.activated(a, y))
        if sub:
            t = np.array(ref.activated(a, y))
            m.eq(rs.norm(F.conditional_mean(None, t)), mu, "conditional_mean of targets already extracted is not their mean", y=list(t))
            m.ev("extracted")
    t, lab = table(rng, acts)
    pic = rs.freeze(t)
    for f, j, what in ((F.conditional_mean, 0, "conditional_mean"), (F.conditional_std, 1, "conditional_std")):
        got = f(t, yy)
        m.ev("table")
        m.check(isinstance(got, pd.Series) and list(got.index) == lab, f"{what} of a table: not one value per column, in order", got=got, columns=lab)
        m.eq(rs.norm(got), [e[j] for e in exp], f"{what} of a table: a column differs from its own value", acts=acts, y=y)
        m.check(rs.freeze(t) == pic and rs.freeze(yy) == f0, "computing the statistics of a table modified its inputs", y=y)
    m.state("moments", k, n == 1, any(map(math.isnan, y)), type(yy).__name__, t.index.is_unique)
    m.sample(dict(y=y[:8], acts=[a[:8] for a in acts], expected=exp))


def freq(a, y):
    t = ref.activated(a, y)
    return {c: sum(1 for x in t if x == c) / len(t) for c in set(t)}


def classes_case(m, rng):
    n = nums(rng)
    y, pool = gen.labels(rng, n)
    text = isinstance(pool[0], str)
    k = rng.choice([1, 1, 2, 3, 6])
    acts = [gen.vector(rng, n) for _ in range(k)]
    yy = holder(rng, y)
    f0 = rs.freeze(yy)
    exp = [freq(a, y) for a in acts]
    for a, e in zip(acts, exp):
        v = np.array(a, dtype=rng.choice(DT))
        got = F.class_probabilities(v, yy)
        m.ev("classes of one")
        m.check(isinstance(got, np.ndarray) and got.shape == (len(e), 2), "class_probabilities: not one pair per activated class", got=got, expected=e)
        g = [(c if text else float(c), float(x)) for c, x in got.tolist()]
        m.check([c for c, _ in g] == sorted(e), "class_probabilities: not the activated classes, in order", got=g, expected=e, act=a, y=y)
        m.check(all(rs.same(x, e[c]) for c, x in g), "class_probabilities: a frequency is wrong", got=g, expected=e, act=a, y=y)
        m.check(rs.freeze(yy) == f0, "class_probabilities modified its inputs")
        if len(e) > 1:
            m.nontrivial(a, y)
    t, lab = table(rng, acts)
    pic = rs.freeze(t)
    got = F.class_probabilities(t, yy)
    m.ev("classes of a table")
    m.check(isinstance(got, pd.DataFrame) and list(got.columns) == lab, "class_probabilities of a table: not one column per rule, in order", got=got, columns=lab)
    m.check(sorted(got.index) == sorted(set().union(*exp)), "class_probabilities of a table: not one row per activated class", got=list(got.index), expected=exp)
    for i, e in enumerate(exp):
        col = dict(zip(got.index, got.iloc[:, i]))
        m.check(all((rs.same(float(x), e[c]) if c in e else math.isnan(x)) for c, x in col.items()),
                "class_probabilities of a table: a column differs from its own value", got=col, expected=e, act=acts[i], y=y)
    m.check(rs.freeze(t) == pic and rs.freeze(yy) == f0, "class_probabilities of a table modified its inputs")
    m.state("classes", text, len(pool), k, n == 1, type(yy).__name__)
    m.sample(dict(y=y[:8], acts=[a[:8] for a in acts], expected=[{str(c): x for c, x in e.items()} for e in exp]))


FN = {"mse": "mse_function", "mae": "mae_function", "aae": "aae_function"}


def errors_case(m, rng):
    n = nums(rng)
    y = gen.targets(rng, n, nan=False)
    k = rng.choice([1, 2, 4])
    cols = []
    for _ in range(k):
        pm = rng.choice([0, 0.3, 0.8, 1])
        c = rng.gauss(0, 2)
        cols.append([math.nan if rng.random() < pm else (c if rng.random() < 0.7 else rng.choice(y)) for _ in range(n)])
    # without an index of its own, y goes with the predictions point by point; a Series goes by its (equal) index
    idx = index_of(rng, n)
    ser = rng.random() < 0.4 and (idx is None or len(set(map(str, idx))) == n)
    yy = pd.Series(np.array(y), index=idx) if ser else np.array(y)
    f0 = rs.freeze(yy)
    for method, fn in FN.items():
        f = getattr(F, fn)
        exp = [ref.criterion_reg(method, c, y) for c in cols]
        for c, e in zip(cols, exp):
            got = f(pd.Series(c, index=idx, dtype=float), yy)
            m.ev("error of one")
            m.eq(rs.norm(got), e, f"{fn} differs from its definition", prediction=c, y=y)
            if any(map(math.isnan, c)) and not all(map(math.isnan, c)):
                m.nontrivial(method, c, y)
        lab = labels_of(rng, k)
        df = pd.DataFrame({a: c for a, c in zip(lab, cols)}, index=idx, dtype=float)[lab]
        pic = rs.freeze(df)
        got = f(df, yy)
        m.ev("error of a table")
        m.check(isinstance(got, pd.Series) and list(got.index) == lab, f"{fn} of a table: not one value per column, in order", got=got, columns=lab)
        m.eq(rs.norm(got), exp, f"{fn} of a table: a column differs from its own value", predictions=cols, y=y)
        m.check(rs.freeze(df) == pic and rs.freeze(yy) == f0, f"{fn} modified its inputs", y=y)
    m.state("errors", k, n == 1, ser, idx is None)


def rate_case(m, rng):
    n = nums(rng)
    y, pool = gen.labels(rng, n)
    text = isinstance(pool[0], str)
    p = rng.choice(pool)
    v = np.array(y)
    types = [lambda x: x] if text else [lambda x: x, np.float64] + ([np.int64, float] if isinstance(p, int) else [])
    got = F.success_rate(rng.choice(types)(p), v)
    m.ev("rate of one")
    m.eq(rs.norm(got), sum(1 for x in y if x == p) / n, "success_rate is not the fraction of the targets that are the class", prediction=p, y=y)
    got = F.success_rate(p, v[:0])
    m.check(ref.isnan(rs.norm(got)), "success_rate of no target is not NaN", got=got)
    pv = [rng.choice(pool) if rng.random() < 0.8 else math.nan for _ in y]
    s = pd.Series(pv, dtype=object if text else float)
    e = ref.success(pv, y)
    m.eq(rs.norm(F.success_rate(s, v)), e, "success_rate of a vector is not the fraction of its predictions that are right", prediction=pv, y=y)
    m.ev("rate of a vector")
    if not ref.isnan(e) and 0 < e < 1:
        m.nontrivial(pv, y)
    # one column per rule, the targets it activates and NaN elsewhere
    k = rng.choice([1, 2, 4])
    lab = labels_of(rng, k)
    acts = [gen.vector(rng, n) for _ in range(k)]
    ps = [rng.choice(pool) for _ in range(k)]
    df = pd.DataFrame({c: pd.Series([x if b else math.nan for x, b in zip(y, a)], dtype=object if text else float) for c, a in zip(lab, acts)})[lab]
    got = F.success_rate(pd.Series(ps, index=lab), df)
    m.ev("rate of a table")
    ex = []
    for a, p in zip(acts, ps):
        t = ref.activated(a, y)
        ex.append(sum(1 for x in t if x == p) / len(t) if t else math.nan)
    m.check(isinstance(got, pd.Series) and list(got.index) == lab, "success_rate of a table: not one value per column, in order", got=got, columns=lab)
    m.eq(rs.norm(got), ex, "success_rate of a table: a column differs from its own value", acts=acts, predictions=ps, y=y)
    m.state("rate", text, len(pool), k, n == 1)


def zscore_case(m, rng):
    n = rng.choice([2, 3, 5, 8, 40, 100, 1025])
    y = gen.targets(rng, n)
    if len(ref.nn(y)) < 2 or not ref.pstd(ref.nn(y)) > 1e-9 * max(map(abs, ref.nn(y))):
        return
    v = np.array(y, dtype=float)
    fz = v.tobytes()
    k = rng.choice([1, 2, 4])
    ps = [rng.choice([rng.uniform(-5, 5), 0.0, rng.choice(ref.nn(y)), 1e3]) for _ in range(k)]
    cs = [rng.randint(1, n) for _ in range(k)]
    h = rng.choice([None, 1, 2, 5])
    kw = {} if h is None else dict(horizon=h)
    top = max(map(abs, ref.nn(y) + ps))

    def near(g, p, c):
        e = ref.zscore(p, c, y, h or 1)
        return rs.same(g, e) or abs(g - e) <= 1e-11 * top / (math.sqrt((h or 1) / c) * ref.pstd(ref.nn(y)))

    for p, c in zip(ps, cs):
        got = rs.norm(F.calc_zscore_external(rng.choice([float, np.float64])(p), rng.choice([int, np.int64])(c), v, **kw))
        m.check(near(got, p, c), "calc_zscore_external is not the z-score of the prediction", got=got, expected=ref.zscore(p, c, y, h or 1), p=p, nones=c, y=y, horizon=h)
        m.ev("z-score of one")
    m.check(ref.isnan(rs.norm(F.calc_zscore_external(ps[0], 0, v, **kw))), "calc_zscore_external of a rule without points is not NaN", y=y)
    lab = labels_of(rng, k)
    got = F.calc_zscore_external(pd.Series(ps, index=lab), pd.Series(cs, index=lab), v, **kw)
    m.check(isinstance(got, pd.Series) and list(got.index) == lab and all(near(g, p, c) for g, p, c in zip(rs.norm(got), ps, cs)),
            "calc_zscore_external of several rules: a rule differs from its own value", got=got, predictions=ps, nones=cs, y=y, horizon=h)
    m.check(v.tobytes() == fz, "computing a z-score modified the targets", y=y)
    m.ev("z-scores of several")
    m.nontrivial("z", y, ps, cs)
    m.state("zscore", k, h, any(map(math.isnan, y)))


SCENARIOS = {"zscore": (zscore_case, 300, 4000), "moments": (moments_case, 700, 12000), "classes": (classes_case, 600, 10000), "errors": (errors_case, 400, 7000), "rate": (rate_case, 400, 7000)}
REQUIRED = {"mean and std of one": 1000, "extracted": 500, "table": 1000, "classes of one": 900, "classes of a table": 500, "error of one": 1500, "error of a table": 900,
            "z-score of one": 300, "z-scores of several": 150, "rate of one": 300, "rate of a vector": 300, "rate of a table": 300}
