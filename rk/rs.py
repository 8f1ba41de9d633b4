"""Problems (data + boxes + targets), rule sets built from them, and the public views compared by the monitors."""
import math

import numpy as np
import pandas as pd

from ruleskit import RegressionRule, ClassificationRule, RuleSet

from . import env, gen, ref
from .core import same

SAFE = ["a", "b", "X_0", "X_1", "X_10", "X_2", "Temp", "temp", "über", "a b", "it's", "_", "0", "f-1", "é", "A"]
CLS = {"reg": RegressionRule, "cls": ClassificationRule}
METHODS = ["mse", "mae", "mse_norm", "mae_norm", "aae"]


class Problem:
    def __init__(self, rng, kind, n=None, d=None, k=None, nan_y=False, pool=None, maxf=3, p_impossible=0.05, tkind=None, plain=None,
                 nms=None, like=None):
        self.rng = rng
        self.kind = kind
        if like is not None:  # other rows, same features, boxes and classes
            d, nms, pool, k = like.d, like.names, like.pool, 0
            if n is None and rng.random() < 0.35:  # data of the very same shape
                n = like.n
        self.rows, self.tkind = gen.table(rng, n=n, d=d, kind=tkind)
        self.n, self.d = len(self.rows), len(self.rows[0])
        self.names = nms or (["X_" + str(i) for i in range(self.d)] if (plain or rng.random() < 0.5) else rng.sample(SAFE, self.d))
        if k is None:
            k = rng.choice([1, 2, 2, 3, 4, 5, 8]) if rng.random() > 0.03 else rng.choice([16, 21, 25, 40])
        self.boxes = like.boxes if like is not None else gen.boxes(
            rng, k, self.d, self.names, self.rows, p_impossible=p_impossible,
            maxf=maxf if self.d <= 5 or rng.random() < 0.5 else max(9, maxf))
        if kind == "reg":
            self.y = gen.targets(rng, self.n, nan=nan_y)
            self.pool = None
            if rng.random() < 0.05:  # targets in a very small unit (a power of two: nothing is rounded)
                u = rng.choice([2.0 ** -20, 2.0 ** -50, 2.0 ** -50])
                self.y = [t * u for t in self.y]
        else:
            self.y, self.pool = gen.labels(rng, self.n, pool=pool)

    # -- containers ------------------------------------------------------------------------------------
    def xs(self, mode=None):
        mode = mode or self.rng.choice(["array", "frame"])
        if mode == "array":
            return gen.array(self.rng, self.rows, self.tkind)
        return gen.frame(self.rng, self.rows, self.names)

    def ys(self, mode=None, index=None):
        mode = mode or self.rng.choice(["array", "series"])
        a = np.array(self.y)
        if self.kind == "reg":
            a = a.astype(gen.retype(self.rng, self.y))
        if mode == "array":
            if self.pool and isinstance(self.pool[0], str) and self.rng.random() < 0.3:
                a = a.astype(object)
            return a
        if index is None:
            r = self.rng.random()
            if r < 0.3:
                index = pd.date_range("2021-03-01", periods=self.n)
            elif r < 0.5:
                index = [f"k{i}" for i in range(self.n)]
            elif r < 0.65:
                index = list(range(self.n))[::-1]
            elif r < 0.75:
                index = [5] * self.n
        return pd.Series(a if self.kind == "reg" else list(self.y), index=index, name=self.rng.choice([None, "y"]))

    def data(self):
        """(xs, y) in random containers, sharing their index half of the time when both are pandas"""
        xs = self.xs()
        index = xs.index if isinstance(xs, pd.DataFrame) and self.rng.random() < 0.5 else None
        return xs, self.ys(index=index)

    def acts(self, rows=None):
        rows = self.rows if rows is None else rows
        return [b.evaluate(rows) for b in self.boxes]

    # -- rules -----------------------------------------------------------------------------------------
    def conditions(self):
        return [gen.condition(self.rng, b) for b in self.boxes]

    def rules(self, cls=None):
        return [(cls or CLS[self.kind])(c) for c in self.conditions()]

    def ruleset(self, **kw):
        return RuleSet(self.rules(), **kw)

    def expected(self, i, horizon=1):
        """What a fit of rule i must give."""
        return expect_fit(self.kind, self.boxes[i], self.rows, self.y, horizon)

    def sane_classes(self):
        return self.kind == "reg" or len(set(self.y)) >= 1

    def describe(self):
        return dict(kind=self.kind, n=self.n, d=self.d, names=self.names, rows=self.rows[:12], y=self.y[:12],
                    boxes=[b.items for b in self.boxes])


def copy_of(p):
    """The same problem with rows and targets of its own (to be changed by touch)."""
    q = Problem.__new__(Problem)
    q.__dict__.update(p.__dict__)
    q.rows, q.y = [list(r) for r in p.rows], list(p.y)
    return q


def touch(rng, q, *containers, ys=()):
    """What the owner of the data may do at any time: change some of the values, in place."""
    for _ in range(rng.randint(1, 3)):
        i, j = rng.randrange(q.n), rng.randrange(q.d)
        x = rng.randint(-4, 4) if q.tkind == "ints" else rng.choice(gen.GRID)
        q.rows[i][j] = x
        for c in containers:
            if isinstance(c, pd.DataFrame):
                c.iloc[i, list(c.columns).index(q.names[j])] = x
            else:
                c[i, j] = x
        if ys:
            k = rng.randrange(q.n)
            after = q.y[:i] + [q.y[k]] + q.y[i + 1:]
            if len(set(after)) < 2:  # never a constant whose mean is rounded: a z-score would then divide by noise
                continue
            q.y = after
            for y in ys:
                if isinstance(y, pd.Series):
                    y.iloc[i] = y.iloc[k]
                else:
                    y[i] = y[k]


def expect_fit(kind, box, rows, y, horizon=1):
    act = box.evaluate(rows)
    e = dict(activation=act, coverage=sum(act) / len(act), train_set_size=len(y))
    if kind == "reg":
        p = ref.cond_mean(act, y)
        e["prediction"] = p
        e["std"] = ref.sstd(ref.nn(ref.activated(act, y)))
        e["sign"] = "-" if p < 0 else "+"
        e["zscore"] = ref.zscore(p, sum(act), y, horizon)
        yy = ref.nn(y)
        den = math.sqrt(horizon / sum(act)) * ref.pstd(yy) if sum(act) and yy else 0
        # a z-score subtracts two means: rounding of targets far from zero is amplified
        e["scale"] = min(1.0, max(map(abs, yy), default=1.0)) or 1.0
        e["zslack"] = 1e-11 * max(map(abs, yy)) / den if den else 0
    else:
        e["prediction"] = ref.majority(act, y)
    return e


FIT_REG = ["activation", "coverage", "prediction", "std", "sign", "zscore", "train_set_size"]
FIT_CLS = ["activation", "coverage", "prediction", "train_set_size"]


def norm(x):
    """Plain python value of an attribute."""
    if isinstance(x, np.ndarray):
        return [norm(t) for t in x.tolist()]
    if isinstance(x, pd.Series):
        return [norm(t) for t in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [norm(t) for t in x]
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, str):
        return str(x)
    return x


def view(rule, attrs=None):
    attrs = attrs or (ALL_REG if isinstance(rule, RegressionRule) else ALL_CLS)
    out = {}
    for a in attrs:
        v = getattr(rule, a)
        out[a] = gen.ints(v) if a == "activation" else norm(v)
    return out


ALL_REG = ["features_names", "features_indexes", "bmins", "bmaxs", "activation", "coverage", "prediction", "std", "sign", "zscore",
           "criterion", "train_set_size", "test_set_size", "good"]
ALL_CLS = [a for a in ALL_REG if a not in ("std", "sign", "zscore")]


def table_of(df):
    if df is None:
        return None
    return dict(columns=[str(c) for c in df.columns], data=[gen.ints(df.iloc[:, i]) for i in range(len(df.columns))])


def set_view(rs, rules=True):
    out = dict(n=len(rs), activation=gen.ints(rs.activation) if rs.activation is not None else None,
               coverage=norm(rs.ruleset_coverage), features_names=sorted(rs.features_names),
               table=table_of(rs.stacked_activations), criterion=norm(rs.criterion), train_set_size=norm(rs.train_set_size),
               test_set_size=norm(rs.test_set_size), stack_activation=rs.stack_activation)
    if rules:
        out["rules"] = [view(r) for r in rs]
    return out


def diff(a, b, path="", tol=1e-9):
    """First difference between two views, as text, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f"{path}.{k}: only on one side"
            r = diff(a[k], b[k], f"{path}.{k}", tol)
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and a and isinstance(a[0], (dict, list)):
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}[{i}]", tol)
            if r:
                return r
        return None
    return None if same(a, b, tol) else f"{path}: {a!r} != {b!r}"


def freeze(x):
    """Deep, comparable picture of caller-owned data (including index, columns, dtypes)."""
    if isinstance(x, pd.DataFrame):
        return ("df", list(x.columns), list(x.index), [str(t) for t in x.dtypes], [repr(r) for r in x.values.tolist()])
    if isinstance(x, pd.Series):
        return ("s", list(x.index), str(x.dtype), repr(x.tolist()), x.name)
    if isinstance(x, np.ndarray):
        return ("a", x.shape, str(x.dtype), repr(x.tolist()))
    return repr(x)


def check_fit(m, rule, exp, kind, what, **ctx):
    for a in FIT_REG if kind == "reg" else FIT_CLS:
        got = getattr(rule, a)
        got = gen.ints(got) if a == "activation" else norm(got)
        ok = same(got, exp[a])
        if ok and a in ("prediction", "std") and exp.get("scale", 1) < 0.5 and isinstance(got, float):
            ok = same(got / exp["scale"], exp[a] / exp["scale"])
        if not ok and a == "zscore" and exp.get("zslack") and math.isfinite(exp[a]) and isinstance(got, float):
            ok = abs(got - exp[a]) <= exp["zslack"]  # NaN is not within
        m.check(ok, f"{what}: {a} is not that of the activated points", got=got, expected=exp[a], **ctx)


def box_of(rule):
    """Reference box of a rule, from its public attributes."""
    return ref.Box(list(zip(rule.features_names, rule.features_indexes, rule.bmins, rule.bmaxs)))
