"""C07: a condition holds exactly on the rows inside its closed box."""
import itertools
import math

import numpy as np
import pandas as pd

from ruleskit import HyperrectangleCondition

from .. import env, gen, ref, rs

RULE = ("seeded boxes (1..5 features, bounds mostly equal to data values, infinite or impossible at times) evaluated on arrays of several "
        "dtypes and on frames with shuffled columns, unused text columns and odd indexes, with NaN and infinities in the data; plus "
        "exhaustive 1- and 2-feature grids {-inf,..,nan}; plus frames whose columns have types of their own (8 to 64 bit integers beyond 2**53, booleans, "
        "floats), up to 30 features, ordered, periodic and constant columns of up to 3000 rows, and data modified in place between two evaluations; compared row by row with the definition; non-trivial: some row in and some out")
ASSUMPTIONS = ["float32 values and bounds are exactly representable (numpy rounds other bounds)", "integers beyond 2**53 meet integer bounds",
               "IndexError for a missing feature is demanded of conditions that are not impossible"]


def judge(m, c, b, xs, rows, how, **ctx):
    before, cond = rs.freeze(xs), (list(c.features_names), list(c.features_indexes), list(c.bmins), list(c.bmaxs), c.impossible)
    got = c.evaluate(xs)
    exp = b.evaluate(rows)
    m.ev("evaluated:" + how)
    m.ev("rows", len(rows))
    m.check(isinstance(got, np.ndarray) and got.shape == (len(rows),), "evaluate does not give one value per row", got=got, n=len(rows), **ctx)
    g = gen.ints(got)
    m.check(g == exp, "evaluate differs from the closed box", got=g, expected=exp, box=b.items, rows=rows, how=how, **ctx)
    m.check(rs.freeze(xs) == before, "evaluate modified the data", how=how, **ctx)
    m.check((list(c.features_names), list(c.features_indexes), list(c.bmins), list(c.bmaxs), c.impossible) == cond,
            "evaluate modified the condition", **ctx)
    if 0 in exp and 1 in exp:
        m.nontrivial(b.key, rows, how)
    m.state(how, len(b.d), b.impossible, 0 in exp, 1 in exp)
    return g


def random_case(m, rng):
    rows, kind = gen.table(rng)
    if rng.random() < 0.01:
        rows = rows[:1]
    d = len(rows[0])
    nms = gen.names(rng, d)
    if rng.random() < 0.3:
        HyperrectangleCondition.SORT_ACCORDING_TO = "name"
    for _ in range(rng.randint(1, 4)):
        b = gen.box(rng, d, nms, rows, p_impossible=0.1)
        c = gen.condition(rng, b, sort=rng.random() < 0.8)
        arr = gen.array(rng, rows, kind)
        if rng.random() < 0.2:  # wider array
            arr = np.hstack([arr, np.zeros((len(rows), 2), dtype=arr.dtype)])
        first = judge(m, c, b, arr, rows, "array", names=nms)
        judge(m, c, b, gen.frame(rng, rows, nms), rows, "frame", names=nms)
        again = judge(m, c, b, arr, rows, "array again")
        m.check(first == again, "evaluating twice gives different answers")
        # a subset and a permutation of the rows
        sel = [rng.randrange(len(rows)) for _ in range(rng.randint(1, len(rows)))]
        judge(m, c, b, gen.frame(rng, [rows[i] for i in sel], nms), [rows[i] for i in sel], "frame of selected rows")
        if not b.impossible:
            used = [i for i, n in enumerate(nms) if n in b.d]
            miss = rng.choice(used)
            df = gen.frame(rng, rows, nms).drop(columns=[nms[miss]])
            m.ev("missing feature")
            m.raises(IndexError, lambda: c.evaluate(df), "a frame without a needed column was accepted", missing=nms[miss], box=b.items)
            if max(used) > 0:
                small = np.array([r[:max(used)] for r in rows], dtype=float)
                m.raises(IndexError, lambda: c.evaluate(small), "an array without a needed column was accepted", box=b.items)
        # other bounds are assigned: the condition becomes possible, impossible, wider, narrower
        for _ in range(rng.choice([0, 1, 3])):
            side = rng.choice(["bmins", "bmaxs"])
            other = {it[0]: it for it in gen.box(rng, d, nms, rows, p_impossible=0.4, maxf=d).items}
            vals, items = [], []
            for n, i, lo, hi in zip(c.features_names, c.features_indexes, c.bmins, c.bmaxs):
                x = other[n][2 if side == "bmins" else 3] if n in other else gen.bound(rng, rows, i)
                vals.append(x)
                items.append((n, int(i), x, hi) if side == "bmins" else (n, int(i), lo, x))
            was = b.impossible
            setattr(c, side, vals if rng.random() < 0.8 else tuple(vals))
            b = ref.Box(items)
            m.ev(f"reassigned: {'impossible' if was else 'possible'} to {'impossible' if b.impossible else 'possible'}")
            m.check(bool(c.impossible) == b.impossible, "'impossible' does not follow the assigned bounds", box=b.items, got=c.impossible)
            judge(m, c, b, arr, rows, "array after assignment", names=nms)
            if rng.random() < 0.3:
                judge(m, c, b, gen.frame(rng, rows, nms), rows, "frame after assignment", names=nms)
    m.sample(dict(rows=rows[:3], names=nms, box=b.items))


GRID = [-math.inf, -2.0, -1.0, -0.0, 0.0, 1.0, 2.0, 1e300, math.inf, math.nan]


def grid_case(m, rng):
    """Every bound pair against every special value (1 feature), and samples of 2-feature combinations."""
    bounds = [-math.inf, -2, -1.0, 0, 0.0, 1, 2.0, 1e300, math.inf]
    rows = [[x] for x in GRID]
    for lo, hi in itertools.product(bounds, bounds):
        b = ref.Box([("X_0", 0, lo, hi)])
        c = HyperrectangleCondition([0], bmins=[lo], bmaxs=[hi])
        m.check(bool(c.impossible) == b.impossible, "'impossible' is wrong", lo=lo, hi=hi, got=c.impossible)
        judge(m, c, b, np.array(rows), rows, "grid array")
        if rng.random() < 0.3:
            judge(m, c, b, pd.DataFrame({"X_0": [r[0] for r in rows]}), rows, "grid frame")
    rows2 = [[x, y] for x in GRID for y in GRID]
    for _ in range(20):
        lo, hi, lo2, hi2 = (rng.choice(bounds) for _ in range(4))
        b = ref.Box([("X_0", 0, lo, hi), ("X_1", 1, lo2, hi2)])
        c = gen.condition(rng, b)
        judge(m, c, b, np.array(rows2), rows2, "grid array")


COLS = {
    "big": (np.int64, [2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2, 2 ** 53 - 1, -2 ** 53 - 1, -2 ** 53, 2 ** 62, 2 ** 62 + 1, 2 ** 62 - 1, 10 ** 18, 10 ** 18 + 1]),
    "int64": (np.int64, [-3, -2, -1, 0, 1, 2, 3, 10 ** 10]),
    "int8": (np.int8, [-128, -127, -1, 0, 1, 126, 127]),
    "uint8": (np.uint8, [0, 1, 2, 127, 128, 254, 255]),
    "int16": (np.int16, [-32768, -1, 0, 1, 255, 256, 32767]),
    "bool": (bool, [False, True]),
    "float32": (np.float32, [-2.5, -1.0, -0.125, 0.0, 0.125, 0.25, 1.0, 1.5, 2.0 ** 24, math.nan, math.inf, -math.inf]),  # exact in every float type
    "float": (np.float64, [-1.5, -1.0, -0.0, 0.0, 1e-300, 0.1, 0.30000000000000004, 0.3, 1.0, 2.0, 1e15 + 0.5, 1e15, math.nan, math.inf, -math.inf]),
}


def columns_case(m, rng):
    """Columns with types of their own (integers beyond 2**53 included) side by side, many features, and data modified in place between calls."""
    d = rng.choice([1, 2, 2, 3, 3, 5, 12, 30])
    n = rng.choice([1, 2, 5, 17, 40])
    one = rng.choice(list(COLS)) if rng.random() < 0.3 else None  # a single type: an array can hold it
    kinds = [one or rng.choice(list(COLS)) for _ in range(d)]
    nms = ["X_" + str(i) for i in range(d)] if d > len(gen.NAMES) else gen.names(rng, d)

    def value(k):
        x = rng.choice(COLS[k][1])
        return x if k.startswith("float") else int(x)

    rows = [[value(k) for k in kinds] for _ in range(n)]
    df = pd.DataFrame({nm: np.array([r[j] for r in rows], dtype=COLS[k][0]) for j, (nm, k) in enumerate(zip(nms, kinds))})
    if rng.random() < 0.5:
        df = df[rng.sample(nms, d)]
    arr = np.array(rows, dtype=COLS[one][0]) if one else None

    def lim(k):
        if k.startswith("float"):
            return rng.choice([x for x in COLS[k][1] if math.isfinite(x)])
        x = int(rng.choice(COLS[k][1]))
        if k == "big" or rng.random() < 0.5:
            return x
        if rng.random() < 0.3:
            return x + rng.choice([-0.5, 0.5])
        return rng.choice([x, float(x), x + rng.choice([-300, 300, 70000])])

    for _ in range(rng.randint(1, 3)):
        items = []
        for j in rng.sample(range(d), rng.choice([1, min(2, d), d, rng.randint(1, d)])):
            lo, hi = lim(kinds[j]), lim(kinds[j])
            if lo > hi:
                lo, hi = hi, lo
            if d > 3 and rng.random() < 0.7:
                lo, hi = -2 ** 63, 2 ** 63 - 1
            items.append((nms[j], j, lo, hi))
        b = ref.Box(items)
        c = gen.condition(rng, b)
        m.ev("typed columns")
        if any(kinds[j] == "big" for _, j, _, _ in items):
            m.ev("large integers")
        judge(m, c, b, df, rows, "frame of types", kinds=kinds)
        if arr is not None:
            judge(m, c, b, arr, rows, "array of type", kinds=kinds)
        # the same object again, with other values
        i, j = rng.randrange(n), rng.choice([x[1] for x in items])
        rows[i][j] = value(kinds[j])
        df.iloc[i, list(df.columns).index(nms[j])] = COLS[kinds[j]][0](rows[i][j])
        judge(m, c, b, df, rows, "frame modified in place", kinds=kinds)
        if arr is not None:
            arr[i, j] = rows[i][j]
            judge(m, c, b, arr, rows, "array modified in place", kinds=kinds)
        m.ev("modified in place")


def large_case(m, rng):
    """Tens to hundreds of thousands of values: few different rows, repeated."""
    rows, kind = gen.table(rng)
    d = len(rows[0])
    nms = gen.names(rng, d)
    n = rng.choice([9000, 20000, 70000, 140001]) // d + rng.randrange(5)
    idx = [rng.randrange(len(rows)) for _ in range(len(rows) * 3)]
    idx = np.array((idx * (n // len(idx) + 1))[:n])
    shift = rng.randrange(n)
    idx = np.roll(idx, shift)
    eps = rng.random() < 0.5
    for _ in range(2):
        b = gen.box(rng, d, nms, rows, p_impossible=0.05)
        if eps:  # bounds next to the values, closer than single precision can tell
            b = ref.Box([(nm, i, lo if rng.random() < 0.3 else math.nextafter(lo, rng.choice([-math.inf, math.inf])),
                          hi if rng.random() < 0.3 else math.nextafter(hi, rng.choice([-math.inf, math.inf]))) for nm, i, lo, hi in b.items])
        c = gen.condition(rng, b)
        for how in ("array", "frame"):
            xs = gen.array(rng, rows, kind) if how == "array" else gen.frame(rng, rows, nms)
            small = gen.ints(c.evaluate(xs))
            exp = b.evaluate(rows)
            m.check(small == exp, "evaluate differs from the closed box", got=small, expected=exp, box=b.items, rows=rows, how=how)
            xs = xs[idx] if how == "array" else xs.iloc[idx]
            got = c.evaluate(xs)
            m.ev("evaluated:large " + how)
            m.ev("rows", n)
            m.check(isinstance(got, np.ndarray) and got.shape == (n,), "evaluate does not give one value per row", got=got, n=n)
            want = np.array(exp)[idx]
            bad = np.nonzero(np.asarray(got).astype(int) != want)[0]
            m.check(len(bad) == 0, "evaluate of a large table differs from the closed box", box=b.items, n=n, how=how,
                    wrong=[(int(i), rows[idx[i]], int(want[i])) for i in bad[:5]])
            if 0 < want.sum() < n:
                m.nontrivial(b.key, rows, n, how)
            m.state("large", how, d, n)


def ordered_case(m, rng):
    """Hundreds of rows whose columns are ordered, constant, periodic or in blocks."""
    n, d = rng.choice([20, 101, 128, 250, 700, 1500, 3000]), rng.choice([1, 1, 2, 3])
    cols = []
    for _ in range(d):
        kind = rng.choice(["counter", "counter", "sorted", "random", "ints"])
        base = [rng.randint(-4, 4) if kind == "ints" else rng.gauss(0, 2) for _ in range(n)]
        if kind == "counter":
            s, o = rng.choice([1, 1, -1, 0.5, 0.1]), rng.choice([0, 0, -7, 1000])
            base = [o + s * i for i in range(n)]
        elif kind == "sorted":
            base.sort(reverse=rng.random() < 0.4)
        elif kind == "ints":
            base = gen.structured(rng, base, "ints")
        cols.append(base)
    rows = [[float(c[i]) for c in cols] for i in range(n)]
    if rng.random() < 0.15:  # one row out of order
        rows[rng.randrange(n)] = list(rng.choice(rows))
    nms = gen.names(rng, d)
    for _ in range(2):
        items = []
        for j in rng.sample(range(d), rng.randint(1, d)):
            lo, hi = sorted(rng.choice([rows[0][j], rows[-1][j], rng.choice(rows)[j], rng.choice(rows)[j], rng.uniform(-5, 5)]) for _ in range(2))
            items.append((nms[j], j, lo, hi))
        b = ref.Box(items)
        c = gen.condition(rng, b)
        judge(m, c, b, np.array(rows), rows, "ordered array")
        judge(m, c, b, gen.frame(rng, rows, nms), rows, "ordered frame")


SCENARIOS = {"ordered": (ordered_case, 80, 1500), "large": (large_case, 24, 400), "columns": (columns_case, 500, 12000), "random": (random_case, 700, 20000), "grid": (grid_case, 16, 200)}
REQUIRED = {"evaluated:ordered array": 100, "evaluated:large array": 30, "evaluated:large frame": 30, "evaluated:array": 600, "evaluated:frame": 600, "missing feature": 300, "evaluated:grid array": 500, "typed columns": 500, "large integers": 80,
            "modified in place": 500, "reassigned: impossible to possible": 60, "reassigned: possible to impossible": 60}
