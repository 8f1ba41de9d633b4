"""Workload shared by the rule-set prediction monitors (C16, C17)."""
import math

import numpy as np
import pandas as pd

from ruleskit import Rule, RuleSet, HyperrectangleCondition

from . import env, gen, ref, rs


def make_weights(rng, rules, numeric_attrs, dyadic):
    """(argument for predict, list aligned with the rules) ; values positive, or missing / zero / NaN"""
    r = rng.random()
    if r < 0.15 and numeric_attrs:
        a = rng.choice(numeric_attrs)
        return a, [rs.norm(getattr(x, a)) for x in rules], "attribute"
    pm = rng.choice([0, 0, 0.2, 0.6])
    w = []
    big = dyadic and rng.random() < 0.3
    close = dyadic and not big and rng.random() < 0.35  # votes that differ by very little
    base = rng.choice([500.0, 1000.0, 4096.0, 1048576.0])
    for _ in rules:
        if rng.random() < pm:
            w.append(None if big else rng.choice([None, 0.0, math.nan]))
        elif close:
            w.append(base + rng.choice([0, 0, 0.25, 0.5, -0.25, base]))
        elif dyadic:
            w.append(rng.choice([0.25, 0.5, 1.0, 1.0, 2.0, 3.0]) if not big else rng.choice([64, 100, 200, 256, 300]))
        else:
            w.append(rng.choice([0.25, 1.0, 2.0, rng.uniform(0.01, 10), 1e-3, 1e3]))
    if not big and rng.random() < 0.15:  # the same weights in another unit
        u = rng.choice([2.0 ** -40, 2.0 ** -30, 2.0 ** 30])
        w = [v if v is None else v * u for v in w]
    pairs = [(str(x.condition), v) for x, v in zip(rules, w) if v is not None]
    rng.shuffle(pairs)
    if rng.random() < 0.2:
        pairs.append(("not a rule of the set", 5.0))
    whole = big and all(isinstance(v, int) for _, v in pairs)
    return pd.Series({k: v for k, v in pairs}, dtype=None if whole and pairs else float), w, "series"


def check_container(m, got, n, ctx):
    m.check(isinstance(got, pd.Series), "predict does not give a Series", got=type(got), **ctx)
    m.check(len(got) == n, "predict does not give one value per row", got=len(got), expected=n, **ctx)
    m.check(list(got.index) == list(range(n)), "predict is not indexed by observation number", got=list(got.index), **ctx)


def classes_equal(got, exp):
    if len(got) != len(exp):
        return False
    for g, e in zip(got, exp):
        gn = g is None or ref.isnan(g)
        if gn or ref.isnan(e):
            if not (gn and ref.isnan(e)):
                return False
        elif isinstance(e, str) or isinstance(g, str):
            if not (isinstance(e, str) and isinstance(g, str) and g == e):
                return False
        elif float(g) != float(e):
            return False
    return True


def many_problem(rng, kind, k, pool=None):
    """k overlapping one-feature rules over few rows."""
    n = rng.choice([3, 5, 8])
    rows = [[float(i)] for i in range(n)]
    boxes, seen = [], set()
    wide = rng.random() < 0.5
    while len(boxes) < k:
        lo, hi = rng.uniform(-1, n), rng.uniform(-1, n)
        if wide:
            lo, hi = -rng.random(), n - rng.random() * rng.choice([0.5, 0.5, 0.5, n])
        elif rng.random() < 0.5:
            lo = -rng.random()
        if lo > hi:
            lo, hi = hi, lo
        b = ref.Box([("X_0", 0, lo, hi)])
        if b.key not in seen:
            seen.add(b.key)
            boxes.append(b)
    p = rs.Problem(rng, kind, n=n, d=1, k=0, pool=pool, tkind="clean", plain=True)
    p.rows, p.boxes = rows, boxes
    return p
