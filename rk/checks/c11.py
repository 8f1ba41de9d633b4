"""C11: a fitted classification rule predicts the majority class of its activated points."""
import numpy as np
import pandas as pd

from ruleskit import ClassificationRule, Rule, HyperrectangleCondition

from .. import env, gen, ref, rs

RULE = ("seeded label pools (integers, negative, floats, short and long text), skewed and tied frequencies, 1..100 rows and some cases with "
        "tens of thousands of rows where frequencies print in scientific notation or the majority is decided by the last rows, array/Series targets; fit, refit, fit on given activation; "
        "non-trivial: at least two classes among the activated rows")
ASSUMPTIONS = ["targets have no missing class"]


# text that reads as numbers: still text, compared as text
NUMBERLIKE = [["10", "9", "100"], ["1", "01"], ["1e3", "999"], ["-1", "+1"], ["0.5", ".5", "1/2"], ["inf", "1"], ["True", "False"]]


def check(m, r, act, y, what, **ctx):
    e = ref.majority(act, y)
    got = rs.norm(r.prediction)
    m.check(rs.same(got, e), f"{what}: prediction is not the (smallest) most frequent class of the activated rows", got=got, expected=e,
            activated=ref.activated(act, y)[:60], **ctx)
    m.check(gen.ints(r.activation) == act, f"{what}: activation is not where the condition holds", **ctx)
    m.check(rs.same(r.coverage, sum(act) / len(act)), f"{what}: wrong coverage", got=r.coverage, **ctx)
    m.check(r.train_set_size == len(y), f"{what}: wrong train set size", got=r.train_set_size, expected=len(y), **ctx)
    cl = set(ref.activated(act, y))
    if not cl:
        m.ev("never active")
    cnt = sorted([ref.activated(act, y).count(c) for c in cl], reverse=True) if len(y) < 3000 else [2, 1]
    tie = len(cnt) > 1 and cnt[0] == cnt[1]
    if tie:
        m.ev("ties")
    m.state(what, type(y[0]).__name__, min(len(cl), 4), tie)
    if len(cl) > 1:
        m.nontrivial(what, y if len(y) < 300 else len(y), act if len(y) < 300 else sum(act))


def fit_case(m, rng):
    pool = rng.choice(NUMBERLIKE) if rng.random() < 0.2 else None
    p = rs.Problem(rng, "cls", k=rng.choice([1, 2, 3]), pool=pool)
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    for i, r in enumerate(p.rules()):
        xs, y = p.data()
        fx, fy = rs.freeze(xs), rs.freeze(y)
        act = p.boxes[i].evaluate(p.rows)
        how = rng.choice(["fit", "fit", "calc then fit", "given activation", "parts"])
        if how == "fit":
            r.fit(y=y, xs=xs)
        elif how == "calc then fit":
            r.calc_activation(xs)
            r.fit(y=y)
        else:
            r = ClassificationRule(r.condition, gen.activation(rng, act)[0])
            if how == "parts":
                r.calc_prediction(y)
                r.calc_train_set_size(y)
            else:
                r.fit(y=y)
        m.ev("how:" + how)
        check(m, r, act, p.y, how, problem=p.describe(), box=p.boxes[i].items)
        m.check(rs.freeze(xs) == fx and rs.freeze(y) == fy, "fitting modified the caller's data")
        if rng.random() < 0.5:
            if rng.random() < 0.3:  # the same objects, with other values
                q, xs2, y2 = rs.copy_of(p), xs, y
                rs.touch(rng, q, xs2, ys=[y2])
                m.ev("refit: data modified by its owner")
            else:
                q = rs.Problem(rng, "cls", like=p)
                xs2, y2 = q.data()
            r.fit(y=y2, xs=xs2)
            m.ev("refit")
            check(m, r, p.boxes[i].evaluate(q.rows), q.y, "refit", first=p.describe(), second=q.describe())
    m.sample(dict(n=p.n, classes=p.pool, box=p.boxes[0].items, how=how, prediction=str(r.prediction)))


def ties_case(m, rng):
    """Exact frequency patterns on all-active or partly active rows."""
    pool = list(rng.choice(gen.LABELS + NUMBERLIKE))
    counts = [rng.choice([0, 1, 1, 2, 3, 5]) for _ in pool]
    y = [c for c, k in zip(pool, counts) for _ in range(k)]
    off = [rng.choice(pool) for _ in range(rng.randint(0, 6))]
    rows = [[1.0]] * len(y) + [[0.0]] * len(off)
    yy = y + off
    if not yy:
        return
    order = list(range(len(yy)))
    rng.shuffle(order)
    rows, yy = [rows[i] for i in order], [yy[i] for i in order]
    r = ClassificationRule(HyperrectangleCondition([0], bmins=[1], bmaxs=[1]))
    t = np.array(yy) if rng.random() < 0.5 else pd.Series(yy, index=order)
    r.fit(y=t, xs=np.array(rows))
    m.ev("frequency patterns")
    check(m, r, [int(x[0]) for x in rows], yy, "pattern", targets=yy)


def large_case(m, rng):
    n = rng.choice([12000, 20000, 30000])
    pool = list(rng.choice([x for x in gen.LABELS if len(x) >= 2]))
    rng.shuffle(pool)
    k = rng.choice([1, 1, 2, 3])
    y = [pool[0]] * (n - k) + [pool[1]] * k
    rng.shuffle(y)
    xs = np.ones((n, 1))
    r = ClassificationRule(HyperrectangleCondition([0], bmins=[0], bmaxs=[2]))
    r.fit(y=np.array(y), xs=xs)
    m.ev("rare classes in many rows")
    check(m, r, [1] * n, y, "many rows", n=n, rare=pool[1], common=pool[0])


def ordered_case(m, rng):
    """Many rows, classes in blocks (not shuffled) with close counts: the majority shows only when every row is counted."""
    n = rng.choice([300, 3000, 9000, 20000, 33000, 66000, 70000, 110000])
    pool = list(rng.choice(gen.LABELS))
    rng.shuffle(pool)
    base = n // len(pool)
    counts = [base + rng.choice([-2, -1, 0, 0, 1, 2]) for _ in pool]
    y = [c for c, k in zip(pool, counts) for _ in range(k)]
    if rng.random() < 0.2:
        rng.shuffle(y)
    n = len(y)
    lead, trail = rng.choice([0, 0, 5, 1000]), rng.choice([0, 0, 7, 40000])
    off = rng.choice(pool)
    yy = [off] * lead + y + [off] * trail
    x = np.concatenate([np.zeros(lead), np.ones(n), np.zeros(trail)]).reshape(-1, 1)
    r = ClassificationRule(HyperrectangleCondition([0], bmins=[1], bmaxs=[1]))
    t = np.array(yy) if rng.random() < 0.5 else pd.Series(yy)
    r.fit(y=t, xs=x)
    m.ev("blocks of classes")
    check(m, r, [0] * lead + [1] * n + [0] * trail, yy, "blocks", n=len(yy), counts=dict(zip(map(str, pool), counts)), lead=lead, trail=trail)


SCENARIOS = {"fit": (fit_case, 1200, 20000), "ties": (ties_case, 800, 10000), "large": (large_case, 48, 300),
             "ordered": (ordered_case, 80, 800)}
REQUIRED = {"how:fit": 250, "refit": 150, "refit: data modified by its owner": 40, "ties": 60, "never active": 50, "rare classes in many rows": 16, "blocks of classes": 24}
