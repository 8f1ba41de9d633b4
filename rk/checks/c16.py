"""C16: regression rule-set prediction is the (weighted) mean of the active rules."""
import math

import numpy as np
import pandas as pd

from ruleskit import Rule, RuleSet, RegressionRule

from .. import env, gen, ref, rs, votes

RULE = ("seeded fitted regression rule sets (1-8 general rules, or up to 400 overlapping rules), predictions including 0, opposite values and NaN "
        "(rules never active in training); predict on stored activations and on other data in any container, stacked or not, equal weights, weight "
        "Series in any order with gaps, zeros, NaN and foreign entries, weights by attribute; compared row by row with the weighted mean; "
        "non-trivial: some row with at least two usable active rules of different prediction")
ASSUMPTIONS = ["weights are positive, or missing/zero/NaN",
               "with weights, if no usable rule is active on any row, ValueError or all NaN are both accepted"]


def body(m, rng, p, tag):
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    RuleSet.STACKED_FIT = rng.random() < 0.5
    stack = rng.random() < 0.6
    s = p.ruleset(stack_activation=stack)
    xs, y = p.data()
    s.fit(y=y, xs=xs)
    preds = [p.expected(i)["prediction"] for i in range(len(p.boxes))]
    if len(s) > 1 and rng.random() < 0.4:
        order = {id(r): i for i, r in enumerate(s)}
        s.sort(reverse=rng.random() < 0.5)
        perm = [order[id(r)] for r in s]
        boxes, preds = [p.boxes[i] for i in perm], [preds[i] for i in perm]
    else:
        boxes = list(p.boxes)
    trace = []
    rows = p.rows  # the rows the stored activations stand for
    for _ in range(rng.randint(1, 4)):
        if tag != "many" and rng.random() < 0.2:
            rows = recompute(m, rng, s, p, trace)
        RuleSet.STACKED_FIT = rng.random() < 0.5
        stored = rng.random() < 0.3
        q = p if stored else (rs.Problem(rng, "reg", like=p) if tag != "many" else votes_rows(rng, p))
        x2 = None if stored else q.xs()
        if stored and rows is not p.rows:
            q = rs.Problem(rng, "reg", like=p)
            q.rows, q.n = rows, len(rows)
        acts = [b.evaluate(q.rows) for b in boxes]
        attrs = ["coverage", "train_set_size"] + (["std"] if all(v is not None for v in [r.std for r in s]) else [])
        w, wl, form = (None, None, "equal") if rng.random() < 0.4 else votes.make_weights(rng, list(s), attrs, dyadic=False)
        exp = ref.predict_reg(acts, preds, wl)
        usable = wl is None or any(v is not None and not ref.isnan(v) and v != 0 for v in wl)
        active = any(not math.isnan(v) for v in exp)
        m.ev("weights:" + form)
        m.ev("stacked" if RuleSet.STACKED_FIT and stack else "rule by rule")
        m.ev("stored" if stored else "new data")
        trace.append((form, stored, RuleSet.STACKED_FIT and stack))
        ctx = dict(trace=trace, predictions=preds, weights=wl, acts=acts if len(acts) < 20 else len(acts), rows=q.rows[:10])
        kw = {} if w is None else dict(weights=w)
        args = () if x2 is None else (x2,)
        f0 = rs.freeze(x2), rs.freeze(w)
        if not usable:
            m.ev("no usable weight")
            m.raises(ValueError, lambda: s.predict(*args, **kw), "no usable weight accepted", **ctx)
            continue
        try:
            got = s.predict(*args, **kw)
        except ValueError as e:
            if wl is not None and not active:
                m.ev("refused: nothing active")
                continue
            raise
        votes.check_container(m, got, len(q.rows), ctx)
        g = rs.norm(got)
        m.check([math.isnan(v) for v in g] == [math.isnan(v) for v in exp], "NaN not exactly where no usable rule is active", got=g, expected=exp, **ctx)
        u = min(1.0, max((abs(v) for v in preds if not math.isnan(v)), default=1.0)) or 1.0  # targets in small units
        if u < 1e-3:
            m.ev("small units")
        m.check(rs.same([v / u for v in g], [v / u for v in exp]), "prediction is not the (weighted) mean of the active rules' predictions", got=g, expected=exp, **ctx)
        m.check((rs.freeze(x2), rs.freeze(w)) == f0, "predict modified its arguments", **ctx)
        if any(len({preds[k] for k in range(len(acts)) if acts[k][r] and not math.isnan(preds[k])}) > 1 for r in range(len(q.rows))):
            m.nontrivial(tag, p.rows, [b.items for b in p.boxes][:10], p.y, str(wl), stored)
        if any(a and not math.isnan(v) and v == 0 for k in range(len(acts)) for a, v in [(any(acts[k]), preds[k])]):
            m.ev("zero prediction active")
        if any(math.isnan(v) and any(acts[k]) for k, v in enumerate(preds)):
            m.ev("NaN prediction active")
        m.state(tag, form, stored, RuleSet.STACKED_FIT and stack, active, len(boxes) > 1)
    m.sample(dict(n=p.n, rules=len(boxes), predictions=preds[:6], calls=[str(t) for t in trace]))


def recompute(m, rng, s, p, trace):
    """The activations are recomputed on other rows; nothing else changes."""
    q = rs.Problem(rng, "reg", like=p)
    x2, y2 = q.data()
    k = rng.choice(["set", "eval"] if s.stack_activation else ["set", "rules", "eval"])  # a stacked table is the set's own
    trace.append(("recomputed", k))
    m.ev("recomputed")
    if k == "set":
        s.calc_activation(x2)
    elif k == "rules":
        for r in s:
            r.calc_activation(x2)
    else:
        s.eval(y=y2, xs=x2, keep_new_activations=True, criterion_method="mse")
    return q.rows


def votes_rows(rng, p):
    q = rs.Problem.__new__(rs.Problem)
    q.__dict__.update(p.__dict__)
    q.rows = [[rng.uniform(-1, p.n)] for _ in range(rng.choice([1, 4, 9]))]
    q.n = len(q.rows)
    return q


def general_case(m, rng):
    p = rs.Problem(rng, "reg", maxf=rng.choice([1, 1, 2, 3]))
    if rng.random() < 0.5:  # zeros and values that cancel out
        p.y = [rng.choice([-1.0, 1.0, 0.0]) for _ in range(p.n)]
    if rng.random() < 0.15:
        u = rng.choice([2.0 ** -20, 2.0 ** -50])
        p.y = [v * u for v in p.y]
    body(m, rng, p, "general")


def many_case(m, rng):
    k = rng.choice([130, 260, 300, 400])
    p = votes.many_problem(rng, "reg", k)
    m.ev("many rules")
    body(m, rng, p, "many")


SCENARIOS = {"general": (general_case, 900, 14000), "many": (many_case, 32, 400)}
REQUIRED = {"weights:equal": 250, "weights:series": 250, "weights:attribute": 50, "stacked": 150, "rule by rule": 300, "stored": 150, "new data": 300,
            "no usable weight": 10, "recomputed": 100, "many rules": 12, "zero prediction active": 100, "NaN prediction active": 30, "small units": 50}
