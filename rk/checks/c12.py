"""C12: Rule.predict and Rule.eval apply the fitted rule to new data without altering it."""
import math

import numpy as np
import pandas as pd

from ruleskit import Rule

from .. import env, gen, ref, rs
from ..crit import crit

RULE = ("seeded fitted regression and classification rules; predict and eval on the training data, on other data in any container (1 row "
        "included) and without data, in random order, sometimes the same data object whose values changed in the meantime, with and without recompute_activation, random criterion; the rule's full public view is "
        "compared before/after each call; non-trivial: the new data has active and inactive rows")
ASSUMPTIONS = ["the criterion of a classification rule whose own class is NaN is not judged on rows where it is active"]


def expected_pred(kind, act, pred):
    text = isinstance(pred, str)
    return [pred if a else ("nan" if text else math.nan) for a in act]


def ops_case(m, rng):
    kind = rng.choice(["reg", "reg", "cls"])
    p = rs.Problem(rng, kind, k=1)
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    r = p.rules()[0]
    box = p.boxes[0]
    xs, y = p.data()
    r.fit(y=y, xs=xs)
    e = p.expected(0)
    stored, pred = e["activation"], e["prediction"]
    trace = []
    last = (xs, rs.copy_of(p))
    for _ in range(rng.randint(1, 5)):
        q = rs.Problem(rng, kind, like=p, n=rng.choice([None, None, 1, 2]))
        op = rng.choice(["predict", "predict", "predict stored", "eval", "eval stored", "eval recompute", "criterion", "criterion given", "vector"])
        x2 = q.xs()
        if last is not None and rng.random() < 0.4:
            # the same data object as before, whose owner changed some values in the meantime
            x2, q = last
            rs.touch(rng, q, x2)
            m.ev("data modified by its owner")
        last = (x2, q)
        act = box.evaluate(q.rows)
        idx = x2.index if isinstance(x2, pd.DataFrame) and rng.random() < 0.5 else None
        y2 = q.ys(index=idx)
        fx, fy = rs.freeze(x2), rs.freeze(y2)
        before = rs.view(r)
        trace.append((op, type(x2).__name__, q.n))
        ctx = dict(trace=trace, fitted_on=p.describe(), other=q.describe(), prediction=pred)
        m.ev("op:" + op)
        after_expected = dict(before)
        if op == "vector":
            # the same as a Series of plain NaN and predictions
            if rng.random() < 0.5:
                got, a = r.calc_prediction_vector(), stored
            else:
                got, a = r.calc_prediction_vector(np.array(act, dtype=rng.choice(["uint8", "int64", "float64"]))), act
            m.check(isinstance(got, pd.Series), "the prediction vector is not a Series", got=type(got), **ctx)
            g, ex = rs.norm(got), [pred if x else math.nan for x in a]
            m.check(rs.same(g, ex), "the prediction vector is not 'prediction where active, NaN elsewhere'", got=g, expected=ex, **ctx)
        elif op.startswith("predict"):
            if op == "predict":
                got, a = r.predict(x2), act
                if isinstance(x2, pd.DataFrame):
                    m.ev("predict frame")
                    m.check(isinstance(got, pd.Series), "predict on a frame does not give a Series", got=type(got), **ctx)
                    m.check(list(got.index) == list(x2.index), "predict on a frame lost its index", got=list(got.index), **ctx)
                else:
                    m.check(isinstance(got, np.ndarray), "predict on an array does not give an array", got=type(got), **ctx)
            else:
                got, a = r.predict(), stored
                m.check(isinstance(got, np.ndarray), "predict without data does not give an array", got=type(got), **ctx)
            ex = expected_pred(kind, a, pred)
            m.check(len(got) == len(ex), "predict does not give one value per row", got=len(got), expected=len(ex), **ctx)
            g = rs.norm(got)
            m.check(rs.same(g, ex), "predict is not 'prediction where active, NaN elsewhere'", got=g, expected=ex, **ctx)
            if 0 in a and 1 in a:
                m.nontrivial(op, q.rows, box.key, str(pred))
        else:
            method = rng.choice(rs.METHODS + [None]) if kind == "reg" else rng.choice([None, "success_rate"])
            kw = {} if method is None else dict(criterion_method=method if rng.random() < 0.8 else method.upper())
            if op == "eval":
                r.eval(y=y2, xs=x2, **kw)
                a, t = act, q.y
            elif op == "eval recompute":
                r.eval(y=y2, xs=x2, recompute_activation=True, **kw)
                a, t = act, q.y
                stored = act
                after_expected["activation"] = act
                after_expected["coverage"] = sum(act) / len(act)
            elif op == "criterion given":
                # the single calculation, on an activation given by the caller
                r.calc_criterion(y2, activation=gen.activation(rng, act)[0], **kw)
                a, t = act, q.y
            else:
                # (never a constant whose mean is rounded: normalised criteria would then divide by noise)
                t = gen.targets(rng, len(stored), nan=False) if kind == "reg" else [rng.choice(p.pool) for _ in stored]
                y2 = np.array(t)
                a = stored
                if op == "criterion":
                    r.calc_criterion(y2, **kw)
                else:
                    r.eval(y=y2, **kw)
            ex = crit(kind, method or ("mse_norm" if kind == "reg" else None), a, pred, t)
            got = rs.norm(r.criterion)
            if not (kind == "cls" and ref.isnan(pred) and 1 in a):
                m.check(rs.same(got, ex), f"eval: criterion is not the chosen one of the predictions", got=got, expected=ex, method=method, op=op,
                        targets=t, act=a, **ctx)
                m.ev("criterion judged")
                if 0 in a and 1 in a and not math.isnan(ex):
                    m.nontrivial(op, q.rows, box.key, str(pred), method)
            after_expected["criterion"] = got
        if op not in ("eval stored", "criterion"):
            m.check(rs.freeze(x2) == fx and (op.startswith("predict") or rs.freeze(y2) == fy), "the caller's data was modified", op=op)
        d = rs.diff(rs.view(r), after_expected)
        m.check(d is None, f"{op} changed the rule", diff=d, **ctx)
        m.state(kind, op, type(x2).__name__, q.n == 1, 1 in act, isinstance(pred, str))
    m.sample(dict(kind=kind, box=box.items, prediction=pred, history=[str(t) for t in trace]))


SCENARIOS = {"ops": (ops_case, 1800, 25000)}
REQUIRED = {"op:predict": 300, "op:predict stored": 150, "op:eval": 150, "op:eval recompute": 150, "op:eval stored": 150, "op:criterion": 100, "op:criterion given": 100, "op:vector": 100,
            "criterion judged": 400, "predict frame": 100, "data modified by its owner": 150}
