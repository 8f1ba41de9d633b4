"""C26: evaluating a rule set measures what the set and its rules predict."""
import math

import numpy as np
import pandas as pd

from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from ruleskit import Rule, RuleSet, extract_rules_from_tree

from .. import env, gen, limits, ref, rs, votes
from .c14 import methods

RULE = ("seeded fitted rule sets (regression and classification) go through histories of 1-4 evaluations (new data, stored activations, new "
        "activations kept, direct calc_criterion, with or without weights, with or without a limit on the criterion dropping rules; stacked or not, "
        "table kept or not, any containers) and refits; after each, the set's criterion, its rules' criteria and the set sizes are compared with a "
        "reference computed from boxes, rows and votes; non-trivial: at least two rules and the set predicts on some rows")
ASSUMPTIONS = ["targets of criteria have no NaN; normalised criteria are not used on constant targets", "values are judged when at least one rule remains",
               "the success rate of a rule without a class is not judged", "explicit weights are used when some weighted rule is active"]


def value(kind, method, pred, y):
    if kind == "cls":
        return ref.success(pred, y), 0.0
    v = ref.criterion_reg(method, pred, y)
    M = max([abs(t) for t in y] + [abs(p) for p in pred if not math.isnan(p)])
    slack = 1e-12 * (M * M if method.startswith("mse") else M)
    if method != "mse" and method != "mae":
        mu = ref.median(y) if method == "aae" else ref.fmean(y)
        d = ref.fmean([(t - mu) ** 2 if method == "mse_norm" else abs(t - mu) for t in y])
        slack /= d
        # the denominator is rounded too
        slack += abs(v) * 1e-11 * (M * M if method == "mse_norm" else M) / d if v == v else 0
    return v, slack


def close(g, e, slack):
    g = rs.norm(g)
    if g is None or isinstance(g, str):
        return False
    if math.isnan(e) or math.isnan(g):
        return math.isnan(e) and math.isnan(g)
    if math.isinf(e) or math.isinf(g):
        return e == g
    return abs(g - e) <= 1e-9 * abs(e) + slack + 1e-15


def weights_for(rng, rules, kept, acts, preds):
    if rng.random() < 0.6:
        return {}, None
    w, wl, _ = votes.make_weights(rng, rules, ["train_set_size"] if kept else ["coverage", "train_set_size"], dyadic=True)
    usable = any(v is not None and not ref.isnan(v) and v != 0 and 1 in a and not ref.isnan(p) for v, a, p in zip(wl, acts, preds))
    return (dict(weights=w), wl) if usable else ({}, None)


def case(m, rng):
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=rng.choice([None, None, 2, 5, 9]))
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    RuleSet.STACKED_FIT = rng.random() < 0.5
    stack = rng.random() < 0.5
    s = p.ruleset(stack_activation=stack)
    xs, y = p.data()
    s.fit(y=y, xs=xs)
    m.check(s.train_set_size == p.n, "fit: train set size is not the number of rows", got=s.train_set_size, expected=p.n)
    boxes = list(p.boxes)
    preds = [p.expected(i)["prediction"] for i in range(len(boxes))]
    stored, fitted, last_test, trace = p, p, None, []
    for _ in range(rng.randint(1, 4)):
        RuleSet.STACKED_FIT = rng.random() < 0.5
        op = rng.choice(["eval", "eval", "eval stored", "eval keep", "calc", "calc stored", "calc given", "refit"])
        q = rs.Problem(rng, kind, like=p)
        ev = stored if "stored" in op else q
        x2, y2 = q.data()
        if "stored" in op:
            y2 = stored.ys()
        method = rng.choice(methods(ev.y)) if kind == "reg" else "success_rate"
        km = dict(criterion_method=method)
        if rng.random() < 0.3 and (kind == "cls" or len(set(ev.y)) > 1):
            km, method = {}, "mse_norm" if kind == "reg" else "success_rate"
        acts = [b.evaluate(ev.rows) for b in boxes]
        kw, wl = weights_for(rng, list(s), op == "eval keep" or kind == "cls", acts, preds)
        trace.append((op, method, "weights" if kw else "", RuleSet.STACKED_FIT))
        ctx = dict(trace=trace, problem=p.describe(), stack_activation=stack, evaluated=ev.describe(), weights=wl, predictions=preds)
        m.ev("op:" + op)
        if op == "refit":
            s.fit(y=y2, xs=x2)
            stored = fitted = q
            preds = [rs.expect_fit(kind, b, q.rows, q.y)["prediction"] for b in boxes]
            m.check(s.train_set_size == q.n, "refit: train set size is not the number of rows", got=s.train_set_size, expected=q.n, **ctx)
            continue
        own = [value(kind, method, [v if a else math.nan for a in act], ev.y) for act, v in zip(acts, preds)]
        hasclass = [kind == "reg" or not ref.isnan(v) for v in preds]
        lim = None
        if op.startswith("eval") and rng.random() < 0.3 and all(hasclass):
            lim = {"coverage": {"min": 0}, "criterion": {rng.choice(["max", "min"]): limits.between(rng, [v for v, _ in own])}}
            if any(limits.close_to_limit(lim, dict(criterion=v)) for v, _ in own):
                lim = None
        keep = [lim is None or limits.ok(lim["criterion"], v) for v, _ in own]
        rs.CLS[kind].SET_THRESHOLDS(None if lim is None else limits.write(lim))
        if lim is not None and kw:
            live = [v is not None and not ref.isnan(v) and v != 0 and 1 in a and not ref.isnan(pr) and k
                    for v, a, pr, k in zip(wl, acts, preds, keep)]
            if not any(live):
                kw, wl = {}, None
        by_criterion = False
        if kind == "reg" and op in ("eval", "eval stored", "eval keep") and rng.random() < 0.3:
            # weighted by what this very evaluation finds
            if any(v == v and v > 1e-6 and not ref.isnan(pr) and k for (v, _), pr, k in zip(own, preds, keep)):
                kw, by_criterion = dict(weights="criterion"), True
                m.ev("weighted by the criterion")
        objs = list(s)
        before = s.criterion
        try:
            if op == "calc":
                s.calc_criterion(y=y2, xs=x2, **kw, **km)
            elif op == "calc stored":
                s.calc_criterion(y=y2, **kw, **km)
            elif op == "calc given":
                pv = s.predict(x2, **kw)
                kg = dict(predictions=pv)
                if rng.random() < 0.5:  # weights count for nothing once the predictions are given
                    kg["weights"] = pd.Series({str(rng.choice(list(s)).condition): 1.0})
                    m.ev("predictions given, and weights")
                if kind == "cls":
                    s.calc_criterion(y=y2, xs=x2, **kg, **km)
                else:
                    s.calc_criterion(y=y2, **kg, **km)
            elif op == "eval":
                s.eval(y=y2, xs=x2, **kw, **km)
            elif op == "eval stored":
                s.eval(y=y2, **kw, **km)
            else:
                s.eval(y=y2, xs=x2, keep_new_activations=True, **kw, **km)
        finally:
            rs.CLS[kind].SET_THRESHOLDS(None)
        if op == "eval keep":
            stored = q
        m.check([id(r) for r in s] == [id(r) for r, k in zip(objs, keep) if k], "not the expected rules after evaluation", limits=lim, **ctx)
        if lim is not None and not all(keep):
            m.ev("rules dropped")
        if not any(keep):
            break
        boxes, preds, own, hasclass, acts = ([v for v, k in zip(l, keep) if k] for l in (boxes, preds, own, hasclass, acts))
        if by_criterion:
            wl = [rs.norm(r.criterion) for r in s]
        elif wl is not None:
            wl = [v for v, k in zip(wl, keep) if k]
        stacked = RuleSet.STACKED_FIT and stack
        pv = ref.predict_reg(acts, preds, wl) if kind == "reg" else ref.predict_cls(acts, preds, wl, stacked=stacked)
        e, slack = value(kind, method, pv, ev.y)
        m.check(close(s.criterion, e, slack), f"{op}: the set's criterion is not the {method} of its own predictions on these rows",
                got=s.criterion, expected=e, predicted=pv[:40], before=before, limits=lim, **ctx)
        m.ev("set criterion:" + ("NaN" if math.isnan(e) else "value"))
        if op.startswith("eval"):
            for r, (v, sl), h in zip(s, own, hasclass):
                if h:
                    m.check(close(r.criterion, v, sl), f"{op}: a rule's criterion is not the {method} of its own predictions", got=r.criterion,
                            expected=v, rule=str(r), **ctx)
                    m.ev("rule criteria judged")
            last_test = ev.n
        m.check(s.test_set_size == last_test, f"{op}: test set size is not the number of rows last evaluated", got=s.test_set_size, expected=last_test,
                **ctx)
        m.check(s.train_set_size == fitted.n, f"{op}: train set size changed", got=s.train_set_size, expected=fitted.n, **ctx)
        for r, v in zip(s, preds):
            g = rs.norm(r.prediction)
            m.check(rs.same(g, v), f"{op}: a prediction changed", got=g, expected=v, **ctx)
        m.state(kind, op, method, bool(kw), stacked, lim is not None, math.isnan(e))
        if len(boxes) > 1 and not math.isnan(e):
            m.nontrivial(str(p.rows), str(ev.y), str(trace))
    m.sample(dict(kind=kind, n=p.n, rules=len(p.boxes), steps=[str(t) for t in trace], criterion=str(s.criterion)))


def other_case(m, rng):
    """Rules whose predictions come from elsewhere: read from a file, or extracted from a tree."""
    kind = rng.choice(["reg", "cls"])
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    stack = rng.random() < 0.5
    if rng.random() < 0.5:
        origin = "file"
        p = rs.Problem(rng, kind, pool=rng.choice(gen.PLAIN_LABELS) if kind == "cls" else None, p_impossible=0)
        s0 = p.ruleset()
        xs, y = p.data()
        s0.fit(y=y, xs=xs)
        s0.save(env.AUX / "set.csv")
        s = RuleSet(stack_activation=stack)
        s.load(env.AUX / "set.csv")
        boxes = list(p.boxes)
        preds = [p.expected(i)["prediction"] for i in range(len(boxes))]
        names, d, pool = p.names, p.d, p.pool
    else:
        origin = "tree"
        p = rs.Problem(rng, kind, n=rng.choice([8, 20, 60]), d=rng.choice([1, 2, 3]), k=1, pool=["a", "b", "c"] if kind == "cls" else None, plain=True)
        X = np.array([[rng.randint(-8, 8) / 4 for _ in range(p.d)] for _ in range(p.n)])
        tree = (DecisionTreeRegressor if kind == "reg" else DecisionTreeClassifier)(max_depth=rng.choice([1, 2, 3]), random_state=rng.randrange(1000)).fit(X, np.array(p.y))
        if tree.tree_.node_count < 3:
            return
        s = extract_rules_from_tree(tree, xmins=[-9.0] * p.d, xmaxs=[9.0] * p.d, features_names=p.names, get_leaf=True, stack_activation=stack)
        boxes = [rs.box_of(r) for r in s]
        preds = [rs.norm(r.prediction) for r in s]
    if any(ref.isnan(v) for v in preds):
        return
    trace = []
    for _ in range(rng.randint(1, 3)):
        RuleSet.STACKED_FIT = rng.random() < 0.5
        q = rs.Problem(rng, kind, like=p)
        x2, y2 = q.data()
        method = rng.choice(methods(q.y)) if kind == "reg" else "success_rate"
        keep = origin == "file" or rng.random() < 0.5
        trace.append((origin, method, RuleSet.STACKED_FIT, keep))
        ctx = dict(trace=trace, boxes=[b.items for b in boxes], predictions=preds, evaluated=q.describe())
        out = s.eval(y=y2, xs=x2, keep_new_activations=keep, **dict(criterion_method=method))
        m.check(out == [] and len(s) == len(boxes), "evaluation without thresholds drops rules", got=[str(r) for r in out], **ctx)
        acts = [b.evaluate(q.rows) for b in boxes]
        for r, a, v in zip(s, acts, preds):
            e, sl = value(kind, method, [v if t else math.nan for t in a], q.y)
            m.check(close(r.criterion, e, sl), f"{origin}: a rule's criterion is not the {method} of its own predictions", got=r.criterion, expected=e, rule=str(r), **ctx)
            m.check(rs.same(rs.norm(r.prediction), v), f"{origin}: evaluation changed a prediction", got=r.prediction, expected=v, **ctx)
        pv = ref.predict_reg(acts, preds, None) if kind == "reg" else ref.predict_cls(acts, preds, None, stacked=RuleSet.STACKED_FIT and stack)
        e, slack = value(kind, method, pv, q.y)
        m.check(close(s.criterion, e, slack), f"{origin}: the set's criterion is not the {method} of its own predictions on these rows", got=s.criterion, expected=e, **ctx)
        m.check(s.test_set_size == q.n, f"{origin}: test set size", got=s.test_set_size, expected=q.n, **ctx)
        m.ev("from " + origin)
        m.state("from", origin, kind, method, RuleSet.STACKED_FIT, stack, keep)
        if len(boxes) > 1:
            m.nontrivial("from", str(q.rows), str(boxes[0].items), str(trace))


SCENARIOS = {"history": (case, 900, 14000), "elsewhere": (other_case, 250, 3000)}
REQUIRED = {"weighted by the criterion": 60, "op:eval": 150, "op:eval stored": 80, "op:eval keep": 80, "op:calc": 80, "op:calc stored": 80, "op:calc given": 80, "op:refit": 80,
            "rules dropped": 25, "set criterion:value": 300, "set criterion:NaN": 20, "rule criteria judged": 600, "from file": 80, "from tree": 60}
