"""C14: stacked and rule-by-rule fitting and evaluation give the same rule set."""
import random

import numpy as np
import pandas as pd

from ruleskit import Rule, RuleSet, RegressionRule, ClassificationRule

from .. import env, gen, limits, ref, rs
from ..crit import crit

RULE = ("seeded problems; two twin rule sets built from the same conditions go through the same history of fits, refits and evaluations (new data, "
        "stored activations, kept or not, weights for regression, thresholds on or off, any containers), one with STACKED_FIT and one without; "
        "after every step everything public of the two is compared, as well as the excluded rules; non-trivial: at least two rules active on "
        "different rows; the batch calculations (calc_predictions, calc_stds, ...) are also called directly and compared with the reference per rule")
ASSUMPTIONS = ["no duplicated condition", "targets of criteria have no NaN", "attributes of excluded rules are not compared",
               "classes are numbers or text, not booleans", "weighted classification votes differ by design (see C17) and are not compared here"]


def methods(y):
    """Criteria that are not a division by the spread of constant targets."""
    return ["mse", "mae"] if len(set(y)) < 2 else rs.METHODS


def picture(s):
    v = rs.set_view(s)
    v.pop("table")
    return v


def cond(r):
    return (sorted(zip(r.features_names, r.bmins, r.bmaxs)))


def history_case(m, rng):
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, nan_y=False)
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    stack = [rng.random() < 0.5 for _ in range(2)]
    exp = [p.expected(i) for i in range(len(p.boxes))]
    lim = None
    if rng.random() < 0.5:
        q0 = rs.Problem(rng, kind, like=p)
        lim = limits.draw(rng, kind, exp, p.n, text=p.pool is not None and isinstance(p.pool[0], str))
        if any(limits.close_to_limit(lim, e) for e in exp):
            m.ev("left: at a limit within rounding")
            return
        rs.CLS[kind].SET_THRESHOLDS(limits.write(lim))
    given = rng.random() < 0.25
    sets = []
    state = rng.getstate()
    for k in range(2):
        rng.setstate(state)
        rules = p.rules()
        if given:
            rules = [rs.CLS[kind](r.condition, gen.activation(rng, e["activation"])[0]) for r, e in zip(rules, exp)]
        sets.append(RuleSet(rules, stack_activation=stack[k]))
    trace = []

    def both(name, fn, judge=True):
        out = []
        for k, s in enumerate(sets):
            RuleSet.STACKED_FIT = k == 1
            try:
                out.append(fn(s))
            finally:
                RuleSet.STACKED_FIT = False
        trace.append(name)
        m.ev("step:" + name.split("(")[0])
        ctx = dict(trace=list(trace), problem=p.describe(), limits=lim, stack_activation=stack, given_activations=given)
        d = rs.diff(picture(sets[0]), picture(sets[1]) | dict(stack_activation=sets[0].stack_activation))
        m.check(d is None, "the stacked and the rule-by-rule method give different rule sets", diff=d, **ctx)
        if out[0] is not None or out[1] is not None:
            m.check([cond(r) for r in out[0]] == [cond(r) for r in out[1]], "the two methods exclude different rules",
                    rule_by_rule=[str(r) for r in out[0]], stacked=[str(r) for r in out[1]], **ctx)
            if out[0]:
                m.ev("rules excluded")
        for k, s in enumerate(sets):
            m.check(s.stack_activation == stack[k], "stack_activation changed", **ctx)
            m.check((s.stacked_activations is not None) == stack[k], "the stacked table is kept iff stack_activation", stack=stack[k], **ctx)

    h = rng.choice([{}, {}, dict(horizon=3)]) if kind == "reg" else {}
    if given:
        y = p.ys()
        both("fit(stored)", lambda s: s.fit(y=y, **h))
    else:
        xs, y = p.data()
        both("fit(data)", lambda s: s.fit(y=y, xs=xs, **h))
    cur = p
    for _ in range(rng.choice([0, 1, 2, 3])):
        if len(sets[0]) == 0:
            break
        op = rng.choice(["eval", "eval", "eval stored", "eval keep", "refit"])
        if lim and op != "eval stored" and op != "eval":
            op = "eval"
        q = rs.Problem(rng, kind, like=p)
        x2, y2 = q.data()
        w = {}
        if kind == "reg" and rng.random() < 0.3:
            w = dict(weights=pd.Series({str(r.condition): rng.choice([0.5, 1, 2, 3]) for r in sets[0]}))
        t = cur.y if op == "eval stored" else q.y
        km = dict(criterion_method=rng.choice(methods(t))) if kind == "reg" else {}
        if kind == "reg" and len(set(t)) > 1 and rng.random() < 0.2:
            km = {}
        if op == "eval":
            if w and not any(any(rs.box_of(r).evaluate(q.rows)) for r in sets[0]):
                w = {}  # with weights, nothing active at all may be refused
            if kind == "cls" or not w:
                both(f"eval({km})", lambda s: s.eval(y=y2, xs=x2, **km))
            else:
                both(f"eval(weights, {km})", lambda s: s.eval(y=y2, xs=x2, **km, **w))
        elif op == "eval stored":
            y1 = cur.ys()
            both(f"eval_stored({km})", lambda s: s.eval(y=y1, **km))
        elif op == "eval keep":
            both(f"eval_keep({km})", lambda s: s.eval(y=y2, xs=x2, keep_new_activations=True, **km))
            cur = q
        else:
            both("refit(data)", lambda s: s.fit(y=y2, xs=x2, **h))
            cur = q
    m.state(kind, p.tkind, len(p.boxes), lim is not None, given, tuple(stack), tuple(t.split("(")[0] for t in trace))
    if len({tuple(a) for a in p.acts() if any(a)}) > 1:
        m.nontrivial(p.rows, [b.items for b in p.boxes], p.y, trace)
    m.sample(dict(kind=kind, n=p.n, rules=len(p.boxes), limits=lim, steps=trace))


def nan_case(m, rng):
    """Fit alone, with missing targets and special labels."""
    kind = rng.choice(["reg", "reg", "cls"])
    p = rs.Problem(rng, kind, nan_y=True, pool=rng.choice([[0, 1], [0, 0.5], ["nan-ish", "0", "1"], ["0", "1"], [-1, 0]])
                   if kind == "cls" else None)
    state = rng.getstate()
    views = []
    xs, y = p.data()
    st = rng.getstate()
    for k in range(2):
        rng.setstate(state)
        s = p.ruleset()
        RuleSet.STACKED_FIT = k == 1
        s.fit(y=y, xs=xs)
        RuleSet.STACKED_FIT = False
        views.append(picture(s))
    rng.setstate(st)
    m.ev("special targets")
    d = rs.diff(views[0], views[1])
    m.check(d is None, "the two methods differ on special targets", diff=d, problem=p.describe())
    m.nontrivial("nan", p.rows, str(p.y), [b.items for b in p.boxes])
    m.state("special", kind, str(p.pool))


def direct_case(m, rng):
    """The batch calculations behind the stacked method, called directly: values per rule, and nothing set."""
    kind = rng.choice(["reg", "reg", "cls"])
    p = rs.Problem(rng, kind, nan_y=kind == "reg" and rng.random() < 0.3)
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    stack = rng.random() < 0.7
    s = p.ruleset(stack_activation=stack)
    xs, y = p.data()
    RuleSet.STACKED_FIT = rng.random() < 0.5
    s.fit(y=y, xs=xs)
    names = [str(r.condition) for r in s]
    fitted = [p.expected(i) for i in range(len(p.boxes))]
    q = p if stack and rng.random() < 0.4 else rs.Problem(rng, kind, like=p, nan_y=kind == "reg" and rng.random() < 0.3)
    x2 = q.xs()
    y2 = np.array(q.y) if rng.random() < 0.5 else pd.Series(list(q.y))
    tab = {} if q is p else dict(stacked_activations=s.evaluate_stacked_activations(x2))
    acts = [b.evaluate(q.rows) for b in p.boxes]
    exp = [rs.expect_fit(kind, b, q.rows, q.y) for b in p.boxes]
    before, fy = rs.set_view(s), rs.freeze(y2)
    ctx = dict(problem=p.describe(), other=q.describe(), table="kept" if q is p else "given")

    def judge(what, got, expected, slack=None):
        m.check(isinstance(got, pd.Series) and [str(i) for i in got.index] == names, f"{what}: not one value per rule, under its name", got=got, **ctx)
        g = rs.norm(got)
        for i, (a, e) in enumerate(zip(g, expected)):
            ok = rs.same(a, e) or (slack is not None and isinstance(a, float) and e == e and abs(a - e) <= slack[i])
            m.check(ok, f"{what} is not that of the rule on these rows", got=a, expected=e, rule=names[i], **ctx)
        m.ev("direct:" + what)

    if not stack and q is not p:
        m.raises(ValueError, lambda: s.calc_predictions(y2), "batch calculation without a table is accepted", **ctx)
    judge("calc_predictions", s.calc_predictions(y2, **tab), [e["prediction"] for e in exp])
    judge("calc_train_set_sizes", s.calc_train_set_sizes(y2), [q.n] * len(names))
    judge("calc_test_set_sizes", s.calc_test_set_sizes(y2), [q.n] * len(names))
    given = pd.Series({n: e["prediction"] for n, e in zip(names, fitted)})
    if kind == "reg":
        judge("calc_stds", s.calc_stds(y2, **tab), [e["std"] for e in exp])
        judge("calc_signs", s.calc_signs(), [e["sign"] for e in fitted])
        judge("calc_signs", s.calc_signs(given * -1), ["-" if -e["prediction"] < 0 else "+" for e in fitted])
        if len({v for v in q.y if v == v}) > 1:
            h = rng.choice([1, 1, 2, 5])
            kh = {} if h == 1 else dict(horizon=h)
            ok = [i for i, a in enumerate(acts) if any(a)]
            if q is p:
                z = s.calc_zscores(y2, **kh)
                e = [ref.zscore(x["prediction"], sum(a), q.y, h) for x, a in zip(exp, acts)]
            else:
                z = s.calc_zscores(y2, predictions=given, nones=pd.Series({n: sum(a) for n, a in zip(names, acts)}), **kh)
                e = [ref.zscore(x["prediction"], sum(a), q.y, h) for x, a in zip(fitted, acts)]
            yy = ref.nn(q.y)
            big = max(map(abs, yy + [x["prediction"] for x in fitted if x["prediction"] == x["prediction"]]))
            for i in ok:
                den = (h / sum(acts[i])) ** 0.5 * ref.pstd(yy)
                a = rs.norm(z.iloc[i])
                m.check(rs.same(a, e[i]) or abs(a - e[i]) <= 1e-11 * big / den, "calc_zscores is not that of the rule on these rows", got=a, expected=e[i],
                        rule=names[i], **ctx)
            m.ev("direct:calc_zscores")
    if not any(ref.isnan(v) for v in q.y if not isinstance(v, str)):
        own = exp if q is p and rng.random() < 0.5 else None
        kp = {} if own is not None else dict(predictions=given)
        meth = rng.choice(methods(q.y)) if kind == "reg" else None
        km = {} if kind == "cls" else dict(criterion_method=meth)
        pr = [x["prediction"] for x in (own or fitted)]
        e = [crit(kind, meth, a, v, q.y) for a, v in zip(acts, pr)]
        if kind == "reg" or not any(ref.isnan(v) for v in pr):
            if kind == "reg" and kp and len(names) > 1 and rng.random() < 0.5:  # by their names, whatever the order
                turned = rng.sample(names, len(names))
                got = s.calc_criterions(y2, predictions=given[turned], **tab, **km)
                m.check(sorted(got.index) == sorted(names), "calc_criterions: not one value per rule, under its name (predictions in another order)", got=got, **ctx)
                m.ev("direct:predictions in another order")
                got = got[names]
            else:
                got = s.calc_criterions(y2, **kp, **tab, **km)
            m.check([str(i) for i in got.index] == names, "calc_criterions: not one value per rule, under its name", got=got, **ctx)
            for n, a, b in zip(names, rs.norm(got), e):
                m.check(rs.same(a, b), "calc_criterions is not that of the rule on these rows", got=a, expected=b, rule=n, method=meth, **ctx)
            m.ev("direct:calc_criterions")
    d = rs.diff(rs.set_view(s), before)
    m.check(d is None, "a batch calculation changed the set", diff=d, **ctx)
    m.check(rs.freeze(y2) == fy, "a batch calculation changed the targets", **ctx)
    m.state("direct", kind, stack, q is p, len(names))
    m.nontrivial("direct", p.rows, str(q.y), [b.items for b in p.boxes])


SCENARIOS = {"history": (history_case, 700, 10000), "special": (nan_case, 400, 5000), "direct": (direct_case, 400, 5000)}
REQUIRED = {"step:fit": 250, "step:eval": 60, "step:eval_stored": 40, "step:eval_keep": 20, "step:refit": 20, "rules excluded": 30,
            "special targets": 150, "direct:calc_predictions": 150, "direct:calc_stds": 100, "direct:calc_signs": 100, "direct:calc_zscores": 100,
            "direct:calc_criterions": 100, "direct:predictions in another order": 30}
