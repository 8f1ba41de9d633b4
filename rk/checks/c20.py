"""C20: fitting and evaluating drop exactly the rules that miss a threshold."""
import math

from ruleskit import Rule, RuleSet

from .. import env, gen, limits, ref, rs
from ..crit import crit
from .c14 import methods

RULE = ("seeded problems and limit files (coverage, prediction, std, zscore, train set size, criterion; functions and limits by name) whose borders "
        "lie between the reference values; fit, refit and eval (new data, stored activations, kept or not), stacked or not, some rules (rule by rule) sharing a condition but not their limits; the kept and excluded "
        "rules and their flags are compared with the reference model, and the kept rules' values with those without thresholds; non-trivial: some "
        "rules kept and some excluded")
ASSUMPTIONS = ["values within rounding of a limit are not generated (coverage and sizes are exact)", "targets have no NaN",
               "values of excluded rules are judged when they were asked for (force_if_not_good)"]


def names(rules):
    return [rs.box_of(r).items for r in rules]


def judge(m, s, dropped, boxes, values, lim, objs, ctx, what):
    """values: per box, the reference attribute values; returns indexes kept."""
    lims = lim if isinstance(lim, list) else [lim] * len(values)
    bad = [limits.failing(lm, v) if lm is not None else [] for lm, v in zip(lims, values)]
    kept = [i for i, b in enumerate(bad) if not b]
    m.check([id(r) for r in s] == [id(objs[i]) for i in kept], f"{what}: the rules kept are not exactly those meeting the thresholds, in order",
            got=names(s), expected=[boxes[i].items for i in kept], missed=bad, values=values, **ctx)
    m.check(sorted(id(r) for r in dropped) == sorted(id(objs[i]) for i in range(len(boxes)) if bad[i]),
            f"{what}: the returned list is not each excluded rule exactly once", got=names(dropped), expected=[boxes[i].items for i in range(len(boxes)) if bad[i]],
            **ctx)
    for i, r in enumerate(objs):
        m.check(bool(r.good) == (not bad[i]), f"{what}: wrong 'good' flag", got=r.good, missed=bad[i], **ctx)
        if bad[i]:
            m.check(r.bad_because in bad[i], f"{what}: bad_because is not a violated attribute", got=r.bad_because, missed=bad[i], **ctx)
    if any(lm is not None for lm in lims):
        m.ev("kept", len(kept))
        m.ev("excluded", len(boxes) - len(kept))
        if kept and len(kept) < len(boxes):
            m.nontrivial(what, str(lim), str(values))
    return kept


def emptied(m, rng, p, kind, s, ctx):
    """A set that lost all its rules answers with nothing, and can be filled again."""
    cls = rs.CLS[kind]
    q = rs.Problem(rng, kind, like=p)
    xs, y = q.data()
    for what, fn in (("fit", lambda: s.fit(y=y, xs=xs)), ("eval", lambda: s.eval(y=y, xs=xs)), ("predict", lambda: s.predict(xs)), ("predict stored", lambda: s.predict()),
                     ("to_df", lambda: s.to_df()), ("features count", lambda: s.get_features_count()), ("str", lambda: str(s))):
        got = fn()
        m.check(len(got) == 0, f"{what} of a set that lost all its rules is not empty", got=got, **ctx)
    m.check(s.activation is None or len(s.activation) == 0, "a set without rules has an activation", got=s.activation, **ctx)
    m.ev("emptied sets")
    cls.SET_THRESHOLDS(None)
    new = p.rules()  # (without limits of their own)
    for r in new:
        s.append(r)
    out = s.fit(y=y, xs=xs)
    m.check(out == [] and [id(r) for r in s] == [id(r) for r in new], "a set filled again does not keep its rules", **ctx)
    for r, b in zip(new, p.boxes):
        rs.check_fit(m, r, rs.expect_fit(kind, b, q.rows, q.y), kind, "set filled again", **ctx)
    u = [int(any(t)) for t in zip(*(b.evaluate(q.rows) for b in p.boxes))]
    m.check(gen.ints(s.activation) == u, "set filled again: its activation is not the union of its rules'", got=gen.ints(s.activation), expected=u, **ctx)
    t = rs.table_of(s.stacked_activations)
    m.check(t is None or t["data"] == [b.evaluate(q.rows) for b in p.boxes], "set filled again: its table is not that of its rules", got=t, **ctx)


def case(m, rng):
    kind = rng.choice(["reg", "reg", "cls"])
    p = rs.Problem(rng, kind, k=rng.choice([1, 2, 3, 5, 8]))
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    RuleSet.STACKED_FIT = rng.random() < 0.5
    stack = rng.random() < 0.4
    twice = not RuleSet.STACKED_FIT and not stack and rng.random() < 0.25
    if twice:  # several rules with the same condition, told apart by limits of their own
        p.boxes = p.boxes + [rng.choice(p.boxes) for _ in range(rng.choice([1, 2]))]
        rng.shuffle(p.boxes)
        m.ev("same condition twice")
    exp = [p.expected(i) for i in range(len(p.boxes))]
    text = p.pool is not None and isinstance(p.pool[0], str)
    when = rng.choice(["fit", "eval", "eval", "both"])
    q = rs.Problem(rng, kind, like=p)
    op = rng.choice(["eval", "eval", "eval stored", "eval keep"])
    ev = p if op == "eval stored" else q
    method = rng.choice(methods(ev.y)) if kind == "reg" else None
    acts = [b.evaluate(ev.rows) for b in p.boxes]
    crits = [None if kind == "cls" and ref.isnan(e["prediction"]) and 1 in a else crit(kind, method, a, e["prediction"], ev.y) for e, a in zip(exp, acts)]
    if any(c is None for c in crits):  # success of a rule without class is not judged
        when = "fit"
    lim_fit = limits.draw(rng, kind, exp, p.n, text=text) if when != "eval" else None
    lim_eval = None
    if when != "fit":
        lim_eval = limits.draw(rng, kind, exp, p.n, crit=crits, text=text)
    allv = [{k: v for k, v in e.items() if k != "activation"} for e in exp]
    evv = []
    for v, a, c in zip(allv, acts, crits):
        v2 = dict(v, criterion=c)
        if op == "eval keep":
            v2["coverage"] = sum(a) / len(a)
        evv.append(v2)
    # limits of single rules instead of those of the class
    nr, own = len(p.boxes), twice or rng.random() < 0.35
    own_fit = [limits.draw(rng, kind, exp, p.n, text=text) if own and rng.random() < 0.5 else None for _ in range(nr)]
    own_eval = [(limits.draw(rng, kind, exp, p.n, crit=crits, text=text) if rng.random() < 0.5 else o) if own and when != "fit" else o for o in own_fit]
    if own and rng.random() < 0.5:  # none for the class
        lim_fit = lim_eval = None
    lims_fit = [lim_fit if o is None else o for o in own_fit]
    lims_eval = [lim_eval if o is None else o for o in own_eval]
    if any(lm is not None and any(limits.close_to_limit(lm, v) for v in vs) for lms, vs in ((lims_fit, allv), (lims_eval, evv)) for lm in lms):
        m.ev("left: within rounding of a limit")
        return
    cls = rs.CLS[kind]
    s = p.ruleset(stack_activation=stack)
    objs = list(s)
    cls.SET_THRESHOLDS(limits.write(lim_fit) if lim_fit is not None else None)
    for r, o in zip(objs, own_fit):
        if o is not None:
            r.set_thresholds(limits.write(o))
            m.ev("limits of a single rule")
    xs, y = p.data()
    force = rng.random() < 0.4
    fkw = dict(force_if_not_good=True) if force else {}
    dropped = s.fit(y=y, xs=xs, **fkw)
    ctx = dict(force=force, limits_fit=lim_fit, limits_eval=lim_eval, own_fit=own_fit, own_eval=own_eval, stacked_fit=RuleSet.STACKED_FIT, stack=stack, op=op, method=method, problem=p.describe())
    kept = judge(m, s, dropped, p.boxes, allv, lims_fit, objs, ctx, "fit")
    m.ev("fit with limits" if any(x is not None for x in lims_fit) else "fit without limits")
    for r, i in zip(s, kept):
        rs.check_fit(m, r, exp[i], kind, "kept rule", **ctx)
    if force:  # excluded all the same, but with all their values
        for i, r in enumerate(objs):
            if i not in kept:
                m.ev("excluded with values")
                rs.check_fit(m, r, exp[i], kind, "excluded rule whose values were asked for", **ctx)
    m.state(kind, "fit", lim_fit and tuple(lim_fit), RuleSet.STACKED_FIT, len(kept) == len(objs), bool(kept))
    if when == "fit" or not len(s):
        m.sample(dict(kind=kind, limits=lim_fit, rules=len(objs), kept=len(kept)))
        if not len(s):
            emptied(m, rng, p, kind, s, ctx)
        return
    boxes, objs = [p.boxes[i] for i in kept], list(s)
    cls.SET_THRESHOLDS(limits.write(lim_eval) if lim_eval is not None else None)
    for r, i in zip(objs, kept):
        if own_eval[i] is not own_fit[i]:
            r.set_thresholds(limits.write(own_eval[i]))
            m.ev("limits of a single rule")
    kw = dict(criterion_method=method) if method else {}
    if op == "eval stored":
        dropped = s.eval(y=ev.ys(), **fkw, **kw)
    else:
        x2, y2 = q.data()
        dropped = s.eval(y=y2, xs=x2, keep_new_activations=op == "eval keep", **fkw, **kw)
    m.ev("op:" + op)
    vals = [evv[i] for i in kept]
    k2 = judge(m, s, dropped, boxes, vals, [lims_eval[i] for i in kept], objs, ctx, op)
    for r, i in zip(s, k2):
        v = vals[i]
        for a in ["coverage", "prediction", "criterion"] + (["std", "zscore", "sign"] if kind == "reg" else []):
            got = rs.norm(getattr(r, a))
            m.check(rs.same(got, v[a]), f"{op}: a kept rule has another {a} than without thresholds", got=got, expected=v[a], **ctx)
    if force:
        for i, r in enumerate(objs):
            if i not in k2:
                got = rs.norm(r.criterion)
                m.ev("excluded with criterion")
                m.check(rs.same(got, vals[i]["criterion"]), f"{op}: an excluded rule whose values were asked for has another criterion than without thresholds", got=got,
                        expected=vals[i]["criterion"], **ctx)
    m.state(kind, op, lim_eval and tuple(lim_eval), own, RuleSet.STACKED_FIT, len(k2) == len(objs), bool(k2))
    m.sample(dict(kind=kind, op=op, limits=lim_eval, rules=len(objs), kept=len(k2)))
    if not len(s):
        emptied(m, rng, p, kind, s, ctx)


SCENARIOS = {"drops": (case, 1600, 22000)}
REQUIRED = {"limits of a single rule": 300, "kept": 300, "excluded": 300, "fit with limits": 150, "fit without limits": 150, "op:eval": 100, "op:eval stored": 50, "op:eval keep": 50, "emptied sets": 60, "same condition twice": 60, "excluded with values": 60, "excluded with criterion": 60}
