"""C17: classification rule-set prediction is the unique winning class, else NaN."""
import math

from ruleskit import Rule, RuleSet

from .. import env, gen, ref, rs, votes

RULE = ("seeded fitted classification rule sets (1-8 general rules, or up to 400 overlapping rules), integer, negative, zero, float and text classes "
        "and rules without class; predict on stored activations and on other data in any container, stacked or not, equal or given weights (dyadic, "
        "so that ties are exact) with gaps, zeros, NaN and foreign entries; compared row by row with the vote of the active rules; "
        "non-trivial: some row where at least two classes compete")
ASSUMPTIONS = ["weights are positive multiples of 1/4, or missing/zero/NaN",
               "with weights, if no usable rule is active on any row, ValueError or all NaN are both accepted"]


def body(m, rng, p, tag):
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    RuleSet.STACKED_FIT = rng.random() < 0.5
    stack = rng.random() < 0.6
    s = p.ruleset(stack_activation=stack)
    xs, y = p.data()
    s.fit(y=y, xs=xs)
    preds = [p.expected(i)["prediction"] for i in range(len(p.boxes))]
    boxes = list(p.boxes)
    if len(s) > 1 and rng.random() < 0.4:
        order = {id(r): i for i, r in enumerate(s)}
        s.sort(reverse=rng.random() < 0.5)
        perm = [order[id(r)] for r in s]
        boxes, preds = [p.boxes[i] for i in perm], [preds[i] for i in perm]
    trace = []
    rows = p.rows  # the rows the stored activations stand for
    for _ in range(rng.randint(1, 4)):
        if tag != "many" and rng.random() < 0.2:
            rows = recompute(m, rng, s, p, trace)
        RuleSet.STACKED_FIT = rng.random() < 0.5
        stacked = RuleSet.STACKED_FIT and stack
        stored = rng.random() < 0.3
        q = p if stored else (rs.Problem(rng, "cls", like=p) if tag != "many" else more_rows(rng, p))
        x2 = None if stored else q.xs()
        if stored and rows is not p.rows:
            q = rs.Problem(rng, "cls", like=p)
            q.rows, q.n = rows, len(rows)
        acts = [b.evaluate(q.rows) for b in boxes]
        w, wl, form = (None, None, "equal") if rng.random() < 0.5 else votes.make_weights(rng, list(s), ["train_set_size"], dyadic=True)
        exp = ref.predict_cls(acts, preds, wl, stacked=stacked)
        usable = wl is None or any(v is not None and not ref.isnan(v) and v != 0 for v in wl)
        n_active = [sum(1 for k, a in enumerate(acts) if a[r] and not ref.isnan(preds[k])
                        and (wl is None or wl[k] is not None and not ref.isnan(wl[k]) and wl[k] != 0)) for r in range(len(q.rows))]
        m.ev("weights:" + form)
        m.ev("stacked" if stacked else "rule by rule")
        m.ev("stored" if stored else "new data")
        trace.append((form, stored, stacked))
        ctx = dict(trace=trace, predictions=preds, weights=wl, acts=acts if len(acts) < 20 else len(acts), rows=q.rows[:10])
        kw = {} if w is None else dict(weights=w)
        args = () if x2 is None else (x2,)
        f0 = rs.freeze(x2), rs.freeze(w)
        if not usable:
            m.ev("no usable weight")
            m.raises(ValueError, lambda: s.predict(*args, **kw), "no usable weight accepted", **ctx)
            continue
        try:
            got = s.predict(*args, **kw)
        except ValueError:
            if wl is not None and not any(n_active):
                m.ev("refused: nothing active")
                continue
            raise
        votes.check_container(m, got, len(q.rows), ctx)
        g = rs.norm(got)
        m.check(votes.classes_equal(g, exp), "prediction is not the unique winning class of the active rules (NaN on ties or none)", got=g, expected=exp,
                **ctx)
        m.check((rs.freeze(x2), rs.freeze(w)) == f0, "predict modified its arguments", **ctx)
        ties = sum(1 for r in range(len(q.rows)) if n_active[r] and ref.isnan(exp[r]))
        if ties:
            m.ev("rows with a tie", ties)
        if not any(n_active):
            m.ev("no active row")
        if any(len({preds[k] for k in range(len(acts)) if acts[k][r] and not ref.isnan(preds[k])}) > 1 for r in range(len(q.rows))):
            m.nontrivial(tag, p.rows, [b.items for b in p.boxes][:10], str(p.y), str(wl), stored, stacked)
        if any(ref.isnan(v) and any(acts[k]) for k, v in enumerate(preds)):
            m.ev("NaN prediction active")
        m.state(tag, form, stored, stacked, any(n_active), bool(ties), type(p.pool[0]).__name__)
    m.sample(dict(n=p.n, rules=len(boxes), classes=[str(x) for x in preds[:6]], calls=[str(t) for t in trace]))


def recompute(m, rng, s, p, trace):
    """The activations are recomputed on other rows; nothing else changes."""
    q = rs.Problem(rng, "cls", like=p)
    x2, y2 = q.data()
    k = rng.choice(["set", "eval"] if s.stack_activation else ["set", "rules", "eval"])  # a stacked table is the set's own
    trace.append(("recomputed", k))
    m.ev("recomputed")
    if k == "set":
        s.calc_activation(x2)
    elif k == "rules":
        for r in s:
            r.calc_activation(x2)
    else:
        s.eval(y=y2, xs=x2, keep_new_activations=True)
    return q.rows


def more_rows(rng, p):
    q = rs.Problem.__new__(rs.Problem)
    q.__dict__.update(p.__dict__)
    q.rows = [[rng.uniform(-1, p.n)] for _ in range(rng.choice([1, 4, 9]))]
    q.n = len(q.rows)
    return q


def general_case(m, rng):
    p = rs.Problem(rng, "cls", maxf=rng.choice([1, 1, 2, 3]), k=rng.choice([1, 2, 3, 4, 5, 8, 8]))
    body(m, rng, p, "general")


def many_case(m, rng):
    p = votes.many_problem(rng, "cls", rng.choice([130, 260, 300, 400]))
    m.ev("many rules")
    body(m, rng, p, "many")


SCENARIOS = {"general": (general_case, 1000, 14000), "many": (many_case, 32, 300)}
REQUIRED = {"weights:equal": 250, "weights:series": 250, "weights:attribute": 40, "stacked": 150, "rule by rule": 300, "stored": 150, "new data": 300,
            "no usable weight": 10, "recomputed": 100, "many rules": 12, "rows with a tie": 200, "NaN prediction active": 20, "no active row": 20}
