"""C18: predicting or evaluating on other data leaves a rule set unchanged."""
import math

import numpy as np
import pandas as pd

from ruleskit import Activation, Rule, RuleSet

from .. import env, gen, ref, rs, votes

RULE = ("seeded fitted rule sets (any storage settings, in-memory raw vectors included, stacked or not); histories of predict, evaluate, "
        "evaluate_stacked_activations, evaluate_self_activation and calc_* tables, each call made twice and once more with equivalent containers, "
        "and of eval with and without keep_new_activations; the full public view of the set and its rules and the callers' data, targets and "
        "weights are compared before and after every call; non-trivial: the other data gives other activations than the stored ones")
ASSUMPTIONS = ["equivalent containers: array, or frame with the same named columns; target array or Series"]


def plain(x):
    if isinstance(x, Activation):
        return gen.ints(x.raw)
    if isinstance(x, pd.DataFrame):
        return dict(columns=[str(c) for c in x.columns], data=[rs.norm(x.iloc[:, i]) for i in range(len(x.columns))])
    if isinstance(x, pd.Series):
        return dict(index=[str(i) for i in x.index], data=[None if v is None or ref.isnan(v) else v for v in rs.norm(x)])
    if isinstance(x, tuple):
        return [plain(t) for t in x]
    return rs.norm(x)


def case(m, rng):
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=rng.choice([1, 2, 3, 4]))
    cfg = env.rand_act_cfg(rng)
    env.apply_act_cfg(cfg)
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    RuleSet.STACKED_FIT = rng.random() < 0.5
    stack = rng.random() < 0.6
    s = p.ruleset(stack_activation=stack)
    xs, y = p.data()
    s.fit(y=y, xs=xs)
    trace = [dict(kind=kind, stack=stack, stacked_fit=RuleSet.STACKED_FIT, settings=env.cfg_key(cfg))]
    cur = p
    last = None
    for _ in range(rng.randint(2, 5)):
        RuleSet.STACKED_FIT = rng.random() < 0.5
        q = rs.Problem(rng, kind, like=p)
        ops = ["predict", "predict", "predict stored", "evaluate", "stacked", "stacked stored", "self", "self stored", "tables", "eval", "eval keep"]
        op = rng.choice(ops)
        if last is not None and rng.random() < 0.35:  # the same objects, with other values
            q, xa, xf, ya, ysr = last
            q = rs.copy_of(q)
            rs.touch(rng, q, xa, xf, ys=[ya, ysr])
            m.ev("data modified by its owner")
        else:
            xa, xf = q.xs("array"), q.xs("frame")
            ya, ysr = q.ys("array"), q.ys("series")
        last = (q, xa, xf, ya, ysr)
        yta, yts = cur.ys("array"), cur.ys("series")
        w = None
        if rng.random() < 0.6:
            w, wl, _ = votes.make_weights(rng, list(s), ["train_set_size"], dyadic=True)
        kw = {} if w is None else dict(weights=w)
        kn = dict(return_nones=True) if rng.random() < 0.3 else {}
        frozen = [rs.freeze(t) for t in (xa, xf, ya, ysr, yta, yts, w)]
        before = rs.set_view(s)
        conf = env.settings()
        trace.append(op)
        m.ev("op:" + op)
        ctx = dict(trace=list(trace), problem=p.describe())
        if op in ("eval", "eval keep"):
            # rows of the new data decide; compared with a twin evaluated with the other container
            km = dict(criterion_method="mse") if kind == "reg" else {}
            keep = op == "eval keep"
            if w is not None and (isinstance(w, str) or not _usable(s, wl, q)):
                kw = {}
            s.eval(y=ya, xs=xa, keep_new_activations=keep, **km, **kw)
            one = rs.set_view(s)
            s.eval(y=ysr, xs=xf, keep_new_activations=keep, **km, **kw)
            two = rs.set_view(s)
            d = rs.diff(one, two)
            m.check(d is None, "eval with equivalent containers (or repeated) gives another result", diff=d, **ctx)
            exp = {k: v for k, v in before.items()}
            exp["criterion"], exp["test_set_size"] = one["criterion"], q.n
            exp["rules"] = [dict(r, criterion=o["criterion"], test_set_size=o["test_set_size"]) for r, o in zip(before["rules"], one["rules"])]
            if keep:
                acts = [b.evaluate(q.rows) for b in p.boxes]
                tot = ref.n_or(acts)
                exp["activation"], exp["coverage"] = tot, sum(tot) / len(tot)
                if exp["table"] is not None:
                    exp["table"] = dict(columns=exp["table"]["columns"], data=acts)
                exp["rules"] = [dict(r, activation=a, coverage=sum(a) / len(a)) for r, a in zip(exp["rules"], acts)]
                cur = q
            d = rs.diff(one, exp)
            m.check(d is None, f"{op} changed something else than it should", diff=d, **ctx)
        else:
            calls = []
            if op == "predict":
                calls = [lambda: s.predict(xa, **kw), lambda: s.predict(xf, **kw)]
            elif op == "predict stored":
                calls = [lambda: s.predict(**kw)] * 2
            elif op == "evaluate":
                calls = [lambda: s.evaluate(xa), lambda: s.evaluate(xf)]
            elif op == "stacked":
                calls = [lambda: s.evaluate_stacked_activations(xa), lambda: s.evaluate_stacked_activations(xf)]
            elif op == "stacked stored":
                calls = [lambda: s.evaluate_stacked_activations()] * 2
            elif op == "self":
                calls = [lambda: s.evaluate_self_activation(xa, **kn), lambda: s.evaluate_self_activation(xf, **kn)]
            elif op == "self stored":
                calls = [lambda: s.evaluate_self_activation(**kn)] * 2
            else:
                table = s.evaluate_stacked_activations(xa)
                tf = rs.freeze(table)
                preds = pd.Series({str(r.condition): r.prediction for r in s})
                again = preds.iloc[::-1] if rng.random() < 0.5 else preds
                horizon = rng.choice([1, 1, 2, 5])
                names = ["calc_predictions", "calc_criterions", "calc_train_set_sizes", "calc_test_set_sizes"]
                if kind == "reg":
                    names += ["calc_stds", "calc_signs", "calc_zscores"]
                t = rng.choice(names)
                if t == "calc_zscores":
                    preds = again
                trace.append(t)
                km = dict(criterion_method="mse") if kind == "reg" else {}
                nones = pd.Series({str(r.condition): sum(b.evaluate(q.rows)) for r, b in zip(s, p.boxes)})
                fn = {
                    "calc_predictions": lambda v: s.calc_predictions(y=v, stacked_activations=table),
                    "calc_criterions": lambda v: s.calc_criterions(y=v, predictions=preds, stacked_activations=table, **km),
                    "calc_train_set_sizes": lambda v: s.calc_train_set_sizes(y=v),
                    "calc_test_set_sizes": lambda v: s.calc_test_set_sizes(y=v),
                    "calc_stds": lambda v: s.calc_stds(y=v, stacked_activations=table),
                    "calc_signs": lambda v: s.calc_signs(predictions=preds),
                    "calc_zscores": lambda v: s.calc_zscores(y=v, predictions=preds, nones=nones, horizon=horizon),
                }[t]
                # the library aligns targets and tables on their index: default indexes here
                yd = pd.Series(list(q.y))
                acts = {str(r.condition): b.evaluate(q.rows) for r, b in zip(s, p.boxes)}
                got = {str(c): gen.ints(table[c]) for c in table.columns}
                m.check(got == acts, "the table of activations is not where the conditions hold", got=got, expected=acts, **ctx)
                calls = [lambda: fn(ya), lambda: fn(yd)]
                m.ev("table:" + t)
                pf, nf = rs.freeze(preds), rs.freeze(nones)
            out = []
            for c in (calls[0], calls[0], calls[1], calls[0]):
                try:
                    r = c()
                except ValueError as e:
                    if not (op.startswith("predict") and kw):
                        raise
                    r = "refused"
                out.append(plain(r))
                spoil(r)  # what was returned is the caller's own
                d = rs.diff(rs.set_view(s), before)
                m.check(d is None, f"{op} changed the rule set", diff=d, **ctx)
            for k, o in enumerate(out[1:]):
                m.check(rs.diff(o, out[0]) is None, f"{op}: repeated or with an equivalent container, the answer differs", first=out[0], other=o,
                        call=k + 1, **ctx)
            if op == "tables":
                m.check(rs.freeze(table) == tf and rs.freeze(preds) == pf and rs.freeze(nones) == nf, "calc_* modified its arguments", **ctx)
        m.check([rs.freeze(t) for t in (xa, xf, ya, ysr, yta, yts, w)] == frozen, f"{op} modified the caller's data", **ctx)
        m.check(env.settings() == conf, f"{op} changed the library settings", **ctx)
        if [b.evaluate(q.rows) for b in p.boxes] != [r["activation"] for r in before["rules"]]:
            m.nontrivial(op, p.rows, q.rows, [b.items for b in p.boxes], str(p.y))
        m.state(kind, op, stack, RuleSet.STACKED_FIT, cfg["STORE_RAW"], Rule.LOCAL_ACTIVATION)
    m.sample(dict(n=p.n, rules=len(p.boxes), history=[str(t) for t in trace]))


def spoil(r):
    for v in r if isinstance(r, tuple) else (r,):
        if isinstance(v, pd.DataFrame):
            v.loc[:, :] = 0
            v["spoilt"] = 1
            v.index = range(7, 7 + len(v))
        elif isinstance(v, pd.Series) and len(v):
            v.iloc[:] = v.iloc[0]
            v.index = range(7, 7 + len(v))
        elif isinstance(v, Activation):
            v.clear()
            v.delete()


def bare_case(m, rng):
    """Rules that have no activation (never fitted, loaded from a file, or deleted) do not get one by being asked about some data."""
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=rng.choice([1, 2, 3, 5]), pool=rng.choice(gen.PLAIN_LABELS) if kind == "cls" else None)
    if not p.boxes:
        return
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    how = rng.choice(["never fitted", "loaded", "loaded", "some deleted", "all deleted"])
    stack = rng.random() < 0.5
    s = p.ruleset(stack_activation=stack if how == "never fitted" else False)
    if how != "never fitted":
        xs, y = p.data()
        s.fit(y=y, xs=xs)
    if how == "loaded":
        f = env.AUX / f"bare_{rng.getrandbits(48)}.csv"
        s.save(f)
        s = RuleSet(stack_activation=stack)
        s.load(f)
    elif how.endswith("deleted"):
        for r in s if how.startswith("all") else rng.sample(list(s), rng.randint(1, len(s))):
            r.del_activation()
    boxes = [rs.box_of(r) for r in s]

    def look():
        return dict(rules=[rs.view(r, None if r.activation_available else [a for a in rs.ALL_CLS if a != "activation"]) for r in s], available=[bool(r.activation_available) for r in s], n=len(s), names=sorted(s.features_names),
                    criterion=rs.norm(s.criterion), sizes=[rs.norm(s.train_set_size), rs.norm(s.test_set_size)])
    before = look()
    m.check(how == "some deleted" or not any(before["available"]), "rules without activation say they have one", how=how)
    trace = [how]
    for _ in range(rng.randint(1, 4)):
        RuleSet.STACKED_FIT = rng.random() < 0.5
        q = rs.Problem(rng, kind, like=p)
        x = q.xs()
        f0 = rs.freeze(x)
        acts = [b.evaluate(q.rows) for b in boxes]
        op = rng.choice(["evaluate", "stacked", "self", "self nones", "rule", "predict"])
        if op == "predict" and how == "never fitted":
            op = "evaluate"
        trace.append(op)
        m.ev("without activation:" + op)
        ctx = dict(trace=list(trace), problem=p.describe(), rows=q.rows[:10])
        if op == "evaluate":
            got, exp = gen.ints(s.evaluate(x).raw), ref.n_or(acts)
        elif op == "stacked":
            t = s.evaluate_stacked_activations(x)
            got, exp = {str(c): gen.ints(t[c]) for c in t.columns}, {str(r.condition): a for r, a in zip(s, acts)}
        elif op == "self":
            got, exp = gen.ints(s.evaluate_self_activation(x).raw), ref.n_or(acts)
        elif op == "self nones":
            a, k = s.evaluate_self_activation(x, return_nones=True)
            got = [gen.ints(a.raw), {str(i): int(v) for i, v in k.items()}]
            exp = [ref.n_or(acts), {str(r.condition): sum(a) for r, a in zip(s, acts)}]
        elif op == "rule":
            i = rng.randrange(len(s))
            got, exp = gen.ints(s[i].evaluate_activation(x).raw), acts[i]
        else:
            got, exp = len(s.predict(x)), len(q.rows)
        m.check(rs.same(got, exp), f"{op} of rules without stored activation is not what their conditions give", got=got, expected=exp, **ctx)
        d = rs.diff(look(), before)
        m.check(d is None, f"{op} changed the rule set", diff=d, **ctx)
        m.check(rs.freeze(x) == f0, f"{op} modified the caller's data", **ctx)
        m.nontrivial("bare", op, how, q.rows, [b.items for b in boxes])
        m.state("bare", kind, how, op, stack, RuleSet.STACKED_FIT)


def _usable(s, wl, q):
    return any(w and not ref.isnan(w) and any(rs.box_of(r).evaluate(q.rows)) and not ref.isnan(r.prediction) for r, w in zip(s, wl))


SCENARIOS = {"history": (case, 700, 12000), "without activation": (bare_case, 300, 4000)}
REQUIRED = {"op:" + o: 40 for o in ["predict", "predict stored", "evaluate", "stacked", "stacked stored", "self", "self stored", "tables", "eval",
                                     "eval keep"]}
REQUIRED.update({"without activation:" + o: 15 for o in ["evaluate", "stacked", "self", "rule", "predict"]})
REQUIRED["data modified by its owner"] = 100
