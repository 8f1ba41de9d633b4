"""C27: deleting activations frees them and keeps everything computed from them."""
import math
import random

from ruleskit import Activation, Rule, RuleSet

from .. import env, gen, ref, rs, votes

RULE = ("seeded fitted rule sets; histories of deleting one rule's activation, all rules', the set's own, recomputing (calc_activation, refit, eval "
        "with recomputation), predicting and evaluating, saving and loading, on files and in memory; after each step the availability, values, files and "
        "predictions of every rule and of the set are compared with a model; non-trivial: at least two rules, some deleted and some not at some point")
ASSUMPTIONS = ["files of activations replaced by recomputation may stay until clean_files", "what is read from a deleted activation may be None or an exception"]

KEPT = {"reg": ["features_names", "features_indexes", "bmins", "bmaxs", "prediction", "std", "zscore", "sign", "criterion", "train_set_size", "coverage", "nones",
                "good"],
        "cls": ["features_names", "features_indexes", "bmins", "bmaxs", "prediction", "criterion", "train_set_size", "coverage", "nones", "good"]}


def files():
    return {p.name for p in env.TMP.iterdir()}


def case(m, rng):
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=rng.choice([1, 2, 3, 5]), pool=rng.choice(gen.PLAIN_LABELS) if kind == "cls" else None)
    if rng.random() < 0.2:  # two rules of the same condition
        p.boxes.append(rng.choice(p.boxes))
        m.ev("same condition twice")
    twice = len({b.key for b in p.boxes}) < len(p.boxes)
    cfg = env.rand_act_cfg(rng)
    env.apply_act_cfg(cfg)
    Rule.LOCAL_ACTIVATION = local = rng.random() < 0.5
    infile = local and not cfg["STORE_RAW"]
    RuleSet.STACKED_FIT = rng.random() < 0.3 and not twice
    s = p.ruleset(stack_activation=rng.random() < 0.3 and not twice)
    xs, y = p.data()
    random.seed(0)
    s.fit(y=y, xs=xs)
    if rng.random() < 0.5:
        s.eval(y=p.ys(), **(dict(criterion_method="mse") if kind == "reg" else {}))
    rows = [p.rows] * len(s)  # rows the activation of each rule stands for
    alive = [True] * len(s)
    own = True
    whole = ref.n_or(p.acts())
    vals = [rs.view(r, KEPT[kind]) for r in s]
    m.check(rs.same(rs.norm(s.ruleset_coverage), sum(whole) / len(whole)), "the set's coverage is wrong after fit", got=s.ruleset_coverage, problem=p.describe())
    trace = []
    mixed = False
    reseed = rng.random() < 0.4  # the names of files given up come again
    steps = rng.randint(2, 8)
    last = None
    for _ in range(steps):
        if reseed:
            random.seed(rng.choice([0, 0, 1]))
        i = rng.randrange(len(s)) if last is None or rng.random() < 0.6 else last
        last = i
        op = rng.choice(["del", "del", "del", "del all", "del own", "again", "calc", "fit", "eval", "new set", "save"])
        trace.append((op, i))
        m.ev("op:" + op)
        ctx = dict(trace=trace, problem=p.describe(), local=local, flags=env.cfg_key(cfg))
        r = s[i]
        before = files()
        if op == "del":
            r.del_activation()
            gone = before - files()
            m.check(len(gone) == (1 if alive[i] and infile else 0), "deleting a rule's activation did not remove exactly its file", gone=gone, **ctx)
            alive[i] = False
        elif op == "del all":
            s.del_activations()
            gone = before - files()
            m.check(len(gone) == (sum(alive) if infile else 0), "deleting all rules' activations did not remove exactly their files", gone=gone, **ctx)
            alive = [False] * len(s)
        elif op == "del own":
            s.del_activation()
            own = False
        elif op == "again":
            if not alive[i]:
                r.del_activation()
                m.check(files() == before, "deleting again removed files", gone=before - files(), **ctx)
                m.ev("deleted again, names reused" if reseed else "deleted again")
        elif op in ("calc", "fit"):
            q = rs.Problem(rng, kind, like=p)
            x2, y2 = q.data()
            if op == "calc":
                r.calc_activation(x2)
            else:
                r.fit(y=y2, xs=x2)
            rows[i], alive[i] = q.rows, True
            e = rs.expect_fit(kind, p.boxes[i], q.rows, q.y)
            if op == "fit":
                new = rs.view(r, KEPT[kind])
                rs.check_fit(m, r, e, kind, "refit after deletion", **ctx)
                vals[i] = new
            else:
                vals[i] = dict(vals[i], coverage=e["coverage"], nones=sum(e["activation"]))
        elif op == "eval":
            q = rs.Problem(rng, kind, like=p)
            x2, y2 = q.data()
            r.eval(y=y2, xs=x2, recompute_activation=True, **(dict(criterion_method="mse") if kind == "reg" else {}))
            rows[i], alive[i] = q.rows, True
            a = p.boxes[i].evaluate(q.rows)
            vals[i] = dict(vals[i], coverage=sum(a) / len(a), nones=sum(a), criterion=rs.norm(r.criterion))
        elif op == "new set":
            if not all(alive):
                t = RuleSet(list(s))  # some activation missing: the set has the rules, and no activation of its own
                m.check([id(x) for x in t] == [id(x) for x in s], "a set of rules without activations lost rules", **ctx)
                q = rs.Problem(rng, kind, like=p)
                check_predict(m, rng, t, p, q, vals, kind, ctx)
        elif op == "save" and all(x is not None for x in [s.train_set_size]):
            f = env.AUX / "saved.csv"
            s.save(f)
            t = RuleSet()
            t.load(f)
            # a loaded set has no stored activations: values saved are those kept
            k = [a for a in KEPT[kind] if a in ("prediction", "std", "zscore", "criterion", "coverage", "features_names", "bmins", "bmaxs")]
            if not (kind == "cls" and isinstance(p.pool[0], str) and p.pool[0] in ("0", "1")):
                d = rs.diff([rs.view(x, k) for x in t], [{a: v[a] for a in k} for v in vals], tol=0)
                m.check(d is None, "saving after deletion loses something", diff=d, **ctx)
        # -------- every rule and the set, or nothing is looked at before the next step
        if op in ("calc", "eval", "del", "again") and len(trace) < steps and rng.random() < 0.4:
            m.ev("not looked at after " + op)
            continue
        for j, x in enumerate(s):
            m.check(bool(x.activation_available) == alive[j], "activation_available is wrong", rule=j, got=x.activation_available, expected=alive[j], **ctx)
            if alive[j]:
                exp = p.boxes[j].evaluate(rows[j])
                m.check(gen.ints(x.activation) == exp, "the activation of a rule was lost or altered by another operation", rule=j, expected=exp, **ctx)
            else:
                try:
                    got = x.activation
                except Exception:  # noqa
                    got = None
                m.check(got is None, "a deleted activation can still be read", got=got, rule=j, **ctx)
                m.ev("deleted rules observed")
            v = rs.view(x, KEPT[kind])
            d = rs.diff(v, vals[j])
            m.check(d is None, "something computed changed or was lost", rule=j, diff=d, **ctx)
        m.check(bool(s.activation_available) == own, "the set's activation_available is wrong", got=s.activation_available, expected=own, **ctx)
        if own:
            m.check(gen.ints(s.activation) == whole, "the set's own activation was lost or altered", **ctx)
        m.check(rs.same(rs.norm(s.ruleset_coverage), sum(whole) / len(whole)), "the set's coverage was lost", got=s.ruleset_coverage, **ctx)
        if rng.random() < 0.5:
            q = rs.Problem(rng, kind, like=p)
            j = rng.randrange(len(s))
            act = p.boxes[j].evaluate(q.rows)
            g = rs.norm(s[j].predict(q.xs("array")))
            e = [vals[j]["prediction"] if a else math.nan for a in act]
            ok = rs.same(g, e) if kind == "reg" else votes.classes_equal([math.nan if t == "nan" else t for t in g], e)
            m.check(ok, "a rule whose activation was deleted predicts otherwise on new data", got=g, expected=e, rule=j, **ctx)
            check_predict(m, rng, s, p, q, vals, kind, ctx)
        mixed |= any(alive) and not all(alive)
        m.state(kind, op, local, sum(alive), len(alive), own)
    if mixed:
        m.nontrivial(str(trace), str(p.rows), str(p.y))
    m.sample(dict(kind=kind, rules=len(s), local=local, steps=[str(t) for t in trace]))


def check_predict(m, rng, s, p, q, vals, kind, ctx):
    old = RuleSet.STACKED_FIT
    RuleSet.STACKED_FIT = False
    try:
        got = rs.norm(s.predict(q.xs()))
    finally:
        RuleSet.STACKED_FIT = old
    acts = [b.evaluate(q.rows) for b in p.boxes]
    preds = [v["prediction"] for v in vals]
    if kind == "reg":
        ok, e = rs.same(got, ref.predict_reg(acts, preds)), ref.predict_reg(acts, preds)
    else:
        e = ref.predict_cls(acts, preds)
        ok = votes.classes_equal(got, e)
    m.check(ok, "a set whose rules lost their activations predicts otherwise on new data", got=got, expected=e, predictions=preds, **ctx)
    m.ev("predictions on new data")


SCENARIOS = {"history": (case, 900, 14000)}
REQUIRED = {"op:del": 300, "op:del all": 100, "op:del own": 100, "op:again": 100, "not looked at after calc": 30, "not looked at after eval": 30, "op:calc": 100, "op:fit": 100, "op:eval": 100, "op:new set": 100,
            "op:save": 100, "same condition twice": 80, "deleted again, names reused": 20, "deleted rules observed": 1000, "predictions on new data": 500}
