"""C31: threads that share activations, rules and rule sets without changing them get what one thread alone gets."""
import math
import random
from copy import copy

import numpy as np
import pandas as pd

from ruleskit import Activation, HyperrectangleCondition, Rule, RuleSet

from .. import env, gen, limits, ref, rs, votes
from ..core import same
from ..sched import Schedule
from .c01 import VIEWS, expected as view_expected, norm as view_norm, read
from .c02 import MULTI, OPS
from .c03 import STATS

RULE = ("2-4 real threads under a seeded scheduler that passes the turn at lines or at single bytecodes of the library; they read, combine and copy shared "
        "activations in every storage form, evaluate and predict with shared rules and sets on shared data, save them, and build, fit and evaluate objects of "
        "their own, in memory and in files; every result is compared with the sequential reference, and settings, shared objects and foreign files with "
        "those before; non-trivial: the turn passed inside the library (distinct by sequence of switches)")
ASSUMPTIONS = ["no thread changes a shared object or a setting", "profiling times and counters are free to change"]


def frozen_files(names):
    return {n: (env.TMP / n).read_bytes() for n in names if (env.TMP / n).exists()}


def judge(m, plans, out, err, ctx):
    for i, plan in enumerate(plans):
        if err[i] is not None:
            m.fail("a thread failed though nothing it uses was changed", thread=i, got=repr(err[i]), steps=[n for n, _, _ in plan], at=_tb(err[i]), **ctx)
        for (name, _, ok), got in zip(plan, out[i] or []):
            m.ev("judged in a thread")
            m.ev("thread:" + name.split(" ")[0])
            res = ok(got)
            m.check(res is True, f"a thread got another result than alone: {name}", thread=i, got=got, expected=res, **ctx)


def _tb(e):
    import traceback
    return [f"{f.filename}:{f.lineno} {f.name}" for f in traceback.extract_tb(e.__traceback__)][-4:]


def run(m, rng, plans, tag, ctx, watch):
    sch = Schedule(random.Random(rng.random()), rng.choice([0.005, 0.02, 0.05, 0.2, 0.5]), opcodes=rng.random() < 0.5)
    before, flags = watch(), env.settings()
    out, err = sch.run([lambda plan=plan: [f() for _, f, _ in plan] for plan in plans])
    ctx = dict(ctx, plans=[[n for n, _, _ in p] for p in plans], switches=sch.where[-12:], n_switches=sch.switches, opcodes=sch.opcodes, p=sch.p)
    judge(m, plans, out, err, ctx)
    m.check(env.settings() == flags, "threads that only read changed the settings", before=flags, after=env.settings(), **ctx)
    after = watch()
    m.check(rs.diff(after, before, tol=1e-12) is None, "threads that only read changed a shared object", diff=rs.diff(after, before, tol=1e-12), **ctx)
    m.ev("switches", sch.switches)
    m.ev("points", sch.points)
    m.ev("bytecode schedules" if sch.opcodes else "line schedules")
    if sch.free:  # the threads had to wait for each other: not scheduled here
        m.ev("switches", 100)
        m.nontrivial(tag, "free", str(ctx["plans"]))
    if sch.switches:
        m.nontrivial(tag, tuple(sch.where))
        for w in sch.where:
            m.state(w[2], w[3])
    m.sample(dict(what=tag, threads=len(plans), switches=sch.switches, points=sch.points, plans=ctx["plans"]))


def eq(e, tol=1e-12):
    return lambda got: True if same(got, e, tol) else e


def activation_case(m, rng):
    n = gen.length(rng, big=False)
    cfg = env.rand_act_cfg(rng, force_stat=rng.random() < 0.2)
    env.apply_act_cfg(cfg)
    vs = [gen.vector(rng, n) for _ in range(rng.randint(1, 4))]
    acs, forms = [], []
    for v in vs:
        a, f, kw = gen.activation(rng, v)
        acs.append(a)
        forms.append((f, kw.get("to_file"), kw.get("lasy")))
    if rng.random() < 0.3:
        cfg = env.rand_act_cfg(rng, force_stat=False)
        env.apply_act_cfg(cfg)

    def step():
        i, j = rng.randrange(len(vs)), rng.randrange(len(vs))
        k = rng.choice(["view", "view", "view", "stat", "op", "op", "multi", "copy", "new", "rel"])
        a, b, v, w = acs[i], acs[j], vs[i], vs[j]
        if k == "view":
            o = rng.choice(list(VIEWS))
            return f"view {o} {i}", lambda: view_norm(o, read(a, o)), eq(view_expected(v, o))
        if k == "stat":
            o = rng.choice(list(STATS))
            return f"stat {o} {i}", lambda: getattr(a, o), eq(STATS[o](v))
        if k == "op":
            o = rng.choice(list(OPS))
            f, g = OPS[o]
            return f"op {i} {o} {j}", lambda: gen.vec_of(f(a, b)), eq(g(v, w))
        if k == "multi":
            o = rng.choice(list(MULTI))
            f, g = MULTI[o]
            idx = [rng.randrange(len(vs)) for _ in range(rng.randint(1, 4))]
            return f"multi {o} {idx}", lambda: gen.vec_of(f([acs[t] for t in idx])), eq(g([vs[t] for t in idx]))
        if k == "copy":
            return f"copy {i}", lambda: gen.vec_of(copy(a)), eq(v)
        if k == "new":
            x = gen.vector(rng, n)
            to_file = rng.random() < 0.7
            drop = rng.random() < 0.4

            def make():
                t = Activation(np.array(x, dtype=np.ubyte), to_file=to_file)
                r = [gen.vec_of(t), t.nones]
                if drop:
                    t.delete()
                else:
                    r[0] = gen.vec_of(t)
                return r
            return "new" + (" deleted" if drop else ""), make, eq([x, sum(x)])
        if rng.random() < 0.5:
            return f"rel {i} in {j}", lambda: bool(a in b), eq(ref.contains(w, v))
        return f"rel correlation {i} {j}", lambda: a.get_correlation(b), eq(ref.correlation(v, w))

    plans = [[step() for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(2, 4))]
    mine = sorted(p.name for p in env.TMP.iterdir())
    run(m, rng, plans, "activations", dict(vectors=["".join(map(str, v[:60])) for v in vs], n=n, forms=forms, flags=env.cfg_key(cfg)),
        lambda: dict(files=[repr(t) for t in sorted(frozen_files(mine).items())]))
    for a, v in zip(acs, vs):
        m.check(gen.vec_of(a) == v and a.nones == sum(v) and len(a) == n, "after the threads, a shared activation is another vector", got=gen.vec_of(a), expected=v)


def set_case(m, rng):
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, n=rng.choice([2, 5, 13, 40]), k=rng.choice([1, 2, 3, 5]), pool=rng.choice(gen.PLAIN_LABELS) if kind == "cls" else None)
    env.apply_act_cfg(env.rand_act_cfg(rng, force_stat=False))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    RuleSet.STACKED_FIT = rng.random() < 0.5
    stack = rng.random() < 0.5
    s = p.ruleset(stack_activation=stack)
    xs, y = p.data()
    s.fit(y=y, xs=xs)
    boxes = list(p.boxes)
    preds = [p.expected(i)["prediction"] for i in range(len(boxes))]
    q = rs.Problem(rng, kind, n=rng.choice([1, 3, 8, 21]), like=p)
    x2, y2 = q.data()
    acts, acts0 = [b.evaluate(q.rows) for b in boxes], p.acts()
    km = dict(criterion_method="mse") if kind == "reg" else {}

    def agree(e):
        if kind == "reg":
            return lambda got: True if same(got, e, 1e-9) else e
        return lambda got: True if votes.classes_equal([math.nan if g == "nan" else g for g in got], e) else e

    def total(a):
        return ref.predict_reg(a, preds) if kind == "reg" else ref.predict_cls(a, preds)

    def step(t):
        i = rng.randrange(len(boxes))
        r, act = s[i], acts[i]
        k = rng.choice(["predict", "predict", "predict stored", "rule predict", "evaluate", "rule evaluate", "condition", "text", "in", "slice", "and", "own rule", "own set",
                        "weighted", "weighted", "weighted", "save", "attributes", "eval copy"])
        if k == "predict":
            return "predict", lambda: rs.norm(s.predict(x2)), agree(total(acts))
        if k == "predict stored":
            return "predict stored", lambda: rs.norm(s.predict()), agree(total(acts0))
        if k == "weighted":
            stored = rng.random() < 0.3
            w, wl, _ = votes.make_weights(rng, list(s), [], dyadic=kind == "cls")
            a = acts0 if stored else acts
            fn = (lambda: rs.norm(s.predict(weights=w))) if stored else (lambda: rs.norm(s.predict(x2, weights=w)))
            if not any(v and not ref.isnan(v) and any(a[k]) and not ref.isnan(preds[k]) for k, v in enumerate(wl)):
                return "predict", lambda: rs.norm(s.predict(x2)), agree(total(acts))
            e = ref.predict_reg(a, preds, wl) if kind == "reg" else ref.predict_cls(a, preds, wl, stacked=RuleSet.STACKED_FIT and stack)
            return "weighted" + (" stored" if stored else ""), fn, agree(e)
        if k == "rule predict":
            return f"rule predict {i}", lambda: rs.norm(r.predict(x2)), agree([preds[i] if a else math.nan for a in act])
        if k == "evaluate":
            return "evaluate", lambda: gen.vec_of(s.evaluate(x2)), eq(ref.n_or(acts))
        if k == "rule evaluate":
            return f"rule evaluate {i}", lambda: gen.vec_of(r.evaluate_activation(x2)), eq(act)
        if k == "condition":
            return f"condition {i}", lambda: gen.ints(r.condition.evaluate(x2)), eq(act)
        if k == "text":
            e = str(r.condition)
            return f"text {i}", lambda: str(r.condition), eq(e)
        if k == "in":
            return f"in {i}", lambda: r in s, eq(True)
        if k == "slice":
            return "slice", lambda: [id(t) for t in s[i:]], eq([id(t) for t in list(s)[i:]])
        if k == "and":
            j = rng.randrange(len(boxes))
            o = s[j]
            exp = ref.AND(acts[i], acts[j])
            return f"and {i} {j}", lambda: gen.ints((r.condition & o.condition).evaluate(x2)), eq(exp)
        if k == "own rule":
            c = gen.condition(rng, boxes[i])
            e = rs.expect_fit(kind, boxes[i], q.rows, q.y)

            def fit():
                t = rs.CLS[kind](c)
                t.fit(y=y2, xs=x2)
                return [gen.ints(t.activation), rs.norm(t.prediction), t.coverage]
            return f"own rule {i}", fit, lambda got: True if got[0] == e["activation"] and same(got[1], e["prediction"]) and same(got[2], e["coverage"]) else e
        if k == "own set":
            cs = [gen.condition(rng, b) for b in boxes]
            es = [rs.expect_fit(kind, b, q.rows, q.y) for b in boxes]

            def fit_all():
                t = RuleSet([rs.CLS[kind](c) for c in cs], stack_activation=stack)
                t.fit(y=y2, xs=x2)
                return [[gen.ints(z.activation) for z in t], [rs.norm(z.prediction) for z in t], gen.vec_of(t.activation)]
            exp = [[e["activation"] for e in es], [e["prediction"] for e in es], ref.n_or(acts)]
            return "own set", fit_all, lambda got: True if got[0] == exp[0] and all(same(a, b) for a, b in zip(got[1], exp[1])) and got[2] == exp[2] else exp
        if k == "save":
            f = env.AUX / f"thread {t} {rng.random()}.csv"

            def save():
                s.save(f)
                z = RuleSet()
                z.load(f)
                return [[rs.box_of(u).key for u in z], [rs.norm(u.prediction) for u in z]]
            exp = [[b.key for b in boxes], preds]
            return "save", save, lambda got: True if got[0] == exp[0] and all(same(a, b) for a, b in zip(got[1], exp[1])) else exp
        if k == "attributes":
            a0 = acts0[i]
            return f"attributes {i}", lambda: [gen.ints(r.activation), r.nones, r.coverage, r.train_set_size], eq([a0, sum(a0), sum(a0) / len(a0), p.n])
        z = copy(r)
        e = rs.expect_fit(kind, boxes[i], q.rows, q.y)

        def refit():
            z.fit(y=y2, xs=x2)
            return [gen.ints(z.activation), rs.norm(z.prediction)]
        return f"eval copy {i}", refit, lambda got: True if got[0] == e["activation"] and same(got[1], e["prediction"]) else e

    plans = [[step(t) for _ in range(rng.randint(1, 3))] for t in range(rng.randint(2, 4))]
    run(m, rng, plans, "sets", dict(problem=p.describe(), data=q.rows[:8], stack=stack, stacked=RuleSet.STACKED_FIT, local=Rule.LOCAL_ACTIVATION),
        lambda: dict(set=rs.set_view(s), x=repr(rs.freeze(x2)), y=repr(rs.freeze(y2))))


def own_case(m, rng):
    """Everything private to its thread; only the library and the directory are shared."""
    env.apply_act_cfg(env.rand_act_cfg(rng, force_stat=rng.random() < 0.2))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.7
    RuleSet.STACKED_FIT = rng.random() < 0.5
    plans = []
    for t in range(rng.randint(2, 3)):
        kind = rng.choice(["reg", "cls"])
        p = rs.Problem(rng, kind, n=rng.choice([2, 5, 13]), k=rng.choice([1, 2, 3]), pool=rng.choice(gen.PLAIN_LABELS) if kind == "cls" else None)
        q = rs.Problem(rng, kind, n=rng.choice([2, 5]), like=p)
        xs, y = p.data()
        x2, y2 = q.data()
        s = p.ruleset(stack_activation=rng.random() < 0.4)
        km = dict(criterion_method="mse") if kind == "reg" else {}
        exp = [[e["activation"] for e in map(p.expected, range(len(p.boxes)))], [e["prediction"] for e in map(p.expected, range(len(p.boxes)))], [b.evaluate(q.rows) for b in p.boxes]]

        def history(s=s, xs=xs, y=y, x2=x2, y2=y2, km=km, reseed=rng.random() < 0.3):
            if reseed:
                random.seed(1)
            s.fit(y=y, xs=xs)
            a = [gen.ints(r.activation) for r in s]
            pr = [rs.norm(r.prediction) for r in s]
            s.eval(y=y2, xs=x2, keep_new_activations=True, **km)
            b = [gen.ints(r.activation) for r in s]
            s.del_activations()
            return [a, pr, b]
        plans.append([("own history", history, lambda got, exp=exp: True if got[0] == exp[0] and got[2] == exp[2] and all(same(a, b) for a, b in zip(got[1], exp[1])) else exp)])
    run(m, rng, plans, "own", dict(local=Rule.LOCAL_ACTIVATION, stacked=RuleSet.STACKED_FIT), lambda: {})


def judged_case(m, rng):
    """Rules of their own, judged by the thresholds of the class, which all threads read."""
    env.apply_act_cfg(env.rand_act_cfg(rng, force_stat=False))
    kind = rng.choice(["reg", "cls"])
    probs = [rs.Problem(rng, kind, n=rng.choice([3, 8, 21]), k=rng.choice([1, 2]), pool=rng.choice(gen.PLAIN_LABELS) if kind == "cls" else None, nan_y=False)
             for _ in range(rng.randint(2, 4))]
    exps = [[p.expected(i) for i in range(len(p.boxes))] for p in probs]
    lim = {"coverage": {"min": limits.between(rng, [e["coverage"] for es in exps for e in es])}}
    if kind == "reg" and rng.random() < 0.5:
        lim["prediction"] = {rng.choice(["min", "max"]): limits.between(rng, [e["prediction"] for es in exps for e in es])}
    if any(limits.close_to_limit(lim, e) for es in exps for e in es):
        return
    rs.CLS[kind].SET_THRESHOLDS(limits.write(lim))
    plans = []
    for p, es in zip(probs, exps):
        xs, y = p.data()
        rules = p.rules()
        bad = [limits.failing(lim, e) for e in es]

        def judge_all(rules=rules, xs=xs, y=y):
            for r in rules:
                r.fit(y=y, xs=xs)
            return [(bool(r.good), r.bad_because) for r in rules]
        plans.append([("judged", judge_all, lambda got, bad=bad: True if all(g == (not b) and (not b or w in b) for (g, w), b in zip(got, bad)) else bad)])
        m.ev("judged bad", sum(map(bool, bad)))
        m.ev("judged good", sum(not b for b in bad))
    run(m, rng, plans, "judged", dict(limits=lim, kind=kind), lambda: {})


SCENARIOS = {"judged": (judged_case, 200, 3000), "activations": (activation_case, 700, 12000), "sets": (set_case, 260, 4000), "own": (own_case, 140, 2000)}
REQUIRED = {"switches": 20000, "line schedules": 250, "bytecode schedules": 250, "judged in a thread": 2000, "thread:view": 500, "thread:op": 300, "thread:multi": 100,
            "thread:new": 100, "thread:copy": 100, "thread:predict": 80, "thread:own": 100, "thread:save": 20, "thread:evaluate": 20, "thread:weighted": 60, "thread:judged": 200, "judged bad": 60, "judged good": 100}
