"""C25: settings and storage choices never change results."""
import random

import numpy as np
import pandas as pd

from ruleskit import Rule, RuleSet, Activation

from .. import env, gen, limits, ref, rs
from .c14 import methods

RULE = ("seeded end-to-end histories (fit, predict, eval, refit, append, +=, +, slicing, sorting, rule AND, comparisons, saving and loading, with "
        "and without thresholds) executed under three to five different configurations of the library; the recorded results of all executions are compared "
        "step by step, and the settings are compared before and after every step; non-trivial: at least two rules active on different rows")
ASSUMPTIONS = ["no duplicated condition in a set", "weighted classification votes are apart (their two forms are described by C17)",
               "the presence of the stacked table itself is the setting, not a result", "targets have no NaN"]


def config(rng, k):
    c = env.rand_act_cfg(rng)
    c["LOCAL"] = rng.random() < 0.5
    c["stack"] = rng.random() < 0.5
    c["STACKED_FIT"] = rng.random() < 0.4
    c["SUB"] = rng.random() < 0.45
    c["DUP"] = rng.random() < 0.2
    if k == 0:  # plain raw vectors in memory
        c.update(WILL_COMPARE=False, STORE_RAW=True, FORCE_STAT=False, NCPUS=1, LOCAL=False, stack=False, STACKED_FIT=False, SUB=False, DUP=False)
    if k == 1:
        c.update(LOCAL=True)
    c["change"] = k > 0 and rng.random() < 0.35  # settings changed between two operations
    return c


def apply(c):
    env.reset_flags()
    env.apply_act_cfg({k: c[k] for k in env.ACT_FLAGS})
    Rule.LOCAL_ACTIVATION = c["LOCAL"]
    RuleSet.STACKED_FIT = c["STACKED_FIT"]
    Rule.COMPUTE_SUBATTRIBUTES = c["SUB"]
    RuleSet.CHECK_DUPLICATED = c["DUP"]


def picture(s, rows=True):
    v = rs.set_view(s)
    v.pop("table")
    v.pop("stack_activation")
    for r, x in zip(s, v["rules"]):
        x["text"] = str(r.condition)
        if r.activation_available:
            x["nones"], x["entropy"], x["len"] = r.nones, r.entropy, r.length
    return v


OPS = ["predict", "predict", "predict new", "predict weights", "eval", "eval stored", "eval keep", "refit", "append", "iadd", "add set", "slice",
       "sort", "sort attr", "and", "compare", "save", "evaluate", "calc", "rule predict", "activation ops"]


def run(plan, p, kind, c, seed, m, lim_path):
    """One execution under configuration c: [(op, result), ...]"""
    rng = random.Random(seed)
    crng = random.Random(seed + 1)
    apply(c)
    rs.CLS[kind].SET_THRESHOLDS(lim_path)
    log = []
    try:
        before = env.settings()
        rules = [rs.CLS[kind](gen.condition(rng, b)) for b in plan["start"]]
        s = RuleSet(rules, stack_activation=c["stack"])
        cur = p
        xs, y = plan["data"]
        out = s.fit(y=y, xs=xs)
        log.append(("fit", dict(set=picture(s), bad=[str(r.condition) for r in out] if out is not None else None)))
        for n, (op, a) in enumerate(plan["steps"]):
            if len(s) == 0:
                break
            if c["change"]:
                apply(config(crng, 2))
                d = env.AUX / f"dir{seed}_{n}"
                d.mkdir(exist_ok=True)
                Activation.DEFAULT_TEMPDIR = d
                before = env.settings()
                m.ev("settings changed midway")
            res = None
            if op == "predict":
                res = rs.norm(s.predict())
            elif op == "predict new":
                res = rs.norm(s.predict(a["data"][0]))
            elif op == "predict weights":
                w = pd.Series({str(r.condition): a["w"][i % len(a["w"])] for i, r in enumerate(sorted(s, key=lambda r: str(r.condition)))})
                try:
                    res = rs.norm(s.predict(a["data"][0] if a["new"] else None, weights=w))
                except ValueError:
                    res = [np.nan]  # nothing active at all may be refused
                if all(ref.isnan(t) for t in res):
                    res = "nothing active"
            elif op == "eval":
                s.eval(y=a["data"][1], xs=a["data"][0], **a["km"])
            elif op == "eval stored":
                s.eval(y=np.array(cur.y), **a["kms"][id(cur)])
            elif op == "eval keep":
                s.eval(y=a["data"][1], xs=a["data"][0], keep_new_activations=True, **a["km"])
                cur = a["q"]
            elif op == "refit":
                s.fit(y=a["data"][1], xs=a["data"][0])
                cur = a["q"]
            elif op in ("append", "iadd", "add set"):
                have = {rs.box_of(r).key for r in s}
                new = []
                for b in a["boxes"]:
                    if b.key not in have:
                        r = rs.CLS[kind](gen.condition(rng, b))
                        r.fit(y=np.array(cur.y), xs=np.array(cur.rows, dtype=float))
                        new.append(r)
                if op == "add set":
                    s = s + RuleSet(new, stack_activation=c["stack"])
                else:
                    for r in new:
                        if op == "append":
                            s.append(r)
                        else:
                            s += r
            elif op == "slice":
                i, j = sorted((a["i"] % (len(s) + 1), a["j"] % (len(s) + 1)))
                t = s[i:j]
                res = picture(RuleSet(list(t), stack_activation=c["stack"])) if j > i else None
            elif op == "sort":
                s.sort(reverse=a["reverse"])
            elif op == "sort attr":
                s.sort(criterion="coverage", reverse=a["reverse"])
            elif op == "and":
                r1, r2 = s[a["i"] % len(s)], s[a["j"] % len(s)]
                if (rs.box_of(r1) & rs.box_of(r2)) is not None:
                    z = r1 & r2
                    res = dict(text=str(z.condition), activation=gen.ints(z.activation), coverage=z.coverage, nones=z.nones, entropy=z.entropy)
            elif op == "compare":
                r1, r2 = s[a["i"] % len(s)], s[a["j"] % len(s)]
                res = [r1 in r2, r2 in r1, r1 == r2, r1 in s]
                if kind == "reg" and r1.prediction != 0 and r2.prediction != 0:
                    res.append(r1.get_correlation(r2))
            elif op == "save":
                f = env.AUX / f"set{len(log)}_{seed}_{id(c)}.csv"
                s.save(f)
                t = RuleSet()
                t.load(f)
                v = picture(t)
                res = dict(loaded=v, prediction=rs.norm(t.predict(np.array(cur.rows, dtype=float))))
            elif op == "evaluate":
                e = s.evaluate(a["data"][0])
                res = gen.ints(e.raw)
            elif op == "calc":
                s.calc_activation(a["data"][0])
                cur = a["q"]
            elif op == "rule predict":
                r = s[a["i"] % len(s)]
                res = [rs.norm(r.predict()), rs.norm(r.predict(a["data"][0]))]
            elif op == "activation ops":
                r1, r2 = s[a["i"] % len(s)], s[a["j"] % len(s)]
                x, z = r1.evaluate_activation(a["data"][0]), r2.evaluate_activation(a["data"][0])
                res = [[gen.ints(t.raw), t.nones, t.entropy, t.as_integer, len(t)] for t in (x & z, x | z, x ^ z, x - z)]
                res += [x.get_correlation(z), x in z, z in x]
            m.ev("op:" + op)
            log.append((op, dict(result=res, set=picture(s))))
            now = env.settings()
            m.check(now == before, "an operation changed the library's settings", op=op, before=before, after=now)
    finally:
        for k in rs.CLS.values():
            k.SET_THRESHOLDS(None)
        env.reset_flags()
    return log


def case(m, rng):
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=rng.choice([3, 4, 6, 8]), plain=True, pool=rng.choice(gen.PLAIN_LABELS) if kind == "cls" else None)
    k = rng.randint(1, len(p.boxes))
    exp = [p.expected(i) for i in range(len(p.boxes))]
    lim = None
    if rng.random() < 0.35:
        lim = limits.draw(rng, kind, exp, p.n, text=p.pool is not None and isinstance(p.pool[0], str))
        if any(limits.close_to_limit(lim, e) for e in exp):
            lim = None
    ops = OPS
    if lim:
        ops = [o for o in OPS if o not in ("eval keep", "refit", "calc")]
    if kind == "cls":
        ops = [o for o in ops if o != "predict weights"]
    plan = dict(start=p.boxes[:k], data=p.data(), steps=[])
    qs = [p]

    def km(t):
        return dict(criterion_method=rng.choice(methods(t))) if kind == "reg" else {}

    for _ in range(rng.randint(3, 9)):
        q = rs.Problem(rng, kind, like=p)
        qs.append(q)
        op = rng.choice(ops)
        plan["steps"].append((op, dict(data=q.data(), q=q, i=rng.randrange(100), j=rng.randrange(100), reverse=rng.random() < 0.5, new=rng.random() < 0.5,
                                       w=[rng.choice([0.25, 0.5, 1.0, 2.0, 3.0]) for _ in range(4)], km=km(q.y),
                                       boxes=rng.sample(p.boxes, rng.randint(1, min(2, len(p.boxes)))))))
    for op, a in plan["steps"]:
        a["kms"] = {id(q): km(q.y) for q in qs}
    cfgs = [config(rng, i) for i in range(rng.choice([3, 3, 4, 5]))]
    seed = rng.getrandbits(32)
    path = limits.write(lim) if lim else None
    logs = []
    for c in cfgs:
        logs.append(run(plan, p, kind, c, seed, m, path))
        m.ev("executions")
    names = [o for o, _ in plan["steps"]]
    for c, log in zip(cfgs[1:], logs[1:]):
        ctx = dict(config={k: str(v) for k, v in c.items()}, steps=names, limits=lim, problem=p.describe())
        for i, (a, b) in enumerate(zip(logs[0], log)):
            m.ev("results compared")
            d = None if a[0] == b[0] else f"{a[0]} / {b[0]}"
            d = d or rs.diff(a[1], b[1])
            m.check(d is None, "results depend on the settings", step=i, op=a[0], diff=d, **ctx)
        m.check(len(log) == len(logs[0]), "histories of different lengths", **ctx)
        m.state(tuple((k, str(v)) for k, v in c.items()))
    if lim and len(logs[0]) and logs[0][0][1]["bad"]:
        m.ev("rules dropped")
    if len({tuple(a) for a in p.acts() if any(a)}) > 1:
        m.nontrivial(p.rows, [b.items for b in p.boxes], str(p.y), names)
    m.sample(dict(kind=kind, n=p.n, steps=names, configurations=len(cfgs), limits=lim))


SCENARIOS = {"history": (case, 700, 10000)}
REQUIRED = {"executions": 500, "settings changed midway": 300, "results compared": 1500, "rules dropped": 20} | {"op:" + o: 20 for o in OPS}
