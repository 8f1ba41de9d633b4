"""C09: conditions keep each feature tied to its bounds; equality means same boxes."""
import itertools
import math

import numpy as np

from ruleskit import HyperrectangleCondition, RegressionRule, ClassificationRule

from .. import env, gen, ref
from ..core import short

RULE = ("seeded histories of construction, sort by index or name, valid setters (list or string form), refused setters and AND on conditions, "
        "checked after each step against a list-of-tuples model; and pools of near-identical boxes (permuted features, other indexes, bounds "
        "swapped, shifted by one, -1 vs -2, int vs float) compared pairwise for equality and hash, as conditions and as rules; "
        "non-trivial: at least two features (distinct by final contents and history)")
ASSUMPTIONS = ["the string form of bounds is used for finite bounds only"]


def pic(c):
    return list(zip(c.features_names, [int(i) for i in c.features_indexes], c.bmins, c.bmaxs))


def lens(c):
    return len({len(c.features_names), len(c.features_indexes), len(c.bmins), len(c.bmaxs), len(c)}) == 1


def check_model(m, c, model, ordered, what, **ctx):
    m.check(lens(c), what + ": lists of different lengths", **ctx)
    got = pic(c)
    if ordered:
        m.check(got == model, what + ": entries are not in the expected order or not tied together", got=got, expected=model, **ctx)
    else:
        m.check(sorted(got, key=str) == sorted(model, key=str), what + ": features are not tied to their bounds", got=got, expected=model, **ctx)
    imp = any(lo > hi for _, _, lo, hi in got)
    m.check(bool(c.impossible) == imp, what + ": 'impossible' is wrong", got=c.impossible, expected=imp, entries=got, **ctx)
    for i, (n, j, lo, hi) in enumerate(got):
        for k in (i, i - len(got)):  # from the start or from the end
            m.check(tuple(c[k]) == (n, j, lo, hi), what + ": indexing a condition gives another entry", got=c[k], index=k, **ctx)


def key(order):
    return (lambda t: t[1]) if order == "index" else (lambda t: t[0])


def history_case(m, rng):
    order = rng.choice(["index", "name"])
    HyperrectangleCondition.SORT_ACCORDING_TO = order
    d = rng.randint(1, 6)
    names = rng.sample(gen.NAMES, d)
    idx = rng.sample(range(0, 12), d)
    if rng.random() < 0.3:
        names = [f"X_{i}" for i in idx]
    bd = [(gen.bound(rng), gen.bound(rng)) for _ in range(d)]
    bd = [b if rng.random() < 0.15 or b[0] <= b[1] else b[::-1] for b in bd]
    model = [(n, i, lo, hi) for n, i, (lo, hi) in zip(names, idx, bd)]
    srt = rng.random() < 0.7
    kw = dict(features_indexes=list(idx), bmins=[b[0] for b in bd], bmaxs=[b[1] for b in bd], features_names=list(names), sort=srt)
    if names == [f"X_{i}" for i in idx] and rng.random() < 0.5:
        del kw["features_names"]
    elif idx == list(range(d)) or rng.random() < 0.1:
        kw["features_indexes"] = list(range(d))
        model = [(n, i, lo, hi) for i, (n, _, lo, hi) in enumerate(model)]
        if rng.random() < 0.7:
            kw["features_indexes"] = None
    if rng.random() < 0.2:
        c = HyperrectangleCondition(empty=True)  # filled through its setters
        fill = [("features_names", names), ("features_indexes", [t[1] for t in model]), ("bmins", kw["bmins"]), ("bmaxs", kw["bmaxs"])]
        rng.shuffle(fill)
        for k, v in fill:
            setattr(c, k, list(v))
    else:
        c = HyperrectangleCondition(**kw)
        if srt:
            model = sorted(model, key=key(order))
    trace = [short(kw, 200)]
    check_model(m, c, model, True, "construction", order=order, trace=trace)
    m.ev("constructed")
    wrap = rng.random() < 0.3
    for _ in range(rng.randint(1, 8)):
        op = rng.choice(["sort", "order", "names", "indexes", "bmins", "bmaxs", "bad length", "duplicated", "and"])
        trace.append(op)
        n = len(model)
        ctx = dict(trace=trace, order=order)
        if op == "sort":
            c.sort()
            model = sorted(model, key=key(order))
            check_model(m, c, model, True, "sort", **ctx)
        elif op == "order":
            order = rng.choice(["index", "name"])
            HyperrectangleCondition.SORT_ACCORDING_TO = order
        elif op == "names":
            new = rng.sample(gen.NAMES, n)
            c.features_names = str(new) if rng.random() < 0.5 else list(new)
            model = [(a, i, lo, hi) for a, (_, i, lo, hi) in zip(new, model)]
        elif op == "indexes":
            new = rng.sample(range(20), n)
            c.features_indexes = str(new) if rng.random() < 0.5 else list(new)
            model = [(a, i, lo, hi) for i, (a, _, lo, hi) in zip(new, model)]
        elif op in ("bmins", "bmaxs"):
            new = [gen.bound(rng) for _ in range(n)]
            txt = all(abs(x) < 1e300 for x in new) and rng.random() < 0.5
            setattr(c, op, str(new) if txt else list(new))
            model = [(a, i, x if op == "bmins" else lo, x if op == "bmaxs" else hi) for x, (a, i, lo, hi) in zip(new, model)]
        elif op == "bad length":
            w = rng.choice(["features_names", "features_indexes", "bmins", "bmaxs"])
            k = rng.choice([n + 1, n + 2, n - 1] if n > 1 else [n + 1])
            val = [f"n{j}" for j in range(k)] if w == "features_names" else list(range(k))
            if rng.random() < 0.4:
                val = str(val)
            m.ev("refusal")
            m.raises(Exception, lambda: setattr(c, w, val), f"{w} of the wrong length accepted", value=val, n=n)
        elif op == "duplicated" and n > 1:
            w = rng.choice(["features_names", "features_indexes"])
            val = ["dup"] * n if w == "features_names" else [3] * n
            m.ev("refusal")
            m.raises(Exception, lambda: setattr(c, w, val), f"duplicated {w} accepted", value=val)
        elif op == "and":
            z = c & c
            check_model(m, z, model, False, "a & a", **ctx)
        m.ev("step:" + op)
        check_model(m, c, model, True, op, **ctx)
        if wrap and rng.random() < 0.5:
            r = RegressionRule(c)
            m.check(list(zip(r.features_names, [int(i) for i in r.features_indexes], r.bmins, r.bmaxs)) == model,
                    "a rule does not show its condition's entries", **ctx)
    if rng.random() < 0.5:
        c.normalize_features_indexes()
        m.ev("normalized")
        check_model(m, c, [(a, i, lo, hi) for i, (a, _, lo, hi) in enumerate(model)], True, "normalize_features_indexes", trace=trace)
    m.state(d, order, srt, tuple(trace[1:4]))
    if d > 1:
        m.nontrivial(model, tuple(trace[1:]))
    m.sample(dict(model=model, history=trace[1:]))


def refused_case(m, rng):
    """Constructors refuse duplicates and wrong lengths."""
    d = rng.randint(2, 5)
    names, idx = rng.sample(gen.NAMES, d), rng.sample(range(10), d)
    lo, hi = [0.0] * d, [1.0] * d
    kind = rng.choice(["dup name", "dup index", "bmins", "bmaxs", "names", "indexes"])
    if kind == "dup name":
        names[rng.randrange(1, d)] = names[0]
    elif kind == "dup index":
        idx[rng.randrange(1, d)] = idx[0]
    else:
        lst = {"bmins": lo, "bmaxs": hi, "names": names, "indexes": idx}[kind]
        if rng.random() < 0.5:
            lst.pop()
        else:
            lst.append("extra" if kind == "names" else 99)
    m.ev("refusal")
    m.raises(Exception, lambda: HyperrectangleCondition(features_indexes=idx, bmins=lo, bmaxs=hi, features_names=names,
                                                        sort=rng.random() < 0.5), f"constructor accepted: {kind}", names=names, idx=idx, lo=lo, hi=hi)
    m.state("refused", kind, d)


def equality_case(m, rng):
    d = rng.randint(1, 4)
    names = rng.sample(gen.NAMES, d)
    vals = [-2, -1, 0, 1, 2, -1.0, 0.5, 1.0, -2.0, -0.0, 0.0, np.float64(0.5), np.float64(-2), np.int64(1), float("inf"), float("-inf")]
    base = [(n, i, rng.choice(vals), rng.choice(vals)) for i, n in enumerate(names)]
    pool = [base]
    for _ in range(rng.randint(2, 7)):
        b = list(rng.choice(pool))
        k = rng.choice(["permute", "index", "shift", "swap", "drop", "float", "exchange", "rename", "nearly"])
        j = rng.randrange(len(b))
        n, i, lo, hi = b[j]
        if k == "permute":
            rng.shuffle(b)
        elif k == "index":
            ii = rng.sample(range(20), len(b))
            b = [(t[0], q, t[2], t[3]) for t, q in zip(b, ii)]
        elif k == "shift":
            b[j] = (n, i, lo - 1, hi) if rng.random() < 0.5 else (n, i, lo, hi - 1)
        elif k == "swap":
            b[j] = (n, i, hi, lo)
        elif k == "nearly":
            e = rng.choice([0, 1e-12, 1e-10, 1e-9, 1e-7, 1e-4])

            def near(x):
                if not math.isfinite(x):
                    return rng.choice([1e300, -1e300, 1.7976931348623157e308])
                return math.nextafter(x, rng.choice([math.inf, -math.inf])) if e == 0 else x + rng.choice([-1, 1]) * e * max(1, abs(x))
            b[j] = (n, i, near(lo), hi) if rng.random() < 0.5 else (n, i, lo, near(hi))
            m.ev("nearly equal boxes")
        elif k == "drop" and len(b) > 1:
            b.pop(j)
        elif k == "float":
            t = rng.choice([float, np.float64, lambda x: -x if x == 0 else x])
            b[j] = (n, i, t(lo), t(hi))
        elif k == "exchange" and len(b) > 1:
            q = (j + 1) % len(b)
            b[j], b[q] = (n, i, b[q][2], b[q][3]), (b[q][0], b[q][1], lo, hi)
        elif k == "rename":
            free = [x for x in gen.NAMES if x not in [t[0] for t in b]]
            b[j] = (rng.choice(free), i, lo, hi)
        pool.append(b)
    conds, keys = [], []
    for b in pool:
        HyperrectangleCondition.SORT_ACCORDING_TO = rng.choice(["index", "name"])
        conds.append(HyperrectangleCondition(features_indexes=[t[1] for t in b], bmins=[t[2] for t in b], bmaxs=[t[3] for t in b],
                                             features_names=[t[0] for t in b], sort=rng.random() < 0.7))
        keys.append(frozenset((t[0], t[2], t[3]) for t in b))
    C = rng.choice([RegressionRule, ClassificationRule])
    rules = [C(c) for c in conds]
    for (i, j) in itertools.product(range(len(pool)), repeat=2):
        exp = keys[i] == keys[j]
        m.ev("pairs compared")
        m.ev(f"pairs {'equal' if exp else 'different'}")
        m.check((conds[i] == conds[j]) is exp or bool(conds[i] == conds[j]) == exp, "conditions: equality is not 'same features and bounds'",
                a=pool[i], b=pool[j], expected=exp)
        m.check(bool(rules[i] == rules[j]) == exp, "rules: equality is not 'same features and bounds'", a=pool[i], b=pool[j], expected=exp)
        m.check(bool(conds[i] != conds[j]) != exp, "conditions: != is not the opposite of ==", a=pool[i], b=pool[j])
        if exp:
            m.check(hash(conds[i]) == hash(conds[j]), "equal conditions have different hashes", a=pool[i], b=pool[j])
            m.check(hash(rules[i]) == hash(rules[j]), "equal rules have different hashes", a=pool[i], b=pool[j])
    m.check(len(set(conds)) == len(set(keys)), "a set of conditions does not have one element per box", got=len(set(conds)), expected=len(set(keys)))
    m.check(len(set(rules)) == len(set(keys)), "a set of rules does not have one element per box", got=len(set(rules)), expected=len(set(keys)))
    m.check(conds[0] != "text" and rules[0] != 3 and conds[0] != None and rules[0] != conds[0], "equal to something of another kind")  # noqa
    m.state("eq", d, len(pool), len(set(keys)))
    if d > 1 and len(set(keys)) > 1:
        m.nontrivial("eq", [str(b) for b in pool])


SCENARIOS = {"history": (history_case, 3000, 40000), "refused": (refused_case, 400, 3000), "equality": (equality_case, 1600, 25000)}
REQUIRED = {"constructed": 1000, "normalized": 150, "refusal": 500, "pairs equal": 1000, "pairs different": 1000, "step:sort": 200, "step:bmins": 200}
