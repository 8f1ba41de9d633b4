"""C24: a rule exposes and updates its condition's and activation's attributes; containment and correlation of rules."""
import math

import numpy as np

from ruleskit import HyperrectangleCondition, Rule, RegressionRule, ClassificationRule

from .. import env, gen, ref, rs
from ..core import same

RULE = ("seeded histories of attribute reads and writes on rules (fitted or not, with or without activation, any storage), against a model of "
        "the condition and the vector; pairs of fitted rules over different features for containment and correlation; non-trivial: several "
        "features, or overlapping but different activations")
ASSUMPTIONS = ["predictions of correlated rules are not zero", "values are assigned as lists, tuples or their text"]
STATS = {"nones": lambda v: sum(v), "entropy": ref.entropy, "rel_entropy": lambda v: ref.entropy(v) / len(v),
         "raw": lambda v: v, "length": len, "ones": lambda v: [i for i, x in enumerate(v) if x], "as_integer": ref.integer}


def text_of(model):
    return "If " + " AND ".join(f"{n} in [{lo}, {hi}]" for n, _, lo, hi in model) + " Then "


def attributes_case(m, rng):
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=1, nan_y=False, p_impossible=0.1)
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    c = gen.condition(rng, p.boxes[0])
    C = rs.CLS[kind]
    act = p.boxes[0].evaluate(p.rows)
    how = rng.choice(["bare", "given", "fitted", "fitted"])
    given = None
    if how == "given":
        given = gen.activation(rng, act)[0]
        r = C(c, given)
    else:
        r = C(c)
        if how == "fitted":
            xs, y = p.data()
            r.fit(y=y, xs=xs)
    vec = None if how == "bare" else act
    model = list(zip(list(c.features_names), [int(i) for i in c.features_indexes], list(c.bmins), list(c.bmaxs)))
    m.check(ref.Box(model).key == p.boxes[0].key, "the condition is not the given box", got=model)
    d = len(model)
    trace = []

    def look():
        ctx = dict(history=[str(t) for t in trace], how=how, model=[str(t) for t in model])
        for owner, what in ((r, "rule"), (r.condition, "condition of the rule")):
            got = list(zip(list(owner.features_names), [int(i) for i in owner.features_indexes], list(owner.bmins), list(owner.bmaxs)))
            m.check(got == model, f"{what}: features or bounds are not those assigned", got=[str(t) for t in got], **ctx)
        m.check(len(r) == d and len(r.condition) == d, "length of the rule", **ctx)
        m.check(bool(r.impossible) == ref.Box(model).impossible, "'impossible' read on the rule", got=r.impossible, **ctx)
        m.check(str(r).startswith(text_of(model)), "str() of the rule does not show its condition", got=str(r),
                expected=text_of(model), **ctx)
        twin = C(HyperrectangleCondition(features_indexes=[t[1] for t in model], bmins=[t[2] for t in model], bmaxs=[t[3] for t in model],
                                         features_names=[t[0] for t in model], sort=rng.random() < 0.5))
        m.check(r == twin and twin == r and hash(r) == hash(twin), "the rule does not equal a new rule with the same condition", **ctx)
        n, i, lo, hi = model[0]
        off = C(HyperrectangleCondition(features_indexes=[t[1] for t in model], bmins=[-12345.5] + [t[2] for t in model[1:]],
                                        bmaxs=[t[3] for t in model], features_names=[t[0] for t in model]))
        m.check(not (r == off), "the rule equals a rule with another condition", **ctx)
        if all(t[1] < p.d for t in model):
            rows = [list(rng.choice(p.rows)) for _ in range(4)] + [[rng.choice(gen.GRID) for _ in range(p.d)] for _ in range(4)]
            m.ev("evaluations after writes" if trace else "evaluations")
            a = gen.ints(r.condition.evaluate(np.array(rows, dtype=float)))
            b = gen.ints(r.evaluate_activation(np.array(rows, dtype=float)).raw)
            e = ref.Box(model).evaluate(rows)
            m.check(a == e, "the condition is not evaluated with the assigned values", got=a, expected=e, rows=rows, **ctx)
            m.check(b == e, "the rule is not evaluated with the assigned values", got=b, expected=e, rows=rows, **ctx)
        if vec is not None:
            for s in rng.sample(sorted(STATS), 3):
                m.ev("stat read:" + s)
                got = getattr(r, s)
                got = gen.ints(got) if s == "raw" else [int(t) for t in got] if s == "ones" else got
                m.check(same(got, STATS[s](vec), 1e-12), f"{s} read on the rule is not that of its activation", got=got,
                        expected=STATS[s](vec), vector=vec, **ctx)
            m.check(same(r.coverage, sum(vec) / len(vec)), "coverage of the rule", got=r.coverage, **ctx)
            m.check(gen.ints(r.activation) == vec, "activation of the rule changed", got=gen.ints(r.activation), vector=vec, **ctx)
        else:
            m.check(r.activation is None, "activation of a rule that has none", **ctx)
            m.ev("no activation")
            for s in ("nones", "entropy"):
                m.raises(AttributeError, lambda: getattr(r, s), f"{s} of a rule without activation", **ctx)

    look()
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(["features_names", "features_indexes", "bmins", "bmaxs", "unknown", "bad length", "duplicated", "private", "prediction"])
        trace.append(op)
        m.ev("op:" + op)
        if op in ("features_names", "features_indexes", "bmins", "bmaxs"):
            if op == "features_names":
                val = rng.sample(rs.SAFE, d)
            elif op == "features_indexes":
                val = rng.sample(range(p.d), d) if rng.random() < 0.7 else rng.sample(range(12), d)
            else:
                val = [gen.bound(rng, p.rows, t[1] if t[1] < p.d else 0) for t in model]
            form = rng.choice(["list", "list", "text"])
            trace[-1] = (op, val, form)
            value = str(val) if form == "text" and all(not isinstance(x, float) or math.isfinite(x) for x in val) else list(val)
            setattr(r, op, value)
            k = ["features_names", "features_indexes", "bmins", "bmaxs"].index(op)
            model = [tuple(v if j == k else t[j] for j in range(4)) for t, v in zip(model, val)]
        elif op == "unknown":
            name = rng.choice(["feature_names", "bmin", "no_such_thing", "predictions", "threshold", "colour"])
            m.raises(AttributeError, lambda: getattr(r, name), "an unknown attribute can be read", name=name)
            m.raises(AttributeError, lambda: setattr(r, name, 1), "an unknown attribute can be set", name=name)
            m.raises(AttributeError, lambda: getattr(r, name), "an unknown attribute exists after a refused assignment", name=name)
            m.check(not hasattr(r, name), "hasattr of an unknown attribute", name=name)
        elif op == "bad length":
            name = rng.choice(["features_names", "features_indexes", "bmins", "bmaxs"])
            k = d + rng.choice([1, 2])
            m.raises(Exception, lambda: setattr(r, name, [f"n{j}" for j in range(k)] if name == "features_names" else list(range(k))),
                     "values of the wrong length accepted through a rule", name=name)
        elif op == "duplicated" and d > 1:
            name = rng.choice(["features_names", "features_indexes"])
            m.raises(Exception, lambda: setattr(r, name, ["z"] * d if name == "features_names" else [1] * d),
                     "duplicated features accepted through a rule", name=name)
        elif op == "prediction":  # attributes of the rule itself are not those of the condition
            before = rs.view(r)
            m.raises(AttributeError, lambda: setattr(r, "good", False) if rng.random() < 0.5 else setattr(r, "activation", vec),
                     "a read-only attribute of the rule can be set")
            m.check(rs.diff(before, rs.view(r)) is None, "a refused assignment changed the rule")
        look()
    if given is not None:
        for what in ("kept", "deleted"):
            for a in [a for a in ("length", "data", "data_format", "optimize", "to_file", "loaded", "lasy") if hasattr(given, a)]:
                x, e = getattr(r, a), getattr(given, a)
                m.ev("attribute of the activation, " + what)
                m.check(x is e or repr(x) == repr(e), "an attribute of the activation read on the rule is another", attribute=a, got=x, expected=e, when=what)
            r.del_activation()
    m.state(kind, how, d, tuple(t if isinstance(t, str) else t[0] for t in trace))
    if d > 1:
        m.nontrivial(model, [str(t) for t in trace])
    m.sample(dict(how=how, model=[str(t) for t in model], history=[str(t) for t in trace]))


def empty_case(m, rng):
    C = rng.choice([RegressionRule, ClassificationRule, Rule])
    r = C()
    m.ev("empty rules")
    m.check(r.activation is None and r.condition is None and r.prediction is None and str(r) == "empty rule", "an empty rule is not empty")
    for name in ("bmins", "nones", "features_names", "whatever"):
        m.raises(AttributeError, lambda: getattr(r, name), "attribute of an empty rule", name=name)
        m.raises(AttributeError, lambda: setattr(r, name, [1]), "setting an attribute of an empty rule", name=name)
    m.state("empty", C.__name__)


def pair_case(m, rng):
    kind = rng.choice(["reg", "reg", "cls"])
    pool = rng.choice([[-1, 1], [-2, 3, 5], [1, 2], [0.5, -1.5]]) if kind == "cls" else None
    p = rs.Problem(rng, kind, k=rng.choice([2, 3, 4, 6]), nan_y=False, pool=pool, p_impossible=0.02)
    if rng.random() < 0.5:  # nested boxes over more features
        b = p.boxes[0]
        free = [j for j in range(p.d) if j not in [i for _, i, _, _ in b.items]]
        items = b.items
        if free:
            j = rng.choice(free)
            items = items + [(p.names[j], j, gen.bound(rng, p.rows, j), rng.choice([100.0, gen.bound(rng, p.rows, j)]))]
        else:
            n, i, lo, hi = items[0]
            items[0] = (n, i, lo, (lo + hi) / 2 if math.isfinite(lo + hi) else hi)
        p.boxes.append(ref.Box(items))
    if kind == "reg" and rng.random() < 0.1:  # the product of two predictions may underflow or overflow
        f = rng.choice([2.0 ** -600, 2.0 ** 500])
        p.y = [v * f if rng.random() < 0.9 else v for v in p.y] if f < 1 else [v * f for v in p.y]
        m.ev("extreme predictions")
    xs, y = p.data()
    rules = []
    for b in p.boxes:
        env.apply_act_cfg(env.rand_act_cfg(rng))
        Rule.LOCAL_ACTIVATION = rng.random() < 0.5
        r = rs.CLS[kind](gen.condition(rng, b))
        r.fit(y=y, xs=xs)
        rules.append(r)
    vecs = p.acts()
    for i, a in enumerate(rules):
        for j, b in enumerate(rules):
            e = ref.contains(vecs[i], vecs[j])
            ctx = dict(a=vecs[i], b=vecs[j], features=(list(a.features_names), list(b.features_names)))
            m.ev("containment")
            m.ev(f"containment {e}, {'same' if len(a) == len(b) else 'other'} number of features")
            m.check((b in a) == e, "'b in a' of rules is not 'all points of b are points of a'", got=b in a, expected=e, **ctx)
            pa, pb = a.prediction, b.prediction
            if ref.isnan(pa) or ref.isnan(pb) or pa == 0 or pb == 0:
                continue
            sign = math.copysign(1, pa) * math.copysign(1, pb)
            m.ev("correlation")
            m.ev(f"correlation sign {sign:+.0f}, {'same' if len(a) == len(b) else 'other'} number of features")
            m.check(same(a.get_correlation(b), ref.correlation(vecs[i], vecs[j]) * sign),
                    "correlation of rules is not the fraction of equal points times the signs", got=a.get_correlation(b),
                    expected=ref.correlation(vecs[i], vecs[j]) * sign, predictions=(pa, pb), **ctx)
            m.state("pair", len(a), len(b), e, sign)
            if vecs[i] != vecs[j]:
                m.nontrivial(vecs[i], vecs[j], str((pa, pb)))
    for r, v in zip(rules, vecs):
        m.check(gen.ints(r.activation) == v, "comparing rules changed an activation")
    bare = rs.CLS[kind](gen.condition(rng, p.boxes[0]))
    m.check(not (bare in rules[0]) and not (rules[0] in bare), "a rule without activation contains or is contained")


def big_pair_case(m, rng):
    """Rules over more points than 16 bits count, each stored in its own way."""
    n = rng.choice([65536, 65537, 70000, 100000])
    vecs = [gen.big_vector(rng, n)]
    vecs.append(gen.big_vector(rng, n) if rng.random() < 0.6 else [x if rng.random() > 1e-4 else 0 for x in vecs[0]])
    kind = rng.choice(["reg", "cls"])
    rules = []
    for k, v in enumerate(vecs):
        env.apply_act_cfg(env.rand_act_cfg(rng))
        c = HyperrectangleCondition([0], bmins=[k], bmaxs=[k + 1])
        r = rs.CLS[kind](c, gen.activation(rng, v)[0])
        r.calc_prediction(np.where(np.array(v) > 0, rng.choice([-1, 2]), rng.choice([-1, 2])))
        rules.append(r)
    for i, a in enumerate(rules):
        for j, b in enumerate(rules):
            e = ref.contains(vecs[i], vecs[j])
            m.check((b in a) == e, "'b in a' of large rules is not 'all points of b are points of a'", got=b in a, expected=e, n=n)
            pa, pb = a.prediction, b.prediction
            if ref.isnan(pa) or ref.isnan(pb) or pa == 0 or pb == 0:
                continue
            e = ref.correlation(vecs[i], vecs[j]) * math.copysign(1, pa) * math.copysign(1, pb)
            m.ev("large pairs")
            m.check(same(a.get_correlation(b), e), "correlation of large rules", got=a.get_correlation(b), expected=e, n=n)
            m.state("large pair", n, i, j, a.activation is None)
            m.nontrivial(n, e, sum(vecs[0]), sum(vecs[1]))
    for r, v in zip(rules, vecs):
        m.check(gen.ints(r.activation) == v, "comparing large rules changed an activation")


SCENARIOS = {"large pair": (big_pair_case, 24, 300), "attributes": (attributes_case, 1000, 15000), "pair": (pair_case, 500, 8000), "empty": (empty_case, 20, 30)}
REQUIRED = {"op:features_names": 80, "op:bmins": 80, "op:bmaxs": 80, "op:features_indexes": 80, "op:unknown": 80, "evaluations after writes": 300,
            "no activation": 100, "attribute of the activation, kept": 300, "attribute of the activation, deleted": 300, "containment": 1000, "correlation": 400, "large pairs": 40, "extreme predictions": 15, "containment True, other number of features": 50,
            "containment False, other number of features": 150, "correlation sign -1, other number of features": 30}
