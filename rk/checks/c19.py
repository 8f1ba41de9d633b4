"""C19: thresholds accept a rule exactly when every limit on its attribute holds."""
import math
from types import SimpleNamespace

import numpy as np

from ruleskit import Rule, RuleSet, RegressionRule, ClassificationRule, HyperrectangleCondition, Activation
from ruleskit.thresholds import Thresholds

from .. import env, gen, limits, ref, rs

RULE = ("seeded limit files (min/max/equal/different, functions, textual limits, missing coverage, missing file) against attribute values placed at, "
        "just below and just above the limits, NaN, None and methods, asked repeatedly and in random order through Thresholds and through fitted "
        "rules with class-wide and per-rule thresholds; compared with the documented meaning; non-trivial: value equal to a limit or within one unit")
ASSUMPTIONS = ["functions are applied only to values they accept (sqrt of non-negative, log of positive, int of finite)",
               "limits given by name refer to attributes that have a number"]


def near(rng, x):
    return rng.choice([x, x, x, x - 1, x + 1, math.nextafter(x, -math.inf), math.nextafter(x, math.inf), 0, 1, -1, x * 2])


def values_case(m, rng):
    attrs = ["alpha", "beta", "gamma", "coverage", "prediction"]
    many = rng.random() < 0.15
    if many:
        attrs += [f"attribute_{i}" for i in range(rng.randint(5, 25))]
        m.ev("many limits")
    vals, lim = {}, {}
    base = {a: rng.choice([rng.randint(-3, 5), round(rng.uniform(-3, 3), 2), 0, 0.05, 0.5]) for a in attrs}
    for a in attrs:
        r = rng.random()
        vals[a] = None if r < 0.08 else (math.nan if r < 0.14 else base[a])
    for a in rng.sample(attrs, rng.randint(5, len(attrs)) if many else rng.randint(0, 4)):
        d = {}
        v = vals[a]
        num = isinstance(v, (int, float)) and not math.isnan(v)
        if rng.random() < 0.4 and num:
            c = ["abs", "exp", "int"] + (["str"] if a != "coverage" else []) + (["sqrt"] if v >= 0 else []) + (["log"] if v > 0 else [])
            d["arg"] = rng.choice(c)
        x = limits.FUN[d["arg"]](v) if "arg" in d else (v if num else 1)
        kinds = rng.sample(["min", "max", "equal", "different"], rng.choice([1, 1, 2, 3]))
        if d.get("arg") == "str":
            kinds = [k for k in kinds if k in ("equal", "different")] or ["different"]
            x = 1.0
        for k in kinds:
            if rng.random() < 0.2:
                others = [b for b in attrs if isinstance(vals[b], (int, float))]
                if others:
                    d[k] = rng.choice(others)
                    continue
            d[k] = near(rng, x)
        if rng.random() < 0.3:
            d = dict(reversed(list(d.items())))
        lim[a] = d
    path = limits.write(lim)
    show = rng.choice([{}, {}, dict(show=True), dict(show=False)])
    if show.get("show"):
        m.ev("shown")
    t = Thresholds(path if rng.random() < 0.5 else str(path), **show)
    rule = SimpleNamespace(method=lambda: 0, **vals)
    exp_lim = limits.full(lim)
    order = [rng.choice(attrs + ["method", "unknown"]) for _ in range(8)] + attrs
    asked = []
    for a in order:
        asked.append(a)
        if a in ("method", "unknown"):
            e = True
        elif a not in exp_lim:
            e = True
        else:
            e = limits.ok(exp_lim[a], vals[a], vals)
        got = t(a, rule)
        m.ev("asked")
        m.ev("accepted" if e else "refused")
        m.check(bool(got) == e, "a limit is not applied as documented", attribute=a, value=vals.get(a), limits=exp_lim.get(a), values=vals, got=got,
                expected=e, asked=asked)
    # another rule, through the same object, is judged by its own values
    other = dict(vals)
    for a in attrs:
        if isinstance(vals[a], (int, float)) and not math.isnan(vals[a]):
            other[a] = abs(near(rng, vals[a])) if "arg" in lim.get(a, {}) else near(rng, vals[a])
            if lim.get(a, {}).get("arg") == "log" and other[a] <= 0:
                other[a] = 1
    o = SimpleNamespace(method=lambda: 0, **other)
    for a in attrs:
        e = limits.ok(exp_lim[a], other[a], other) if a in exp_lim else True
        got = t(a, o)
        m.ev("asked for another rule")
        m.check(bool(got) == e, "a second rule is not judged by its own values", attribute=a, value=other[a], limits=exp_lim.get(a), values=other, first=vals)
    m.check(rs.same(t.limits, exp_lim), "asking modified the limits", got=t.limits, expected=exp_lim)
    if rng.random() < 0.3:  # the file is rewritten: who reads it now has the new limits, who read it before keeps his
        a = rng.choice([b for b in attrs if b != "coverage"])
        new = {a: {rng.choice(["min", "max", "equal"]): near(rng, base[a])}}
        limits.write(new, path)
        t2 = Thresholds(path)
        v = base[a]
        o2 = SimpleNamespace(**{a: v})
        e = limits.ok(new[a], v, {a: v})
        m.ev("file rewritten")
        m.check(bool(t2(a, o2)) == e, "limits read from a rewritten file are not those it contains", limits=new, value=v, before=lim)
        m.check(rs.same(t2.limits, limits.full(new)), "limits read from a rewritten file are not those it contains", got=t2.limits, expected=limits.full(new))
        m.check(rs.same(t.limits, exp_lim), "rewriting the file changed limits already read", got=t.limits, expected=exp_lim)
    for a, d in exp_lim.items():
        if any(isinstance(x, (int, float)) and isinstance(vals[a], (int, float)) and abs(vals[a] - x) <= 1 for x in d.values()):
            m.nontrivial(a, str(d), str(vals[a]))
        m.state(tuple(d), vals[a] is None, isinstance(vals[a], float) and math.isnan(vals[a]), any(isinstance(x, str) for k, x in d.items() if k != "arg"))
    m.sample(dict(limits=lim, values=vals))


def refusal_case(m, rng):
    a = rng.choice(["alpha", "coverage"])
    bad = rng.choice(["square", "len", "", "Abs", "float"])
    t = Thresholds(limits.write({a: {"arg": bad, "min": 0}}))
    m.raises(ValueError, lambda: t(a, SimpleNamespace(alpha=1, coverage=0.5)), "an unknown function is accepted", function=bad)
    wrong = rng.choice([[1], {"x": 1}, None])
    t = Thresholds(limits.write({a: {rng.choice(["min", "max", "equal", "different"]): wrong}}))
    if not (a == "coverage" and wrong is None):
        m.raises(TypeError, lambda: t(a, SimpleNamespace(alpha=1, coverage=0.5)), "a limit that is not a number is accepted", limit=wrong)
    t = Thresholds(limits.write({a: {"max": "label"}}))
    m.raises(TypeError, lambda: t(a, SimpleNamespace(alpha=1, coverage=0.5, label="text")), "a limit by name that is not a number is accepted")
    m.ev("refusals", 3)
    # no file, no limits
    t = Thresholds(env.AUX / f"absent_{rng.random()}.json")
    for v in (0, 0.0, 0.01, None, math.nan):
        m.check(t("coverage", SimpleNamespace(coverage=v)), "a missing file sets limits", value=v)
    m.ev("missing file")
    m.state("refusal", bad, str(wrong))


def rules_case(m, rng):
    """Flags of fitted rules with class-wide and per-rule thresholds."""
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=rng.choice([2, 3, 4]))
    exp = [p.expected(i) for i in range(len(p.boxes))]
    text = p.pool is not None and isinstance(p.pool[0], str)
    glob = limits.draw(rng, kind, exp, p.n, text=text) if rng.random() < 0.5 else None
    own = [limits.draw(rng, kind, exp, p.n, text=text) if rng.random() < 0.5 else None for _ in p.boxes]
    if any(limits.close_to_limit(t, e) for e in exp for t in [glob, *own] if t is not None):
        return
    rules = p.rules()
    if glob is not None:
        rs.CLS[kind].SET_THRESHOLDS(limits.write(glob))
    for r, o in zip(rules, own):
        if o is not None:
            path = limits.write(o)
            r.set_thresholds(path if rng.random() < 0.5 else str(path), **rng.choice([{}, dict(show=True)]))
    for k, r in enumerate(rules):
        if rng.random() < 0.25:  # given, then taken back: those of the class apply
            r.set_thresholds(limits.write({"coverage": {"min": 2}}))
            m.ev("own thresholds taken back")
            if own[k] is not None and rng.random() < 0.5:
                r.set_thresholds(limits.write(own[k]))  # replaced
            else:
                r.set_thresholds(None)
                own[k] = None
    order = list(range(len(rules)))
    rng.shuffle(order)
    for i in order:
        xs, y = p.data()
        rules[i].fit(y=y, xs=xs)
    for i, r in enumerate(rules):
        used = own[i] if own[i] is not None else glob
        bad = limits.failing(used, exp[i]) if used is not None else []
        m.ev("rule flags")
        m.ev("bad rule" if bad else "good rule")
        if own[i] is not None:
            m.ev("own thresholds")
        ctx = dict(own=own, class_wide=glob, which=i, expected_values={k: v for k, v in exp[i].items() if k != "activation"})
        m.check(bool(r.good) == (not bad), "the rule's flag is not what its thresholds say", got=r.good, missed=bad, **ctx)
        if bad:
            m.check(r.bad_because in bad, "bad_because does not name a missed limit", got=r.bad_because, missed=bad, **ctx)
            m.nontrivial(str(used), p.rows, p.boxes[i].items, str(p.y))
        else:
            m.check(r.bad_because is None, "a good rule has a reason to be bad", got=r.bad_because, **ctx)
        if bad and rng.random() < 0.7:
            # the values of a bad rule are computed when they are asked for, and it stays bad
            xs, y = p.data()
            r.fit(y=y, xs=xs, force_if_not_good=True)
            m.ev("bad rule with values")
            rs.check_fit(m, r, exp[i], kind, "bad rule whose values were asked for", **ctx)
            m.check(not r.good and r.bad_because in bad, "asking for its values makes a bad rule good", got=(r.good, r.bad_because), **ctx)
    m.state("rules", kind, glob is not None, tuple(o is not None for o in own))


def built_case(m, rng):
    """Rules built with an activation, or as the conjunction of rules, are judged by their coverage at once."""
    kind = rng.choice(["reg", "cls", "plain"])
    cls = rs.CLS.get(kind, Rule)
    n = gen.length(rng, big=False)
    vs = [gen.vector(rng, n) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.4:
        vs.append([0] * n)
    both = [[a & b for a, b in zip(v, w)] for v in vs for w in vs]
    cov = [sum(v) / n for v in vs + both]
    lim = None
    if rng.random() < 0.85:
        lim = {}
        for k in rng.sample(["min", "max"], rng.choice([0, 1, 1, 2])):
            lim.setdefault("coverage", {})[k] = limits.between(rng, cov)
        if rng.random() < 0.2:  # limits on what is not yet known refuse nothing
            lim["prediction"] = {"min": 1e9}
        if any(limits.close_to_limit(lim, {"coverage": c}) for c in cov):
            return
        cls.SET_THRESHOLDS(limits.write(lim))
    env.apply_act_cfg(env.rand_act_cfg(rng))

    def look(r, v, what):
        c = sum(v) / n
        good = lim is None or limits.ok(limits.full(lim)["coverage"], c)
        m.ev(what)
        m.ev("built bad" if not good else "built good")
        if not sum(v):
            m.ev("built without a one")
        m.check(bool(r.good) == good and r.bad_because == (None if good else "coverage"), f"{what} is not judged by its coverage", got=(r.good, r.bad_because),
                coverage=c, limits=lim, vector="".join(map(str, v)))

    rules = []
    for i, v in enumerate(vs):
        r = cls(HyperrectangleCondition([0], bmins=[i], bmaxs=[i + 3]), Activation(np.array(v, dtype=np.ubyte), to_file=rng.random() < 0.4))
        look(r, v, "a rule built with an activation")
        rules.append((r, v))
    for _ in range(3):
        (r, v), (s, w) = rng.choice(rules), rng.choice(rules)
        look(r & s, [a & b for a, b in zip(v, w)], "a conjunction of rules")
    m.nontrivial("built", kind, str(lim), str(vs))
    m.state("built", kind, lim is None, str(sorted(lim or {})))


SCENARIOS = {"built": (built_case, 300, 5000), "values": (values_case, 1000, 25000), "refusal": (refusal_case, 80, 500), "rules": (rules_case, 600, 10000)}
REQUIRED = {"accepted": 1500, "many limits": 60, "shown": 100, "refused": 500, "asked for another rule": 1500, "refusals": 60, "file rewritten": 150, "missing file": 30, "bad rule": 80, "good rule": 150,
            "own thresholds": 150, "own thresholds taken back": 60, "bad rule with values": 50, "a rule built with an activation": 250, "a conjunction of rules": 250, "built bad": 150, "built good": 200, "built without a one": 80}
