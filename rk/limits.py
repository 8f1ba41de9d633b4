"""Threshold files and their reference meaning."""
import json
import math

from . import env

_n = [0]
FUN = {"abs": abs, "sqrt": math.sqrt, "exp": math.exp, "log": math.log, "str": str, "int": int}


def write(limits, p=None):
    _n[0] += 1
    if p is None:
        p = env.AUX / f"thresholds_{_n[0]}.json"
    p.write_text(json.dumps(limits))
    return p


def full(limits):
    """With the default minimum coverage."""
    d = {k: dict(v) for k, v in limits.items()}
    d.setdefault("coverage", {}).setdefault("min", 0.05)
    return d


def ok(lim, value, values=None):
    """Does one value meet its limits? values: the other attributes of the rule, for textual limits."""
    if value is None:
        return True
    if "arg" in lim:
        value = FUN[lim["arg"]](value)
    for k, limit in lim.items():
        if k == "arg":
            continue
        if isinstance(limit, str):
            limit = values[limit]
        if k == "min" and value < limit or k == "max" and value > limit or k == "equal" and value != limit \
                or k == "different" and value == limit:
            return False
    return True


def failing(limits, values):
    """Names of the attributes (of values) that miss their limits."""
    return [a for a, lim in full(limits).items() if a in values and not ok(lim, values[a], values)]


def between(rng, vals):
    """A number clearly between, below or above the given reference values (never within rounding of one)."""
    v = sorted({float(x) for x in vals if isinstance(x, (int, float)) and math.isfinite(x)})
    if not v:
        return rng.uniform(-1, 1)
    gaps = [(a + b) / 2 for a, b in zip(v, v[1:]) if b - a > 1e-5 * max(1, abs(a), abs(b))]
    out = [v[0] - 1 - abs(v[0]), v[-1] + 1 + abs(v[-1])]
    return rng.choice(gaps * 3 + out) if gaps else rng.choice(out)


def close_to_limit(limits, values):
    """True when a value is within rounding of one of its limits (such cases are not judged)."""
    for a, lim in full(limits).items():
        v = values.get(a)
        if not isinstance(v, (int, float)) or a in ("coverage", "train_set_size"):
            continue
        if "arg" in lim:
            v = FUN[lim["arg"]](v)
        for k, x in lim.items():
            if k == "arg":
                continue
            if isinstance(x, str):
                x = values.get(x)
            if isinstance(x, (int, float)) and isinstance(v, float) and math.isfinite(v) and math.isfinite(x) \
                    and abs(v - x) <= 1e-7 * max(1, abs(v), abs(x)):
                return True
    return False


def draw(rng, kind, exp, n, crit=None, text=False):
    """Limits whose borders are away from the reference values. exp: list of expected fits, crit: expected criteria."""
    lim = {}
    cand = ["coverage", "coverage", "train_set_size", "none"]
    if kind == "reg":
        cand += ["prediction", "std", "zscore", "prediction", "std text"]
    elif not text:
        cand += ["prediction"]
    if crit is not None:
        cand += ["criterion", "criterion", "criterion"]
    for a in rng.sample(cand, rng.choice([1, 1, 2, 2, 3])):
        if a == "none":
            continue
        if a == "std text":
            lim["std"] = {rng.choice(["min", "max"]): "prediction"}
            continue
        d = {}
        if a == "coverage":
            k = rng.randint(0, n)
            d["min"] = rng.choice([0, k / n, k / n, between(rng, [e["coverage"] for e in exp])])
            if rng.random() < 0.3:
                d["max"] = rng.choice([1, rng.randint(0, n) / n])
        elif a == "train_set_size":
            d[rng.choice(["min", "max", "equal", "different"])] = rng.choice([n, n, n - 1, n + 1, 0])
        elif a == "prediction" and kind == "cls":
            vals = [e["prediction"] for e in exp]
            d[rng.choice(["min", "max", "equal", "different"])] = rng.choice([v for v in vals if v == v] or [0])
        else:
            vals = crit if a == "criterion" else [e[a] for e in exp]
            if a == "prediction" and rng.random() < 0.4:
                d["arg"] = "abs"
                vals = [abs(v) for v in vals]
            for k in rng.sample(["min", "max"], rng.choice([1, 1, 2])):
                d[k] = between(rng, vals)
        lim[a] = d
    return lim
