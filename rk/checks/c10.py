"""C10: a fitted regression rule's statistics are those of its activated points."""
import numpy as np

from ruleskit import Activation, RegressionRule, Rule

from .. import env, gen, ref, rs

RULE = ("seeded data (NaN targets, NaN/inf features, constants, 1..100 rows, some with 5000..70000 rows; float and small integer targets), random boxes, containers (array, frame with shuffled columns and "
        "odd indexes, Series), storage flags and horizons; a rule is fitted on data, on a given activation, after calc_activation, and refitted "
        "on other data, each time compared with the definitions; non-trivial: at least two activated non-NaN targets that differ")
ASSUMPTIONS = ["infinite targets are not generated"]


def nt(m, e, p, i, *k):
    t = ref.nn(ref.activated(e["activation"], p.y))
    if len(set(t)) > 1:
        m.nontrivial(p.rows, p.boxes[i].key, p.y, *k)
    m.state(p.tkind, len(p.boxes[i].d), min(len(t), 3), 0 if not t else (1 if e["prediction"] < 0 else 2), e["std"] == 0, *k)


def fit_case(m, rng):
    p = rs.Problem(rng, "reg", nan_y=True, k=rng.choice([1, 2, 3]))
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    h = rng.choice([1, 1, 1, 2, 5, 20])
    kw = {} if h == 1 and rng.random() < 0.5 else dict(horizon=h)
    for i, r in enumerate(p.rules()):
        xs, y = p.data()
        fx, fy = rs.freeze(xs), rs.freeze(y)
        how = rng.choice(["fit", "fit", "calc then fit", "given activation"])
        e = p.expected(i, h)
        if how == "fit":
            r.fit(y=y, xs=xs, **kw)
        elif how == "calc then fit":
            r.calc_activation(xs)
            r.fit(y=y, **kw)
        else:
            a, form, _ = gen.activation(rng, e["activation"])
            r = RegressionRule(r.condition, a)
            r.fit(y=y, **kw)
        m.ev("how:" + how)
        ctx = dict(how=how, horizon=h, problem=p.describe(), box=p.boxes[i].items)
        rs.check_fit(m, r, e, "reg", how, **ctx)
        if sum(e["activation"]) == 0:
            m.ev("never active")
        m.check(rs.freeze(xs) == fx and rs.freeze(y) == fy, "fitting modified the caller's data", **ctx)
        nt(m, e, p, i, how)
        # fitting again without data changes nothing
        if rng.random() < 0.3:
            r.fit(y=y)
            rs.check_fit(m, r, e, "reg", "fit again without data", **ctx)
        if rng.random() < 0.6:  # other data
            if rng.random() < 0.3:  # the same objects, with other values
                q, xs2, y2 = rs.copy_of(p), xs, y
                rs.touch(rng, q, xs2, ys=[y2])
                m.ev("refit: data modified by its owner")
            else:
                q = rs.Problem(rng, "reg", nan_y=True, like=p)
                xs2, y2 = q.data()
            r.fit(y=y2, xs=xs2, **kw)
            m.ev("refit")
            e2 = rs.expect_fit("reg", p.boxes[i], q.rows, q.y, h)
            rs.check_fit(m, r, e2, "reg", "refit on other data", first=ctx, second=q.describe())
    m.sample(dict(n=p.n, box=p.boxes[0].items, how=how, expected={k: v for k, v in e.items() if k != "activation"}))


def large_case(m, rng):
    """Tens of thousands of rows, targets changing level on the way."""
    n = rng.choice([5000, 20000, 33000, 66000, 70000])
    g = np.random.default_rng(rng.getrandbits(32))
    base = rng.choice([0, 0, 1000, 1e6])
    y = g.normal(base, 1, n) + np.where(np.arange(n) > rng.choice([n - 1, n - 10, n // 2, 32768, 1000]), rng.choice([1, 50, -50]), 0)
    if rng.random() < 0.4:
        y = np.round(y)
    if rng.random() < 0.3:
        y[g.random(n) < 0.01] = np.nan
    x = np.round(g.normal(0, 1, (n, 2)), 1)
    if rng.random() < 0.4:
        x[:, 0] = np.linspace(-2, 2, n)
    lo, hi = sorted([rng.choice([-3, -1.0, 0.0]), rng.choice([0.5, 1.5, 3])])
    b = ref.Box([("X_0", 0, lo, hi)] + ([("X_1", 1, -0.5, 3)] if rng.random() < 0.3 else []))
    yl, rows = y.tolist(), x.tolist()
    r = RegressionRule(gen.condition(rng, b))
    e = rs.expect_fit("reg", b, rows, yl)
    import pandas as pd
    r.fit(y=y.astype(gen.retype(rng, yl)) if rng.random() < 0.5 else pd.Series(y), xs=x if rng.random() < 0.5 else pd.DataFrame(x, columns=["X_0", "X_1"]))
    m.ev("many rows")
    rs.check_fit(m, r, e, "reg", "many rows", n=n, box=b.items, base=base)
    m.nontrivial("large", n, b.key, base, sum(e["activation"]))


def parts_case(m, rng):
    """The single calculations, on given activations."""
    n = gen.length(rng, big=False)
    v = gen.vector(rng, n)
    y = gen.targets(rng, n)
    env.apply_act_cfg(env.rand_act_cfg(rng))
    a, form, _ = gen.activation(rng, v)
    from ruleskit import HyperrectangleCondition
    r = RegressionRule(HyperrectangleCondition([0], bmins=[0], bmaxs=[1]), a)
    yy = np.array(y, dtype=gen.retype(rng, y))
    if rng.random() < 0.5:
        import pandas as pd
        yy = pd.Series(yy)
    b = None
    if rng.random() < 0.5:
        w = gen.vector(rng, n)
        b, _, _ = gen.activation(rng, w)
    else:
        w = v
    h = rng.choice([1, 3])
    order = ["calc_prediction", "calc_std", "calc_sign", "calc_zscore"]
    r.calc_prediction(yy, activation=b) if b is not None else r.calc_prediction(yy)
    r.calc_std(yy, activation=b) if b is not None else r.calc_std(yy)
    r.calc_sign()
    r.calc_zscore(yy, activation=b, horizon=h) if b is not None else r.calc_zscore(yy, horizon=h)
    m.ev("parts")
    pr = ref.cond_mean(w, y)
    exp = dict(prediction=pr, std=ref.sstd(ref.nn(ref.activated(w, y))), sign="-" if pr < 0 else "+", zscore=ref.zscore(pr, sum(w), y, h))
    for k, e in exp.items():
        m.eq(rs.norm(getattr(r, k)), e, f"calc_{k}: not that of the activated points", v=w, y=y, order=order, horizon=h)
    m.check(gen.ints(r.activation) == v, "calc_* replaced the activation")
    if len(set(ref.nn(ref.activated(w, y)))) > 1:
        m.nontrivial("parts", w, y)
    m.state("parts", form, b is None)


SCENARIOS = {"fit": (fit_case, 1400, 20000), "parts": (parts_case, 800, 10000), "large": (large_case, 48, 800)}
REQUIRED = {"how:fit": 300, "how:calc then fit": 100, "how:given activation": 100, "refit": 250, "refit: data modified by its owner": 60, "never active": 50, "parts": 300, "many rows": 16}
