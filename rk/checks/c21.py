"""C21: saving and loading a rule set loses nothing that is saved."""
from pathlib import Path

import pandas as pd

from ruleskit import Rule, RuleSet

from .. import env, gen, ref, rs, votes

RULE = ("seeded fitted and evaluated rule sets (regression and classification, odd feature names, infinite bounds, NaN and infinite statistics, numeric "
        "and text classes) are saved, loaded into fresh sets, sorted, merged and saved again; every saved attribute, the order and the predictions "
        "on new data are compared with the original; non-trivial: at least two rules, or a NaN, infinite or text value")
ASSUMPTIONS = ["text classes do not read as Python literals and are not 'nan'", "a missing (None) and a NaN rule-set criterion or coverage are not distinguished"]

NAMES = [n for n in gen.NAMES]
TOKENS = ["e-0", "e-01", "e+00", "1e-05", "-0", "0.0", "1.0", "inf", "-inf", "nan", "NaN", "None", "True", "[", "]", "(", ")", "{", "}", ",", ", ", ";",
          ":", "'", '"', "\\", "\\n", "\n", "\t", " ", "#", "%", "/", "\ufeff", "\u200b", "é", "日本", "ruleset coverage", "ruleset criterion", "coverage",
          "prediction", "np.float64(", "array(", "Unnamed: 0", "X_0", "bmins", "'a', 'b'", "R_0(1)", "a", "size-0", "=", "==", "<=", " AND ", " in ", "If ", " Then "]


def odd_names(rng, d):
    out = []
    while len(out) < d:
        x = "".join(rng.choice(TOKENS) for _ in range(rng.randint(1, 4)))
        if x not in out:
            out.append(x)
    return out


TEXT = [["a", "b"], ["NA", "ok"], ["x,y", "x;y"], ['q"q', "it's"], ["line\nbreak", "tab\tbed"], ["null", "None of them"], [" spaced ", "spaced"],
        ["x" * 40, "x" * 40 + "y"], ["é", "ü"], ["inf", "-"], ["class 1", "class 2"], ["R_0(1)", "R_1(1)"], ["ruleset coverage", "ruleset criterion"]]
_n = [0]


def path(rng, m=None):
    """A new file, or (the content of earlier saves is replaced) one saved before."""
    if m is None or rng.random() < 0.5:
        _n[0] += 1
    elif (env.AUX / f"set {_n[0]}.csv").exists():
        m.ev("saved over an earlier file")
    p = env.AUX / f"set {_n[0]}.csv"
    return p if rng.random() < 0.5 else str(p)


def picture(s, kind):
    at = ["features_names", "features_indexes", "bmins", "bmaxs", "prediction", "coverage", "criterion"] + (["std", "zscore"] if kind == "reg" else [])
    return dict(rules=[rs.view(r, at) for r in s], types=[type(r).__name__ for r in s], coverage=nn(s.ruleset_coverage), criterion=nn(s.criterion),
                train_set_size=rs.norm(s.train_set_size), test_set_size=rs.norm(s.test_set_size), features=sorted(s.features_names))


def nn(x):
    x = rs.norm(x)
    return None if x is None or ref.isnan(x) else x


def types(s):
    return [[type(rs.norm(x)).__name__ if not isinstance(x, (int, float)) else "number" for x in [rs.norm(r.prediction)]] for r in s]


def load(rng, f, stack=None, m=None):
    stack = rng.random() < 0.3 if stack is None else stack
    s = RuleSet(stack_activation=stack)
    if m is not None and rng.random() < 0.4:  # a set that already served
        kind = rng.choice(["reg", "cls"])
        p = rs.Problem(rng, kind)
        s = p.ruleset(stack_activation=stack)
        if rng.random() < 0.8:
            xs, y = p.data()
            s.fit(y=y, xs=xs)
            if rng.random() < 0.6:
                q = rs.Problem(rng, kind, like=p)
                xs, y = q.data()
                s.eval(y=y, xs=xs, keep_new_activations=rng.random() < 0.5)
            if rng.random() < 0.3:
                s.predict()
        m.ev("loaded into a used set")
    if m is not None and rng.random() < 0.25:  # the same table, written otherwise
        sep = rng.choice([";", "|", "\t"])
        g = env.AUX / "other.csv"
        pd.read_csv(f, keep_default_na=False, dtype=str, index_col=0).to_csv(g, sep=sep)
        s.load(g, sep=sep)
        m.ev("loaded with an option")
    else:
        s.load(f)
    if m is not None:
        m.check(s.stacked_activations is None and not s.activation_available, "a loaded set keeps the activations of its former rules", stack=stack)
        m.ev("no activation after load" + (", stacking" if stack else ""))
    return s


def predictions_agree(m, rng, a, b, p, kind, what, ctx):
    q = rs.Problem(rng, kind, like=p)
    x = q.xs()
    g, e = a.predict(x), b.predict(x)
    if kind == "reg":
        ok = rs.same(rs.norm(g), rs.norm(e))
    else:
        ok = votes.classes_equal(rs.norm(g), rs.norm(e))
    m.check(ok, f"{what}: predicts otherwise than the original", got=rs.norm(g), expected=rs.norm(e), **ctx)
    m.ev("predictions compared")


def case(m, rng):
    kind = rng.choice(["reg", "cls"])
    d = rng.randint(1, 4)
    p = rs.Problem(rng, kind, d=d, k=rng.choice([None, None, None, 12, 15]), nms=["X_" + str(i) for i in range(d)] if rng.random() < 0.3
                   else (rng.sample(NAMES, d) if rng.random() < 0.4 else odd_names(rng, d)),
                   pool=rng.choice(TEXT if rng.random() < 0.6 else gen.PLAIN_LABELS) if kind == "cls" else None)
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    RuleSet.STACKED_FIT = rng.random() < 0.4
    s = p.ruleset(stack_activation=rng.random() < 0.3)
    xs, y = p.data()
    s.fit(y=y, xs=xs)
    step = rng.choice(["fit", "eval", "eval stored", "eval keep"])
    km = dict(criterion_method=rng.choice(["mse", "mae", "mse_norm"])) if kind == "reg" else {}
    q = rs.Problem(rng, kind, like=p)
    if step == "eval stored":
        s.eval(y=p.ys(), **km)
    elif step != "fit":
        x2, y2 = q.data()
        s.eval(y=y2, xs=x2, keep_new_activations=step == "eval keep", **km)
    if rng.random() < 0.3:
        s.sort(reverse=rng.random() < 0.5)
    m.ev("saved after " + step)
    want = picture(s, kind)
    ctx = dict(problem=p.describe(), step=step)
    f = path(rng, m)
    s.save(f)
    d = rs.diff(picture(s, kind), want)
    m.check(d is None, "saving changed the rule set", diff=d, **ctx)
    if rng.random() < 0.5:
        # the table behind the file
        df, part = s.to_df(), s.to_df(ruleset_attributes=False)
        cols = list(rs.CLS[kind].index)
        cells = [[str(getattr(r, c)) for c in cols] for r in s]
        for what, t in (("table", df), ("table of the rules alone", part)):
            m.check(list(t.columns) == cols and t.iloc[:len(s)].values.tolist() == cells, f"{what}: not one row per rule with its attributes, in order",
                    got=t.iloc[:len(s)].values.tolist()[:4], expected=cells[:4], **ctx)
        m.check(len(part) == len(s) and list(df.index[len(s):]) == ["ruleset coverage", "ruleset criterion", "ruleset train set size", "ruleset test set size"]
                and list(part.index) == list(df.index[:len(s)]), "table: other rows than the rules' and the set's", got=list(df.index), **ctx)
        m.check(rs.same(rs.norm(df.iloc[len(s):, 0]), [rs.norm(v) for v in (s.ruleset_coverage, s.criterion, s.train_set_size, s.test_set_size)]),
                "table: the set's own attributes", got=rs.norm(df.iloc[len(s):, 0]), **ctx)
        m.ev("tables")
        # a way of one's own to make the rows (here by several hands, as the documentation has it), and a row alone
        asked = []

        def mine(index):
            asked.append(list(index))
            return [RuleSet.rule_to_series((i, r), index=index) for i, r in enumerate(s.rules)]
        own = s.to_df(custom_rules_to_series=mine)
        m.check(asked == [cols] and own.astype(str).equals(df.astype(str)), "table: rows made by the caller give another table", got=own.values.tolist()[:4], asked=asked, **ctx)
        i = rng.randrange(len(s))
        back = RuleSet.series_to_rule(RuleSet.rule_to_series((i, s[i]), index=cols))
        at = ["features_names", "features_indexes", "bmins", "bmaxs", "prediction", "coverage", "criterion"] + (["std", "zscore"] if kind == "reg" else [])
        d = rs.diff({a: nn(v) if isinstance(v, float) else v for a, v in rs.view(back, at).items()},
                    {a: nn(v) if isinstance(v, float) else v for a, v in rs.view(s[i], at).items()}, tol=0)
        m.check(d is None and type(back) is type(s[i]), "a rule read from its row differs from it", diff=d, **ctx)
        m.ev("rows")
    one = load(rng, f, m=m)
    d = rs.diff(picture(one, kind), want, tol=0)
    m.check(d is None, "the loaded set differs from the saved one", diff=d, **ctx)
    for r in one:
        sizes = [rs.norm(x) for x in (r.train_set_size, r.test_set_size)]
        m.check(sizes == [rs.norm(x) for x in (one.train_set_size, one.test_set_size)], "a loaded rule does not know the sizes of the sets it was fitted and evaluated on",
                got=sizes, expected=[one.train_set_size, one.test_set_size], **ctx)
        m.ev("sizes of loaded rules")
    m.check(types(one) == types(s), "the loaded predictions have other types", got=[repr(r.prediction) for r in one],
            expected=[repr(r.prediction) for r in s], **ctx)
    m.check(one == s and list(one) == list(s), "loaded rules do not compare equal to the saved ones", **ctx)
    predictions_agree(m, rng, one, s, p, kind, "loaded set", ctx)
    f2 = path(rng, m)
    one.save(f2)
    two = load(rng, f2, m=m)
    d = rs.diff(picture(two, kind), want, tol=0)
    m.check(d is None, "saving and loading again changes the set", diff=d, **ctx)
    m.ev("round trips", 2)
    # a rule keeps the name it was first given
    if rng.random() < 0.4:
        t = rng.choice([s, one])
        name = {id(r): n for r, n in zip(t, t.to_df(ruleset_attributes=False).index)}
        if rng.random() < 0.5:
            t.sort(reverse=rng.random() < 0.5)
        else:
            t = t[::-1]
        got = list(t.to_df(ruleset_attributes=False).index)
        m.check(got == [name[id(r)] for r in t], "rules change names when they change places", got=got, expected=[name[id(r)] for r in t], **ctx)
        m.ev("names kept")
    # once it has activations, the coverage is theirs and no more that of the file
    if rng.random() < 0.4:
        one.calc_activation(q.xs())
        hit = ref.n_or([rs.box_of(r).evaluate(q.rows) for r in one])
        m.check(rs.same(rs.norm(one.ruleset_coverage), sum(hit) / len(hit)), "loaded then activated: the coverage is not that of the rows", got=one.ruleset_coverage,
                expected=sum(hit) / len(hit), **ctx)
        m.ev("coverage after load")
    # the loaded rules can be used again: refit on other data as the original would
    if rng.random() < 0.4:
        x3, y3 = q.data()
        two.fit(y=y3, xs=x3)
        for i, b in enumerate([rs.box_of(r) for r in two]):
            rs.check_fit(m, two[i], rs.expect_fit(kind, b, q.rows, q.y), kind, "loaded then refitted", **ctx)
        m.ev("refitted")
    vals = [v for r in want["rules"] for k, v in r.items() if not isinstance(v, list)] + [x for r in want["rules"] for x in r["bmins"] + r["bmaxs"]]
    if len(want["rules"]) > 1 or any(ref.isnan(v) or v == float("inf") or isinstance(v, str) for v in vals):
        m.nontrivial(str(want))
    m.state(kind, step, len(p.boxes), p.pool is not None and isinstance(p.pool[0], str), any(ref.isnan(v) for v in vals), float("inf") in vals)
    m.sample(dict(kind=kind, step=step, names=p.names, rules=len(p.boxes), predictions=[repr(r["prediction"]) for r in want["rules"]][:4]))


def merge_case(m, rng):
    """Sets that were saved and loaded are merged, sorted and saved again (their rules bear the names of earlier saves)."""
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=rng.choice([3, 4, 6]), pool=rng.choice(TEXT if rng.random() < 0.5 else gen.PLAIN_LABELS) if kind == "cls" else None)
    if len(p.boxes) < 2:
        return
    cut = rng.randint(1, len(p.boxes) - 1)
    loaded = []
    rules = p.rules()
    for part in (rules[:cut], rules[cut:]):
        s = RuleSet(part)
        xs, y = p.data()
        s.fit(y=y, xs=xs)
        f = path(rng, m)
        s.save(f)
        loaded.append((s, load(rng, f, stack=False) if rng.random() < 0.6 else s))
    a, b = loaded[0][1], loaded[1][1]
    both = a + b if rng.random() < 0.5 else None
    if both is None:
        a += b
        both = a
    if rng.random() < 0.5:
        both.sort(reverse=rng.random() < 0.5)
    both.train_set_size = p.n
    want = picture(both, kind)
    f = path(rng, m)
    both.save(f)
    got = load(rng, f)
    w = dict(want)
    d = rs.diff(picture(got, kind), w, tol=0)
    m.check(d is None, "a merged set loses something when saved and loaded", diff=d, problem=p.describe(), cut=cut)
    predictions_agree(m, rng, got, both, p, kind, "merged, saved and loaded", dict(problem=p.describe()))
    m.ev("merged")
    m.nontrivial("merge", str(want))
    m.state("merge", kind, cut, len(p.boxes))


SCENARIOS = {"round trip": (case, 700, 9000), "merge": (merge_case, 240, 3000)}
REQUIRED = {"saved after fit": 25, "saved after eval": 25, "saved after eval stored": 25, "saved after eval keep": 25, "predictions compared": 350,
            "refitted": 60, "loaded into a used set": 200, "merged": 80, "sizes of loaded rules": 300, "tables": 100, "rows": 100, "saved over an earlier file": 100,
            "loaded with an option": 100, "no activation after load": 200, "no activation after load, stacking": 100, "names kept": 80, "coverage after load": 80}
