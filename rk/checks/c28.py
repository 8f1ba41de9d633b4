"""C28: rule types derived by users work as their base type, with attributes of their own."""
import functools
import math

import numpy as np
import pandas as pd

from ruleskit import ClassificationRule, RegressionRule, Rule, RuleSet

from .. import env, gen, limits, ref, rs, votes

RULE = ("seeded rule types derived (once or twice) from the regression or classification rule, declaring further attributes of the train set (one using an earlier "
        "one) and of the test set (own ones, z-score, set size), fitted and evaluated alone and in sets (rule by rule, or stacked when the set type "
        "provides the tables), with keyword arguments and thresholds on the own attributes, next to twins of the base type; every own attribute is "
        "compared with its definition, all others with the twin's; non-trivial: at least two rules, or a refused one")
ASSUMPTIONS = ["attributes are declared with calc_ methods of their own", "normalised criteria are not used on constant targets"]
LISTS = [(c, a) for c in (Rule, RegressionRule, ClassificationRule) for a in ("attributes_from_train_set", "attributes_from_test_set", "rule_index", "index",
                                                                             "condition_index")]


NONE = 7  # what the derived types make of an argument given as None
GIVEN = "given as None"


def noted(f):
    """A decorator as users write them."""
    @functools.wraps(f)
    def wrapped(*a, **k):
        return f(*a, **k)
    return wrapped


def extent(xs):
    """What an attribute computed from the data sees of them."""
    return -1 if xs is None else 100 * len(xs) + np.asarray(xs).shape[1]


def derive(rng, kind, log):
    """A rule type, a set type that can compute its attributes stacked, and whether the z-score is of the test set."""
    base = rs.CLS[kind]
    late_z = kind == "reg" and rng.random() < 0.5
    sized = rng.random() < 0.5
    deco = noted if rng.random() < 0.3 else (lambda f: f)
    data = rng.random() < 0.5  # attributes computed from the data themselves

    class Mine(base):
        attributes_from_train_set = base.attributes_from_train_set + (["span"] if data else []) + ["picked", "doubled"]
        attributes_from_test_set = (["hits"] if rng.random() < 0.5 else []) + base.attributes_from_test_set + (["zscore"] if late_z else []) \
            + (["test_set_size"] if sized else []) + (["margin"] if rng.random() < 0.5 else [])             + (["width"] if data else [])
        has_hits = "hits" in attributes_from_test_set
        index = base.index + (["doubled"] if rng.random() < 0.5 else [])

        def __init__(self, condition=None, activation=None):
            super().__init__(condition, activation)
            self._picked = self._doubled = self._hits = self._margin = self._span = self._width = None

        @property
        def span(self):
            return self._span

        @property
        def width(self):
            return self._width

        @property
        def picked(self):
            return self._picked

        @property
        def doubled(self):
            return self._doubled

        @property
        def hits(self):
            return self._hits

        @property
        def margin(self):
            return self._margin

        @deco
        def calc_picked(self, y, offset=0):
            log.append((id(self), "picked"))
            xs, horizon = self.nones, len(y)  # names of arguments that this method does not take
            self._picked = xs + (NONE if offset is None else offset) + horizon

        @deco
        def calc_span(self, xs):
            self._span = extent(xs)

        @deco
        def calc_width(self, y, xs=None, activation=None):
            self._width = extent(xs) + activation.nones

        @deco
        def calc_margin(self):
            activation, y = self.criterion, 1
            self._margin = y - activation

        @deco
        def calc_doubled(self, *, offset=None):
            log.append((id(self), "doubled"))
            self._doubled = 2 * self._picked

        if rng.random() < 0.5:
            @deco
            def calc_hits(self, y, activation, *, scale=1):
                log.append((id(self), "hits"))
                self._hits = activation.nones * (NONE if scale is None else scale) + len(y)
        else:
            def calc_hits(self, y, activation, **kwargs):
                log.append((id(self), "hits"))
                scale = kwargs.get("scale", 1)
                self._hits = activation.nones * (NONE if scale is None else scale) + len(y)

    class MySet(RuleSet):
        @deco
        def calc_pickeds(self, y, offset=0):
            xs = len(y)
            return pd.Series({str(r.condition): r.nones + (NONE if offset is None else offset) + xs for r in self})

        @deco
        def calc_spans(self, xs):
            return pd.Series({str(r.condition): extent(xs) for r in self})

        @deco
        def calc_widths(self, stacked_activations, xs=None):
            return stacked_activations.sum() + extent(xs)

        @deco
        def calc_margins(self, criterions):
            y = 1
            return y - criterions

        def calc_doubleds(self, pickeds):
            return pickeds * 2

        def calc_hitss(self, y, stacked_activations, scale=1):
            return stacked_activations.sum() * (NONE if scale is None else scale) + len(y)

    if rng.random() < 0.3:  # a type derived from the derived type, with or without declarations of its own
        Mine = further(rng, Mine, log)
    return Mine, MySet, late_z, sized


def further(rng, Mine, log):
    k = rng.choice(["nothing", "nothing", "override", "mixin", "lists"])
    if k == "nothing":
        class Mine2(Mine):
            pass
    elif k == "override":
        class Mine2(Mine):
            def calc_picked(self, y, offset=0):
                super().calc_picked(y, offset)
    elif k == "mixin":
        class Note:
            note = "kept"

        class Mine2(Note, Mine):
            pass
    else:
        class Mine2(Mine):
            attributes_from_train_set = list(Mine.attributes_from_train_set)
            attributes_from_test_set = list(Mine.attributes_from_test_set)
    return Mine2


def twin_view(r, skip=()):
    at = [a for a in (rs.ALL_REG if isinstance(r, RegressionRule) else rs.ALL_CLS) if a not in skip and a not in ("good", "test_set_size")]
    return rs.view(r, at)


def case(m, rng):
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=rng.choice([1, 2, 3, 5]))
    base = rs.CLS[kind]
    lists = {(c.__name__, a): list(getattr(c, a)) for c, a in LISTS}
    log = []
    Mine, MySet, late_z, sized = derive(rng, kind, log)
    if Mine.__name__ == "Mine2":
        m.ev("derived twice")
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    alone = rng.random() < 0.4
    stacked = not alone and rng.random() < 0.5
    RuleSet.STACKED_FIT = stacked
    conds = p.conditions()
    mine, twins = [Mine(c) for c in conds], [base(gen.condition(rng, b)) for b in p.boxes]
    keep_tables = rng.random() < 0.5
    S, T = MySet(list(mine), stack_activation=keep_tables), RuleSet(list(twins), stack_activation=keep_tables)
    xs, y = p.data()
    off = rng.choice([None, 0, 3, -2, GIVEN])
    h = rng.choice([None, 1, 2]) if kind == "reg" else None
    kw = {} if off is None else dict(offset=None if off == GIVEN else off)
    if off == GIVEN:
        m.ev("argument of fit given as None")
        off = NONE
    kh = {} if h is None else dict(horizon=h)
    acts = p.acts()
    picked = [sum(a) + (off or 0) + p.n for a in acts]
    stored = rng.random() < 0.25  # evaluated on the rows of the fit, without giving them
    q = p if stored else rs.Problem(rng, kind, like=p)
    sc = rng.choice([None, 1, 3, GIVEN]) if Mine.has_hits else None
    ks = {} if sc is None else dict(scale=None if sc == GIVEN else sc)
    if sc == GIVEN:
        m.ev("argument of eval given as None")
        sc = NONE
    hits = [sum(b.evaluate(q.rows)) * (sc or 1) + q.n for b in p.boxes]
    lim = None
    if Mine.has_hits and rng.random() < 0.3:
        lim = {"coverage": {"min": 0}, "hits": {rng.choice(["min", "max", "different", "equal"]): rng.choice(hits) + rng.choice([0, 0, 1, -1])}}
        Mine.SET_THRESHOLDS(limits.write(lim))
    elif rng.random() < 0.4:
        a = rng.choice(["picked", "doubled"])
        v = rng.choice(picked) * (2 if a == "doubled" else 1)
        lim = {"coverage": {"min": 0}, a: {rng.choice(["min", "max", "different", "equal"]): v + rng.choice([0, 0, 1, -1])}}
        Mine.SET_THRESHOLDS(limits.write(lim))
    trace = [dict(kind=kind, alone=alone, stacked=stacked, limits=lim, train=list(Mine.attributes_from_train_set), test=list(Mine.attributes_from_test_set))]
    ctx = dict(trace=trace, problem=p.describe())
    m.check(base.THRESHOLDS is None and Rule.THRESHOLDS is None, "thresholds of a derived type are those of its base", **ctx)
    m.check(S.rule_type is Mine and T.rule_type is base, "the set's rule type is not that of its rules", got=S.rule_type, **ctx)
    m.raises(TypeError, lambda: S.append(base(conds[0])), "a set of derived rules accepts a rule of the base type", **ctx)

    def missing(i, what):
        return lim is not None and any(not limits.ok(l, {"picked": picked[i], "doubled": 2 * picked[i], "hits": hits[i]}[a]) for a, l in lim.items() if a in what)

    out = None
    if alone:
        for r, t in zip(mine, twins):
            r.fit(y=y, xs=xs, **kw, **kh)
            t.fit(y=y, xs=xs, **kh)
    else:
        out = S.fit(y=y, xs=xs, **kw, **kh)
        T.fit(y=y, xs=xs, **kh)
    m.ev("fitted alone" if alone else "fitted stacked" if stacked else "fitted rule by rule")
    bad = [missing(i, ("picked", "doubled")) for i in range(len(mine))]
    zs = [ref.zscore(p.expected(i)["prediction"], sum(acts[i]), p.y, h or 1) for i in range(len(mine))] if kind == "reg" else None

    def look(what):
        for i, (r, t) in enumerate(zip(mine, twins)):
            m.check(bool(r.good) == (not bad[i]), f"{what}: flag of a derived rule", got=r.good, picked=picked[i], rule=str(r), **ctx)
            if bad[i]:
                m.check(r.bad_because in lim, f"{what}: bad_because of a derived rule", got=r.bad_because, **ctx)
                continue
            m.check(rs.norm(r.picked) == picked[i] and rs.norm(r.doubled) == 2 * picked[i],
                    f"{what}: the declared attributes of the train set are not computed from the data and arguments", got=(r.picked, r.doubled),
                    expected=(picked[i], 2 * picked[i]), **ctx)
            if "span" in Mine.attributes_from_train_set:
                m.check(rs.norm(r.span) == extent(xs), f"{what}: an attribute computed from the data of the fit did not get them", got=r.span,
                        expected=extent(xs), **ctx)
                m.ev("computed from the data of the fit")
            skip = ("zscore",) if late_z else ()
            d = rs.diff(twin_view(r, skip), twin_view(t, skip))
            m.check(d is None, f"{what}: a derived rule differs from its base", diff=d, **ctx)
            m.ev("derived rules judged")
    look("fit")
    if any(bad):
        m.ev("own limit missed")
    if out is not None:
        m.check([id(r) for r in out] == [id(r) for r, b in zip(mine, bad) if b], "fit of a set of derived rules returns other rules than those refused",
                got=[str(r) for r in out], bad=bad, **ctx)
        m.check([id(r) for r in S] == [id(r) for r, b in zip(mine, bad) if not b], "a set of derived rules keeps other rules than the good ones", **ctx)
    else:
        # each declared attribute is computed once, in the declared order
        for r, b in zip(mine, bad):
            calls = [w for k, w in log if k == id(r)]
            if not b:
                m.check(calls == ["picked", "doubled"], "declared attributes are not computed once in the declared order", got=calls, **ctx)
    live = [i for i, b in enumerate(bad) if not b]
    if live:
        x2, y2 = q.data()
        # predictions are those of the base type
        i = rng.choice(live)
        m.check(rs.same(rs.norm(mine[i].predict(x2)), rs.norm(twins[i].predict(x2))), "a derived rule predicts otherwise than its base", **ctx)
        if not alone and len(live) == len(mine):
            g, e = rs.norm(S.predict(x2)), rs.norm(T.predict(x2))
            m.check(rs.same(g, e) if kind == "reg" else votes.classes_equal(g, e), "a set of derived rules predicts otherwise", got=g, expected=e, **ctx)
        if len(live) > 1 and rng.random() < 0.5:
            j = rng.choice(live)
            both = mine[i] & mine[j]
            m.check(type(both) is Mine and both.picked is None, "AND of derived rules is not of their type", got=type(both), **ctx)
            m.ev("AND of derived rules")
        out = None
        km = dict(criterion_method=rng.choice(["mse", "mae"])) if kind == "reg" else {}
        if stored:
            x2 = None
        keep = rng.random() < 0.4
        if alone:
            for k in live:
                mine[k].eval(y=y2, xs=x2, recompute_activation=keep and not stored, **km, **ks, **kh)
                twins[k].eval(y=y2, xs=x2, recompute_activation=keep and not stored, **km)
        elif len(live) == len(mine):
            out = S.eval(y=y2, xs=x2, keep_new_activations=keep, **km, **ks, **kh)
            T.eval(y=y2, xs=x2, keep_new_activations=keep, **km)
        else:
            out = S.eval(y=y2, xs=x2, keep_new_activations=keep, **km, **ks, **kh)
            for k in live:
                twins[k].eval(y=y2, xs=x2, recompute_activation=keep and not stored, **km)
        trace.append(("eval", keep, sc, h, stored))
        if stored:
            m.ev("evaluated without data")
        m.ev("evaluated alone" if alone else "evaluated stacked" if stacked else "evaluated rule by rule")
        refused = [k for k in live if missing(k, ("hits",))]
        if refused:
            m.ev("own limit missed by evaluation")
        if out is not None:
            m.check([id(r) for r in out] == [id(mine[k]) for k in refused], "eval of a set of derived rules returns other rules than those refused",
                    got=[str(r) for r in out], refused=refused, **ctx)
            m.check([id(r) for r in S] == [id(mine[k]) for k in live if k not in refused], "an evaluated set of derived rules keeps other rules than the good ones",
                    refused=refused, **ctx)
        for k in live:
            r = mine[k]
            m.check(bool(r.good) == (k not in refused) and (r.good or r.bad_because == "hits"), "eval: flag of a derived rule", got=(r.good, r.bad_because),
                    hits=hits[k], **ctx)
            if k in refused:
                continue
            act = p.boxes[k].evaluate(q.rows)
            if Mine.has_hits:
                m.check(rs.norm(r.hits) == sum(act) * (sc or 1) + q.n, "the declared attribute of the test set is not computed from the data and arguments",
                        got=r.hits, expected=sum(act) * (sc or 1) + q.n, **ctx)
                m.ev("own test attributes judged")
            if "width" in Mine.attributes_from_test_set:
                m.check(rs.norm(r.width) == extent(x2) + sum(act), "an attribute computed from the evaluated data did not get them", got=r.width,
                        expected=extent(x2) + sum(act), **ctx)
                m.ev("computed from the evaluated data, kept" if keep else "computed from the evaluated data")
            if "margin" in Mine.attributes_from_test_set and r.criterion is not None:
                m.check(rs.same(rs.norm(r.margin), rs.norm(1 - r.criterion)), "an attribute declared after the criterion is not computed from it", got=r.margin,
                        expected=1 - r.criterion, **ctx)
                m.ev("computed from the criterion")
            if late_z:
                pr = p.expected(k)["prediction"]
                e = ref.zscore(pr, sum(act), q.y, h or 1)
                yy = ref.nn(q.y)
                den = math.sqrt((h or 1) / sum(act)) * ref.pstd(yy) if sum(act) else 0
                slack = 1e-11 * max(map(abs, yy + [pr])) / den if den else 0
                g = rs.norm(r.zscore)
                ok = rs.same(g, e) or (isinstance(g, float) and math.isfinite(e) and abs(g - e) <= slack)
                # a rule inactive on the evaluated rows has no z-score there
                if den > 1e-9 * max(map(abs, yy)):
                    m.check(ok, "a z-score declared as of the test set is not that of the evaluated data", got=g, expected=e, **ctx)
                    m.ev("z-scores of the test set")
            if sized:
                m.check(rs.norm(r.test_set_size) == q.n, "test_set_size declared by a type is not the number of evaluated rows", got=r.test_set_size,
                        expected=q.n, **ctx)
            skip = ("zscore",) if late_z else ()
            d = rs.diff(twin_view(r, skip), twin_view(twins[k], skip))
            m.check(d is None, "eval: a derived rule differs from its base", diff=d, **ctx)
        if not alone and len(live) == len(mine) and not refused:
            dm, dt = S.to_df(), T.to_df()
            m.check(list(dm.columns) == list(Mine.index) and list(dm.index) == list(dt.index), "the table of derived rules has other rows or columns",
                    got=(list(dm.columns), list(dm.index)), expected=(list(Mine.index), list(dt.index)), **ctx)
            if "doubled" in Mine.index:
                m.check(list(dm["doubled"].iloc[:len(mine)]) == [str(2 * v) for v in picked], "the table of derived rules lacks their own attribute",
                        got=list(dm["doubled"]), **ctx)
            for c in base.index:
                if not (late_z and c == "zscore"):
                    m.check(rs.same(rs.norm(dm[c]), rs.norm(dt[c])), "the table of derived rules differs from that of the base type", column=c, got=list(dm[c]),
                            expected=list(dt[c]), **ctx)
            m.ev("tables compared")
    m.check({(c.__name__, a): list(getattr(c, a)) for c, a in LISTS} == lists, "the declarations of the base types changed", **ctx)
    if len(mine) > 1 or any(bad):
        m.nontrivial(str(trace), p.rows, [b.items for b in p.boxes])
    m.state(kind, alone, stacked, late_z, sized, Mine.has_hits, any(bad), all(bad), off, h)
    m.sample(dict(kind=kind, alone=alone, stacked=stacked, limits=lim, test=list(Mine.attributes_from_test_set), rules=len(mine)))


SCENARIOS = {"derived": (case, 900, 12000)}
REQUIRED = {"fitted alone": 200, "fitted stacked": 150, "fitted rule by rule": 150, "evaluated alone": 150, "evaluated stacked": 100, "derived rules judged": 800,
            "evaluated rule by rule": 100, "own limit missed": 80, "own test attributes judged": 250, "z-scores of the test set": 150, "AND of derived rules": 60, "tables compared": 150, "evaluated without data": 100, "own limit missed by evaluation": 30, "computed from the criterion": 250, "derived twice": 150, "computed from the data of the fit": 300,
            "computed from the evaluated data": 120, "computed from the evaluated data, kept": 80, "argument of fit given as None": 90, "argument of eval given as None": 50}
