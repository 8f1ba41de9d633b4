"""C29: a call that fails leaves the rules and the set usable: repeated with what was missing, it gives what it would have given."""
import numpy as np
import pandas as pd

from ruleskit import Activation, ClassificationRule, HyperrectangleCondition, RegressionRule, Rule, RuleSet

from .. import env, gen, ref, rs
from .c14 import methods

RULE = ("seeded fitted or unfitted rule sets and their twins; on the set, calls that fail (data without a needed column, targets of another length, unknown "
        "criterion or method argument, rules of another type or with activations of another length, unusable weights, unknown sort criterion, missing files, "
        "and faults injected while the k-th condition is evaluated or the k-th file written or read), each followed by a comparison of rules, order and "
        "settings with those before, then the valid call on both; everything public of the two is compared; non-trivial: the call failed after having begun")
ASSUMPTIONS = ["while a fit or an evaluation failed and was not repeated, the values of single rules are not judged"]


class Fault(Exception):
    """What the environment may raise."""


class Inject:
    """Raises at the k-th call of a function of the environment (or of a condition), once."""

    def __init__(self, owner, name, k, exc):
        self.owner, self.name, self.k, self.exc, self.n, self.hit = owner, name, k, exc, 0, False

    def __enter__(self):
        self.old = old = getattr(self.owner, self.name)

        def wrapped(*a, **kw):
            self.n += 1
            if self.n == self.k:
                self.hit = True
                raise self.exc
            return old(*a, **kw)
        setattr(self.owner, self.name, wrapped)
        return self

    def __exit__(self, *a):
        setattr(self.owner, self.name, self.old)


def outline(s):
    """What a failed call must not change, whichever it is."""
    return dict(rules=[id(r) for r in s], conditions=[(list(r.features_names), list(r.features_indexes), list(r.bmins), list(r.bmaxs)) for r in s],
                stack_activation=s.stack_activation, rule_type=s._rule_type, names=sorted(s.features_names))


def frozen(s):
    return dict(outline(s), view=rs.set_view(s))


def case(m, rng):
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=rng.choice([1, 2, 3, 5]))
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    RuleSet.STACKED_FIT = rng.random() < 0.5
    stack = rng.random() < 0.4
    rules, twins = p.rules(), [rs.CLS[kind](gen.condition(rng, b)) for b in p.boxes]
    S, T = RuleSet(rules, stack_activation=stack), RuleSet(twins, stack_activation=stack)
    if rng.random() < 0.8:
        xs, y = p.data()
        for s in (S, T):
            s.fit(y=y, xs=xs)
        fitted = True
    else:
        fitted = False
    cur, trace = p, []
    for _ in range(rng.randint(1, 4)):
        q = rs.Problem(rng, kind, like=p)
        x2, y2 = q.data()
        km = dict(criterion_method=rng.choice(methods(q.y))) if kind == "reg" else {}
        ops = {"fit": lambda s, x=x2, t=y2, **k: s.fit(y=t, xs=x, **k),
               "calc": lambda s, x=x2, t=y2, **k: s.calc_activation(x)}
        if fitted:
            ops.update({"eval": lambda s, x=x2, t=y2, **k: s.eval(y=t, xs=x, **{**km, **k}),
                        "eval keep": lambda s, x=x2, t=y2, **k: s.eval(y=t, xs=x, keep_new_activations=True, **{**km, **k}),
                        "criterion": lambda s, x=x2, t=y2, **k: s.calc_criterion(y=t, xs=x, **{**km, **k}),
                        "predict": lambda s, x=x2, t=y2, **k: s.predict(x)})
        name = rng.choice(list(ops))
        op = ops[name]
        how = rng.choice(["columns", "length", "argument", "evaluate", "evaluate", "evaluate", "write", "read", "weights", "sort", "append", "load", "empty"])
        before, flags = outline(S), env.settings()
        full = frozen(S) if how in ("sort", "append", "weights", "load", "empty") else None
        failed = None
        try:
            if how == "columns":
                need = {n for b in p.boxes if all(lo <= hi for *_, lo, hi in b.items) for n, *_ in b.items}
                if not need:
                    continue
                x = pd.DataFrame(q.rows, columns=q.names)
                gone = rng.choice(sorted(need))
                op(S, x=x.drop(columns=[gone]))
            elif how == "length":
                if name in ("calc", "predict") or not (RuleSet.STACKED_FIT and name in ("fit", "eval", "eval keep")):
                    continue
                op(S, t=np.array(list(q.y) + [q.y[0]] * rng.randint(1, 3)))
            elif how == "argument":
                if name in ("calc", "predict"):
                    continue
                if name == "fit" or rng.random() < 0.5:
                    if name == "criterion":
                        continue
                    op(S, method=1)
                else:
                    op(S, criterion_method="nope")
            elif how == "evaluate":
                exc = rng.choice([Fault("injected"), MemoryError(), KeyboardInterrupt(), OSError(28, "No space left on device")])
                with Inject(HyperrectangleCondition, "evaluate", rng.randint(1, len(p.boxes)), exc) as inj:
                    op(S)
            elif how == "write":
                with Inject(np, "save", rng.randint(1, 2 * len(p.boxes)), OSError(28, "No space left on device")) as inj:
                    op(S)
            elif how == "read":
                with Inject(np, "load", rng.randint(1, 2 * len(p.boxes)), OSError(5, "Input/output error")) as inj:
                    op(S)
            elif how == "weights":
                if not fitted:
                    continue
                S.predict(x2, weights=pd.Series({str(r.condition): 0 for r in S}))
            elif how == "sort":
                S.sort("no such attribute")
            elif how == "append":
                cond = p.conditions()[0]
                if rng.random() < 0.5:  # about a feature that the set does not know
                    cond = HyperrectangleCondition([p.d + 3], bmins=[0], bmaxs=[1], features_names=["a feature of its own"])
                other = (ClassificationRule if kind == "reg" else RegressionRule)(cond)
                longer = rs.CLS[kind](cond, Activation(np.ones(cur.n + 2, dtype=np.ubyte), to_file=False))
                w = rng.randrange(7)
                trace.append(w)
                if w == 0:
                    S.append(other, update_activation=rng.random() < 0.5)
                elif w == 1:
                    S += other
                elif w == 2:
                    S += RuleSet([other])
                elif w == 3:
                    S + other
                elif w == 4:
                    S.rules = [S[0], other]
                elif not fitted:
                    continue
                elif w == 5:
                    S.append(longer)
                else:
                    S += RuleSet([longer])
            elif how == "load":
                S.load(env.AUX / "missing.csv")
            else:
                # no rows: nothing to do
                if name in ("predict", "criterion"):
                    continue
                none = pd.DataFrame(q.rows, columns=q.names).iloc[:0]
                out = op(S, x=none if rng.random() < 0.5 else none.to_numpy())
                m.check(name == "calc" or out == [], f"{name} of no rows returns rules", got=out)
                m.check(rs.diff(frozen(S)["view"], full["view"]) is None, f"{name} of no rows changed the set", trace=trace, problem=p.describe())
                m.ev("no rows")
        except (Exception, KeyboardInterrupt) as e:
            failed = e
        trace.append((name, how, type(failed).__name__, RuleSet.STACKED_FIT))
        ctx = dict(trace=trace, problem=p.describe(), stack_activation=stack)
        injected = how in ("evaluate", "write", "read")
        if failed is None:
            if injected and not inj.hit:
                m.ev("fault not reached")
            elif injected:
                m.ev("fault absorbed")
            elif how == "empty":
                pass
            else:
                m.fail(f"{name}: an impossible call is accepted ({how})", **ctx)
        else:
            m.ev("failed:" + how)
            now = outline(S)
            d = rs.diff(now, before)
            m.check(now == before, f"a failed call ({how}) changed the set", diff=d, **ctx)
            m.check(S.stack_activation or S.stacked_activations is None, f"a failed call ({how}) left tables in a set that keeps none", **ctx)
            m.check(env.settings() == flags, f"a failed call ({how}) changed the settings", **ctx)
            if full is not None:
                d = rs.diff(frozen(S)["view"], full["view"])
                m.check(d is None, f"a refused call ({how}) changed the rules or the set", diff=d, **ctx)
        if failed is not None and fitted and (full is not None or name in ("eval", "criterion", "predict")) and rng.random() < 0.5:
            # a call that was not to touch the activations
            a, b = S.predict(), T.predict()
            m.check(rs.same(rs.norm(a), rs.norm(b)) and list(a.index) == list(b.index), "after a failed call, what is predicted without data differs", got=rs.norm(a),
                    expected=rs.norm(b), index=list(a.index), **ctx)
            m.ev("predicted without data")
        # now with what was missing
        if how in ("sort", "append", "weights", "load") and rng.random() < 0.5:
            name, op = "predict" if fitted else "fit", ops["predict" if fitted else "fit"]
        a, b = op(S), op(T)
        if name == "predict":
            m.check(rs.same(rs.norm(a), rs.norm(b)), "after a failed call, predictions differ", got=rs.norm(a), expected=rs.norm(b), **ctx)
        else:
            if name in ("fit", "eval keep", "calc"):
                cur = q
            if name == "fit":
                fitted = True
            d = rs.diff(rs.set_view(S), rs.set_view(T))
            m.check(d is None, f"after a failed call ({how}), {name} gives another result than on a set where nothing failed", diff=d, **ctx)
        m.ev("repeated:" + name)
        m.state(kind, name, how, RuleSet.STACKED_FIT, stack, Rule.LOCAL_ACTIVATION)
        if failed is not None:
            m.nontrivial(str(trace), p.rows, [b.items for b in p.boxes])
    m.sample(dict(kind=kind, rules=len(p.boxes), steps=[str(t) for t in trace]))


def alone_case(m, rng):
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=1, p_impossible=0)
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    r, t = p.rules()[0], p.rules()[0]
    xs, y = p.data()
    trace = []
    ctx = dict(trace=trace, problem=p.describe())
    if rng.random() < 0.3:
        new = rs.view(r)
        for what, call in (("predict", lambda: r.predict()), ("eval", lambda: r.eval(y=y)), ("fit", lambda: r.fit(y=y)), ("calc_activation", lambda: r.calc_activation())):
            m.raises(ValueError, call, f"{what} without data is accepted before any activation", **ctx)
        d = rs.diff(rs.view(r), new)
        m.check(d is None, "a refused call changed a new rule", diff=d, **ctx)
        m.ev("new rules")
    r.fit(y=y, xs=xs)
    t.fit(y=y, xs=xs)
    for _ in range(rng.randint(1, 4)):
        q = rs.Problem(rng, kind, like=p)
        x2, y2 = q.data()
        km = dict(criterion_method=rng.choice(methods(q.y))) if kind == "reg" else {}
        ops = {"fit": lambda s, x=x2, **k: s.fit(y=y2, xs=x, **k), "calc": lambda s, x=x2, **k: s.calc_activation(x), "predict": lambda s, x=x2, **k: s.predict(x),
               "eval": lambda s, x=x2, **k: s.eval(y=y2, xs=x, **{**km, **k}), "eval recompute": lambda s, x=x2, **k: s.eval(y=y2, xs=x, recompute_activation=True, **{**km, **k})}
        name = rng.choice(list(ops))
        how = rng.choice(["columns", "argument", "evaluate", "write", "empty"])
        before, flags, failed = rs.view(r), env.settings(), None
        touched = name == "fit" or (name == "eval recompute" and how == "argument")
        try:
            if how == "columns":
                x = pd.DataFrame(q.rows, columns=q.names)
                ops[name](r, x=x.drop(columns=[rng.choice([n for n, *_ in p.boxes[0].items])]))
            elif how == "argument":
                if name in ("calc", "predict"):
                    continue
                if name == "fit" or rng.random() < 0.5:
                    touched = False
                    ops[name](r, method=1)
                else:
                    ops[name](r, criterion_method="nope")
            elif how == "evaluate":
                with Inject(HyperrectangleCondition, "evaluate", 1, rng.choice([MemoryError(), KeyboardInterrupt(), Fault("injected")])):
                    ops[name](r)
            elif how == "write":
                with Inject(np, "save", rng.randint(1, 2), OSError(28, "No space left on device")):
                    ops[name](r)
                    failed = False
            else:
                # no rows: nothing to do
                if name == "predict":
                    continue
                ops[name](r, x=pd.DataFrame(q.rows, columns=q.names).iloc[:0])
                touched = False
        except (Exception, KeyboardInterrupt) as e:
            failed = e
        trace.append((name, how, type(failed).__name__))
        if how in ("columns", "argument", "evaluate"):
            m.check(failed is not None, f"{name}: an impossible call is accepted ({how})", **ctx)
        if how == "empty":
            m.check(failed is None, f"{name} of no rows fails", got=failed, **ctx)
        if failed is not False and not touched:
            d = rs.diff(rs.view(r), before)
            m.check(d is None, f"{name} of a rule failed ({how}) and changed it", diff=d, **ctx)
        m.check(env.settings() == flags, f"{name} of a rule failed ({how}) and changed the settings", **ctx)
        m.ev("rule:" + how)
        a, b = ops[name](r), ops[name](t)
        if name == "predict":
            m.check(rs.same(rs.norm(a), rs.norm(b)), "after a failed call, a rule predicts otherwise", got=rs.norm(a), expected=rs.norm(b), **ctx)
        d = rs.diff(rs.view(r), rs.view(t))
        m.check(d is None, f"after a failed call ({how}), {name} of a rule gives another result than where nothing failed", diff=d, **ctx)
        m.state("alone", kind, name, how, Rule.LOCAL_ACTIVATION)
        m.nontrivial("alone", str(trace), p.rows, p.boxes[0].items)
    m.sample(dict(kind=kind, steps=[str(s) for s in trace]))


def sort_case(m, rng):
    """Sorting by an attribute that some of the rules do not have yet."""
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=rng.choice([3, 5, 8]), p_impossible=0)
    rules = p.rules()
    if len(rules) < 2:
        return
    xs, y = p.data()
    attribute = rng.choice(["prediction", "criterion"] + (["std", "zscore"] if kind == "reg" else []))
    new = set(rng.sample(range(len(rules)), rng.randint(1, max(1, len(rules) // 2))))
    for i, r in enumerate(rules):
        r.calc_activation(xs)
        if i not in new:
            r.fit(y=y, xs=xs)
            r.eval(y=y, **(dict(criterion_method="mse") if kind == "reg" else {}))
    stack = rng.random() < 0.5
    s = RuleSet(rules, stack_activation=stack)
    full, given, held = frozen(s), list(rules), s.rules
    ctx = dict(problem=p.describe(), attribute=attribute, new=sorted(new), stack=stack)
    m.raises(TypeError, lambda: s.sort(attribute, reverse=rng.random() < 0.5), "sorting by an attribute that is not there is accepted", **ctx)
    now = frozen(s)
    m.check(now["rules"] == full["rules"] and [id(r) for r in held] == full["rules"], "a refused sort moved rules", got=[str(r) for r in s],
            expected=[str(r) for r in given], **ctx)
    d = rs.diff(now["view"], full["view"])
    m.check(d is None, "a refused sort changed the rules or the set", diff=d, **ctx)
    m.ev("sort refused midway")
    for r in rules:
        r.fit(y=y, xs=xs)
        r.eval(y=y, **(dict(criterion_method="mse") if kind == "reg" else {}))
    s.sort("coverage")
    m.check([id(r) for r in s] == [id(r) for r in sorted(given, key=lambda r: r.coverage)], "after a refused sort, the rules are not sorted", **ctx)
    m.state("sort", kind, attribute, stack, len(new) > 1)
    m.nontrivial("sort", p.rows, [b.items for b in p.boxes], sorted(new))


SCENARIOS = {"sort": (sort_case, 200, 2500), "failures": (case, 1000, 12000), "alone": (alone_case, 700, 8000)}
REQUIRED = {"sort refused midway": 120, "failed:append": 100, "failed:argument": 50, "failed:columns": 100, "failed:evaluate": 300, "failed:length": 25, "failed:load": 100, "failed:sort": 100,
            "failed:weights": 80, "repeated:calc": 150, "repeated:criterion": 100, "repeated:eval": 130, "repeated:eval keep": 130, "repeated:fit": 200,
            "predicted without data": 200, "new rules": 100, "rule:columns": 100, "rule:argument": 60, "rule:evaluate": 100, "rule:empty": 80, "no rows": 50}
