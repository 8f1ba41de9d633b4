"""C15: a rule set's activation, stacked table and feature list always mirror its rules."""
import pandas as pd

from ruleskit import Rule, RuleSet

from .. import env, gen, limits, ref, rs

RULE = ("seeded histories of 3-12 rule-set operations (construction, append, += rule, += set, + rule, + set, rules assignment, sort, "
        "calc_activation, fit, refit, eval, with rules dropped by thresholds or not, deletion of the activation or table, starting from rules or empty) over several live rule sets with random stack_activation, "
        "STACKED_FIT and storage settings; after each operation every live set is compared with a model that only knows the boxes and the rows; "
        "non-trivial: history with a drop, merge or sort of at least three rules")
ASSUMPTIONS = ["all rules of a set have activations for the same rows", "no duplicated condition within a set"]


class Model:
    """A live set, the boxes its rules must have, in order, and the rows they were last activated on."""

    def __init__(self, s, boxes, rows, stack):
        self.s, self.boxes, self.rows, self.stack = s, boxes, rows, stack


def check(m, mod, trace, ordered=True, what=""):
    s = mod.s
    ctx = dict(trace=list(trace), stack_activation=mod.stack)
    got = [rs.box_of(r) for r in s]
    if not ordered:
        by = {b.key: b for b in mod.boxes}
        m.check(sorted(map(str, (sorted(b.key) for b in got))) == sorted(map(str, (sorted(b.key) for b in mod.boxes))),
                f"{what}: other rules than expected", got=[b.items for b in got], expected=[b.items for b in mod.boxes], **ctx)
        mod.boxes = [by[b.key] for b in got]
    m.check([b.key for b in got] == [b.key for b in mod.boxes], f"{what}: the set does not hold the expected rules in order",
            got=[b.items for b in got], expected=[b.items for b in mod.boxes], **ctx)
    m.check(s.stack_activation == mod.stack, f"{what}: stack_activation changed", **ctx)
    feats = sorted({n for b in mod.boxes for n in b.d})
    m.check(sorted(s.features_names) == feats, f"{what}: features_names is not the set of features of the rules", got=s.features_names,
            expected=feats, **ctx)
    if not mod.boxes:
        m.ev("empty set")
        return
    acts = [b.evaluate(mod.rows) for b in mod.boxes]
    for r, a in zip(s, acts):
        m.check(gen.ints(r.activation) == a, f"{what}: a rule's activation is not where its condition holds", rule=str(r), **ctx)
    e = ref.n_or(acts)
    g = gen.ints(s.activation)
    m.check(g == e, f"{what}: activation is not the OR of the rules' activations", got=g, expected=e, **ctx)
    m.check(rs.same(rs.norm(s.ruleset_coverage), sum(e) / len(e)), f"{what}: coverage is not that of the activation", got=s.ruleset_coverage,
            expected=sum(e) / len(e), **ctx)
    if what != "delete":
        m.check((s.nones, s.entropy, s.length) == (sum(e), ref.entropy(e), len(e)) and rs.same(s.coverage, sum(e) / len(e)),
                f"{what}: nones, coverage, entropy or length read on the set are not those of its activation", got=(s.nones, s.coverage, s.entropy, s.length),
                expected=e, **ctx)
    t = s.stacked_activations
    if mod.stack:
        m.ev("table compared")
        m.check(t is not None, f"{what}: the stacked table is missing", **ctx)
        m.check(list(t.columns) == [str(r.condition) for r in s], f"{what}: the table's columns are not the rules in order", got=list(t.columns),
                expected=[str(r.condition) for r in s], **ctx)
        tt = [gen.ints(t.iloc[:, i]) for i in range(len(t.columns))]
        m.check(tt == acts, f"{what}: a column of the table is not its rule's activation", got=tt, expected=acts, **ctx)
    else:
        m.check(t is None, f"{what}: a stacked table is kept though not asked for", **ctx)


def history_case(m, rng):
    kind = rng.choice(["reg", "cls"])
    p = rs.Problem(rng, kind, k=rng.choice([4, 6, 8, 10]))
    env.apply_act_cfg(env.rand_act_cfg(rng))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    RuleSet.STACKED_FIT = rng.random() < 0.5
    pool = list(p.boxes)
    rows, y = p.rows, p.y
    trace = [dict(STACKED_FIT=RuleSet.STACKED_FIT)]

    def new_rules(boxes):
        """Fresh rules fitted on the current rows."""
        out = []
        for b in boxes:
            c = gen.condition(rng, b)
            r = rs.CLS[kind](c)
            xs, yy = current(False).data()
            r.fit(y=yy, xs=xs)
            out.append(r)
        return out

    def other_boxes(mod, k):
        have = {b.key for b in mod.boxes}
        free = [b for b in pool if b.key not in have]
        rng.shuffle(free)
        return free[:k]

    def current(new):
        """Other rows, or the current ones in other containers."""
        if new:
            return rs.Problem(rng, kind, like=p)
        q = rs.Problem.__new__(rs.Problem)
        q.__dict__.update(p.__dict__)
        q.rows, q.y, q.n = rows, y, len(rows)
        return q

    def build(boxes):
        stack = rng.random() < 0.5
        s = RuleSet(new_rules(boxes), stack_activation=stack)
        return Model(s, list(boxes), rows, stack)

    def extend(mod, why):
        """Adds a rule or a set to a set without activation (or table), or a set without them to it."""
        bs = other_boxes(mod, rng.randint(1, 2))
        how = rng.choice(["append", "iadd", "iadd set", "iadd set", "iadd late set", "iadd late set", "iadd to another"])
        trace.append((why, how))
        m.ev(f"{why}, then {how}")
        if how == "append":
            bs = bs[:1]
            mod.s.append(new_rules(bs)[0])
        elif how == "iadd":
            bs = bs[:1]
            mod.s += new_rules(bs)[0]
        elif how == "iadd to another":
            o = build(bs)
            v = [rs.view(r) for r in mod.s]
            o.s += mod.s
            d = rs.diff([rs.view(r) for r in mod.s], v)
            m.check(d is None, "adding a set without activation to another altered its rules", diff=d, trace=list(trace))
            mod.s, mod.boxes, mod.stack = o.s, bs + mod.boxes, o.stack
            return
        else:
            stack = rng.random() < 0.5
            o = RuleSet(new_rules(bs), compute_activation=how == "iadd set", stack_activation=stack)
            if rng.random() < 0.3:
                o.del_activation()
            if rng.random() < 0.3:
                o.del_stacked_activations()
            mod.s += o
        mod.boxes = mod.boxes + bs

    k0 = rng.randint(1, 4) if rng.random() < 0.6 else rng.randint(min(4, len(pool)), min(10, len(pool)))
    live = [build(pool[:k0])]
    trace.append(f"build {k0}")
    m.ev("op:build")
    check(m, live[0], trace, what="construction")
    drops = merges = 0
    for _ in range(rng.randint(2, 10)):
        mod = rng.choice(live)
        op = rng.choice(["append", "iadd", "iadd set", "add", "add set", "rules", "sort", "calc", "fit", "eval", "eval keep", "fit drop", "eval drop", "eval drop", "build", "delete",
                         "delete", "empty", "late"])
        if op in ("append", "iadd", "iadd set", "add", "add set") and not mod.boxes:
            mod.rows = rows
        if mod.rows is not rows and op in ("append", "iadd", "iadd set", "add", "add set"):
            op = "calc current"
        sys_before = [(o, rs.set_view(o.s)) for o in live if o is not mod]
        trace.append(op)
        m.ev("op:" + op)
        ordered = True
        if op in ("append", "iadd", "add"):
            bs = other_boxes(mod, 1)
            if not bs:
                continue
            r = new_rules(bs)[0]
            v = rs.view(r)
            if op == "append":
                mod.s.append(r)
                mod.boxes = mod.boxes + bs
            elif op == "iadd":
                mod.s += r
                mod.boxes = mod.boxes + bs
            else:
                keep = rs.set_view(mod.s)
                n = mod.s + r
                d = rs.diff(rs.set_view(mod.s), keep)
                m.check(d is None, "set + rule altered the set", diff=d, trace=list(trace))
                live.append(Model(n, mod.boxes + bs, rows, mod.stack))
                check(m, live[-1], trace, what=op)
            d = rs.diff(rs.view(r), v)
            m.check(d is None, "adding a rule to a set altered the rule", diff=d, trace=list(trace))
        elif op in ("iadd set", "add set"):
            bs = other_boxes(mod, rng.randint(1, 3))
            if not bs:
                continue
            o = build(bs)
            trace.append(f"other has {len(bs)} rules, stack={o.stack}")
            v = rs.set_view(o.s)
            if op == "iadd set":
                mod.s += o.s
                mod.boxes = mod.boxes + bs
            else:
                keep = rs.set_view(mod.s)
                n = mod.s + o.s
                d = rs.diff(rs.set_view(mod.s), keep)
                m.check(d is None, "set + set altered the left set", diff=d, trace=list(trace))
                live.append(Model(n, mod.boxes + bs, rows, n.stack_activation))
                check(m, live[-1], trace, what=op)
            merges += 1
            d = rs.diff(rs.set_view(o.s), v)
            m.check(d is None, "adding a set to another altered it", diff=d, trace=list(trace))
            if rng.random() < 0.7:
                live.append(o)
        elif op == "empty":
            stack = rng.random() < 0.5
            live.append(Model(RuleSet(stack_activation=stack) if rng.random() < 0.5 else RuleSet([], stack_activation=stack), [], rows, stack))
            check(m, live[-1], trace, what="empty construction")
            if rng.random() < 0.6:
                # filled by another set, then going its own way
                bs = rng.sample(pool, rng.randint(2, min(4, len(pool))))
                e, o = live[-1], build(bs[:-1])
                v = rs.set_view(o.s)
                e.s += o.s
                e.boxes = bs[:-1]
                trace.append(f"filled by a set of {len(bs) - 1}, stack={o.stack}")
                check(m, e, trace, what="filling an empty set")
                e.s.append(new_rules(bs[-1:])[0])
                e.boxes = list(bs)
                check(m, e, trace, what="appending to a filled set")
                d = rs.diff(rs.set_view(o.s), v)
                m.check(d is None, "appending to a set filled by another altered that other set", diff=d, trace=list(trace))
                m.ev("filled")
                if rng.random() < 0.5:
                    live.append(o)
        elif op == "delete":
            # deleting what the set keeps of its own touches no rule, and it can be computed again
            if not mod.boxes:
                continue
            v = [rs.view(r) for r in mod.s]
            cov = rs.norm(mod.s.ruleset_coverage)
            which = rng.choice(["activation", "table", "both"])
            if which != "table":
                mod.s.del_activation()
                m.check(rs.same(rs.norm(mod.s.ruleset_coverage), cov), "deleting a set's activation changes its coverage",
                        got=mod.s.ruleset_coverage, expected=cov, trace=list(trace))
            if which != "activation":
                mod.s.del_stacked_activations()
                m.check(mod.s.stacked_activations is None, "the deleted table is still there", trace=list(trace))
            d = rs.diff([rs.view(r) for r in mod.s], v)
            m.check(d is None, "deleting a set's activation or table altered its rules", diff=d, which=which, trace=list(trace))
            if mod.rows is rows and rng.random() < 0.6 and other_boxes(mod, 1):
                extend(mod, f"deleted {which}")  # computed again by what comes next
            else:
                if which != "table":
                    mod.s.compute_self_activation()
                if which != "activation" and mod.stack:
                    mod.s.compute_stacked_activation()
        elif op == "late":
            # a set that did not compute its activation, before it is added to, or to another
            n = rng.randint(1, min(3, len(pool) - 1))
            stack = rng.random() < 0.5
            bs = rng.sample(pool, n)
            late = Model(RuleSet(new_rules(bs), compute_activation=False, stack_activation=stack), bs, rows, stack)
            m.check(late.s.activation is None and not late.s.activation_available, "an activation is computed though not asked for", trace=list(trace))
            extend(late, "not computed")
            live.append(late)
            check(m, late, trace, what=op)
        elif op == "build":
            live.append(build(rng.sample(pool, rng.randint(1, min(4 if rng.random() < 0.6 else 9, len(pool))))))
            check(m, live[-1], trace, what="construction")
        elif op == "rules":
            bs = rng.sample(pool, rng.randint(1, min(4, len(pool))))
            if mod.boxes and not mod.stack and rng.random() < 0.4:
                mod.s.compute_stacked_activation()  # on demand: not that of the rules to come
                m.ev("table on demand")
            mod.s.rules = new_rules(bs)
            mod.boxes, mod.rows = bs, rows
        elif op == "sort":
            crit = rng.choice([None, None, "coverage", "nones"])
            mod.s.sort(**({} if crit is None else dict(criterion=crit)), reverse=rng.random() < 0.5)
            ordered = False
        elif op in ("calc", "calc current"):
            if not mod.boxes:
                continue
            q = current(op == "calc")
            xs, rws = q.xs(), q.rows
            shared = _shared(live, mod)
            if shared:
                continue
            mod.s.calc_activation(xs)
            mod.rows = rws
        else:
            if not mod.boxes or _shared(live, mod):
                continue
            q = current(rng.random() < 0.5)
            xs, yy = q.data()
            if op == "fit drop":
                exp = [rs.expect_fit(kind, b, q.rows, q.y) for b in mod.boxes]
                lim = limits.draw(rng, kind, exp, q.n, text=p.pool is not None and isinstance(p.pool[0], str))
                if any(limits.close_to_limit(lim, e) for e in exp):
                    continue
                rs.CLS[kind].SET_THRESHOLDS(limits.write(lim))
                mod.s.fit(y=yy, xs=xs)
                rs.CLS[kind].SET_THRESHOLDS(None)
                kept = [b for b, e in zip(mod.boxes, exp) if not limits.failing(lim, e)]
                if len(kept) < len(mod.boxes):
                    m.ev("drops")
                    drops += 1
                mod.boxes = kept
                mod.rows = q.rows
                trace.append(dict(limits=lim, kept=len(kept)))
            elif op == "eval drop":
                # which rules are dropped is judged by C20; here, that what remains mirrors the remaining rules
                vals = [{a: rs.norm(getattr(r, a)) for a in ["coverage", "prediction", "train_set_size"] + (["std", "zscore"] if kind == "reg" else [])}
                        for r in mod.s]
                if any(v is None for e in vals for v in e.values()):
                    continue
                lim = limits.draw(rng, kind, vals, q.n, text=p.pool is not None and isinstance(p.pool[0], str))
                rs.CLS[kind].SET_THRESHOLDS(limits.write(lim))
                km = dict(criterion_method="mse") if kind == "reg" else {}
                keep = rng.random() < 0.5
                mod.s.eval(y=yy, xs=xs, keep_new_activations=keep, **km)
                rs.CLS[kind].SET_THRESHOLDS(None)
                if keep:
                    mod.rows = q.rows
                left = {rs.box_of(r).key for r in mod.s}
                kept = [b for b in mod.boxes if b.key in left]
                if len(kept) < len(mod.boxes):
                    m.ev("drops at eval")
                    drops += 1
                    if {n for b in mod.boxes for n in b.d} != {n for b in kept for n in b.d}:
                        m.ev("drops at eval: a feature is gone")
                mod.boxes = kept
                trace.append(dict(limits=lim, kept=len(kept), keep=keep))
            elif op == "fit":
                mod.s.fit(y=yy, xs=xs)
                mod.rows = q.rows
            else:
                km = dict(criterion_method="mse") if kind == "reg" else {}
                mod.s.eval(y=yy, xs=xs, keep_new_activations=op == "eval keep", **km)
                if op == "eval keep":
                    mod.rows = q.rows
        check(m, mod, trace, ordered=ordered, what=op)
        for o, v in sys_before:
            if o is not mod:
                d = rs.diff(rs.set_view(o.s), v)
                m.check(d is None, f"{op} on one set changed another set", diff=d, trace=list(trace))
        m.state(kind, op, mod.stack, RuleSet.STACKED_FIT, len(mod.boxes) > 1)
    if drops + merges or any(t == "sort" for t in trace):
        m.nontrivial(str(trace), p.rows, [b.items for b in p.boxes])
    m.sample(dict(kind=kind, n=p.n, history=[str(t) for t in trace]))


def many_case(m, rng):
    """More rules than a byte counts, with points where all, or exactly 256, of them are active."""
    k = rng.choice([130, 255, 256, 257, 300])
    p = rs.Problem(rng, "reg", n=rng.choice([5, 40]), d=2, k=1, plain=True)
    rows = [[rng.choice([-1, 0, 1, 2, 255, 256, k - 1, k, k + 1, rng.randint(0, k)]), rng.choice([0.0, 1.0])] for _ in range(p.n)]
    p.rows, p.tkind = rows, "clean"
    bs = [ref.Box([("X_0", 0, 0, i)]) if rng.random() < 0.9 else ref.Box([("X_0", 0, 0, i), ("X_1", 1, 0, 1)]) for i in range(k)]
    rng.shuffle(bs)
    p.boxes = bs
    RuleSet.STACKED_FIT = rng.random() < 0.3
    stack = rng.random() < 0.5
    s = RuleSet(p.rules(), stack_activation=stack)
    xs, y = p.data()
    if rng.random() < 0.5:
        s.calc_activation(xs)
    else:
        s.fit(y=y, xs=xs)
    m.ev("many rules")
    check(m, Model(s, bs, rows, stack), [f"{k} rules"], what="many rules")
    m.nontrivial("many", k, rows)


def _shared(live, mod):
    """Does another live set hold some of the same rule objects (refitting them would legitimately change it)?"""
    ids = {id(r) for r in mod.s}
    return any(o is not mod and any(id(r) in ids for r in o.s) for o in live)


SCENARIOS = {"history": (history_case, 900, 14000), "many": (many_case, 8, 300)}
REQUIRED = {"op:" + o: 40 for o in ["append", "iadd", "iadd set", "add", "add set", "rules", "sort", "calc", "fit", "eval", "eval keep", "fit drop", "eval drop", "delete", "empty", "late"]}
REQUIRED.update({"drops": 25, "drops at eval": 60, "drops at eval: a feature is gone": 20, "many rules": 6, "filled": 80, "not computed, then iadd to another": 15, "not computed, then iadd late set": 15, "not computed, then append": 15,
                 "deleted activation, then iadd": 3, "deleted both, then append": 3, "table on demand": 30, "table compared": 500})
