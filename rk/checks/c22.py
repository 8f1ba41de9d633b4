"""C22: a rule set behaves as an ordered collection of its rules."""
import copy
from collections import Counter

from ruleskit import Rule, RuleSet, RegressionRule, ClassificationRule

from .. import env, gen, ref, rs

RULE = ("seeded histories of 4-14 collection operations (construction, append, +=, +, indexing, slicing, iteration, membership, equality, counting, "
        "sorting, refusals) on rule sets with and without fitted rules, repeated and equal rules included, against a plain-list model of rule "
        "identities; non-trivial: at least three rules")
ASSUMPTIONS = ["predictions of equal rules are given with the same number type", "sort attributes have no missing value",
               "default order is judged for plain feature names X_<digit>"]


def ids(s):
    return [id(r) for r in s]


def key(r):
    return rs.box_of(r).key


def sort_model(rules, reverse):
    groups = {}
    for r in rules:
        groups.setdefault((len(r.features_names), tuple(sorted(r.features_names))), []).append(r)
    out = []
    for size in sorted({k[0] for k in groups}):
        for k in sorted([k for k in groups if k[0] == size], reverse=reverse):
            out += sorted(groups[k], key=lambda r: list(r.bmins) + list(r.bmaxs))
    return out


def case(m, rng):
    kind = rng.choice(["reg", "cls"])
    # classes whose text starts alike
    pool = rng.choice([[1, 10, 100], ["a", "ab", "abc"], ["x", "xx"], [1, -1], [0, 0.5, 0.55]]) if kind == "cls" and rng.random() < 0.5 else None
    d = rng.randint(1, 5) if rng.random() < 0.85 else rng.choice([10, 10, 12, 14])
    p = rs.Problem(rng, kind, d=d, k=rng.choice([5, 8, 12]), plain=True, pool=pool, maxf=3 if d < 10 else d, p_impossible=0.05 if d < 10 else 0)
    xs, y = p.data()
    fitted = rng.random() < 0.7
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5

    def make(b):
        r = rs.CLS[kind](gen.condition(rng, b))
        if fitted:
            r.fit(y=y, xs=xs)
        return r

    pool = [make(b) for b in p.boxes]
    pred = [e["prediction"] for e in (p.expected(i) for i in range(len(p.boxes)))] if fitted else [None] * len(pool)
    pkey = {id(r): (b.key, str(v)) for r, b, v in zip(pool, p.boxes, pred)}
    twins = []
    for b, v in zip(p.boxes, pred):  # other objects, same rules
        if rng.random() < 0.4:
            r = make(b)
            twins.append(r)
            pkey[id(r)] = (b.key, str(v))
    everything = pool + twins
    other_kind = rs.CLS["cls" if kind == "reg" else "reg"]
    start = rng.sample(everything, rng.randint(0, min(5, len(everything))))
    trace = [("build", len(start))]
    s = RuleSet(list(start))
    L = list(start)

    def chk(what, t=None, l=None):
        t, l = (s, L) if t is None else (t, l)
        ctx = dict(trace=[str(x) for x in trace])
        m.check(ids(t) == [id(r) for r in l], f"{what}: not the expected rules in the expected order", got=[str(r) for r in t],
                expected=[str(r) for r in l], **ctx)
        m.check(len(t) == len(l), f"{what}: wrong length", got=len(t), expected=len(l), **ctx)
        m.check([id(r) for r in t.rules] == [id(r) for r in l], f"{what}: rules differ from iteration", **ctx)

    chk("construction")
    for _ in range(rng.randint(3, 13)):
        op = rng.choice(["append", "iadd", "iadd set", "add", "add set", "index", "slice", "in", "eq", "count", "sort", "sort attr", "refuse", "dup", "str"])
        trace.append(op)
        m.ev("op:" + op)
        ctx = dict(trace=[str(x) for x in trace])
        if op == "append":
            r = rng.choice(everything)
            s.append(r)
            L.append(r)
        elif op == "iadd":
            r = rng.choice(everything)
            keep = s
            s += r
            m.check(s is keep, "+= does not append in place", **ctx)
            L.append(r)
        elif op == "iadd set":
            part = rng.sample(everything, rng.randint(0, 3))
            o = RuleSet(list(part))
            keep = s
            s += o
            m.check(s is keep, "+= does not append in place", **ctx)
            L += part
            chk("+= altered its right operand", o, part)
        elif op == "add":
            r = rng.choice(everything)
            n = s + r
            chk("set + rule", n, L + [r])
            m.check(n is not s, "+ gives the same object", **ctx)
        elif op == "add set":
            part = rng.sample(everything, rng.randint(0, 4))
            o = RuleSet(list(part))
            n = s + o
            seen, exp = set(), []
            for r in L + part:
                if key(r) not in seen:
                    seen.add(key(r))
                    exp.append(r)
            got = list(n)
            m.check([key(r) for r in got] == [key(r) for r in exp], "set + set: not the rules of both, each once, in order of first occurrence",
                    got=[str(r) for r in got], expected=[str(r) for r in exp], **ctx)
            m.check([id(r) for r in got] == [id(r) for r in exp], "set + set: of equal rules, not the first is kept", got=[str(r) for r in got], expected=[str(r) for r in exp], **ctx)
            chk("set + set altered its left operand")
            chk("set + set altered its right operand", o, part)
            if rng.random() < 0.4:
                s, L = n, got
        elif op == "str":
            RuleSet.NLINES = k = rng.choice([1, 2, 3, 5, 5])
            e = [str(r) for r in L]
            if len(L) >= 2 * k:
                e = e[:k] + ["..."] + e[-k:]
            got = str(s)
            RuleSet.NLINES = 5
            m.check(got == "\n".join(e), "the text of a set is not that of its (first and last) rules", got=got, expected=e, **ctx)
        elif op == "index" and L:
            for _ in range(3):
                i = rng.randint(-len(L), len(L) - 1)
                m.check(s[i] is L[i], "indexing does not follow the order", i=i, **ctx)
            m.raises(IndexError, lambda: s[len(L)], "index out of range accepted", **ctx)
        elif op == "slice":
            sl = slice(*[rng.choice([None, *range(-len(L) - 1, len(L) + 2)]) for _ in range(2)], rng.choice([None, None, 1, 2, -1, -2]))
            t = s[sl]
            m.check(isinstance(t, RuleSet), "a slice is not a rule set", got=type(t), **ctx)
            chk(f"slice {sl}", t, L[sl])
        elif op == "in":
            for r in rng.sample(everything, min(4, len(everything))):
                e = pkey[id(r)] in [pkey[id(x)] for x in L]
                m.check((r in s) == e, "'in' is not 'some rule has the same features, bounds and prediction'", rule=str(r), rules=[str(x) for x in L],
                        expected=e, **ctx)
                m.ev("in:" + str(e))
            if L and not fitted:
                # one thing differs: the name, the index, a bound, or nothing
                src = rng.choice(L)
                it = rs.box_of(src).items
                i = rng.randrange(len(it))
                n, j, lo, hi = it[i]
                what = rng.choice(["name", "index", "bound", "bound", "nothing"])
                if what == "name":
                    n = "X_" + str(rng.choice([x for x in range(30) if "X_" + str(x) not in [t[0] for t in it]]))
                elif what == "index":
                    j = rng.choice([x for x in range(30) if x not in [t[1] for t in it]])
                elif what == "bound":
                    if rng.random() < 0.5:
                        lo = lo - 1
                    else:
                        hi = hi + 1
                it[i] = (n, j, lo, hi)
                if rng.random() < 0.3:  # the same numbers, of another type
                    it = [(n, j, float(lo), int(hi) if hi == int(hi) else hi) if abs(lo) < 1e9 and abs(hi) < 1e9 else (n, j, lo, hi) for n, j, lo, hi in it]
                b = ref.Box(it)
                # features are compared by name, whatever their order
                r = rs.CLS[kind](gen.condition(rng, b, sort=rng.random() < 0.6))
                e = b.key in [key(x) for x in L]
                m.ev("in: one difference" if not e else "in: no difference")
                m.check((r in s) == e, "'in' is not 'some rule has the same features, bounds and prediction'", rule=str(r), changed=what,
                        rules=[str(x) for x in L], expected=e, **ctx)
            if L and fitted and len(set(p.y)) > 1:
                # same condition, other prediction
                i = rng.randrange(len(L))
                b = rs.box_of(L[i])
                y2 = list(p.y)
                rng.shuffle(y2)
                r = rs.CLS[kind](gen.condition(rng, b))
                import numpy as np
                r.fit(y=np.array(y2), xs=xs)
                e2 = rs.expect_fit(kind, b, p.rows, y2)["prediction"]
                others = [pr for (k, pr) in [pkey[id(x)] for x in L] if k == b.key]
                far = kind == "cls" or all(pr != "nan" and abs(float(pr) - e2) > 1e-6 for pr in others) if e2 == e2 else False
                if far:
                    e = str(e2) in others
                    m.ev("in: same condition, other prediction" if not e else "in: same condition and prediction")
                    m.check((r in s) == e, "'in' ignores the prediction", rule=str(r), rules=[str(x) for x in L], expected=e, **ctx)
        elif op == "eq":
            o = list(L)
            rng.shuffle(o)
            same = True
            if rng.random() < 0.6 and L:
                how = rng.choice(["less", "more", "twin"])
                if how == "less":
                    x = o.pop()
                elif how == "more":
                    x = rng.choice(everything)
                    o.append(x)
                same = {key(r) for r in o} == {key(r) for r in L}
            m.ev("eq:" + str(same))
            if same:
                m.check(hash(s) == hash(RuleSet(o)), "equal sets have different hashes", left=[str(r) for r in L], right=[str(r) for r in o], **ctx)
            m.check((s != RuleSet(o)) != same, "!= is not the opposite of ==", left=[str(r) for r in L], right=[str(r) for r in o], **ctx)
            m.check((s == RuleSet(o)) == same, "equality is not 'same rules regardless of order'", left=[str(r) for r in L], right=[str(r) for r in o],
                    expected=same, **ctx)
        elif op == "count":
            got = s.get_features_count()
            exp = Counter(n for r in L for n in key_names(r))
            m.check(dict(got) == dict(exp) and len(got) == len(exp), "features are not counted over all rules", got=got, expected=exp, **ctx)
            m.check([c for _, c in got] == sorted((c for _, c in got), reverse=True), "feature counts are not in decreasing order", got=got, **ctx)
        elif op == "sort":
            rev = rng.random() < 0.4
            s.sort(reverse=rev) if rev or rng.random() < 0.5 else s.sort()
            exp = sort_model(L, rev)
            chk_perm(m, s, L, ctx)
            m.check([len(r.features_names) for r in s] == [len(r.features_names) for r in exp], "default order is not by number of features first",
                    got=[len(r.features_names) for r in s], reverse=rev, **ctx)
            if any(len(r.features_names) > 9 for r in L):
                m.ev("sorted: ten features or more")
            m.check(d > 10 or [key(r) for r in s] == [key(r) for r in exp], "default order is not by number of features, features, bounds", got=[str(r) for r in s],
                    expected=[str(r) for r in exp], reverse=rev, **ctx)
            L = list(s)
        elif op == "sort attr" and fitted and L:
            attr = rng.choice(["coverage", "nones", "train_set_size"] + (["prediction", "std", "zscore"] if kind == "reg" else []))
            vals = [rs.norm(getattr(r, attr)) for r in L]
            if any(v is None or v != v for v in vals):
                continue
            rev = rng.random() < 0.5
            s.sort(criterion=attr, reverse=rev)
            exp = [r for _, r in sorted(zip(vals, L), key=lambda t: t[0], reverse=rev)]
            m.check(ids(s) == [id(r) for r in exp], "sorting by an attribute is not in its order, stably", attr=attr, reverse=rev,
                    got=[rs.norm(getattr(r, attr)) for r in s], expected=sorted(vals, reverse=rev), **ctx)
            m.ev("sorted by attribute")
            L = exp
        elif op == "refuse" and L:
            r = other_kind(gen.condition(rng, rng.choice(p.boxes)))
            how = rng.choice(["append", "iadd", "iadd set", "text"])
            if how == "append":
                m.raises(TypeError, lambda: s.append(r), "a rule of another type is accepted (append)", **ctx)
            elif how == "iadd":
                m.raises(TypeError, lambda: s.__iadd__(r), "a rule of another type is accepted (+=)", **ctx)
            elif how == "iadd set":
                m.raises(TypeError, lambda: s.__iadd__(RuleSet([r])), "rules of another type are accepted (+= set)", **ctx)
            else:
                m.raises(TypeError, lambda: s.append("a rule"), "something that is not a rule is accepted", **ctx)
                m.raises(TypeError, lambda: RuleSet([L[0], "a rule"]), "something that is not a rule is accepted (construction)", **ctx)
                m.raises(TypeError, lambda: RuleSet([L[0], r]), "rules of two types are accepted (construction)", **ctx)
        elif op == "dup":
            part = [rng.choice(everything) for _ in range(rng.randint(1, 4))]
            ks = [pkey[id(r)] for r in part]
            RuleSet.CHECK_DUPLICATED = True
            try:
                if len(set(ks)) < len(ks):
                    m.ev("duplicates refused")
                    m.raises(ValueError, lambda: RuleSet(list(part)), "duplicated rules are accepted though the check is on", rules=[str(r) for r in part])
                else:
                    m.ev("no duplicates")
                    t = RuleSet(list(part))
                    chk("construction with the duplicate check", t, part)
            finally:
                RuleSet.CHECK_DUPLICATED = False
        chk(op)
        m.state(op, kind, fitted, min(len(L), 4), len({key(r) for r in L}) < len(L))
    if len(L) > 2:
        m.nontrivial(str(trace), [str(r) for r in L])
    m.sample(dict(kind=kind, history=[str(t) for t in trace]))


def key_names(r):
    return list(r.features_names)


def chk_perm(m, s, L, ctx):
    m.check(sorted(ids(s)) == sorted(id(r) for r in L), "sorting does not keep exactly the rules of the set", **ctx)


def named_case(m, rng):
    """Rules that share indexes and bounds but not names, or names and bounds but not indexes: features are told apart by name."""
    kind = rng.choice(["reg", "cls"])
    names = rng.choice([["a", "b", "c"], ["X_0", "X_1", "X_10"], ["a", "A", "a "], ["x y", "xy", "x"]])
    bounds = rng.sample([(0, 1), (0, 2), (-1, 1), (0.5, 1.0), (1, 2)], 2)

    def rule():
        k = rng.choice([1, 1, 2])
        it = [(n, j) + rng.choice(bounds) for n, j in zip(rng.sample(names, k), rng.sample(range(3), k))]
        return rs.CLS[kind](gen.condition(rng, ref.Box(it)))

    a, b = ([rule() for _ in range(rng.randint(1, 5))] for _ in range(2))
    ctx = dict(left=[str(r) for r in a], right=[str(r) for r in b], indexes=[[r.features_indexes for r in l] for l in (a, b)])
    left, right = RuleSet(list(a)), RuleSet(list(b))
    got = list(left + right)
    exp = list(dict.fromkeys(key(r) for r in a + b))
    m.check([key(r) for r in got] == exp, "set + set: not the rules of both, each once, in order of first occurrence", got=[str(r) for r in got], **ctx)
    same = {key(r) for r in a} == {key(r) for r in b}
    m.check((left == right) == same, "sets are equal iff they hold the same rules", expected=same, **ctx)
    for r in b:
        m.check((r in left) == (key(r) in [key(x) for x in a]), "'in' is not 'some rule has the same features, bounds and prediction'", rule=str(r), **ctx)
    near = any(key(r) != key(x) and (r.bmins, r.bmaxs, r.features_indexes) == (x.bmins, x.bmaxs, x.features_indexes) for r in a for x in b)
    if near:
        m.ev("rules that differ by name only")
        m.nontrivial(str(ctx))
    if any(key(r) == key(x) and r.features_indexes != x.features_indexes for r in a for x in b):
        m.ev("rules that differ by index only")
    cnt = dict(left.get_features_count())
    m.check(cnt == dict(Counter(n for r in a for n in r.features_names)), "feature counts are not those of the rules", got=cnt, **ctx)
    m.ev("named sets")


SCENARIOS = {"history": (case, 1000, 18000), "named": (named_case, 600, 6000)}
REQUIRED = {"op:" + o: 100 for o in ["append", "iadd", "iadd set", "add", "add set", "index", "slice", "in", "eq", "count", "sort", "refuse", "dup", "str"]}
REQUIRED.update({"sorted by attribute": 60, "in:True": 100, "in:False": 100, "eq:True": 60, "eq:False": 25, "duplicates refused": 40, "no duplicates": 40,
                 "in: same condition, other prediction": 20, "in: one difference": 40, "in: no difference": 20, "sorted: ten features or more": 20, "rules that differ by name only": 50, "rules that differ by index only": 10, "named sets": 500})
