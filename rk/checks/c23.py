"""C23: rules extracted from a decision tree reproduce the tree."""
import math

import numpy as np
import pandas as pd
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from ruleskit import extract_rules_from_tree, RegressionRule, ClassificationRule, HyperrectangleCondition, RuleSet

from .. import env, gen, ref, rs, votes

RULE = ("seeded sklearn trees (regression with several loss functions, classification with numeric and text classes, sample and class weights, depth 1 to "
        "unlimited, best first growth, early stopping and pruning, few features so that paths repeat them) fitted on grid and continuous data; leaf and node rules compared with tree.apply, "
        "tree.predict and tree.decision_path on the training points and on random points inside [xmins, xmaxs]; non-trivial: a path uses the same "
        "feature at least twice")
ASSUMPTIONS = ["at least one split", "points are exactly representable in single precision (sklearn compares in it) and do not lie on a split value"]


def points(rng, X, lo, hi, thr):
    """Points inside the box that are on no split value, as float64 arrays exactly representable as float32."""
    out = [list(map(float, r)) for r in X]
    for _ in range(40):
        out.append([float(np.float32(rng.uniform(lo[j], hi[j]))) for j in range(len(lo))])
    out.append(list(map(float, lo)))
    out.append(list(map(float, hi)))
    ok = [r for r in out if all(lo[j] <= r[j] <= hi[j] and r[j] not in thr[j] for j in range(len(lo)))]
    return np.array(ok, dtype=float)


def case(m, rng):
    kind = rng.choice(["reg", "cls"])
    d = rng.choice([1, 1, 2, 3, 5])
    n = rng.choice([2, 4, 10, 30, 80, 150])
    grid = rng.random() < 0.5
    X = np.array([[rng.randint(-8, 8) / 4 if grid else float(np.float32(rng.uniform(-5, 5))) for _ in range(d)] for _ in range(n)])
    depth = rng.choice([1, 2, 3, 4, 6, None])
    seed = rng.randrange(10 ** 6)
    kw = dict(max_depth=depth, random_state=seed, min_samples_leaf=rng.choice([1, 1, 2, 5]), max_features=rng.choice([None, None, 1]),
              splitter=rng.choice(["best", "random"]))
    if rng.random() < 0.35:  # other ways to stop: best first growth, pruning
        kw["max_leaf_nodes"] = rng.choice([2, 3, 5, 9, 20])
        m.ev("best first trees")
    if rng.random() < 0.15:
        kw["min_samples_split"] = rng.choice([3, 6, 0.2])
    if rng.random() < 0.15:
        kw["min_impurity_decrease"] = rng.choice([1e-4, 0.01])
    if rng.random() < 0.15:
        kw["ccp_alpha"] = rng.choice([1e-4, 0.005])
    sw = np.array([rng.choice([1.0, 2.0, 0.5]) for _ in range(n)]) if rng.random() < 0.3 else None
    if kind == "reg":
        y = np.array(gen.targets(rng, n, nan=False))
        tree = DecisionTreeRegressor(criterion=rng.choice(["squared_error", "squared_error", "absolute_error"]), **kw)
        classes = None
    else:
        many = rng.random() < 0.15
        if many:
            n = rng.choice([40, 80, 150])
            X = np.array([[rng.randint(-40, 40) / 4 if grid else float(np.float32(rng.uniform(-5, 5))) for _ in range(d)] for _ in range(n)])
            sw = None
            kw = dict(max_depth=None, min_samples_leaf=1, random_state=seed)
            k = rng.choice([11, 12, 14, 20, 30, 130, 130])
            if k == 130:  # no class has a large share of a leaf
                n = 390
                X = np.array([[rng.randint(-200, 200) / 4 if grid else float(np.float32(rng.uniform(-5, 5))) for _ in range(d)] for _ in range(n)])
                kw = dict(max_depth=rng.choice([1, 2, 3]), min_samples_leaf=rng.choice([60, 130]), random_state=seed)
                m.ev("more than a hundred classes")
            m.ev("more than ten classes")
        y, pool = gen.labels(rng, n, pool=(list(range(k)) if rng.random() < 0.5 else [f"c{i}" for i in range(k)]) if many else None)
        if many and k == 130 and rng.random() < 0.7:  # each class once
            y = pool = rng.sample(range(n), n) if rng.random() < 0.5 else [f"c{i}" for i in rng.sample(range(n), n)]
        if not isinstance(pool[0], str) and any(float(c) != int(c) for c in pool):
            y = [str(c) for c in y]  # sklearn refuses continuous-looking classes
        y = np.array(y)
        tree = DecisionTreeClassifier(criterion=rng.choice(["gini", "entropy", "log_loss"]), class_weight=rng.choice([None, None, None, "balanced"]), **kw)
        classes = None
    if rng.random() < 0.3:  # other scales: exact in single precision as well
        X = X * rng.choice([2.0 ** -20, 2.0 ** -17, 2.0 ** 20, 2.0 ** 40]) if rng.random() < 0.7 else (X * 4).round() + rng.choice([2.0 ** 20, -2.0 ** 22])
        m.ev("very small, very large or shifted features")
    tree.fit(X, y, sample_weight=sw)
    t = tree.tree_
    if t.node_count < 2:
        m.ev("single node trees left aside")
        return
    thr = [set() for _ in range(d)]
    for k in range(t.node_count):
        if t.children_left[k] != -1:
            thr[t.feature[k]].add(float(t.threshold[k]))
    wide = rng.random() < 0.4
    lo, hi = X.min(axis=0), X.max(axis=0)
    if wide:
        lo, hi = lo - 1, hi + 2
    pts = points(rng, X, lo, hi, thr)
    if len(pts) == 0:
        return
    names = ["X_" + str(i) for i in range(d)] if rng.random() < 0.5 else rng.sample(gen.NAMES, d)
    a = dict(xmins=lo if rng.random() < 0.5 else lo.tolist(), xmaxs=hi if rng.random() < 0.5 else hi.tolist())
    if names[0] != "X_0" or rng.random() < 0.5:
        a["features_names"] = names
    else:
        names = ["X_" + str(i) for i in range(d)]
    label = lambda i: classes[i]  # noqa
    if kind == "cls":
        classes = list(tree.classes_)
        if rng.random() < 0.4:
            classes = [f"the class {i}" for i in range(len(classes))]
            a["classes_names"] = classes
    HyperrectangleCondition.SORT_ACCORDING_TO = rng.choice(["index", "index", "name"])
    if rng.random() < 0.3:
        a["stack_activation"] = True
    ctx = dict(kind=kind, depth=depth, nodes=t.node_count, names=names, feature=t.feature.tolist()[:30], threshold=t.threshold.tolist()[:30], lo=lo, hi=hi)
    # ---- leaves
    leaves = extract_rules_from_tree(tree, get_leaf=True, **a)
    want = RegressionRule if kind == "reg" else ClassificationRule
    is_leaf = [t.children_left[k] == -1 for k in range(t.node_count)]
    m.check(len(leaves) == sum(is_leaf), "leaf extraction does not give one rule per leaf", got=len(leaves), expected=sum(is_leaf), **ctx)
    frame = rng.random() < 0.5
    xs = pd.DataFrame(pts, columns=names) if frame else pts
    if frame:
        cols = list(names)
        rng.shuffle(cols)
        xs = xs[cols]
    acts = [gen.ints(r.evaluate_activation(xs).raw) for r in leaves]
    tot = [sum(c) for c in zip(*acts)]
    m.check(all(x == 1 for x in tot), "a point does not activate exactly one leaf rule", counts=tot, points=pts.tolist()[:40], **ctx)
    exp = tree.predict(pts)
    if kind == "cls":
        where = {c: i for i, c in enumerate(tree.classes_.tolist())}
        exp = [classes[where[c]] for c in exp.tolist()]
    exp = rs.norm(exp)
    got = [rs.norm(next(r.prediction for r, act in zip(leaves, acts) if act[i])) for i in range(len(pts))]
    if kind == "reg":
        m.check(rs.same(got, exp), "a leaf rule does not predict what the tree predicts", got=got, expected=exp, **ctx)
    else:
        m.check(votes.classes_equal(got, rs.norm(exp)), "a leaf rule does not predict the class the tree predicts", got=got, expected=exp, **ctx)
    voted = rs.norm(leaves.predict(xs))
    m.check(rs.same(voted, exp) if kind == "reg" else votes.classes_equal(voted, exp), "the set of leaf rules does not predict as the tree", got=voted,
            expected=exp, **ctx)
    m.ev("leaf points judged", len(pts))
    # ---- all nodes
    nodes = extract_rules_from_tree(tree, get_leaf=False, **a)
    m.check(len(nodes) == t.node_count - 1, "node extraction does not give one rule per non-root node", got=len(nodes), expected=t.node_count - 1, **ctx)
    through = tree.decision_path(pts).toarray().astype(int)

    def value(k):
        if kind == "reg":
            return round(float(t.value[k][0][0]), 7) + 0.0
        v = t.value[k][0].tolist()
        return str(rs.norm(classes[v.index(max(v))]))

    e = sorted((tuple(through[:, k].tolist()), value(k)) for k in range(1, t.node_count))
    g = sorted((tuple(gen.ints(r.evaluate_activation(xs).raw)), round(float(r.prediction), 7) + 0.0 if kind == "reg" else str(rs.norm(r.prediction)))
               for r in nodes)
    m.check(len(e) == len(g) and all(x[0] == z[0] and rs.same(x[1], z[1], 1e-6) for x, z in zip(g, e)),
            "node rules are not the tree's nodes (points routed through them, own values)",
            first_difference=next(((x, z) for x, z in zip(g, e) if x != z), None), **ctx)
    m.ev("nodes judged", len(e))
    for s in (leaves, nodes):
        for r in s:
            m.check(isinstance(r, want), "a rule of the wrong type", got=type(r), **ctx)
            for nme, i, b0, b1 in zip(r.features_names, r.features_indexes, r.bmins, r.bmaxs):
                m.check(0 <= i < d and names[i] == nme, "a feature has another tree feature's name or index", name=nme, index=i, **ctx)
                m.check(lo[i] <= b0 <= b1 <= hi[i], "a bound is outside [xmins, xmaxs]", name=nme, bounds=(b0, b1), **ctx)
    used = sorted({names[f] for f in t.feature if f >= 0})
    m.check(sorted(leaves.features_names) == used and sorted(nodes.features_names) == used, "the set's features are not those the tree uses",
            got=leaves.features_names, expected=used, **ctx)
    # does a path repeat a feature?
    rep = 0

    def walk(k, seen):
        nonlocal rep
        if t.children_left[k] == -1:
            return
        f = t.feature[k]
        rep += f in seen
        walk(t.children_left[k], seen | {f})
        walk(t.children_right[k], seen | {f})
    walk(0, frozenset())
    if rep:
        m.ev("repeated features on a path")
        m.nontrivial(t.feature.tolist(), t.threshold.tolist())
    m.state(kind, d, depth, wide, bool(rep), frame, min(len(tree.classes_), 5) if kind == "cls" else 0)
    m.sample(dict(kind=kind, depth=depth, features=d, nodes=t.node_count, points=len(pts)))


SCENARIOS = {"trees": (case, 600, 6000)}
REQUIRED = {"leaf points judged": 5000, "nodes judged": 1500, "repeated features on a path": 60, "more than ten classes": 20, "best first trees": 100, "more than a hundred classes": 2}
