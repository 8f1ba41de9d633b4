"""C08: AND of conditions and of rules is the intersection of their boxes."""
import numpy as np

from ruleskit import HyperrectangleCondition, Rule

from .. import env, gen, ref, rs

RULE = ("seeded pairs/triples/chains of boxes over shared, partly shared and disjoint features, in any feature order, sorted by index or "
        "name, and pairs with conflicting name/index; the AND is compared with the intersected box by contents and by evaluation on "
        "hostile data; rules are fitted on the same data first; non-trivial: at least one common and one separate feature")
ASSUMPTIONS = ["rules are ANDed after their activations are known"]


def contents(c):
    n, i, lo, hi = list(c.features_names), list(c.features_indexes), list(c.bmins), list(c.bmaxs)
    if not (len(n) == len(i) == len(lo) == len(hi)):
        return None
    return {a: (int(b), x, y) for a, b, x, y in zip(n, i, lo, hi)} if len(set(n)) == len(n) else None


def check_is(m, c, b, what, **ctx):
    got = contents(c)
    exp = {n: (i, lo, hi) for n, i, lo, hi in b.items}
    m.check(got == exp, what + ": not the intersection of the boxes", got=got, expected=exp, **ctx)
    m.check(bool(c.impossible) == b.impossible, what + ": 'impossible' is wrong", got=c.impossible, expected=b.impossible, **ctx)
    m.check(len(c) == len(b.d), what + ": wrong number of features", got=len(c), **ctx)


def two_orders(rng):
    HyperrectangleCondition.SORT_ACCORDING_TO = rng.choice(["index", "index", "name"])


def conditions_case(m, rng):
    two_orders(rng)
    rows, kind = gen.table(rng)
    d = len(rows[0])
    nms = gen.names(rng, d)
    k = rng.choice([2, 2, 3, 4])
    bs = [gen.box(rng, d, nms, rows, p_impossible=0.05) for _ in range(k)]
    cs = [gen.condition(rng, b, sort=rng.random() < 0.85) for b in bs]
    pics = [(contents(c), list(c.features_names), c.impossible) for c in cs]
    ctx = dict(boxes=[b.items for b in bs], sort=HyperrectangleCondition.SORT_ACCORDING_TO)
    e = bs[0] & bs[1]
    r = cs[0] & cs[1]
    m.ev("and")
    check_is(m, r, e, "a & b", **ctx)
    s = cs[1] & cs[0]
    check_is(m, s, e, "b & a", **ctx)
    m.check(r == s and hash(r) == hash(s), "AND is not commutative", **ctx)
    z = cs[0] & cs[0]
    m.check(z == cs[0], "AND is not idempotent", got=contents(z), **ctx)
    check_is(m, z, bs[0], "a & a", **ctx)
    # chain, both associations
    left, right = cs[0], cs[-1]
    el = bs[0]
    for c, b in zip(cs[1:], bs[1:]):
        left, el = left & c, el & b
    for c in reversed(cs[:-1]):
        right = c & right
    check_is(m, left, el, "chain", **ctx)
    m.check(left == right, "AND is not associative", got=(contents(left), contents(right)), **ctx)
    # evaluation
    xs = gen.frame(rng, rows, nms) if rng.random() < 0.5 else gen.array(rng, rows, kind)
    exp = [1 if all(c) else 0 for c in zip(*[b.evaluate(rows) for b in bs])]
    got = gen.ints(left.evaluate(xs))
    m.ev("and evaluated")
    m.check(got == exp, "the AND is not met exactly where all are met", got=got, expected=exp, rows=rows, **ctx)
    m.check([(contents(c), list(c.features_names), c.impossible) for c in cs] == pics, "AND changed an operand", **ctx)
    common = set(bs[0].d) & set(bs[1].d)
    m.state(len(bs[0].d), len(bs[1].d), len(common), e.impossible, k)
    if common and len(e.d) > len(common):
        m.nontrivial([b.key for b in bs])
    # the result is independent of its operands: later changes do not leak
    if rng.random() < 0.4:
        if rng.random() < 0.4:  # equal operands
            cs[1] = gen.condition(rng, bs[0])
            m.check(cs[1] == cs[0], "conditions of the same box are not equal", **ctx)
        r2 = cs[0] & cs[1]
        pic = contents(r2)
        cs[0].bmins = [x - 1 for x in cs[0].bmins]
        cs[1].bmaxs = [x + 1 for x in cs[1].bmaxs]
        m.check(contents(r2) == pic, "a later change of an operand changed the AND", **ctx)
    m.sample(dict(boxes=ctx["boxes"], result=str(left)))


def conflict_case(m, rng):
    two_orders(rng)
    d = rng.randint(2, 6)
    nms = gen.names(rng, d)
    b1 = gen.box(rng, d, nms, None)
    b2 = gen.box(rng, d, nms, None)
    it2 = [list(x) for x in b2.items]
    kind = rng.choice(["name with another index", "index with another name"])
    if kind == "name with another index":
        n = rng.choice(list(b1.d))
        it2 = [x for x in it2 if x[0] != n] + [[n, 100, 0, 1]]
    else:
        i = rng.choice(b1.items)[1]
        it2 = [x for x in it2 if x[1] != i] + [["another feature", i, 0, 1]]
    b2 = ref.Box([tuple(x) for x in it2])
    assert (b1 & b2) is None
    c1, c2 = gen.condition(rng, b1), gen.condition(rng, b2)
    p = contents(c1), contents(c2)
    m.ev("conflict")
    m.raises(IndexError, lambda: c1 & c2, f"conflicting {kind} accepted", b1=b1.items, b2=b2.items)
    m.raises(IndexError, lambda: c2 & c1, f"conflicting {kind} accepted", b1=b1.items, b2=b2.items)
    m.check((contents(c1), contents(c2)) == p, "a refused AND changed an operand")
    m.state("conflict", kind, len(b1.d), len(b2.d))


def rules_case(m, rng):
    two_orders(rng)
    p = rs.Problem(rng, rng.choice(["reg", "cls"]), k=rng.choice([2, 3]))
    if len(p.boxes) < 2:
        return
    env.apply_act_cfg(env.rand_act_cfg(rng, force_stat=False))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    rules = p.rules()
    xs, y = p.data()
    for r in rules:
        r.fit(y=y, xs=xs)
    pics = [rs.view(r) for r in rules]
    acc, eb, ea = rules[0], p.boxes[0], p.acts()[0]
    for r, b, a in zip(rules[1:], p.boxes[1:], p.acts()[1:]):
        acc, eb, ea = acc & r, eb & b, ref.AND(ea, a)
        m.ev("rule and")
        check_is(m, acc.condition, eb, "rule & rule", problem=p.describe())
        m.check(type(acc) is type(rules[0]), "AND of rules has another type", got=type(acc))
        m.check(gen.ints(acc.activation) == ea, "AND of rules: activation is not the AND", got=gen.ints(acc.activation), expected=ea)
        m.check(rs.same(acc.coverage, sum(ea) / len(ea)), "AND of rules: wrong coverage", got=acc.coverage)
        m.check(gen.ints(acc.condition.evaluate(xs)) == ea, "AND of rules: condition and activation disagree")
    m.check(rs.diff([rs.view(r) for r in rules], pics) is None, "AND changed a rule", diff=rs.diff([rs.view(r) for r in rules], pics))
    if rng.random() < 0.5:  # they do not share their activations: those of the result, or of an operand, can be given up
        m.ev("activation of one given up")
        if rng.random() < 0.5:
            acc.del_activation()
            m.check(rs.diff([rs.view(r) for r in rules], pics) is None, "the operands lost something with their AND",
                    diff=rs.diff([rs.view(r) for r in rules], pics))
            m.check(all(gen.ints(r.activation) == a for r, a in zip(rules, p.acts())), "an operand lost its activation with that of the AND")
        else:
            rng.choice(rules).del_activation()
            m.check(gen.ints(acc.activation) == ea, "the AND lost its activation with that of an operand", got=acc.activation, expected=ea)
    m.nontrivial("rules", [b.key for b in p.boxes], p.rows)
    m.state("rules", len(p.boxes), sum(ea) > 0)


SCENARIOS = {"conditions": (conditions_case, 2000, 30000), "conflict": (conflict_case, 400, 5000), "rules": (rules_case, 500, 8000)}
REQUIRED = {"and": 800, "and evaluated": 800, "conflict": 150, "rule and": 200, "activation of one given up": 80}
