"""C06: memory shortage never changes the result of combining activations."""
import numpy as np
import psutil

from ruleskit import Activation, RegressionRule, RuleSet

from .. import env, gen, ref, rs

RULE = ("fault injection: psutil reports constant-tiny, shrinking or random free memory, and numpy stacking raises MemoryError for more "
        "than 1..4 arrays (or always, or at the k-th call), and reading the k-th file raises MemoryError, while the n-ary operators and rule-set activations are computed; the outcome "
        "must be the reference vector or a MemoryError; non-trivial: some fault was actually delivered and at least two operands")
ASSUMPTIONS = ["shortage is simulated at the three places where it shows: the reported free memory, the array allocation and the reading of a vector's file"]
MULTI = {"and": (Activation.multi_logical_and, ref.n_and), "or": (Activation.multi_logical_or, ref.n_or),
         "xor": (Activation.multi_logical_xor, ref.n_xor)}


class VM:
    def __init__(self, a):
        self.available = a
        self.total = 32e9
        self.free = a
        self.percent = 50.0


class Shortage:
    def __init__(self, m, rng, loads=False):
        self.m, self.rng = m, rng
        self.load_k = rng.choice([None, None, 1, 2, 3, 5]) if loads else None
        self.delivered = 0
        self.mode = rng.choice(["tiny", "zero", "shrink", "shrink_fast", "random", "grow", "real"])
        self.stack = rng.choice([None, None, 1, 2, 2, 3, 4, "kth"])
        if self.mode == "real" and self.stack is None:
            self.stack = 2
        self.k = rng.randint(1, 4)

    def memory(self):
        self.delivered += 1
        self.m.ev("memory readings faked")
        mode = self.mode
        if mode == "tiny":
            return VM(10.0)
        if mode == "zero":
            return VM(0)
        if mode == "shrink":
            self.cur -= self.step
            return VM(max(0.0, self.cur))
        if mode == "shrink_fast":
            self.cur /= self.rng.choice([1.3, 2, 3, 10])
            return VM(self.cur)
        if mode == "grow":
            self.cur += self.step
            return VM(self.cur)
        return VM(self.rng.uniform(0, 1e9))

    def __enter__(self):
        self.vm, self.vstack, self.load = psutil.virtual_memory, np.vstack, np.load
        self.cur = self.rng.choice([1e3, 1e6, 1e9])
        self.step = self.cur * self.rng.choice([0.01, 0.1, 0.3, 0.4, 0.6])
        self.calls = 0
        if self.mode != "real":
            psutil.virtual_memory = self.memory

        def vstack(tup, *a, **k):
            tup = list(tup)
            self.calls += 1
            if (self.stack == "kth" and self.calls == self.k) or (isinstance(self.stack, int) and len(tup) > self.stack):
                self.delivered += 1
                self.m.ev("allocation failures injected")
                raise MemoryError("injected")
            return self.vstack(tup, *a, **k)
        if self.stack is not None:
            np.vstack = vstack
        self.nload = 0

        def load(*a, **k):
            self.nload += 1
            if self.nload == self.load_k:
                self.delivered += 1
                self.m.ev("read failures injected")
                raise MemoryError("injected")
            return self.load(*a, **k)
        if self.load_k is not None:
            np.load = load
        return self

    def __exit__(self, *a):
        psutil.virtual_memory, np.vstack, np.load = self.vm, self.vstack, self.load


def multi_case(m, rng):
    n = gen.length(rng, big=False)
    k = rng.choice([1, 2, 2, 3, 4, 5, 9, 14, 23, 40])
    env.apply_act_cfg(env.rand_act_cfg(rng, force_stat=False))
    vs = [gen.vector(rng, n) for _ in range(k)]
    homog = rng.choice([None, None, "raw", "file"])
    acs = [gen.activation(rng, v, form="raw" if homog == "file" else homog, **(dict(to_file=True) if homog == "file" else {}))[0]
           for v in vs]
    op = rng.choice(list(MULTI))
    asarray = rng.random() < 0.4
    f, g = MULTI[op]
    with Shortage(m, rng, loads=True) as s:
        try:
            r = f(acs, asarray)
        except MemoryError:
            r = "MemoryError"
    m.ev("n-ary under shortage")
    m.ev("outcome:" + ("MemoryError" if isinstance(r, str) else "vector"))
    exp = g(vs)
    if not isinstance(r, str):
        got = gen.vec_of(r)
        m.check(got == exp, f"n-ary {op} under memory shortage: wrong vector", got=got, expected=exp, mode=s.mode, stack=s.stack, vs=vs)
    for a, v in zip(acs, vs):
        m.check(gen.vec_of(a) == v, "an operand was altered under memory shortage", got=gen.vec_of(a), expected=v, mode=s.mode)
        m.check(a.nones == sum(v), "an operand's count was altered under memory shortage", got=a.nones)
    m.state(op, k, s.mode, s.stack, isinstance(r, str), asarray)
    if s.delivered and k > 1:
        m.nontrivial(op, vs, s.mode, s.stack, asarray)
    m.sample(dict(op=op, k=k, n=n, reported=s.mode, stack_fails=s.stack, outcome="MemoryError" if isinstance(r, str) else "vector"))


def ruleset_case(m, rng):
    p = rs.Problem(rng, "reg", k=rng.choice([2, 3, 4, 6, 12]), n=rng.choice([3, 8, 21, 40]))
    if len(p.boxes) < 2:
        p.boxes = p.boxes + gen.boxes(rng, 3, p.d, p.names, p.rows)
    RegressionRule.LOCAL_ACTIVATION = True
    from ruleskit import Rule
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    env.apply_act_cfg(env.rand_act_cfg(rng, force_stat=False))
    s_ = RuleSet(p.rules())
    acts = p.acts()
    exp = ref.n_or(acts)
    how = rng.choice(["calc_activation", "fit", "construct", "evaluate_self", "evaluate_self_xs"])
    xs, y = p.data()
    if how != "calc_activation" and how != "fit":
        s_.calc_activation(xs)
    with Shortage(m, rng) as sh:
        if how == "calc_activation":
            s_.calc_activation(xs)
            got = gen.ints(s_.activation)
        elif how == "fit":
            s_.fit(y=y, xs=xs)
            got = gen.ints(s_.activation)
        elif how == "construct":
            s2 = RuleSet(s_.rules)
            got = gen.ints(s2.activation)
        elif how == "evaluate_self":
            got = gen.vec_of(s_.evaluate_self_activation())
        else:
            got = gen.vec_of(s_.evaluate_self_activation(xs))
    m.ev("rule set under shortage")
    m.check(got == exp, "the rule set's activation under memory shortage is not the OR of its rules'", got=got, expected=exp, how=how,
            mode=sh.mode, stack=sh.stack, problem=p.describe())
    for r, a in zip(s_, acts):
        m.check(gen.ints(r.activation) == a, "a rule's activation was altered under memory shortage", got=gen.ints(r.activation),
                expected=a, how=how)
    m.state("ruleset", how, sh.mode, sh.stack, len(p.boxes))
    if sh.delivered:
        m.nontrivial("ruleset", how, sh.mode, sh.stack, acts)


SCENARIOS = {"multi": (multi_case, 1800, 30000), "ruleset": (ruleset_case, 600, 10000)}
REQUIRED = {"n-ary under shortage": 700, "rule set under shortage": 200, "outcome:vector": 100}
