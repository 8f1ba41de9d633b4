"""C02: boolean operators on activations are pointwise, whatever the storage formats."""
import itertools

import numpy as np

from ruleskit import Activation

from .. import env, gen, ref

RULE = ("seeded pairs, lists (1..12, and 127..513) and expression trees of activations of equal length (1..4000, and 32767..200000) supplied in random forms under random class "
        "flags (also changed between construction and use), compared with the same expression on plain lists; plus exhaustive pairs "
        "of vectors up to 4 points over pairs of storage formats; non-trivial: operands differ and result is not constant")
OPS = {"&": (lambda a, b: a & b, ref.AND), "|": (lambda a, b: a | b, ref.OR), "^": (lambda a, b: a ^ b, ref.XOR),
       "+": (lambda a, b: a + b, ref.OR), "-": (lambda a, b: a - b, ref.SUB)}
MULTI = {"and": (Activation.multi_logical_and, ref.n_and), "or": (Activation.multi_logical_or, ref.n_or),
         "xor": (Activation.multi_logical_xor, ref.n_xor)}


def result(m, r, exp, what, **ctx):
    m.check(isinstance(r, Activation), what + ": not an Activation", got=type(r), **ctx)
    got = gen.vec_of(r)
    m.check(got == exp, what + ": wrong vector", got=got, expected=exp, **ctx)
    m.check(len(r) == len(exp), what + ": wrong length", got=len(r), expected=len(exp), **ctx)
    m.check(r.nones == sum(exp), what + ": wrong number of ones", got=r.nones, expected=sum(exp), **ctx)


def fmt(a):
    return str(getattr(a, "data_format", "?"))


def pair_case(m, rng):
    n = gen.length(rng)
    v, w = gen.vector(rng, n), gen.vector(rng, n)
    cfg = env.rand_act_cfg(rng)
    env.apply_act_cfg(cfg)
    a, fa, ka = gen.activation(rng, v)
    if rng.random() < 0.3:
        cfg = env.rand_act_cfg(rng)
        env.apply_act_cfg(cfg)
    b, fb, kb = gen.activation(rng, w)
    if rng.random() < 0.2:
        cfg = env.rand_act_cfg(rng)
        env.apply_act_cfg(cfg)
    ops = list(OPS)
    rng.shuffle(ops)
    for op in ops:
        f, g = OPS[op]
        m.ev("op:" + op)
        m.state(op, fmt(a), fmt(b), env.cfg_key(cfg))
        exp = g(v, w)
        result(m, f(a, b), exp, f"a {op} b", v=v, w=w, forms=(fa, fb), kw=(ka, kb), fmt=(fmt(a), fmt(b)), flags=env.cfg_key(cfg))
        if v != w and 0 in exp and 1 in exp:
            m.nontrivial(op, v, w, fmt(a), fmt(b))
    m.check(gen.vec_of(a) == v and gen.vec_of(b) == w, "operands changed", v=v, w=w, got=(gen.vec_of(a), gen.vec_of(b)))
    # with itself
    op = rng.choice(ops)
    result(m, OPS[op][0](a, a), OPS[op][1](v, v), f"a {op} a", v=v, form=fa)
    m.sample(dict(v="".join(map(str, v[:40])), w="".join(map(str, w[:40])), forms=(fa, fb), stored=(fmt(a), fmt(b))))


def multi_case(m, rng):
    n = gen.length(rng, big=False)
    k = rng.choice([1, 1, 2, 2, 3, 4, 7, 12])
    cfg = env.rand_act_cfg(rng)
    env.apply_act_cfg(cfg)
    homog = rng.choice([None, "raw", "bitarray", "integer", "compressed_str"])
    vs = [gen.vector(rng, n) for _ in range(k)]
    acs = []
    over = {} if rng.random() < 0.7 else dict(to_file=rng.random() < 0.5)
    for v in vs:
        acs.append(gen.activation(rng, v, form=homog, **over)[0])
    for op in rng.sample(list(MULTI), 3):
        f, g = MULTI[op]
        exp = g(vs)
        for asarray in (False, True):
            r = f(acs, asarray) if rng.random() < 0.5 else f(list(acs), asarray=asarray)
            m.ev("multi:" + op)
            m.state("multi", op, k, asarray, tuple(sorted({fmt(a) for a in acs})))
            ctx = dict(op=op, k=k, vs=vs, asarray=asarray, flags=env.cfg_key(cfg))
            if asarray:
                m.check(isinstance(r, np.ndarray), f"n-ary {op} asarray: not an array", got=type(r), **ctx)
                m.check(gen.ints(r) == exp, f"n-ary {op} asarray: wrong vector", got=gen.ints(r), expected=exp, **ctx)
            else:
                result(m, r, exp, f"n-ary {op}", **ctx)
            if k > 1 and 0 in exp and 1 in exp:
                m.nontrivial("multi", op, vs, asarray)
    for a, v in zip(acs, vs):
        m.check(gen.vec_of(a) == v, "n-ary operand changed", v=v, got=gen.vec_of(a))


def many_case(m, rng):
    """As many operands as an 8-bit accumulator can and cannot count, with points active in all / exactly 2^8 of them."""
    n = rng.choice([3, 9, 40, 130])
    k = rng.choice([127, 128, 129, 255, 256, 257, 300, 511, 512, 513])
    cfg = env.rand_act_cfg(rng)
    env.apply_act_cfg(cfg)
    homog = rng.choice([None, "raw", "bitarray", "compressed_str"])
    counts = [rng.choice([0, 1, k - 1, k, k, min(k, 128), min(k, 256), min(k, 512), rng.randint(0, k)]) for _ in range(n)]
    vs = [[0] * n for _ in range(k)]
    for j, c in enumerate(counts):
        for i in rng.sample(range(k), c):
            vs[i][j] = 1
    acs = [gen.activation(rng, v, form=homog, to_file=False)[0] for v in vs]
    for op in MULTI:
        f, g = MULTI[op]
        exp = g(vs)
        m.ev("many operands")
        ctx = dict(op=op, k=k, counts=counts, flags=env.cfg_key(cfg))
        r = f(acs, True)
        m.check(gen.ints(r) == exp, f"n-ary {op} asarray: wrong vector", got=gen.ints(r), expected=exp, **ctx)
        result(m, f(acs, False), exp, f"n-ary {op}", **ctx)
        m.state("many", op, k, homog)
        if 0 in exp and 1 in exp:
            m.nontrivial("many", op, counts, k)


def large_case(m, rng):
    n = rng.choice(gen.BIG_LENGTHS)
    v, w = gen.big_vector(rng, n), gen.big_vector(rng, n)
    env.apply_act_cfg(env.rand_act_cfg(rng))
    a, fa, ka = gen.activation(rng, v)
    b, fb, kb = gen.activation(rng, w)
    for op in rng.sample(list(OPS), 3):
        f, g = OPS[op]
        m.ev("large operands")
        result(m, f(a, b), g(v, w), f"a {op} b", n=n, forms=(fa, fb), kw=(ka, kb))
    op = rng.choice(list(MULTI))
    result(m, MULTI[op][0]([a, b]), MULTI[op][1]([v, w]), f"n-ary {op}", n=n, forms=(fa, fb))


def tree_case(m, rng):
    n = gen.length(rng, big=False)
    k = rng.randint(2, 5)
    cfg = env.rand_act_cfg(rng)
    env.apply_act_cfg(cfg)
    pool = [(gen.vector(rng, n)) for _ in range(k)]
    pool = [(gen.activation(rng, v)[0], v) for v in pool]
    trace = []
    for _ in range(rng.randint(2, 9)):
        if rng.random() < 0.15:
            env.apply_act_cfg(env.rand_act_cfg(rng))
        if rng.random() < 0.75:
            i, j = rng.randrange(len(pool)), rng.randrange(len(pool))
            op = rng.choice(list(OPS))
            trace.append((op, i, j))
            r, e = OPS[op][0](pool[i][0], pool[j][0]), OPS[op][1](pool[i][1], pool[j][1])
        else:
            idx = [rng.randrange(len(pool)) for _ in range(rng.randint(1, 4))]
            op = rng.choice(list(MULTI))
            trace.append((op, idx))
            r, e = MULTI[op][0]([pool[i][0] for i in idx]), MULTI[op][1]([pool[i][1] for i in idx])
        m.ev("tree nodes")
        result(m, r, e, "operator chain", trace=trace, leaves=[v for _, v in pool[:k]])
        pool.append((r, e))
    m.state("tree", tuple(t[0] for t in trace))
    for a, v in pool:
        m.check(gen.vec_of(a) == v, "operand of a chain changed", trace=trace, v=v, got=gen.vec_of(a))


def lengths_case(m, rng):
    cfg = env.rand_act_cfg(rng)
    env.apply_act_cfg(cfg)
    n1 = gen.length(rng, big=False)
    n2 = n1 + rng.choice([1, 2, 8, 50]) if rng.random() < 0.7 or n1 == 1 else n1 - 1
    a, fa, _ = gen.activation(rng, gen.vector(rng, n1))
    b, fb, _ = gen.activation(rng, gen.vector(rng, n2))
    for op in OPS:
        m.ev("length mismatch")
        x, y = (a, b) if rng.random() < 0.5 else (b, a)
        m.raises(ValueError, lambda: OPS[op][0](x, y), f"a {op} b accepted different lengths", lengths=(n1, n2), forms=(fa, fb))


def small_case(m, rng):
    """Exhaustive pairs of small vectors; the case index selects flags and the forms pair."""
    idx = m.current["index"]
    forms = ["raw", "bitarray", "integer", "compressed_str", "file"]
    combos = list(itertools.product(forms, forms, [False, True], [str, np.ndarray], [False, True]))
    f1, f2, wc, dt, opt = combos[(idx * 37) % len(combos)]
    n = rng.choice([2, 3, 4])
    env.apply_act_cfg(dict(WILL_COMPARE=wc, DTYPE=dt, STORE_RAW=False, FORCE_STAT=False, NCPUS=1))

    def mk(v, f):
        val, kw = gen.supply(rng, v, "raw" if f == "file" else f)
        return Activation(val, optimize=opt, to_file=f == "file", **kw)

    vs = [list(v) for v in itertools.product([0, 1], repeat=n)]
    la = [mk(v, f1) for v in vs]
    lb = [mk(v, f2) for v in vs]
    for a, v in zip(la, vs):
        for b, w in zip(lb, vs):
            op = rng.choice(list(OPS))
            m.ev("small pairs")
            result(m, OPS[op][0](a, b), OPS[op][1](v, w), f"a {op} b", v=v, w=w, forms=(f1, f2), opt=opt, wc=wc, dt=dt)


SCENARIOS = {"pair": (pair_case, 1400, 25000), "multi": (multi_case, 800, 15000), "tree": (tree_case, 500, 10000),
             "lengths": (lengths_case, 200, 3000), "small": (small_case, 200, 800),
             "many": (many_case, 48, 1500), "large": (large_case, 60, 1500)}
REQUIRED = {"op:&": 300, "op:+": 300, "op:-": 300, "multi:xor": 300, "tree nodes": 500, "length mismatch": 200,
            "small pairs": 2000, "many operands": 36, "large operands": 45}
