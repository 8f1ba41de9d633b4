"""C03: statistics of an activation are those of its vector."""
from copy import copy

from ruleskit import Activation

from .. import env, gen, ref
from ..core import same

RULE = ("seeded vectors (1..4000 points, and 32767..200000) and storage settings; statistics are read in random order interleaved with view and profiling reads, on fresh "
        "activations, operator results, copies and cleared activations; pairs for correlation and containment (random, nested, equal, "
        "disjoint); non-trivial: both values present (distinct by vector, storage, read order)")
STATS = {"nones": lambda v: sum(v), "coverage": lambda v: sum(v) / len(v), "entropy": ref.entropy,
         "rel_entropy": lambda v: ref.entropy(v) / len(v)}
READS = ["raw", "as_bitarray", "as_integer", "as_compressed_str", "as_compressed_array", "ones", "time_raw_to_compressed",
         "time_compressed_to_raw", "sizeof_raw", "sizeof_bitarray", "sizeof_compressed_array", "sizeof_file", "time_read"]


def check_stats(m, rng, a, v, ctx):
    order = list(STATS) + rng.sample(list(STATS), 2) + rng.sample(READS, rng.randint(0, 4))
    rng.shuffle(order)
    done = []
    for o in order:
        done.append(o)
        x = getattr(a, o)
        if o in STATS:
            e = STATS[o](v)
            m.ev("stat:" + o)
            m.check(same(x, e, 1e-12), f"{o} is not that of the vector", got=x, expected=e, vector=v, order=done, ctx=ctx)
    m.state(tuple(done), str(getattr(a, "data_format", "?")))
    if 0 in v and 1 in v:
        m.nontrivial(v, tuple(done), str(ctx))


def single_case(m, rng):
    v = gen.vector(rng)
    cfg = env.rand_act_cfg(rng)
    env.apply_act_cfg(cfg)
    a, f, kw = gen.activation(rng, v)
    if rng.random() < 0.3:
        env.apply_act_cfg(env.rand_act_cfg(rng))
    check_stats(m, rng, a, v, dict(kind="fresh", form=f, kw=kw, flags=env.cfg_key(cfg)))
    r = rng.random()
    if r < 0.3:
        c = copy(a)
        check_stats(m, rng, c, v, dict(kind="copy", form=f, kw=kw, flags=env.cfg_key(cfg)))
    elif r < 0.5:
        a.clear()
        m.ev("cleared")
        m.check(len(a) == len(v), "clear changed the length", got=len(a), expected=len(v))
        check_stats(m, rng, a, [0] * len(v), dict(kind="cleared", form=f, kw=kw, flags=env.cfg_key(cfg)))
    elif r < 0.8:
        w = gen.vector(rng, len(v))
        b, f2, _ = gen.activation(rng, w)
        op = rng.choice(["&", "|", "^", "-"])
        x, e = {"&": (lambda: a & b, ref.AND), "|": (lambda: a | b, ref.OR), "^": (lambda: a ^ b, ref.XOR),
                "-": (lambda: a - b, ref.SUB)}[op]
        check_stats(m, rng, x(), e(v, w), dict(kind="result of " + op, forms=(f, f2)))
    m.sample(dict(vector="".join(map(str, v[:60])), n=len(v), form=f, nones=sum(v), entropy=ref.entropy(v)))


def large_case(m, rng):
    n = rng.choice(gen.BIG_LENGTHS)
    v = gen.big_vector(rng, n)
    w = gen.big_vector(rng, n)
    if rng.random() < 0.4:
        w = list(v)
        w[rng.choice([0, n - 1, rng.randrange(n)])] ^= 1
    env.apply_act_cfg(env.rand_act_cfg(rng))
    a, fa, kw = gen.activation(rng, v)
    b, fb, _ = gen.activation(rng, w)
    m.ev("large vectors")
    check_stats(m, rng, a, v, dict(kind="large", n=n, form=fa, kw=kw))
    m.check(same(a.get_correlation(b), ref.correlation(v, w), 1e-12), "correlation is not the fraction of equal points",
            got=a.get_correlation(b), expected=ref.correlation(v, w), n=n, forms=(fa, fb))
    for (x, vx), (y, vy) in [((a, v), (b, w)), ((b, w), (a, v))]:
        got, exp = (y in x), ref.contains(vx, vy)
        m.check(got is exp or got == exp, "'b in a' is not 'every point of b is a point of a'", got=got, expected=exp, n=n,
                forms=(fa, fb))


def pair_case(m, rng):
    n = gen.length(rng, big=False)
    v = gen.vector(rng, n)
    k = rng.random()
    if k < 0.25:
        w = [x if rng.random() < 0.7 else 0 for x in v]  # nested
    elif k < 0.4:
        w = [1 - x for x in v]
    elif k < 0.5:
        w = list(v)
    elif k < 0.6:
        w = list(v)
        i = rng.randrange(n)
        w[i] ^= 1
    else:
        w = gen.vector(rng, n)
    if rng.random() < 0.5:
        v, w = w, v
    env.apply_act_cfg(env.rand_act_cfg(rng))
    a, fa, _ = gen.activation(rng, v)
    env.apply_act_cfg(env.rand_act_cfg(rng))
    b, fb, _ = gen.activation(rng, w)
    for (x, vx), (y, vy) in [((a, v), (b, w)), ((b, w), (a, v)), ((a, v), (a, v))]:
        m.ev("correlation")
        m.check(same(x.get_correlation(y), ref.correlation(vx, vy)), "correlation is not the fraction of equal points",
                got=x.get_correlation(y), expected=ref.correlation(vx, vy), v=vx, w=vy)
        m.ev("containment")
        got, exp = (y in x), ref.contains(vx, vy)
        m.ev(f"containment {exp}")
        m.check(got is exp or got == exp, "'b in a' is not 'every point of b is a point of a'", got=got, expected=exp, a=vx, b=vy,
                forms=(fa, fb))
    m.state("pair", fa, fb, ref.contains(v, w), ref.contains(w, v))
    c, _, _ = gen.activation(rng, gen.vector(rng, n + rng.choice([1, 3, 9])))
    m.raises(ValueError, lambda: a.get_correlation(c), "correlation of different lengths accepted", n=n)
    check_stats(m, rng, a, v, dict(kind="after comparisons", form=fa))


SCENARIOS = {"single": (single_case, 2800, 40000), "pair": (pair_case, 1400, 20000),
             "large": (large_case, 80, 1500)}
REQUIRED = {"stat:nones": 1000, "stat:entropy": 1000, "stat:coverage": 1000, "stat:rel_entropy": 1000, "containment": 800,
            "containment True": 100, "containment False": 100, "correlation": 800, "cleared": 50, "large vectors": 20}
