"""C01: every storage format of an activation denotes exactly the supplied vector."""
import itertools

import numpy as np
from bitarray import bitarray

from ruleskit import Activation

from .. import env, gen, ref

RULE = ("seeded vectors (lengths 1..4000 around byte/word boundaries, and 32767..200000, runs, constants, single ones, leading zeros) supplied in a "
        "random form under a random setting of the class flags; all views are read in random order and fed back under another "
        "setting; plus an exhaustive sweep of all vectors up to length 6 over every form/flag combination; non-trivial: at least "
        "2 points and both values present (distinct by vector, form, flags, stored format)")
ASSUMPTIONS = ["empty vectors are out of scope", "compressed arrays of one-point vectors are ambiguous inputs and not supplied"]

VIEWS = ["raw", "as_bitarray", "as_integer", "as_compressed_str", "as_compressed_array", "as_compressed", "ones", "len", "length"]


def read(a, view):
    if view == "len":
        return len(a)
    return getattr(a, view)


def expected(v, view):
    if view == "raw":
        return list(v)
    if view == "as_bitarray":
        return list(v)
    if view == "as_integer":
        return ref.integer(v)
    if view in ("as_compressed_str", "as_compressed"):
        return ref.compressed(v)
    if view == "as_compressed_array":
        return ref.compressed(v)
    if view == "ones":
        return ref.ones(v)
    return len(v)


def norm(view, x):
    if view == "raw":
        return gen.ints(x)
    if view == "as_bitarray":
        return [int(b) for b in x] if isinstance(x, bitarray) else ["not a bitarray", x]
    if view == "as_integer":
        return x if isinstance(x, int) else ["not an int", x]
    if view in ("as_compressed_str", "as_compressed"):
        return [int(t) for t in x.split(",")] if isinstance(x, str) else ["not a str", x]
    if view == "as_compressed_array":
        return [int(t) for t in x] if isinstance(x, np.ndarray) else ["not an array", x]
    if view == "ones":
        return [int(t) for t in x]
    return int(x)


def check_views(m, rng, a, v, ctx, views=None):
    views = list(views or VIEWS)
    rng.shuffle(views)
    got = {}
    for i, w in enumerate(views):
        x = read(a, w)
        m.ev("view:" + w)
        y = norm(w, x)
        e = expected(v, w)
        m.check(y == e, f"view '{w}' differs from the supplied vector", view=w, got=y, expected=e,
                supplied=v, ctx=ctx, order=views[: i + 1])
        got[w] = x
    return got


def one(m, rng, v, form, cfg, kw=None):
    env.apply_act_cfg(cfg)
    over = kw or {}
    val, kwargs = gen.supply(rng, v, form)
    kwargs["optimize"] = over.get("optimize", rng.random() < 0.6)
    kwargs["to_file"] = over.get("to_file", rng.random() < 0.5)
    before = val.copy() if isinstance(val, (np.ndarray, bitarray)) else val
    a = Activation(val, **kwargs)
    ctx = dict(form=form, dtype=str(getattr(val, "dtype", "")), flags=env.cfg_key(cfg), kwargs=kwargs)
    m.ev("constructed")
    got = check_views(m, rng, a, v, ctx)
    if isinstance(val, (np.ndarray, bitarray)):
        m.check(bool(np.all(np.array(before.tolist()) == np.array(val.tolist()))) and len(before) == len(val),
                "constructing or reading altered the caller's data", ctx=ctx, before=before, after=val)
    m.ev("format:" + str(getattr(a, "data_format", "?")))
    m.state(form, str(getattr(a, "data_format", "?")), env.cfg_key(cfg), min(len(v), 20), kwargs["optimize"], kwargs["to_file"])
    if len(v) > 1 and 0 in v and 1 in v:
        m.nontrivial(v, form, env.cfg_key(cfg), kwargs["optimize"], kwargs["to_file"])
    return a, got, ctx


def random_case(m, rng):
    v = gen.vector(rng)
    form = rng.choice(gen.forms_for(v))
    cfg = env.rand_act_cfg(rng)
    a, got, ctx = one(m, rng, v, form, cfg)
    m.sample(dict(vector="".join(map(str, v[:60])), n=len(v), **ctx))
    # feed every view back, under other settings
    for w in rng.sample(["raw", "as_bitarray", "as_integer", "as_compressed_str", "as_compressed_array"], 3):
        if w == "as_compressed_array" and len(v) < 2:
            continue
        cfg2 = env.rand_act_cfg(rng)
        env.apply_act_cfg(cfg2)
        kw = dict(optimize=rng.random() < 0.6, to_file=rng.random() < 0.5)
        if w == "as_integer":
            kw["length"] = len(v)
        b = Activation(got[w], **kw)
        m.ev("fed back")
        check_views(m, rng, b, v, dict(first=ctx, fed_back=w, flags=env.cfg_key(cfg2), kw=kw), rng.sample(VIEWS, 4))
    # the first one still reports the same under the new settings
    check_views(m, rng, a, v, dict(ctx=ctx, after="settings changed"), rng.sample(VIEWS, 3))


def large_case(m, rng):
    v = gen.big_vector(rng)
    form = rng.choice(gen.forms_for(v))
    cfg = env.rand_act_cfg(rng)
    a, got, ctx = one(m, rng, v, form, cfg)
    m.ev("large vectors")
    w = rng.choice(["raw", "as_bitarray", "as_integer", "as_compressed_str", "as_compressed_array"])
    cfg2 = env.rand_act_cfg(rng)
    env.apply_act_cfg(cfg2)
    kw = dict(optimize=rng.random() < 0.6, to_file=rng.random() < 0.5)
    if w == "as_integer":
        kw["length"] = len(v)
    b = Activation(got[w], **kw)
    check_views(m, rng, b, v, dict(first=ctx, fed_back=w, flags=env.cfg_key(cfg2), kw=kw), rng.sample(VIEWS, 4))


def exhaustive_case(m, rng):
    """All vectors of a small length, all forms, all flags; the case index selects a slice."""
    idx = m.current["index"]
    combos = list(itertools.product([False, True], [str, np.ndarray], [False, True]))
    wc, dt, sr = combos[idx % len(combos)]
    maxn = 6 if m.tier == "quick" else 10
    cfg = dict(WILL_COMPARE=wc, DTYPE=dt, STORE_RAW=sr, FORCE_STAT=False, NCPUS=1)
    n = (idx // len(combos)) % maxn + 1
    vs = list(itertools.product([0, 1], repeat=n))
    if n > 6:
        vs = rng.sample(vs, 64)
    for v in vs:
        v = list(v)
        for form in ("raw", "bitarray", "integer", "binstr", "compressed_str", "compressed_array"):
            if form == "compressed_array" and n < 2:
                continue
            for opt, tf in itertools.product([True, False], [True, False]):
                if form != "raw" and tf:
                    continue
                one(m, rng, v, form, cfg, dict(optimize=opt, to_file=tf))


SCENARIOS = {"random": (random_case, 3200, 60000), "exhaustive": (exhaustive_case, 96, 800),
             "large": (large_case, 160, 2500)}
REQUIRED = {"constructed": 1000, "fed back": 500, "view:raw": 1000, "view:as_integer": 1000, "large vectors": 40}
