"""C32: profiling attributes report what really happened to a vector, and asking for them changes nothing else."""
import os
import sys
from copy import copy
from time import time

import numpy as np

from ruleskit import Activation, ClassificationRule, RegressionRule, Rule

from .. import clock, env, gen, ref, rs
from .c02 import OPS
from .c03 import STATS

RULE = ("seeded vectors in every form and setting, operator results, copies and cleared activations; the counters after creation are those of storing that form; random sequences of views and statistics are read and "
        "after each the counters are compared with the conversions that the view needs from that storage; then durations against counters and the "
        "clock, sizes against the real representations and files; then everything again with FORCE_STAT; rules before and after each call; durations once more under a clock that only the harness moves (each the last occurrence's, others untouched); "
        "non-trivial: at least one conversion judged (distinct by vector, storage, reads)")
ASSUMPTIONS = ["the system clock does not go back", "the size of a bitarray depends on its allocation, so it is only bounded"]
CONV = ["bitarray_to_compressed", "bitarray_to_integer", "bitarray_to_raw", "compressed_to_bitarray", "compressed_to_integer", "compressed_to_raw", "integer_to_bitarray",
        "integer_to_compressed", "integer_to_raw", "raw_to_bitarray", "raw_to_compressed", "raw_to_integer", "read", "write"]
SIZES = ["raw", "integer", "compressed_str", "compressed_array", "file", "bitarray", "path"]
N = {c: "n_" + ("written" if c == "write" else c) for c in CONV}


def counts(a):
    return {c: getattr(a, N[c]) for c in CONV}


def steps(fmt, view):
    """The conversions a view needs from that storage."""
    base = {"bitarray": ["bitarray_to_raw"], "integer": ["integer_to_raw"], "file": ["read"], "raw": []}
    comp = fmt.startswith("compressed")
    if view in ("raw", "ones"):
        return ["compressed_to_raw"] if comp else base[fmt]
    if view in ("as_bitarray", "as_integer"):
        to = view[3:]
        if fmt == to:
            return []
        if comp:
            return ["compressed_to_raw", "raw_to_" + to, "compressed_to_" + to]
        if fmt in ("bitarray", "integer"):
            return [f"{fmt}_to_{to}"]
        return base[fmt] + ["raw_to_" + to]
    if comp:
        return []
    return base[fmt] + ["raw_to_compressed"] + ([f"{fmt}_to_compressed"] if fmt in ("bitarray", "integer") else [])


def creation(f, kw):
    """The conversions that storing a vector given in that form needs."""
    cmp, out = Activation.WILL_COMPARE, []
    if f in ("path", "path_str"):
        f, out = "raw", ["read"]
    if f in ("raw", "raw_strided"):
        if Activation.STORE_RAW:
            return out
        return out + (["write"] if kw["to_file"] else ["raw_to_compressed", "raw_to_integer" if cmp else "raw_to_bitarray"])
    if f in ("bitarray", "integer", "binstr"):
        to = "integer" if cmp else "bitarray"
        if f != "binstr" and f != to:
            out.append(f"{f}_to_{to}")
        return out + ([to + "_to_raw", "raw_to_compressed", to + "_to_compressed"] if kw["optimize"] else [])
    return out  # kept as given


VIEWS = ["raw", "ones", "as_bitarray", "as_integer", "as_compressed", "as_compressed_str", "as_compressed_array"]


def judge(m, a, v, started, ctx):
    elapsed = time() - started + 1
    for c in CONV:
        t, n = getattr(a, "time_" + c), getattr(a, N[c])
        m.check(isinstance(n, int) and n >= 0, f"{N[c]} is not a count", got=n, **ctx)
        m.check((t == -1) == (n == 0), f"time_{c} does not tell whether it happened", time=t, count=n, **ctx)
        m.check(t == -1 or 0 <= t <= elapsed, f"time_{c} is not a duration within the life of the vector", got=t, elapsed=elapsed, **ctx)
        m.ev("durations")
    for s in SIZES:
        x = getattr(a, "sizeof_" + s)
        if x == -1:
            m.ev("unknown sizes")
            continue
        m.ev("size:" + s)
        size(m, a, v, s, x, ctx)


def size(m, a, v, s, x, ctx):
    if s == "bitarray":
        m.check(len(v) / 8 <= x * 1e6 <= len(v) / 4 + 300, "sizeof_bitarray is not one bit per point", got=x * 1e6, points=len(v), **ctx)
        return
    if s == "path":
        m.check(0 < x < 1e-2, "sizeof_path is not the size of a path", got=x, **ctx)
        return
    if s == "file":
        # (a file given as it is may hold wider numbers than those the library would write)
        e = os.stat(a.data).st_size if a.data_format == "file" and not (Activation.FORCE_STAT and ctx["form"] == "path_lasy") else None
        if e is None:
            m.check(len(v) <= x * 1e6 <= 8 * len(v) + 500, "sizeof_file is not the size of such a file", got=x * 1e6, points=len(v), **ctx)
            e = x * 1e6
    else:
        e = {"raw": len(v), "integer": sys.getsizeof(ref.integer(v))}.get(s)
    if s == "compressed_array":
        # positions in four or eight bytes, or as given
        k = ref.entropy(v)
        m.check(abs(x * 1e6 / k - round(x * 1e6 / k)) < 1e-6 and round(x * 1e6 / k) in (1, 2, 4, 8), "sizeof_compressed_array is not that of the compressed vector", got=x * 1e6, entries=k, **ctx)
        return
    if s == "compressed_str":
        txt = ",".join(map(str, ref.compressed(v)))
        m.check(abs(x * 1e6 - sys.getsizeof(txt)) <= txt.count(",") + 1e-3, "sizeof_compressed_str is not that of the compressed vector", got=x * 1e6, expected=sys.getsizeof(txt), **ctx)
        return
    m.check(abs(x * 1e6 - e) < 1e-3, f"sizeof_{s} is not the size of the vector in that form", got=x * 1e6, expected=e, **ctx)


def one(m, rng, a, v, started, ctx):
    if getattr(a, "lasy", False):
        len(a)
    fmt = a.data_format
    before = counts(a)
    done = []
    for _ in range(rng.randint(1, 6)):
        if rng.random() < 0.2:
            s = rng.choice(list(STATS))
            getattr(a, s)
            now = counts(a)
            m.check(all(now[c] >= before[c] for c in CONV), "a count went down", before=before, after=now, read=s, done=done, **ctx)
            before = now
            done.append(s)
            continue
        w = rng.choice(VIEWS)
        getattr(a, w)
        done.append(w)
        exp = dict(before)
        for c in steps(fmt, w):
            exp[c] += 1
        now = counts(a)
        m.ev("view:" + w)
        m.ev("stored:" + fmt)
        m.check(now == exp, "the counts are not those of the conversions of this view", read=w, done=done, format=fmt, wrong={c: (now[c], exp[c]) for c in CONV if now[c] != exp[c]}, **ctx)
        if steps(fmt, w):
            m.nontrivial(v, fmt, tuple(done), str(ctx))
        before = now
    judge(m, a, v, started, ctx)
    m.check(counts(a) == before, "asking for the profile changed the counts", before=before, after=counts(a), **ctx)
    m.state(fmt, tuple(done))
    return done


def views_case(m, rng):
    v = gen.vector(rng, gen.length(rng, big=False) if rng.random() < 0.95 else None)
    cfg = env.rand_act_cfg(rng, force_stat=False)
    env.apply_act_cfg(cfg)
    started = time()
    a, f, kw = gen.activation(rng, v)
    kind = "fresh"
    if f in ("raw", "raw_strided"):
        w = kw["to_file"] and not Activation.STORE_RAW
        m.check(a.n_written == int(bool(w)) and a.n_read == 0, "a vector given as array was not written once (or kept in memory)", written=a.n_written, read=a.n_read, flags=env.cfg_key(cfg), kw=kw)
        m.ev("written once" if w else "kept in memory")
    if f == "path_lasy":
        m.check(a.n_read == 0 and a.time_read == -1, "a lasy vector was read already", read=a.n_read)
        m.ev("lasy")
    ctx = dict(vector="".join(map(str, v[:80])), n=len(v), form=f, kw=kw, flags=env.cfg_key(cfg))
    exp, now = creation(f, kw), counts(a)
    m.check(all(now[c] == exp.count(c) for c in CONV), "the counts are not those of the conversions that storing the vector needs", expected=exp, got={c: n for c, n in now.items() if n}, **ctx)
    m.ev("creations")
    r = rng.random()
    if r < 0.15:
        a, kind = copy(a), "copy"
    elif r < 0.3:
        w = gen.vector(rng, len(v))
        b, _, _ = gen.activation(rng, w)
        op = rng.choice(list(OPS))
        g, h = OPS[op]
        a, v, kind = g(a, b), h(v, w), "result of " + op
    elif r < 0.4:
        for w in rng.sample(VIEWS, 2):
            getattr(a, w)
        a.clear()
        started = min(started, time())
        v, kind = [0] * len(v), "cleared"
        m.check(a.n_read == 0 and a.n_written == 0, "a cleared vector still counts what was done before", read=a.n_read, written=a.n_written, **ctx)
    m.ev(kind.split(" ")[0])
    done = one(m, rng, a, v, started, dict(ctx, kind=kind))
    m.sample(dict(form=f, kind=kind, format=a.data_format, reads=done, n=len(v)))


def force_case(m, rng):
    v = gen.vector(rng, gen.length(rng, big=False))
    cfg = env.rand_act_cfg(rng, force_stat=True)
    env.apply_act_cfg(cfg)
    a, f, kw = gen.activation(rng, v)
    ctx = dict(vector="".join(map(str, v[:80])), n=len(v), form=f, kw=kw, flags=env.cfg_key(cfg))
    if getattr(a, "lasy", False):
        len(a)
    fmt, data = a.data_format, a.data
    disk = sorted(p.name for p in env.TMP.iterdir())
    names = ["time_" + c for c in CONV] + ["sizeof_" + s for s in SIZES]
    rng.shuffle(names)
    if rng.random() < 0.3:  # reading and writing first
        first = rng.sample(["time_read", "time_write"] + ["sizeof_file"], rng.randint(1, 3))
        names = first + [x for x in names if x not in first]
    got = {}
    for n in names:
        x = got[n] = getattr(a, n)
        m.check(x >= 0, f"{n} is not known though it was asked to be computed", got=x, order=names[:names.index(n) + 1], **ctx)
        m.ev("forced")
        if n.startswith("sizeof_"):
            size(m, a, v, n[7:], x, ctx)
        m.check(a.data_format == fmt and a.data is data, "asking for a profile changed the storage of the vector", read=n, before=fmt, after=a.data_format, **ctx)
        left = sorted(p.name for p in env.TMP.iterdir())
        m.check(left == disk, "asking for a profile left or removed a file", read=n, before=disk, after=left, **ctx)
        if rng.random() < 0.2:
            m.check(gen.vec_of(a) == v and a.nones == sum(v) and len(a) == len(v), "asking for a profile changed the vector", read=n, got=gen.vec_of(a), expected=v, **ctx)
    m.check(gen.vec_of(a) == v and a.nones == sum(v) and a.entropy == ref.entropy(v), "asking for a profile changed the vector", got=gen.vec_of(a), expected=v, **ctx)
    for c in CONV:
        m.check(getattr(a, N[c]) > 0, f"{N[c]} does not count what was forced", got=getattr(a, N[c]), **ctx)
    m.nontrivial(v, fmt, tuple(names))
    m.state("forced", fmt, f)
    m.sample(dict(form=f, format=fmt, order=names[:5]))


TICKS = [1e-3, 1, 1e3]


def took(m, what, t, tick, looks, ctx):
    m.check(tick * 0.98 <= t <= tick * looks * 1.02, f"{what} is not the duration of its last occurrence", got=t, tick=tick, looks=looks, **ctx)
    m.ev("clocked")


def clock_case(m, rng):
    """Durations under a clock that only the harness moves: each is that of the last occurrence, and nothing else changes it."""
    clock.reset()
    v = gen.vector(rng, gen.length(rng, big=False))
    cfg = env.rand_act_cfg(rng, force_stat=False)
    env.apply_act_cfg(cfg)
    tick = rng.choice(TICKS)
    (a, f, kw), looks = clock.run(lambda: gen.activation(rng, v), tick)
    ctx = dict(vector="".join(map(str, v[:80])), n=len(v), form=f, kw=kw, flags=env.cfg_key(cfg))
    if getattr(a, "lasy", False):
        len(a)
    if looks >= 2 and a.n_written:
        took(m, "time_write", a.time_write, tick, looks, dict(ctx, call="creation"))
    done = []
    for _ in range(rng.randint(2, 8)):
        c0, t0 = counts(a), {c: getattr(a, "time_" + c) for c in CONV}
        w = rng.choice(VIEWS + VIEWS + list(STATS))
        tick = rng.choice(TICKS)
        _, looks = clock.run(lambda: getattr(a, w), tick)
        done.append((w, tick))
        if looks < 2:
            continue
        for c in CONV:
            t, n = getattr(a, "time_" + c), getattr(a, N[c])
            if n > c0[c]:
                took(m, "time_" + c, t, tick, looks, dict(ctx, format=a.data_format, done=done))
                m.nontrivial(v, a.data_format, tuple(done), str(ctx))
            else:
                m.check(t == t0[c], f"time_{c} changed though that did not happen", before=t0[c], after=t, format=a.data_format, done=done, **ctx)
                m.ev("clocked, untouched")
    m.state("clock", a.data_format, tuple(done))
    m.sample(dict(what="clock", form=f, format=a.data_format, reads=done))


ALWAYS = ["time_fit", "time_predict", "time_calc_activation"]
REG = ["time_calc_prediction", "time_calc_std", "time_calc_criterion"]


def rule_case(m, rng):
    kind = rng.choice(["reg", "cls"])
    clock.reset()
    p = rs.Problem(rng, kind, k=1)
    env.apply_act_cfg(env.rand_act_cfg(rng, force_stat=False))
    Rule.LOCAL_ACTIVATION = rng.random() < 0.5
    r = p.rules()[0]
    xs, y = p.data()
    names = ALWAYS + (REG if kind == "reg" else [])
    known = set()
    ctx = dict(problem=p.describe(), local=Rule.LOCAL_ACTIVATION)
    km = dict(criterion_method="mse") if kind == "reg" else {}
    CALLS = {"fit": (lambda: r.fit(y=y, xs=xs), ["time_fit", "time_calc_activation", "time_calc_prediction", "time_calc_std"]),
             "predict": (lambda: r.predict(xs), ["time_predict"]),
             "calc_activation": (lambda: r.calc_activation(xs), ["time_calc_activation"]),
             "eval": (lambda: r.eval(y=y, xs=xs, recompute_activation=True, **km), ["time_calc_activation", "time_calc_criterion"])}
    done = []

    def look(when):
        for n in names:
            t = getattr(r, n)
            m.check((t != -1) == (n in known), f"{n} does not tell whether it was done", when=when, done=done, got=t, **ctx)
            m.check(t == -1 or 0 <= t, f"{n} is not a duration", when=when, got=t, **ctx)
            m.ev("rule durations")

    look("before anything")
    todo = ["calc_activation"] if rng.random() < 0.4 else []
    todo += ["fit"] + [rng.choice(["predict", "predict", "calc_activation", "eval", "fit"]) for _ in range(rng.randint(0, 4))]
    for c in todo:
        f, sets = CALLS[c]
        before = {n: getattr(r, n) for n in names}
        tick = rng.choice(TICKS)
        _, looks = clock.run(f, tick)
        known |= set(sets)
        done.append(c)
        m.ev("rule:" + c)
        look(c)
        for n in sets:
            if looks >= 2 and n in names:
                took(m, "a rule's " + n, getattr(r, n), tick, looks, dict(ctx, call=c, done=done))
        after = {n: getattr(r, n) for n in names}
        m.check(all(after[n] == before[n] for n in names if n not in sets), "a call changed the duration of another", call=c, before=before, after=after, **ctx)
    act = p.expected(0)["activation"]
    m.check(r.sizeof_raw in (-1, len(act) / 1e6), "a rule's sizeof_raw is not that of its activation", got=r.sizeof_raw, points=len(act), **ctx)
    m.nontrivial(str(p.describe()), tuple(done))
    m.state("rule", kind, tuple(done))
    m.sample(dict(what="rule", kind=kind, calls=done))


SCENARIOS = {"views": (views_case, 4000, 60000), "clock": (clock_case, 1500, 20000), "force": (force_case, 700, 10000), "rules": (rule_case, 300, 4000)}
REQUIRED = {"durations": 10000, "forced": 4000, "rule durations": 1500, "size:raw": 500, "size:integer": 200, "size:compressed_str": 300, "size:compressed_array": 300,
            "size:file": 150, "size:bitarray": 300, "stored:bitarray": 500, "stored:integer": 300, "stored:file": 250, "stored:raw": 100, "stored:compressed_str": 250,
            "stored:compressed_array": 250, "copy": 100, "result": 100, "cleared": 60, "creations": 2000, "lasy": 60, "written once": 40, "rule:eval": 30, "rule:predict": 60}
