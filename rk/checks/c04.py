"""C04: reading an activation never changes it, the library settings or the disk."""
from copy import copy

from ruleskit import Activation

from .. import env, gen, ref
from ..core import same
from .c01 import VIEWS, expected as view_expected, norm as view_norm, read
from .c03 import STATS

RULE = ("seeded activations in every storage form and flag setting (profiling forced in half of the cases); random sequences of 3..25 "
        "reads of views, statistics and profiling attributes, and of uses as operand, and 60..300 reads of the same things; after every step the monitor compares settings, "
        "storage format, directory listing with contents, and at the end every view and statistic with the supplied vector; "
        "non-trivial: both values present (distinct by vector, form, flags and read sequence)")
ASSUMPTIONS = ["profiling times and counters themselves are free to change", "single-threaded use"]

_P = ["sizeof_path", "sizeof_file", "sizeof_raw", "sizeof_bitarray", "sizeof_integer", "sizeof_compressed_array",
      "sizeof_compressed_str", "time_write", "time_read", "time_raw_to_compressed", "time_raw_to_integer", "time_raw_to_bitarray",
      "time_compressed_to_raw", "time_bitarray_to_raw", "time_integer_to_raw", "time_compressed_to_bitarray",
      "time_bitarray_to_compressed", "time_integer_to_compressed", "time_bitarray_to_integer", "time_integer_to_bitarray",
      "time_compressed_to_integer", "n_written", "n_read", "n_raw_to_compressed", "n_compressed_to_raw", "n_raw_to_bitarray",
      "n_raw_to_integer", "n_bitarray_to_raw", "n_integer_to_raw", "n_bitarray_to_compressed", "n_integer_to_compressed",
      "n_compressed_to_bitarray", "n_compressed_to_integer", "n_bitarray_to_integer", "n_integer_to_bitarray"]


def disk():
    d = {"tmp/" + k: v for k, v in env.snapshot(env.TMP).items()}
    d.update({"aux/" + k: v for k, v in env.snapshot(env.AUX).items()})
    return d


def fmt(a):
    return getattr(a, "data_format", None)


def full_check(m, rng, a, v, ctx):
    todo = [("view", w) for w in VIEWS] + [("stat", s) for s in STATS]
    rng.shuffle(todo)
    for kind, w in todo:
        if kind == "view":
            x = view_norm(w, read(a, w))
            m.check(x == view_expected(v, w), f"after reads, view '{w}' differs from the vector", got=x, expected=view_expected(v, w),
                    v=v, ctx=ctx)
        else:
            x = getattr(a, w)
            m.check(same(x, STATS[w](v), 1e-12), f"after reads, {w} differs", got=x, expected=STATS[w](v), v=v, ctx=ctx)


def start(rng, n=None):
    v = gen.vector(rng, n or gen.length(rng, big=False))
    cfg = env.rand_act_cfg(rng, force_stat=rng.random() < 0.5)
    env.apply_act_cfg(cfg)
    a, f, kw = gen.activation(rng, v)
    if rng.random() < 0.3:
        cfg = env.rand_act_cfg(rng, force_stat=rng.random() < 0.6)
        env.apply_act_cfg(cfg)
    return v, cfg, a, f, kw


def reads_case(m, rng):
    v, cfg, a, f, kw = start(rng)
    s0, d0, f0 = env.settings(), disk(), fmt(a)
    seq = []
    pool = VIEWS + list(STATS) + _P + _P
    first = {}
    for _ in range(rng.randint(3, 25)):
        w = rng.choice(pool)
        seq.append(w)
        x = read(a, w)
        m.ev("read")
        m.ev("read:" + w)
        ctx = dict(form=f, kw=kw, flags=env.cfg_key(cfg), reads=seq, v=v)
        if w in VIEWS:
            y = view_norm(w, x)
            m.check(y == view_expected(v, w), f"view '{w}' differs from the vector", got=y, expected=view_expected(v, w), **ctx)
        elif w in STATS:
            m.check(same(x, STATS[w](v), 1e-12), f"{w} differs from that of the vector", got=x, expected=STATS[w](v), **ctx)
        if w in first and w.startswith("sizeof_raw"):
            pass
        m.check(env.settings() == s0, "reading changed a library setting", before=s0, after=env.settings(), **ctx)
        m.check(fmt(a) == f0, "reading changed the storage format", before=f0, after=fmt(a), **ctx)
        m.check(disk() == d0, "reading changed the files on disk", before=sorted(d0), after=sorted(disk()), **ctx)
    m.state(f0, env.cfg_key(cfg), tuple(seq[:3]))
    if 0 in v and 1 in v:
        m.nontrivial(v, f, env.cfg_key(cfg), tuple(seq))
    full_check(m, rng, a, v, dict(form=f, kw=kw, flags=env.cfg_key(cfg), reads=seq))
    m.sample(dict(n=len(v), form=f, stored=f0, flags=str(env.cfg_key(cfg)), reads=seq))


def worn_case(m, rng):
    """The same few things read again and again: what was read before never matters."""
    v, cfg, a, f, kw = start(rng, rng.choice([3, 17, 64, 200]))
    s0, d0, f0 = env.settings(), disk(), fmt(a)
    few = rng.sample(VIEWS + list(STATS), rng.choice([1, 1, 2, 3]))
    times = rng.choice([60, 130, 300])
    ctx = dict(form=f, kw=kw, flags=env.cfg_key(cfg), reads=few, times=times, v=v)
    for i in range(times):
        w = few[i % len(few)]
        x = read(a, w)
        if w in VIEWS:
            x = view_norm(w, x)
            m.check(x == view_expected(v, w), f"view '{w}' differs from the vector after many reads", got=x, expected=view_expected(v, w), after=i, **ctx)
        else:
            m.check(same(x, STATS[w](v), 1e-12), f"{w} differs from that of the vector after many reads", got=x, expected=STATS[w](v), after=i, **ctx)
        m.check(fmt(a) == f0, "reading many times changed the storage format", before=f0, after=fmt(a), reads_done=i, **ctx)
    m.ev("many reads of the same", times)
    m.check(env.settings() == s0, "reading changed a library setting", before=s0, after=env.settings(), **ctx)
    m.check(disk() == d0, "reading changed the files on disk", before=sorted(d0), after=sorted(disk()), **ctx)
    full_check(m, rng, a, v, ctx)
    m.state("worn", f0, tuple(few))
    if 0 in v and 1 in v:
        m.nontrivial("worn", v, f, env.cfg_key(cfg), tuple(few), times)


def operands_case(m, rng):
    v, cfg, a, f, kw = start(rng)
    w = gen.vector(rng, len(v))
    b, f2, _ = gen.activation(rng, w)
    s0, fa, fb = env.settings(), fmt(a), fmt(b)
    seq = []
    keep = []
    for _ in range(rng.randint(2, 8)):
        d0 = disk()
        op = rng.choice(["&", "|", "^", "+", "-", "in", "corr", "mand", "mor", "mxor", "marr", "copy", "len"])
        seq.append(op)
        x, y = rng.choice([(a, b), (b, a), (a, a)])
        r = None
        if op == "&":
            r = x & y
        elif op == "|":
            r = x | y
        elif op == "^":
            r = x ^ y
        elif op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "in":
            _ = x in y
        elif op == "corr":
            x.get_correlation(y)
        elif op == "mand":
            r = Activation.multi_logical_and([x, y, a])
        elif op == "mor":
            r = Activation.multi_logical_or([x, y, b])
        elif op == "mxor":
            r = Activation.multi_logical_xor([x, y])
        elif op == "marr":
            rng.choice([Activation.multi_logical_xor, Activation.multi_logical_or, Activation.multi_logical_and])([x, y], True)
        elif op == "copy":
            r = copy(x)
        else:
            len(x)
        m.ev("operand use")
        m.ev("use:" + op)
        ctx = dict(uses=seq, forms=(f, f2), v=v, w=w, flags=env.cfg_key(cfg))
        m.check(env.settings() == s0, "using activations as operands changed a library setting", before=s0, after=env.settings(), **ctx)
        m.check(fmt(a) == fa and fmt(b) == fb, "using an activation changed its storage format", before=(fa, fb),
                after=(fmt(a), fmt(b)), **ctx)
        d1 = disk()
        new = sorted(set(d1) - set(d0))
        m.check(all(d1.get(k) == d0[k] for k in d0), "using activations changed or removed files", before=sorted(d0), after=sorted(d1),
                **ctx)
        m.check(len(new) <= (1 if isinstance(r, Activation) else 0), "an operation left files that belong to no returned activation",
                new=new, returned=type(r), **ctx)
        keep.append(r)
    full_check(m, rng, a, v, dict(uses=seq, form=f))
    full_check(m, rng, b, w, dict(uses=seq, form=f2))
    m.state("operands", fa, fb, tuple(seq[:4]))
    if v != w:
        m.nontrivial(v, w, tuple(seq))


SCENARIOS = {"reads": (reads_case, 1800, 30000), "operands": (operands_case, 1000, 15000), "worn": (worn_case, 120, 2000)}
REQUIRED = {"many reads of the same": 5000, "read": 5000, "operand use": 1200}
