"""Seeded generators of hostile but legal inputs."""
import math
import string

import numpy as np
import pandas as pd
from bitarray import bitarray

from ruleskit import Activation, HyperrectangleCondition, RegressionRule, ClassificationRule, RuleSet

from . import env, ref

EDGE_LENGTHS = [1, 1, 2, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]


def length(rng, big=True):
    r = rng.random()
    if r < 0.3:
        return rng.randint(1, 12)
    if r < 0.55:
        return rng.choice(EDGE_LENGTHS)
    if r < 0.93 or not big:
        return rng.randint(13, 300)
    return rng.randint(300, 4000)


def vector(rng, n=None):
    n = n or length(rng)
    k = rng.random()
    if k < 0.3:
        p = rng.choice([0.02, 0.1, 0.5, 0.5, 0.9, 0.98])
        return [1 if rng.random() < p else 0 for _ in range(n)]
    if k < 0.55:  # runs
        v, b = [], rng.randint(0, 1)
        mean = rng.choice([1.5, 3, 10, 50])
        while len(v) < n:
            v += [b] * (1 + int(rng.expovariate(1 / mean)))
            b ^= 1
        return v[:n]
    if k < 0.63:
        return [0] * n
    if k < 0.7:
        return [1] * n
    if k < 0.78:  # a single one, possibly at an end
        v = [0] * n
        v[rng.choice([0, n - 1, rng.randrange(n)])] = 1
        return v
    if k < 0.84:
        v = [1] * n
        v[rng.choice([0, n - 1, rng.randrange(n)])] = 0
        return v
    if k < 0.92:  # leading zeros then noise
        z = rng.randint(0, n)
        return [0] * z + [rng.randint(0, 1) for _ in range(n - z)]
    return [(i + rng.randint(0, 1)) % 2 if False else i % 2 for i in range(n)]


BIG_LENGTHS = [32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000, 100000, 100003, 131071, 131072, 200000, 200001, 262149, 300005]


def big_vector(rng, n=None):
    """Vectors longer than any 16-bit position, count or width."""
    n = n or rng.choice(BIG_LENGTHS)
    g = np.random.default_rng(rng.getrandbits(32))
    k = rng.random()
    if k < 0.4:
        p = rng.choice([0.0001, 0.02, 0.5, 0.5, 0.5, 0.98, 0.9999])
        v = (g.random(n) < p).astype(int)
    elif k < 0.75:  # few runs
        cuts = sorted({rng.choice([rng.randrange(1, n), n - 1, 1, 32768, 65536, 32767, 65535]) for _ in range(rng.randint(1, 12))})
        v = np.zeros(n, dtype=int)
        b, last = rng.randint(0, 1), 0
        for c in [c for c in cuts if 0 < c < n] + [n]:
            v[last:c] = b
            b, last = b ^ 1, c
    elif k < 0.87:
        v = np.zeros(n, dtype=int)
        v[rng.choice([0, n - 1, rng.randrange(n)])] = 1
    else:
        v = np.ones(n, dtype=int)
        v[rng.choice([0, n - 1, rng.randrange(n)])] = 0
    return v.tolist()


DTYPES = [np.ubyte, np.ubyte, bool, np.int8, np.int64, np.uint16, np.float64, np.float32, np.int32]
FORMS = ["raw", "raw", "raw_strided", "bitarray", "integer", "binstr", "compressed_str", "compressed_array",
         "path", "path_str", "path_lasy"]
_counter = [0]


def supply(rng, v, form):
    """The constructor arguments (value, kwargs) that supply vector v in that form."""
    kw = {}
    if form == "raw":
        a = np.array(v, dtype=rng.choice(DTYPES))
        if rng.random() < 0.1:
            a = a.astype(a.dtype.newbyteorder(">"))
        if rng.random() < 0.1:
            a.flags.writeable = False
        return a, kw
    if form == "raw_strided":
        if rng.random() < 0.3:  # reversed view
            return np.array(v[::-1], dtype=rng.choice(DTYPES))[::-1], kw
        if rng.random() < 0.3:  # column of a table
            big = np.zeros((len(v), 3), dtype=rng.choice(DTYPES), order=rng.choice("CF"))
            big[:, 1] = v
            return big[:, 1], kw
        big = np.zeros(2 * len(v), dtype=rng.choice(DTYPES))
        big[::2] = v
        return big[::2], kw
    if form == "bitarray":
        return bitarray(v, endian=rng.choice(["big", "big", "little"])), kw
    if form == "integer":
        kw["length"] = len(v)
        return ref.integer(v), kw
    if form == "binstr":
        return "".join(map(str, v)), kw
    if form == "compressed_str":
        return rng.choice([",", ",", ", "]).join(map(str, ref.compressed(v))), kw
    if form == "compressed_array":
        fits = [t for t in (np.uint8, np.int16, np.uint16, np.uint32) if len(v) <= np.iinfo(t).max]
        return np.array(ref.compressed(v), dtype=rng.choice([np.int32, np.int32, np.int64] + fits)), kw
    _counter[0] += 1
    p = env.AUX / f"saved_{_counter[0]}.npy"
    with open(p, "wb") as f:
        np.save(f, np.array(v, dtype=rng.choice([np.ubyte, np.ubyte, np.int64, np.float64, bool])))
    if form == "path_lasy":
        kw["lasy"] = True
    return (str(p) if form == "path_str" else p), kw


def forms_for(v):
    return [f for f in FORMS if not (f == "compressed_array" and len(v) < 2)]


def activation(rng, v, form=None, **over):
    form = form or rng.choice(forms_for(v))
    val, kw = supply(rng, v, form)
    kw["optimize"] = rng.random() < 0.6
    kw["to_file"] = rng.random() < 0.4
    kw.update(over)
    a = Activation(val, **kw)
    return a, form, kw


def vec_of(a):
    """The vector an activation (or array) denotes, as a list of ints; None if not 0/1."""
    r = a.raw if isinstance(a, Activation) else a
    return ints(r)


def ints(r):
    if r is None:
        return None
    out = []
    for x in (r.tolist() if hasattr(r, "tolist") else list(r)):
        f = float(x)
        if f not in (0.0, 1.0):
            return ["not 0/1", r]
        out.append(int(f))
    return out


# ------------------------------------------------------------------------------------------------- features
GRID = [-3.0, -2.5, -2.0, -1.0, -0.5, 0.0, 0.1, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 1e6, -1e6]


def table(rng, n=None, d=None, kind=None):
    """n x d list of rows, values often exactly equal to the grid bounds, with NaN and infinities."""
    n = n or (rng.choice([1, 2, 3, 4, 5, 8, 13, 21, 40, 40, 64, 100]) if rng.random() > 0.012 else rng.choice([257, 513, 1025, 1025, 2500, 5000]))
    d = d or (rng.randint(1, 5) if rng.random() > 0.04 else rng.choice([8, 11, 12, 14]))
    kind = kind or rng.choice(["grid", "grid", "ints", "cont", "clean"])
    pn = rng.choice([0, 0, 0.05, 0.2]) if kind in ("grid", "cont") else 0
    rows = []
    for _ in range(n):
        row = []
        for _ in range(d):
            if kind == "ints":
                x = rng.randint(-4, 4)
            elif kind == "cont":
                x = rng.uniform(-4, 4)
            else:
                x = rng.choice(GRID[:13])
            if pn and rng.random() < pn:
                x = rng.choice([math.nan, math.nan, math.inf, -math.inf])
            row.append(x)
        rows.append(row)
    if rng.random() < 0.12:  # data as they come from ordered sources
        for j in rng.sample(range(d), rng.choice([1, d])):
            col = structured(rng, [r[j] for r in rows], kind)
            for r, x in zip(rows, col):
                r[j] = x
    return rows, kind


def structured(rng, col, kind):
    """A column of the same kind of values that is ordered, constant, periodic or in blocks."""
    n, k = len(col), rng.choice(["up", "up", "down", "counter", "constant", "period", "blocks"])
    if k in ("up", "down"):
        fin = sorted((x for x in col if math.isfinite(x)), reverse=k == "down")
        return fin + [x for x in col if not math.isfinite(x)]
    if k == "counter":
        s = 1 if kind == "ints" else rng.choice([0.25, 1.0, -0.5])
        return [s * i for i in range(n)]
    if k == "constant":
        return [col[0]] * n
    if k == "period":
        p = rng.randint(1, min(n, 7))
        return [col[i % p] for i in range(n)]
    p = rng.randint(1, n)
    return [col[i // p * p] for i in range(n)]


NAMES = ["a", "b", "X_0", "X_1", "X_10", "X_2", "Temp", "temp", "über", "a b", "it's", 'q"q', "x in [0, 1]", "z,z",
         "_", "0", "Feature AND other", "f-1", "é", "A"]


def names(rng, d, plain=False):
    if plain or rng.random() < 0.5:
        return ["X_" + str(i) for i in range(d)]
    if rng.random() < 0.1:  # long names that differ at their end only
        stem = rng.choice(["quantity measured by the sensors of the north-east hall of building number four (mean over the hour), sensor ", "f" * 40])
        return [stem + str(i) for i in rng.sample(range(100), d)]
    return rng.sample(NAMES, d)


def frame(rng, rows, nms, shuffle=True, index=True, extra=True):
    d = len(nms)
    order = list(range(d))
    if shuffle:
        rng.shuffle(order)
    df = pd.DataFrame({nms[j]: [r[j] for r in rows] for j in order}, columns=[nms[j] for j in order])
    if extra and rng.random() < 0.3:
        df[rng.choice(["an unused column", "an unused column", 7, (1, "x"), 2.5])] = "text"
    if index and len(rows):
        k = rng.random()
        if k < 0.3:
            df.index = pd.date_range("2020-01-01", periods=len(rows))
        elif k < 0.5:
            df.index = [f"r{i}" for i in range(len(rows))]
        elif k < 0.65:
            df.index = list(range(len(rows)))[::-1]
        elif k < 0.75:
            df.index = pd.MultiIndex.from_tuples([(i // 2, i % 2) for i in range(len(rows))])
        elif k < 0.82:
            df.index = [i // 3 for i in range(len(rows))]
    return df


def array(rng, rows, kind):
    if kind == "ints":
        return np.array(rows, dtype=rng.choice([np.int64, np.int32, np.float64, np.float64]))
    a = np.array(rows, dtype=np.float64)
    if rng.random() < 0.2:
        a = np.asfortranarray(a)
    return a


def bound(rng, rows=None, j=None, ints_only=False):
    r = rng.random()
    if rows is not None and r < 0.6:
        x = rng.choice(rows)[j]
        if math.isfinite(x):
            return x
    if ints_only or r < 0.75:
        return rng.randint(-4, 4)
    if r < 0.95:
        return rng.choice(GRID)
    return rng.choice([math.inf, -math.inf])


def box(rng, d, nms, rows=None, p_impossible=0.05, wide=0.0, maxf=None, finite=False):
    """Random Box over features 0..d-1."""
    k = rng.randint(1, min(d, maxf or d))
    feats = rng.sample(range(d), k)
    items = []
    for j in feats:
        if rng.random() < wide:
            lo, hi = (-1e7, 1e7)
        else:
            lo, hi = bound(rng, rows, j), bound(rng, rows, j)
            while finite and not (math.isfinite(lo) and math.isfinite(hi)):
                lo, hi = bound(rng, rows, j), bound(rng, rows, j)
            if lo > hi and rng.random() > p_impossible:
                lo, hi = hi, lo
            elif lo < hi and rng.random() < p_impossible:
                lo, hi = hi, lo
        items.append((nms[j], j, lo, hi))
    return ref.Box(items)


def condition(rng, b, shuffle=True, default_names=None, **kw):
    """HyperrectangleCondition of a Box; the order of features is random."""
    it = b.items
    if shuffle and rng.random() < 0.25:
        it.sort(key=lambda x: x[1])
    elif shuffle:
        rng.shuffle(it)
    args = dict(features_indexes=[i for _, i, _, _ in it], bmins=[lo for _, _, lo, _ in it],
                bmaxs=[hi for _, _, _, hi in it])
    if not (all(n == f"X_{i}" for n, i, _, _ in it) and rng.random() < 0.5):
        args["features_names"] = [n for n, _, _, _ in it]
    args.update(kw)
    return HyperrectangleCondition(**args)


def boxes(rng, k, d, nms, rows, **kw):
    """k boxes with pairwise different conditions (and condition strings)."""
    out, seen = [], set()
    tries = 0
    while len(out) < k and tries < 50 * k:
        tries += 1
        b = twin(rng, rng.choice(out), d, nms, rows, kw) if out and rng.random() < 0.12 else box(rng, d, nms, rows, **kw)
        if b.key not in seen:
            seen.add(b.key)
            out.append(b)
    return out


def twin(rng, b, d, nms, rows, kw):
    """A box almost like b: one bound moved (by as little as possible, or to another value of the data), or one more feature."""
    items = sorted(b.items, key=lambda it: it[1])
    free = [j for j in range(d) if nms[j] not in [n for n, _, _, _ in items]]
    if free and len(items) < (kw.get("maxf") or d) and rng.random() < 0.4:
        j = rng.choice(free)
        more = box(rng, 1, [nms[j]], [[r[j]] for r in rows] if rows else None, finite=kw.get("finite", False)).items[0]
        return ref.Box(items + [(nms[j], j, more[2], more[3])])
    k = rng.randrange(len(items))
    n, j, lo, hi = items[k]
    step = rng.choice(["up", "up", "down", "small", "other"])
    side = rng.randint(0, 1)
    v = (lo, hi)[side]
    if not math.isfinite(v) or abs(v) > 2 ** 53:
        return b
    if step == "other":
        w = bound(rng, rows, j, ints_only=kw.get("finite", False))
    elif step == "small":
        w = v + rng.choice([1e-9, -1e-9, 1e-6, 2 ** -20])
    else:
        w = math.nextafter(v, math.inf if step == "up" else -math.inf)
    lo, hi = (w, hi) if side == 0 else (lo, w)
    if lo > hi:
        return b
    return ref.Box(items[:k] + [(n, j, lo, hi)] + items[k + 1:])


def targets(rng, n, nan=True):
    k = rng.random()
    if k < 0.25:
        y = [float(rng.randint(-2, 2)) for _ in range(n)]
    elif k < 0.5:
        y = [rng.gauss(0, 1) for _ in range(n)]
    elif k < 0.55:  # whole numbers near the end of a small integer type's range
        lo, hi = rng.choice([(90, 127), (-128, -90), (200, 255), (30000, 32767), (60000, 65535), (2 * 10 ** 9, 2 ** 31 - 1), (-128, 127)])
        y = [float(rng.randint(lo, hi)) for _ in range(n)]
    elif k < 0.62:
        c = rng.choice([0.0, 1.0, -3.0])
        y = [c] * n
    elif k < 0.75:
        y = [rng.choice([0.0, 0.0, 1.0, -1.0]) for _ in range(n)]
    elif k < 0.9:
        y = [rng.uniform(100, 101) for _ in range(n)]
    else:
        y = [rng.gauss(0, 1) * 10 ** rng.randint(-3, 3) for _ in range(n)]
    if rng.random() < 0.08:
        y.sort(reverse=rng.random() < 0.5)
    if nan and rng.random() < 0.3:
        p = rng.choice([0.05, 0.3])
        y = [math.nan if rng.random() < p else t for t in y]
    return y


def retype(rng, y):
    """The dtype to give to regression targets: sometimes the narrowest (or another) integer type that can hold them."""
    if any(math.isnan(t) or t != int(t) for t in y) or rng.random() < 0.4:
        return np.float64
    ok = [t for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.int64) if np.iinfo(t).min <= min(y) and max(y) <= np.iinfo(t).max]
    return (ok[0] if rng.random() < 0.6 else rng.choice(ok)) if ok else np.float64


LABELS = [
    [0, 1], [0, 1, 2], [-1, 1], [1, 2, 3], [-2, 0, 5], [10, 20, 30, 40], [0.5, 1.5], [0.0, 1.0],
    ["a", "b"], ["yes", "no"], ["zero", "one", "two"], ["A", "B", "C"], ["x" * 40, "x" * 40 + "y"],
    ["class 1", "class 2"], ["lo", "mid", "hi"], ["b", "ba"], ["é", "ü"], ["spam", "ham"],
    ["1", "2", "10"], ["", "x"], ["None", "True", "1.0"], [3, 1000003, -7], [2 ** 40, 2 ** 40 + 1], list(range(12)), [f"k{i}" for i in range(12)],
    [1e-9, 2e-9], [0.1, 0.1 + 0.2, 0.3],
]


PLAIN_LABELS = [p for p in LABELS if not any(x in ("1", "None") for x in p)]  # none reads as a Python literal


def labels(rng, n, pool=None, skew=None):
    pool = pool or rng.choice(LABELS)
    pool = list(pool)
    rng.shuffle(pool)
    r = rng.random()
    if r < 0.5:
        w = [1] * len(pool)
    else:
        w = [rng.choice([1, 1, 3, 20]) for _ in pool]
    return rng.choices(pool, weights=w, k=n), pool
