"""Independent reference models, written from the documented meaning, on plain Python values."""
import math


# ---------------------------------------------------------------------------------------------- activations
def compressed(v):
    """First value, indexes where the value changes, length."""
    return [v[0]] + [i for i in range(1, len(v)) if v[i] != v[i - 1]] + [len(v)]


def integer(v):
    return int("".join("1" if b else "0" for b in v), 2)


def entropy(v):
    return len(compressed(v))


def ones(v):
    return [i for i, b in enumerate(v) if b]


def AND(a, b):
    return [x & y for x, y in zip(a, b)]


def OR(a, b):
    return [x | y for x, y in zip(a, b)]


def XOR(a, b):
    return [x ^ y for x, y in zip(a, b)]


def SUB(a, b):
    return [1 if (x and not y) else 0 for x, y in zip(a, b)]


def n_and(vs):
    return [1 if all(c) else 0 for c in zip(*vs)]


def n_or(vs):
    return [1 if any(c) else 0 for c in zip(*vs)]


def n_xor(vs):
    if len(vs) == 1:
        return list(vs[0])
    return [1 if (any(c) and not all(c)) else 0 for c in zip(*vs)]


def contains(a, b):
    """b in a"""
    return all(x or not y for x, y in zip(a, b))


def correlation(a, b):
    return sum(1 for x, y in zip(a, b) if x == y) / len(a)


# ----------------------------------------------------------------------------------------------- conditions
class Box:
    """name -> (index, bmin, bmax)"""

    def __init__(self, items):
        self.d = {n: (i, lo, hi) for n, i, lo, hi in items}
        assert len(self.d) == len(items)

    @property
    def items(self):
        return [(n, i, lo, hi) for n, (i, lo, hi) in self.d.items()]

    @property
    def key(self):
        return frozenset((n, lo, hi) for n, (i, lo, hi) in self.d.items())

    @property
    def impossible(self):
        return any(lo > hi for _, lo, hi in self.d.values())

    def __and__(self, other):
        """None when names and indexes conflict."""
        d = dict(self.d)
        for n, (i, lo, hi) in other.d.items():
            if n in d:
                j, lo1, hi1 = d[n]
                if i != j:
                    return None
                d[n] = (i, max(lo, lo1), min(hi, hi1))
            else:
                d[n] = (i, lo, hi)
        if len({i for i, _, _ in d.values()}) != len(d):
            return None
        return Box([(n, i, lo, hi) for n, (i, lo, hi) in d.items()])

    def holds(self, row_by_index=None, row_by_name=None):
        for n, (i, lo, hi) in self.d.items():
            x = row_by_index[i] if row_by_index is not None else row_by_name[n]
            x = x if isinstance(x, int) else float(x)  # integers are compared exactly
            if not (math.isfinite(x) and lo <= x <= hi):
                return 0
        return 1

    def evaluate(self, rows):
        """rows: list of lists, addressed by index"""
        return [self.holds(row_by_index=r) for r in rows]


# ----------------------------------------------------------------------------------------------- statistics
def fmean(v):
    return math.fsum(v) / len(v) if len(v) else math.nan


def nn(v):
    return [float(x) for x in v if not math.isnan(float(x))]


def activated(act, y):
    return [x for a, x in zip(act, y) if a]


def cond_mean(act, y):
    return fmean(nn(activated(act, y)))


def sstd(v):
    """sample standard deviation; 0 for a single value, nan for none"""
    if not v:
        return math.nan
    if len(v) == 1:
        return 0.0
    mu = fmean(v)
    return math.sqrt(math.fsum((x - mu) ** 2 for x in v) / (len(v) - 1))


def pstd(v):
    mu = fmean(v)
    return math.sqrt(math.fsum((x - mu) ** 2 for x in v) / len(v)) if v else math.nan


def zscore(pred, nones, y, horizon=1):
    yy = nn(y)
    if nones == 0 or math.isnan(pred):
        return math.nan
    num = abs(pred - fmean(yy))
    den = math.sqrt(horizon / nones) * pstd(yy)
    if den == 0:
        return math.nan if num == 0 else math.inf
    return num / den


def majority(act, y):
    """smallest class with the highest count, nan if nothing is activated"""
    cnt = {}
    for x in activated(act, y):
        cnt[x] = cnt.get(x, 0) + 1
    if not cnt:
        return math.nan
    m = max(cnt.values())
    return min(c for c in cnt if cnt[c] == m)


def median(v):
    s = sorted(v)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def criterion_reg(method, pred, y):
    pts = [(p, t) for p, t in zip(pred, y) if not math.isnan(p)]
    mu = fmean(y)
    if method in ("mse", "mse_norm"):
        v = fmean([(p - t) ** 2 for p, t in pts])
        if method == "mse_norm":
            v = div(v, fmean([(t - mu) ** 2 for t in y]))
    else:
        v = fmean([abs(p - t) for p, t in pts])
        if method == "mae_norm":
            v = div(v, fmean([abs(t - mu) for t in y]))
        elif method == "aae":
            md = median(y)
            v = div(v, fmean([abs(t - md) for t in y]))
    return v


def div(a, b):
    if b == 0:
        return math.nan if (a == 0 or math.isnan(a)) else math.inf
    return a / b


def isnan(x):
    return isinstance(x, float) and math.isnan(x)


def success(pred, y):
    """pred, y lists; nan pred = no prediction"""
    pts = [(p, t) for p, t in zip(pred, y) if not isnan(p)]
    if not pts:
        return math.nan
    return sum(1 for p, t in pts if p == t) / len(pts)


# ------------------------------------------------------------------------------------------ rule set votes
def predict_reg(acts, preds, weights=None):
    """weights: list aligned with preds (None/nan/0 = ignored) or None"""
    n = len(acts[0])
    out = []
    for r in range(n):
        num, den, any_ = [], [], False
        for k, a in enumerate(acts):
            if not a[r] or isnan(preds[k]):
                continue
            w = 1.0
            if weights is not None:
                w = weights[k]
                if w is None or isnan(w) or w == 0:
                    continue
            num.append(w * preds[k])
            den.append(w)
            any_ = True
        out.append(math.fsum(num) / math.fsum(den) if any_ else math.nan)
    return out


def unique_max(scores):
    if not scores:
        return math.nan
    m = max(scores.values())
    best = [c for c in scores if scores[c] == m]
    return best[0] if len(best) == 1 else math.nan


def predict_cls(acts, preds, weights=None, stacked=False):
    n = len(acts[0])
    out = []
    for r in range(n):
        active = []
        for k, a in enumerate(acts):
            if not a[r] or isnan(preds[k]):
                continue
            w = 1
            if weights is not None:
                w = weights[k]
                if w is None or isnan(w) or w == 0:
                    continue
            active.append((preds[k], w))
        if weights is not None and stacked and active:
            mw = max(w for _, w in active)
            active = [(p, 1) for p, w in active if w == mw]
        sc = {}
        for p, w in active:
            sc[p] = sc.get(p, 0) + w
        out.append(unique_max(sc))
    return out
