"""Reference criterion of one rule on given rows."""
import math

from . import ref


def crit(kind, method, act, pred, y):
    if kind == "reg":
        return ref.criterion_reg(method, [pred if a else math.nan for a in act], y)
    t = ref.activated(act, y)
    if not t:
        return math.nan
    return sum(1 for x in t if x == pred) / len(t)
