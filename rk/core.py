"""Monitor runtime shared by all checks.

A check is a set of *scenarios*.  A scenario is a function ``fn(m, rng)`` which drives the real code of
/repo through its public API for one generated case, while the monitor ``m`` observes the execution and
compares it with an independent reference model.  Every observation is an *event* (``m.ev``); every judged
observation goes through ``m.check``.  The verdict of a check is three valued:

  violated      an oracle said so (or the code under test raised where the property promises an answer)
  held          no violation and every monitor that has to be reached was reached often enough
  inconclusive  otherwise (exit code 2, never 0)
"""
import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """Raised to leave a case as soon as an oracle has judged it violated."""


class CaseDone(Exception):
    """Leave a case early without a verdict (precondition not met)."""


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2:]


CASE_LIMIT_S = 150


class Hang(Exception):
    """A case took absurdly long (cases take milliseconds)."""


def _hang(*_):
    raise Hang(f"no answer within {CASE_LIMIT_S} s")


class Monitor:
    def __init__(self, prop, tier, seed, known=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.events = Counter()
        self.states = set()
        self.samples = []
        self.violations = []
        self.known_hits = Counter()
        self.known = known or []
        self.errors = []
        self.cases = 0
        self.nontrivial_cases = set()
        self.current = None
        self.skipped = Counter()

    # -- observation -----------------------------------------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] += n

    def state(self, *key):
        """Record an abstract state / case class seen by a monitor."""
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def nontrivial(self, *key):
        self.nontrivial_cases.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(json.loads(json.dumps(obj, default=short)))

    # -- judgement -------------------------------------------------------------------------------------
    def check(self, cond, what, **detail):
        self.ev("judged")
        self.ev("judged:" + what)
        if not cond:
            self.fail(what, **detail)

    def fail(self, what, **detail):
        for k in self.known:
            if k["what"] == what and k["scenario"] == (self.current or {}).get("scenario"):
                self.known_hits[k["id"]] += 1
                return
        v = dict(self.current or {})
        v["what"] = what
        v["detail"] = {k: short(x, 1500) for k, x in detail.items()}
        self.violations.append(v)
        raise Violation(what)

    def eq(self, got, expected, what, **detail):
        self.check(same(got, expected), what, got=got, expected=expected, **detail)

    def raises(self, exc, fn, what, **detail):
        """The code must refuse with exc (class or tuple)."""
        self.ev("judged")
        self.ev("judged:" + what)
        try:
            r = fn()
        except exc:
            return
        except Violation:
            raise
        except Exception as e:  # noqa
            self.fail(what, expected=exc, got=e, **detail)
            return
        self.fail(what, expected=exc, got=r, **detail)

    # -- running ---------------------------------------------------------------------------------------
    def run_case(self, name, fn, index, setup=None):
        from . import env
        rng = random.Random(f"{self.prop}/{name}/{self.seed}/{index}")
        self.current = {"property": self.prop, "scenario": name, "seed": self.seed, "index": index,
                        "tier": self.tier}
        self.cases += 1
        self.ev("cases:" + name)
        env.reset()
        random.seed(rng.getrandbits(32))
        try:
            signal.signal(signal.SIGALRM, _hang)
            signal.alarm(CASE_LIMIT_S)
            try:
                fn(self, rng)
            finally:
                signal.alarm(0)
        except Violation:
            pass
        except CaseDone as e:
            self.skipped[str(e)] += 1
        except Exception as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            in_repo = [f for f in tb if f.filename.startswith(REPO + "/ruleskit")]
            if in_repo:
                try:
                    self.fail("unexpected exception from the code under test",
                              exception=f"{type(e).__name__}: {e}",
                              where=[f"{f.filename}:{f.lineno} {f.name}" for f in tb[-8:]])
                except Violation:
                    pass
            elif isinstance(e, (TypeError, AttributeError, ValueError, LookupError, ArithmeticError)) and not isinstance(e, UnicodeError):
                # the oracle could not even read the answer: malformed (never happens on answers of the promised kind)
                try:
                    self.fail("the answer of the code under test is malformed", exception=f"{type(e).__name__}: {e}",
                              where=[f"{f.filename}:{f.lineno} {f.name}" for f in tb[-8:]])
                except Violation:
                    pass
            else:
                self.errors.append({"case": dict(self.current), "error": traceback.format_exc()})
        finally:
            env.end_case()
            self.current = None


def same(a, b, tol=1e-9):
    """NaN-aware, tolerance-aware structural equality."""
    import numpy as np
    import pandas as pd
    if isinstance(a, pd.Series):
        a = a.tolist()
    if isinstance(b, pd.Series):
        b = b.tolist()
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and str(a) == str(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError, OverflowError):
        return a == b
    if math.isnan(fa) or math.isnan(fb):
        return math.isnan(fa) and math.isnan(fb)
    if fa == fb:
        return True
    if math.isinf(fa) or math.isinf(fb):
        return False
    return abs(fa - fb) <= tol * max(1.0, abs(fa), abs(fb))


def isnan(x):
    return isinstance(x, float) and x != x
