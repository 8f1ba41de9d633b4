"""Library settings, scratch directory and directory monitor."""
import os
import shutil
from pathlib import Path

import numpy as np

import ruleskit
from ruleskit import Activation, HyperrectangleCondition, Rule, RegressionRule, ClassificationRule, RuleSet

assert ruleskit.__file__ == "/repo/ruleskit/__init__.py", ruleskit.__file__

SCRATCH = None  # set by the runner, one directory per worker
TMP = None
AUX = None

ACT_FLAGS = {"WILL_COMPARE": False, "DTYPE": str, "STORE_RAW": False, "FORCE_STAT": False, "NCPUS": 1}
OTHER_FLAGS = [
    (Rule, "LOCAL_ACTIVATION", True), (Rule, "COMPUTE_SUBATTRIBUTES", False), (RuleSet, "STACKED_FIT", False), (RuleSet, "CHECK_DUPLICATED", False),
    (RuleSet, "NLINES", 5), (HyperrectangleCondition, "SORT_ACCORDING_TO", "index"),
]


def use_scratch(path):
    global SCRATCH, TMP, AUX
    SCRATCH = Path(path)
    TMP = SCRATCH / "tmp"
    AUX = SCRATCH / "aux"
    for p in (TMP, AUX):
        p.mkdir(parents=True, exist_ok=True)


def reset_flags():
    for k, v in ACT_FLAGS.items():
        setattr(Activation, k, v)
    Activation.DEFAULT_TEMPDIR = TMP
    for c, k, v in OTHER_FLAGS:
        setattr(c, k, v)


def reset():
    reset_flags()
    for c in (RegressionRule, ClassificationRule, Rule):
        c.SET_THRESHOLDS(None)
    RuleSet.all_features_indexes = {}


def end_case():
    for d in (TMP, AUX):
        for p in d.iterdir():
            if p.is_dir():
                shutil.rmtree(p)
            else:
                p.unlink()
    reset()


def settings():
    """Snapshot of every library setting."""
    d = {k: getattr(Activation, k) for k in ACT_FLAGS}
    d["DEFAULT_TEMPDIR"] = str(Activation.DEFAULT_TEMPDIR)
    for c, k, _ in OTHER_FLAGS:
        d[f"{c.__name__}.{k}"] = getattr(c, k)
    return d


def rand_act_cfg(rng, force_stat=None):
    cfg = {
        "WILL_COMPARE": rng.random() < 0.5,
        "DTYPE": rng.choice([str, np.ndarray]),
        "STORE_RAW": rng.random() < 0.3,
        "FORCE_STAT": (rng.random() < 0.25) if force_stat is None else force_stat,
        "NCPUS": rng.choice([1, 1, 4, 4, 8, 64]),
    }
    return cfg


def apply_act_cfg(cfg):
    for k, v in cfg.items():
        setattr(Activation, k, v)


def cfg_key(cfg):
    return tuple((k, getattr(v, "__name__", v)) for k, v in sorted(cfg.items()))


def snapshot(d=None):
    """name -> bytes of every file in the activation directory."""
    d = d or TMP
    out = {}
    for p in sorted(d.iterdir()):
        out[p.name] = p.read_bytes() if p.is_file() else "<dir>"
    return out
