#!/usr/bin/env python3
"""Writes MANIFEST.json (developer tool; the result is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("reference-model monitor over constructor/view round trips under random flags", "views of activations built in every accepted form are compared with the plain vector"),
 "C02": ("reference-model monitor over operator expressions, mixed storage", "operator results compared with pointwise results on plain lists"),
 "C03": ("reference-model monitor over interleaved statistic reads", "statistics compared with those of the plain vector, in any read order"),
 "C04": ("state-invariance monitor: snapshots of object, settings and directory around every read", "settings, directory contents and all views compared before and after each read"),
 "C05": ("directory and liveness monitor over create/copy/clear/delete histories with injected name collisions and racing processes", "file ownership, contents and survivors checked after each step; collisions are injected by re-seeding, by stubbing the random name source and by racing processes"),
 "C06": ("fault injection (reported and real memory shortage) with a reference-model monitor", "psutil's report is replaced and MemoryError is injected at numbered allocation points; the outcome must be the reference vector or MemoryError"),
 "C07": ("reference-model monitor over generated boxes, tables and containers", "evaluation compared row by row with a pure-Python box"),
 "C08": ("algebraic monitor (intersection, commutativity, associativity, idempotence) against a box model", "AND compared with box intersection and on rows"),
 "C09": ("model-based history monitor over setters, sorting and equality", "a list-of-tuples model is updated alongside and compared after each operation"),
 "C10": ("reference-model monitor of fit, refit and stored-activation fit", "attributes compared with fsum-based reference statistics"),
 "C11": ("reference-model monitor of classification fit", "prediction compared with a counting reference"),
 "C12": ("reference-model and invariance monitor of predict / eval histories", "per-row predictions and criterion compared with the reference, everything else compared with its value before"),
 "C13": ("reference-model monitor of the criteria functions, single and stacked", "values compared with the written definitions in pure Python"),
 "C14": ("differential monitor: twin executions, stacked and rule by rule", "everything public of two rule sets compared after each step of the same history"),
 "C15": ("invariant monitor over rule-set histories against a box/rows model", "activation, coverage, features and table recomputed from the model after each operation, for every live set"),
 "C16": ("reference-model monitor of rule-set regression prediction", "weighted mean of the active rules recomputed with fsum"),
 "C17": ("reference-model monitor of rule-set classification votes", "unique winner recomputed with exact (dyadic) weights"),
 "C18": ("state-invariance monitor over predict/evaluate/eval, plus repeat and container equivalence", "deep pictures of the set and of the caller's data before and after"),
 "C19": ("reference-model monitor of threshold files and checks", "accept/reject recomputed from the limits at, below and above each limit"),
 "C20": ("conservation monitor: kept + excluded = given, each exactly once", "kept and excluded rules recomputed from the reference statistics and the limits"),
 "C21": ("round-trip monitor of save / load / save / load", "all saved values, types and later predictions compared with the original"),
 "C22": ("model-based history monitor against a plain list of rule identities", "list model updated alongside and compared after each operation"),
 "C23": ("differential monitor against sklearn's own routing of points", "extracted boxes compared with decision_path / apply / predict of the fitted tree"),
 "C24": ("model-based monitor of attribute reads and writes, pairwise reference for containment and correlation", "model of the condition and vector compared after every read and write"),
 "C25": ("differential monitor: the same history executed under several configurations", "recorded results of all executions compared step by step; settings compared around every step"),
 "C26": ("reference-model monitor of evaluation histories", "criteria, sizes and predictions recomputed from the rows, targets and weights after each fit, eval and direct calculation"),
 "C27": ("directory, availability and value monitor over deletion and recomputation histories", "availability, files, values and predictions of every rule and of the set compared with a model after each step"),
 "C28": ("differential monitor: rule types derived on the fly next to twins of the base type", "own attributes compared with their definitions, all others with those of the twins of the base type"),
 "C29": ("fault injection with differential monitor: failed calls on one of two twin sets", "rules, order, settings and tables compared before and after each failure; after repeating the call, everything compared with a twin where nothing failed"),
 "C30": ("refusal monitor: malformed requests with state snapshots around each", "the documented error must be raised and objects, settings and files compared before and after"),
 "C31": ("seeded thread scheduler (turn passed at library lines or bytecodes) with a sequential reference monitor", "the result of every step in every thread compared with the sequential reference; settings, shared objects and files compared before and after"),
 "C32": ("counter and profile monitor against a model of the conversions", "counters compared after every read with the conversions needed from that storage, durations with counters and clock, sizes with the real representations"),
 "C33": ("reference-model monitor of the statistics functions, single and one column per rule", "values compared with the written definitions in pure Python, inputs before and after"),
}
checks = []
for p, (tech, note) in T.items():
    checks.append(dict(property=p, quick_cmd=f"/opt/venv/bin/python run_check.py {p} --tier quick", thorough_cmd=f"/opt/venv/bin/python run_check.py {p} --tier thorough",
                       technique="runtime monitoring: " + tech, level="exploration",
                       level_note=note[0].upper() + note[1:] + ". Seeded workloads on the real code imported from /repo; what is not generated is not judged. Trusts the "
                       "reference model in rk/, numpy, pandas" + (" and scikit-learn" if p == "C23" else "") + "."))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, pandas, bitarray, sklearn'", checks=checks, not_applicable=[],
         notes="No hooks in /repo: all monitors observe the public API, the files on disk and injected stand-ins. /repo holds only 'fix:' commits (known_findings.jsonl).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
