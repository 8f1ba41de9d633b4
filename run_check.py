#!/opt/venv/bin/python
"""Entry point of every check:  run_check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Spawns workers (fresh interpreters, each with its own scratch directory), merges what their monitors observed,
writes evidence/<property>.json and decides.
"""
import argparse
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

now = time.time
VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
QUICK_FACTOR = float(os.environ.get("RK_FACTOR", "2.5"))  # the minima of the monitors are those of a factor of 1


def watch_lines(prefix="/repo/ruleskit/"):
    """The set, filled as the run goes, of the (file, line) of the library that were executed."""
    seen = set()
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return seen

    def on_line(code, line):
        if code.co_filename.startswith(prefix):
            seen.add((code.co_filename[len(prefix):], line))
        return mon.DISABLE  # once per place, so that the run is not slowed down
    mon.use_tool_id(mon.COVERAGE_ID, "rk")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return seen


def worker(args):
    sys.path.insert(0, "/repo")
    sys.path.insert(1, VERIF)
    lines = watch_lines()
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")
    if args.prop == "C32":
        from rk import clock
        clock.install()  # before the library is imported
    from rk import core, env
    env.use_scratch(args.scratch)
    import importlib
    mod = importlib.import_module("rk.checks." + args.prop.lower())
    m = core.Monitor(args.prop, args.tier, args.seed, known=load_known(args.prop))
    t0 = now()
    todo = []
    if args.replay:
        r = json.load(open(args.replay))
        m.seed, m.tier = r["seed"], r["tier"]
        todo = [(r["scenario"], r["index"])]
    else:
        plan = []
        for name, (fn, quick, thorough) in mod.SCENARIOS.items():
            n = int(quick * QUICK_FACTOR) if args.tier == "quick" else thorough
            plan += [((i + 0.5) / n, name, i) for i in range(n)]
        plan.sort()  # interleave scenarios evenly, so that a time cap cuts all of them alike
        todo = [(name, i) for k, (_, name, i) in enumerate(plan) if k % args.nworkers == args.worker]
    capped = 0
    for name, i in todo:
        if now() - t0 > args.cap:
            capped += 1
            continue
        m.run_case(name, mod.SCENARIOS[name][0], i)
        if len(m.violations) >= 5:
            break
    with open(args.out, "wb") as f:
        pickle.dump(dict(events=m.events, states=m.states, nontrivial=m.nontrivial_cases, samples=m.samples,
                         violations=m.violations, known_hits=m.known_hits, errors=m.errors, cases=m.cases,
                         skipped=m.skipped, capped=capped, lines=lines, rule=mod.RULE, required=getattr(mod, "REQUIRED", {}),
                         assumptions=getattr(mod, "ASSUMPTIONS", [])), f)


def load_known(prop):
    out = []
    for line in open(os.path.join(VERIF, "known_findings.jsonl")):
        line = line.strip()
        if line:
            k = json.loads(line)
            if k.get("status") == "known" and k["property"] == prop:
                out.append(k)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--cap", type=float, default=0)
    ap.add_argument("--worker", type=int, default=-1)
    ap.add_argument("--nworkers", type=int, default=1)
    ap.add_argument("--scratch")
    ap.add_argument("--out")
    args = ap.parse_args()
    if not args.cap:
        args.cap = 360 if args.tier == "quick" else 800
    if args.worker >= 0:
        return worker(args)
    t0 = time.time()
    nw = 1 if args.replay else (args.workers or 8)
    root = tempfile.mkdtemp(prefix="rk_")
    results, broken = [], []
    try:
        procs = []
        for w in range(nw):
            sc = os.path.join(root, f"w{w}")
            os.makedirs(os.path.join(sc, "tmp"))
            out = os.path.join(root, f"w{w}.pkl")
            envv = dict(os.environ, PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1", TMPDIR=os.path.join(sc, "tmp"),
                        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
            envv.setdefault("PYTHONHASHSEED", str((args.seed + w) % 4294967295))
            if args.replay:
                envv["PYTHONHASHSEED"] = str(json.load(open(args.replay)).get("hashseed", 0))
            else:
                envv["PYTHONHASHSEED"] = str((args.seed + w) % 4294967295)
            cmd = [PY, "-X", "faulthandler", os.path.abspath(__file__), args.prop, "--tier", args.tier, "--seed",
                   str(args.seed), "--worker", str(w), "--nworkers", str(nw), "--scratch", sc, "--out", out, "--cap",
                   str(args.cap)] + (["--replay", args.replay] if args.replay else [])
            err = open(os.path.join(root, f"w{w}.err"), "wb")
            procs.append((subprocess.Popen(cmd, env=envv, cwd=sc, stdout=err, stderr=err), out, err.name,
                          envv["PYTHONHASHSEED"]))
        for p, out, err, hs in procs:
            try:
                rc = p.wait(timeout=args.cap + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                rc = "timeout"
            if rc != 0 or not os.path.exists(out):
                broken.append((rc, open(err, errors="replace").read()[-3000:]))
            else:
                r = pickle.load(open(out, "rb"))
                for v in r["violations"]:
                    v["hashseed"] = hs
                results.append(r)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    events, skipped, known_hits = Counter(), Counter(), Counter()
    states, nontrivial, samples, violations, errors = set(), set(), [], [], []
    lines = set()
    cases = capped = 0
    for r in results:
        events += r["events"]
        skipped += r["skipped"]
        known_hits += r["known_hits"]
        states |= r["states"]
        nontrivial |= r["nontrivial"]
        samples += r["samples"][:2]
        violations += r["violations"]
        errors += r["errors"]
        cases += r["cases"]
        capped += r["capped"]
        lines |= r["lines"]
    if args.replay:
        for v in violations:
            print(json.dumps(v, indent=1))
        if violations:
            print(f"VIOLATION property={args.prop} replay={args.replay}")
            return 1
        for e in errors:
            print(e["error"])
        for rc, e in broken:
            print(rc, e)
        print("replay: not reproduced" if not (errors or broken) else "replay: error")
        return 2 if errors or broken else 0
    known = load_known(args.prop)
    required = results[0]["required"] if results else {}
    missing = {k: [events.get(k, 0), n] for k, n in required.items() if events.get(k, 0) < n}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": args.prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(nontrivial),
            "rule": results[0]["rule"] if results else "",
            "samples": samples[:6],
            "oracle_judgements": events.get("judged", 0),
            "distinct_monitor_states": len(states),
            "events": {k: v for k, v in sorted(events.items())},
            "library_lines_executed": dict(sorted(Counter(f for f, _ in lines).items())),
            "cases_left_early": dict(skipped),
            "cases_not_run_time_cap": capped,
            "known_findings_observed": dict(known_hits),
        },
        "assumptions": results[0]["assumptions"] if results else [],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if os.environ.get("RK_LINES"):
        with open(os.environ["RK_LINES"], "a") as f:
            f.writelines(f"{a}:{b}\n" for a, b in sorted(lines))
    tmp = os.path.join(VERIF, "evidence", f".{args.prop}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{args.prop}.json"))
    for k in known:
        print(f"KNOWN-FINDING: property={args.prop} {k['what_fails']}")
    if violations:
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{args.prop}-{args.tier}-{args.seed}.json")
        with open(path, "w") as f:
            json.dump(violations[0], f, indent=1, default=str)
        for v in violations[:5]:
            print(f"  violated: scenario={v['scenario']} index={v['index']}: {v['what']}")
            for k, x in v["detail"].items():
                print(f"     {k}: {x[:600]}")
        print(f"VIOLATION property={args.prop} replay={path}")
        return 1
    if broken or errors:
        for rc, e in broken:
            print("worker failed:", rc, e)
        for e in errors[:3]:
            print("harness error:", e["case"], e["error"])
        print(f"INCONCLUSIVE property={args.prop}")
        return 2
    if missing:
        print(f"INCONCLUSIVE property={args.prop} monitors not reached often enough: {missing}")
        return 2
    print(f"held property={args.prop} cases={cases} judged={events['judged']} nontrivial={len(nontrivial)}"
          f" states={len(states)} wall={ev['wall_s']}s" + (f" (time cap cut {capped} cases)" if capped else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
