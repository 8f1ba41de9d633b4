#!/opt/venv/bin/python
"""Developer tool (no check uses it): builds and verifies the planted bugs defined in tools/bugs.py.

plant.py make [ID...]      writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) and verifies: applies, touches only
                           lines of the original repository, builds, stable tests pass, demo passes without / fails with it
plant.py check [ID...] [--all] [--jobs J]    runs the check of the bug's property (--all: every check) with the bug in place
Everything happens in private mount namespaces on copies; /repo itself is not touched.
"""
import json, os, re, shutil, subprocess, sys, threading, queue, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS

BASE = "a0d9749"
VERIF = os.environ.get("VERIF_SRC", "/verif")
SEEDED = VERIF + "/seeded"
ALL = [f"C{i:02d}" for i in range(1, 34)]
DEMO_SH = '''#!/bin/bash
# run with cwd /repo: exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/tmp"
export TMPDIR="$W/tmp" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONWARNINGS=ignore
timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def ns(d, cmd, verif=None):
    m = f"mount --bind {d}/repo /repo && " + (f"mount --bind {verif} /verif && " if verif else "")
    return subprocess.run(["unshare", "-Urm", "bash", "-c", m + cmd], capture_output=True, text=True)


def edit(b, d):
    for f, old, new in b["edits"]:
        p = f"{d}/repo/{f}"
        s = open(p).read()
        n = s.count(old)
        if n != b.get("count", 1):
            return f"{f}: {n} occurrences of {old!r}"
        open(p, "w").write(s.replace(old, new))


def make(b):
    d = tempfile.mkdtemp(dir="/tmp/w")
    try:
        sh(f"cp -a /repo {d}/repo", check=True)
        r = edit(b, d)
        if r:
            return r
        diff = sh(f"git -C {d}/repo diff").stdout
        # every removed line must be an original one
        f = None
        own = {}
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
                bl = sh(f"git -C /repo blame -s {BASE}..HEAD -- {f}").stdout.splitlines()
                own[f] = {i + 1 for i, x in enumerate(bl) if not x.startswith("^")}
            m = re.match(r"@@ -(\d+)", l)
            if m:
                n = int(m[1])
            elif f and l.startswith("-") and not l.startswith("---"):
                if n in own[f] and not b["probe"]:
                    return f"changes line {n} of {f}, which a fix commit added: {l}"
                n += 1
            elif l.startswith(" "):
                n += 1
        out = f"{d}/out" if b["probe"] else f"{SEEDED}/{b['id']}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
        shutil.copytree(out, d + "/demo")
        r = subprocess.run(["bash", d + "/demo/demo.sh"], cwd="/repo", capture_output=True, text=True)
        if r.returncode:
            return "demo fails on the unchanged tree: " + r.stdout[-500:] + r.stderr[-800:]
        r = ns(d, "bash /opt/vp/build.sh")
        if r.returncode:
            return "build: " + r.stderr[-500:]
        r = ns(d, f"bash /opt/vp/test.sh {d}/out.json")
        o = json.load(open(d + "/out.json"))
        lost = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o.get("passed") or o.get("pass") or [])
        if lost:
            return f"tests fail: {sorted(lost)[:3]}"
        r = ns(d, f"cd /repo && bash {d}/demo/demo.sh")
        if r.returncode == 0:
            return "demo passes with the bug"
        return "ok (demo: " + (r.stderr.strip().splitlines() or r.stdout.strip().splitlines() or ["?"])[-1][:150] + ")"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(b, every):
    d = tempfile.mkdtemp(dir="/tmp/w")
    try:
        sh(f"cp -a /repo {d}/repo && cp -a {VERIF} {d}/verif", check=True)
        r = edit(b, d)
        if r:
            return r
        res = {}
        for c in (ALL if every else [b["property"]]):
            r = ns(d, f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python run_check.py {c} --tier quick --workers 3", verif=d + "/verif")
            res[c] = {0: "quiet", 1: "CAUGHT"}.get(r.returncode, f"exit {r.returncode} {r.stdout[-300:]} {r.stderr[-300:]}")
            if r.returncode == 1 and f"VIOLATION property={c}" not in r.stdout:
                res[c] = "no VIOLATION line"
            if r.returncode == 1:
                res[c] += " " + " ".join(l.strip()[:140] for l in r.stdout.splitlines() if "violated:" in l)[:300]
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    ids = [a for a in sys.argv[2:] if not a.startswith("--") and not a.isdigit()]
    jobs = int(sys.argv[sys.argv.index("--jobs") + 1]) if "--jobs" in sys.argv else 4
    bugs = [b for b in BUGS if not ids or b["id"] in ids]
    q = queue.Queue()
    [q.put(b) for b in bugs]
    lock = threading.Lock()

    def work():
        while True:
            try:
                b = q.get_nowait()
            except queue.Empty:
                return
            r = make(b) if cmd == "make" else check(b, "--all" in sys.argv)
            if cmd == "make" and not r.startswith("ok"):
                shutil.rmtree(f"{SEEDED}/{b['id']}", ignore_errors=True)
            with lock:
                if isinstance(r, dict):
                    caught = [c for c in r if r[c].startswith("CAUGHT")]
                    odd = {c: v for c, v in r.items() if not v.startswith(("CAUGHT", "quiet"))}
                    print(b["id"], b["property"], "CAUGHT" if b["property"] in caught else "MISSED", "by", caught, odd or "", r.get(b["property"], "")[:200], flush=True)
                else:
                    print(b["id"], b["property"], r, flush=True)
    ts = [threading.Thread(target=work) for _ in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
