#!/opt/venv/bin/python
"""Developer tool (no check uses it): mutation campaign.

mutate.py list                      number of mutants per file
mutate.py run OUT.jsonl N SEED [FILE...] [--jobs J]   samples N mutants, keeps those that pass the stable tests, runs the checks until one reports
     with MUT_GUARD=1: mutants the stable tests do notice, made rare by a guard (on sizes, NaN, repeated calls, ...) so that they no longer do; MUT_GUARD=2: rarer guards
MUT_MATCH (regular expression on the description) and MUT_FIRST (checks to run) narrow a campaign; MUT_ALL runs all other checks after the first ones.
Each mutant lives in a private mount namespace (copy of /repo and of /verif bound over the real ones), so /repo itself is never touched.
"""
import ast, copy, json, os, random, re, shutil, subprocess, sys, threading, queue

REPO = "/repo"
FILES = ["ruleskit/activation.py", "ruleskit/condition.py", "ruleskit/rule.py", "ruleskit/ruleset.py", "ruleskit/thresholds.py",
         "ruleskit/utils/rfunctions.py", "ruleskit/utils/rule_utils.py"]
ORDER = {
    "activation": "C01 C02 C03 C04 C05 C06 C27 C25 C15 C24 C10 C12", "condition": "C07 C09 C08 C24 C22 C23 C10",
    "rule": "C10 C11 C12 C24 C19 C20 C13 C08 C22 C27 C28 C29 C25", "ruleset": "C15 C14 C26 C16 C17 C22 C21 C20 C18 C27 C28 C29 C25 C06", "thresholds": "C19 C20",
    "rfunctions": "C10 C11 C13 C14 C26 C16 C17 C12", "rule_utils": "C23"}
ALL = [f"C{i:02d}" for i in range(1, 34)]

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.BitXor: ast.BitOr,
       ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult, ast.Pow: ast.Mult}
UNWRAP = {"abs", "list", "sorted", "set", "int", "float", "copy", "deepcopy", "str", "tuple", "max", "min"}
UNWRAP_M = {"copy", "astype", "squeeze", "fillna", "dropna", "reset_index", "replace", "tolist"}


def muts(node):
    """[(description, replacement)]"""
    out = []
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        o = type(node.ops[0])
        if o in CMP:
            n = copy.deepcopy(node); n.ops = [CMP[o]()]; out.append(("cmp", n))
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node); n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And(); out.append(("boolop", n))
        for i in range(len(node.values)):
            v = [copy.deepcopy(x) for j, x in enumerate(node.values) if j != i]
            out.append((f"drop operand {i}", v[0] if len(v) == 1 else ast.BoolOp(op=node.op, values=v)))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        out.append(("not", copy.deepcopy(node.operand)))
    if isinstance(node, ast.BinOp) and type(node.op) in BIN and not (isinstance(node.left, (ast.JoinedStr,)) or isinstance(node.right, ast.JoinedStr)):
        n = copy.deepcopy(node); n.op = BIN[type(node.op)](); out.append(("binop", n))
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            out.append(("bool", ast.Constant(not node.value)))
        elif isinstance(node.value, (int, float)):
            out.append(("+1", ast.Constant(node.value + 1)))
            if node.value not in (0, 1):
                out.append(("0", ast.Constant(0)))
    if isinstance(node, ast.IfExp):
        out.append(("ifexp body", copy.deepcopy(node.body))); out.append(("ifexp else", copy.deepcopy(node.orelse)))
    if isinstance(node, ast.If):
        for v in (True, False):
            n = copy.deepcopy(node); n.test = ast.Constant(v); out.append((f"if {v}", n))
    if isinstance(node, ast.Call):
        if isinstance(node.func, ast.Name) and node.func.id in UNWRAP and len(node.args) == 1:
            out.append((f"unwrap {node.func.id}", copy.deepcopy(node.args[0])))
        if isinstance(node.func, ast.Attribute) and node.func.attr in UNWRAP_M:
            out.append((f"unwrap .{node.func.attr}", copy.deepcopy(node.func.value)))
        for i in range(len(node.keywords)):
            n = copy.deepcopy(node); n.keywords.pop(i); out.append((f"drop kw {node.keywords[i].arg}", n))
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Raise)):
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return out
        if isinstance(node, ast.Assign) and all(isinstance(t, ast.Name) for t in node.targets):
            return out
        out.append(("delete statement", ast.Pass()))
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        out.append(("whole slice", copy.deepcopy(node.value)))
    if isinstance(node, ast.Continue):
        out.append(("continue->break", ast.Break()))
    if isinstance(node, ast.Break):
        out.append(("break->continue", ast.Continue()))
    return out


SKIP = ("logger", "time(", "_time_", "warnings", "show", "print(")


def mutants(f):
    src = open(os.path.join(REPO, f)).read()
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    bad = set()
    for n in nodes:
        if isinstance(n, ast.Raise):
            bad |= {id(x) for x in ast.walk(n) if x is not n}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith("logger"):
            bad |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.Assign, ast.AugAssign)) and any(s in ast.unparse(n) for s in ("time()", "_time_", "_n_", "_sizeof")):
            bad |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.FunctionDef) and (n.name.startswith(("time_", "n_", "sizeof_", "_calc_sizeof"))):
            bad |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.arguments, ast.JoinedStr, ast.arg)):
            bad |= {id(x) for x in ast.walk(n)} if not isinstance(n, ast.arguments) else {id(x) for a in n.args for x in ast.walk(a)}
    out = []
    for k, n in enumerate(nodes):
        if id(n) in bad or not hasattr(n, "lineno"):
            continue
        for j, (d, new) in enumerate(muts(n)):
            out.append((f, k, j, f"{f}:{n.lineno} {d}: {ast.unparse(n)[:90]!r} -> {ast.unparse(new)[:90]!r}"))
    return out


GUARDS = {
    "big": "any(hasattr(v, '__len__') and not isinstance(v, (str, dict, type)) and _n(v) > 90 for v in loc.values())",
    "rules": "any(type(v).__name__ in ('list', 'RuleSet') and _n(v) > 6 for v in loc.values())",
    "nan": "any(_nan(v) for v in loc.values())",
    "nth": "next(_mc) % 13 == 0",
    "again": "_again(loc)",
    "text": "any(isinstance(v, str) and len(v) > 30 or getattr(v, 'dtype', None) == object for v in loc.values())",
    "frame": "any(type(v).__name__ in ('DataFrame', 'Series') for v in loc.values())",
}
GUARDS2 = {
    "huge": "any(not isinstance(v, (str, dict, type)) and _n(v) > 1500 for v in loc.values())",
    "one": "any(hasattr(v, 'shape') and _n(v) == 1 or type(v).__name__ == 'Activation' and _n(v) == 1 for v in loc.values())",
    "mult8": "any(hasattr(v, 'shape') and _n(v) and _n(v) % 8 == 0 for v in loc.values())",
    "int": "any(_kind(v) in 'iu' and str(v.dtype) != 'uint8' for v in loc.values())",
    "bool": "any(_kind(v) == 'b' for v in loc.values())",
    "inf": "any(_f(lambda: bool(_np.isinf(v).any())) for v in loc.values() if _kind(v) == 'f')",
    "const": "any(_f(lambda: _n(v) > 5 and bool((_np.asarray(v) == _np.asarray(v).flat[0]).all())) for v in loc.values() if hasattr(v, 'shape'))",
    "rising": "any(_f(lambda: _n(v) > 15 and v.ndim == 1 and bool((_np.diff(_np.asarray(v)) > 0).all())) for v in loc.values() if _kind(v) in 'if')",
    "index": "any(_f(lambda: type(v.index).__name__ != 'RangeIndex') for v in loc.values() if type(v).__name__ in ('Series', 'DataFrame'))",
    "dupindex": "any(_f(lambda: not v.index.is_unique) for v in loc.values() if type(v).__name__ in ('Series', 'DataFrame'))",
    "multi": "any(_f(lambda: type(v.index).__name__ == 'MultiIndex') for v in loc.values() if type(v).__name__ in ('Series', 'DataFrame'))",
    "many": "any(type(v).__name__ in ('list', 'RuleSet') and _n(v) > 17 for v in loc.values())",
    "features": "any(type(v).__name__.endswith(('Rule', 'Condition')) and _f(lambda: len(v) > 4) for v in loc.values())",
    "impossible": "any(_f(lambda: v.condition.impossible if hasattr(v, 'condition') else v.impossible) for v in loc.values() if type(v).__name__.endswith(('Rule', 'Condition')))",
    "names": "any(_f(lambda: any(c in ' ,é' for c in ''.join(v.features_names))) for v in loc.values() if type(v).__name__.endswith(('Rule', 'Condition', 'Set')))",
    "late": "next(_mc) > 300",
    "integer": "any(getattr(v, 'data_format', '') == 'integer' for v in loc.values() if type(v).__name__ == 'Activation')",
    "carray": "any(getattr(v, 'data_format', '') == 'compressed_array' for v in loc.values() if type(v).__name__ == 'Activation')",
    "local": "not __import__('ruleskit').Rule.LOCAL_ACTIVATION",
    "stacked": "__import__('ruleskit').RuleSet.STACKED_FIT",
    "byname": "__import__('ruleskit').HyperrectangleCondition.SORT_ACCORDING_TO == 'name'",
    "negative": "any(isinstance(v, float) and v < 0 or _f(lambda: isinstance(v.prediction, float) and v.prediction < 0) for v in loc.values() if not hasattr(v, 'shape'))",
    "zero": "any(isinstance(v, float) and v == 0 or _f(lambda: isinstance(v.prediction, float) and v.prediction == 0) for v in loc.values() if not hasattr(v, 'shape'))",
    "unseen": "any(_f(lambda: v.prediction != v.prediction) for v in loc.values() if type(v).__name__.endswith('Rule'))",
    "horizon": "any(isinstance(v, dict) and v.get('horizon', 1) > 1 for v in loc.values()) or _f(lambda: loc['horizon'] > 1)",
}
HELPER = '''
import numpy as _np
def _f(fn):
    try:
        return bool(fn())
    except Exception:
        return False
def _kind(v):
    k = getattr(getattr(v, "dtype", None), "kind", "-")
    return k if hasattr(v, "shape") and _n(v) else "-"
import itertools as _it
_mc = _it.count(1)
_seen = {}
def _n(v):
    try:
        return len(v)
    except Exception:
        return 0
def _nan(v):
    try:
        return type(v).__name__ in ("ndarray", "Series", "DataFrame", "float") and bool((v != v).any() if hasattr(v, "any") else v != v)
    except Exception:
        return False
def _again(loc):
    s = loc.get("self")
    if s is None:
        return next(_mc) % 5 == 0
    _seen[id(s)] = _seen.get(id(s), 0) + 1
    return _seen[id(s)] > 3
def _mg(loc):
    r = bool(%s)
    if r and not _seen.get("fired"):
        _seen["fired"] = 1
        try:
            open("/verif/evidence/fired", "a").write("x")
        except Exception:
            pass
    return r
'''


def source_of(f, k, j, guard=None):
    tree = ast.parse(open(os.path.join(REPO, f)).read())
    nodes = list(ast.walk(tree))
    target = nodes[k]
    new = muts(target)[j][1]
    if guard:
        test = ast.parse("_mg(dict(locals()))", mode="eval").body
        if isinstance(target, ast.stmt):
            new = ast.If(test=test, body=[new], orelse=[copy.deepcopy(target)])
        else:
            new = ast.IfExp(test=test, body=new, orelse=copy.deepcopy(target))
    for p in nodes:
        for name, v in ast.iter_fields(p):
            if v is target:
                setattr(p, name, new)
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if x is target:
                        v[i] = new
    s = ast.unparse(ast.fix_missing_locations(tree))
    return s if not guard else s.rstrip() + "\n" + HELPER.replace("%s", {**GUARDS, **GUARDS2}[guard])


def tests_pass(f, s):
    open(os.path.join(REPO, f), "w").write(s)
    if subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True).returncode:
        return None
    out = f"/tmp/w/mut/o{os.getpid()}.json"
    try:
        subprocess.run(["bash", "/opt/vp/test.sh", out], capture_output=True, timeout=120)
        o = json.load(open(out))
    except Exception:
        return False
    finally:
        if os.path.exists(out):
            os.unlink(out)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return not stable - set(o.get("passed") or o.get("pass") or [])


def one(f, k, j, tier):
    """Inside the namespace."""
    k, j = int(k), int(j)
    guard = None
    plain, rare = source_of(f, k, j), None
    if os.environ.get("MUT_GUARD"):
        if os.environ["MUT_GUARD"] == "2":
            guard = random.Random(f"2{f}{k}{j}").choice(sorted(GUARDS2))
        elif os.environ["MUT_GUARD"] in {**GUARDS, **GUARDS2}:
            guard = os.environ["MUT_GUARD"]
        else:
            guard = random.Random(f"{f}{k}{j}").choice(sorted(GUARDS))
        rare = source_of(f, k, j, guard)
        if tests_pass(f, plain) is not False:
            return dict(result="not noticed unguarded", guard=guard)
    r = tests_pass(f, rare or plain)
    if not r:
        return dict(result="no build" if r is None else "tests", guard=guard)
    mark = "/verif/evidence/fired"
    if os.path.exists(mark):
        os.unlink(mark)
    base = os.path.basename(f)[:-3]
    first = os.environ.get("MUT_FIRST", ORDER[base]).split()
    odd = []
    for c in first + ([c for c in ALL if c not in first] if os.environ.get("MUT_ALL") else []):
        try:
            r = subprocess.run(["/opt/venv/bin/python", "run_check.py", c, "--tier", "quick", "--workers", "1"], cwd="/verif", capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            odd.append(c + " timeout")
            continue
        if r.returncode == 1:
            what = [l.strip() for l in r.stdout.splitlines() if "violated:" in l][:1]
            return dict(result="caught", by=c, what=what, odd=odd, guard=guard)
        if r.returncode != 0:
            odd.append(f"{c}: {r.stdout[-300:]} {r.stderr[-300:]}")
    return dict(result="SURVIVED" if not guard or os.path.exists(mark) else "never fired", odd=odd, guard=guard)


def main():
    if sys.argv[1] == "list":
        for f in FILES:
            print(f, len(mutants(f)))
        return
    if sys.argv[1] == "one":
        print("RESULT " + json.dumps(one(*sys.argv[2:5], "quick")))
        return
    out, n, seed = sys.argv[2], int(sys.argv[3]), sys.argv[4]
    files = [a for a in sys.argv[5:] if a.endswith(".py")] or FILES
    jobs = int(sys.argv[sys.argv.index("--jobs") + 1]) if "--jobs" in sys.argv else 4
    pool = [m for f in files for m in mutants(f) if re.search(os.environ.get("MUT_MATCH", ""), m[3])]
    done = {json.loads(l)["desc"] for l in open(out)} if os.path.exists(out) else set()
    random.Random(seed).shuffle(pool)
    q = queue.Queue()
    for m in pool[:n]:
        if m[3] not in done:
            q.put(m)
    lock = threading.Lock()

    def work(w):
        d = f"/tmp/w/mut/{os.getpid()}_{w}"
        while True:
            try:
                f, k, j, desc = q.get_nowait()
            except queue.Empty:
                return
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
            subprocess.run(["cp", "-a", os.environ.get("VERIF_SRC", "/verif"), d + "/verif"], check=True)
            cmd = f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && exec /opt/venv/bin/python /verif/tools/mutate.py one {f} {k} {j}"
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], capture_output=True, text=True)
            res = [l for l in r.stdout.splitlines() if l.startswith("RESULT ")]
            rec = json.loads(res[0][7:]) if res else dict(result="error", err=r.stderr[-800:])
            rec.update(desc=desc, file=f, k=k, j=j)
            with lock, open(out, "a") as fo:
                fo.write(json.dumps(rec) + "\n")
            shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
