#!/opt/venv/bin/python
"""Developer tool: runs every check for some seeds (quick) and prints the REQUIRED minima that are closer than 1.7x to what was counted."""
import importlib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ["/repo", V]
seeds = [int(x) for x in sys.argv[1].split(",")]
props = sys.argv[2].split(",") if len(sys.argv) > 2 else [f"C{i:02d}" for i in range(1, 34)]
for p in props:
    mod = importlib.import_module("rk.checks." + p.lower())
    lows, walls = {}, []
    for s in seeds:
        r = subprocess.run([sys.executable, V + "/run_check.py", p, "--tier", "quick", "--seed", str(s)], capture_output=True, text=True)
        if r.returncode != 0:
            print(p, "seed", s, "exit", r.returncode, r.stdout[-1500:])
        e = json.load(open(f"{V}/evidence/{p}.json"))
        walls.append(e["wall_s"])
        for k in mod.REQUIRED:
            lows[k] = min(lows.get(k, 10**9), e["coverage"]["events"].get(k, 0))
    print(p, "walls", walls, {k: (lows[k], n) for k, n in mod.REQUIRED.items() if lows[k] < 1.7 * n}, flush=True)
