"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json
import pathlib
root = pathlib.Path(__file__).resolve().parent.parent
by = {}
for d in sorted((root / "seeded").iterdir()):
    p = json.loads((d / "meta.json").read_text())["property"]
    by.setdefault(p, []).append(d.name.split("-", 1)[1])
rows = [f"| {p} | {', '.join(by[p])} |" for p in sorted(by)]
out, skip = [], False
for line in (root / "DESIGN.md").read_text().split("\n"):
    if line.startswith("| check | catches |"):
        out += [line, "|---|---|"] + rows
        skip = True
        continue
    if skip and line.startswith("|"):
        continue
    skip = False
    out.append(line)
(root / "DESIGN.md").write_text("\n".join(out))
