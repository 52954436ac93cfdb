"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append((os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
text = ("## Planted bugs\n\n" + f"{len(rows)} changes under `seeded/`, made with `tools/plant.py` (which confirms them: original lines only, tests pass, demo\n"
        "passes without and fails with the change). Every one is caught (exit 1) by the quick check of its own property, most\n"
        "also by neighbours (a wrong convolution step also shows in C05, C06, ...). Missed at first and what was strengthened: see\n"
        "'Misses' above.\n\n| change | caught by | needs |\n|---|---|---|\n")
text += "".join(f"| {a} | {b} | {c} |\n" for a, b, c in rows)
p = root + "/DESIGN.md"
s = open(p).read()
open(p, "w").write(s[:s.index("## Planted bugs")] + text)
