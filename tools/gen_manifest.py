"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "vm", i.lower() + ".py")):
        n = NOTES[i]
        checks.append(dict(
            property=i,
            quick_cmd=f"./check.sh {i}",
            thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
            evidence_file=f"evidence/{i}.json",
            technique="runtime monitoring: " + n["technique"],
            level="exploration",
            level_note=n["note"],
        ))
    else:
        na.append(dict(property=i, reason="check not written yet"))
json.dump(dict(
    version=1,
    setup_cmd="true",
    checks=checks,
    not_applicable=na,
    notes="Pure Python under test: every check imports /repo's working tree (PYTHONPATH=/repo); "
          "no build step, no hooks in /repo. VERIF_SEED selects the cases, ./check.sh Cxx --replay FILE "
          "reruns a reported case.",
), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
