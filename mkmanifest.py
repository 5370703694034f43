"Writes MANIFEST.json from dst/checkdefs.py and properties.jsonl."
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "dst"))
import checkdefs

PY = "/opt/venv/bin/python"
src = open(os.path.join(ROOT, "dst", "checks.py")).read()
built = re.findall(r'"(C\d\d)":', src)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
PURE = "a pure function of its input: no schedule, clock, fault or interleaving takes part, so deterministic simulation has nothing to decide"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        d = checkdefs.DEFS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"{PY} dst/run.py check {i}",
            "thorough_cmd": f"{PY} dst/run.py check {i} --tier thorough",
            "technique": d["technique"],
            "level": d["level"],
            "level_note": d["note"] + " Seeded sampling of schedules, inputs and faults, not enumeration. Trusts the simulator's seams (pool, locks, VFS, clock), the reference model in dst/ and SQLite itself.",
        })
    else:
        na.append({"property": i, "reason": PURE if i.startswith("N") else "check under construction"})
m = {
    "version": 1,
    "setup_cmd": f"{PY} -c \"import sys; sys.path.insert(0, 'dst'); import vfs; print(vfs.build())\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the simulator replaces the modules hyperreal imports, inside its own process.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
