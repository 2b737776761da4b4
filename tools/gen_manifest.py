"""Writes MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
exec(open(os.path.join(V, "tools", "levels.py")).read())      # LEVELS, NA
checks = []
for p in props:
    i = p["id"]
    if i in NA or i not in LEVELS:
        continue
    lv, note = LEVELS[i]
    checks.append({"property": i, "quick_cmd": f"python3-vt run.py {i}", "thorough_cmd": f"python3-vt run.py {i}",
                   "technique": "contract-based deductive verification of the real source (weakest-precondition style symbolic execution "
                                "with loop summaries, z3/cvc5), contracts replayed at run time on the real code",
                   "level": lv, "level_note": note})
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3\" && /opt/venv/bin/python -c \"import numpy, pandas, obspy\"",
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] in NA or p["id"] not in LEVELS],
     "notes": "Each check regenerates every obligation from /repo's current source; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
