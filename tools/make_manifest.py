"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
import sys
sys.path.insert(0, HERE)
import techniques
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "pbt", "props", pid.lower() + ".py")):
        checks.append({
            "property": pid, "quick_cmd": f"./check.py {pid}", "thorough_cmd": f"VERIF_TIER=thorough ./check.py {pid}",
            "evidence_file": f"evidence/{pid}.json", "technique": techniques.T[pid][0], "level": "exploration", "level_note": techniques.note(pid),
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \".\"); from pbt import env; env.setup(); import simple_einet, hypothesis; print(\"ready\")'",
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
