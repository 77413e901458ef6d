"""Generates /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo"]
PY = "/opt/venv/bin/python"
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "level_notes.py")).read())
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
        tech, note = NOTES.get(pid, ("runtime monitoring: randomised workloads with an independent oracle", ""))
        checks.append({"property": pid, "quick_cmd": f"{PY} check.py {pid}", "thorough_cmd": f"{PY} check.py {pid} --tier thorough",
                       "evidence_file": f"evidence/{pid}.json", "technique": tech, "level": "exploration",
                       "level_note": note or "No violation on the executions that were generated and observed; nothing is claimed about others."})
    else:
        na.append({"property": pid, "reason": "no check built yet"})
json.dump({"version": 1,
           "setup_cmd": f"{PY} -c \"import sys; sys.dont_write_bytecode=True; sys.path[:0]=['/verif','/repo']; import simcats, vmon.core\"",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: all monitors observe through the public interfaces. All checks import the working "
                    "tree of /repo directly (pure Python, nothing to build). check.py is the only entry point; "
                    "exit 2 = inconclusive."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
