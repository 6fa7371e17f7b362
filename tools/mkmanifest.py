"""Write MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, sys, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
p = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(p): NA = json.load(open(p))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(line); pid = d["id"]
    f = os.path.join(V, "checks", pid.lower() + ".py")
    if os.path.exists(f) and pid not in NA:
        c = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "TECHNIQUE", "NOTE", "ASSUMPTIONS"):
                c[n.targets[0].id] = ast.literal_eval(n.value)
        note = c.get("NOTE", "Held on every execution observed; nothing is claimed about inputs not generated. The reference model in the check is trusted.")
        if c.get("ASSUMPTIONS"): note += " Assumes: " + "; ".join(c["ASSUMPTIONS"]) + "."
        checks.append({"property": pid, "quick_cmd": "/opt/venv/bin/python run.py %s quick" % pid,
                       "thorough_cmd": "/opt/venv/bin/python run.py %s thorough" % pid, "evidence_file": "evidence/%s.json" % pid,
                       "technique": c.get("TECHNIQUE", "runtime monitoring: online oracle over real executions of generated workloads"),
                       "level": c.get("LEVEL", "exploration"), "level_note": note})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "not built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy, PIL\"", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every monitor observes through the public API, the written files or wrappers installed by the harness at run time."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
