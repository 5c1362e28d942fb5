"""Writes MANIFEST.json from kmcv/checks/meta.json and properties.jsonl."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(V + "/kmcv/checks/meta.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    m = meta.get(p["id"])
    if not m:
        continue
    cmd = "python3 kmcv/run.py " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough", "technique": m.get("technique", "runtime monitoring: online oracle over observed runs"),
                   "level": "exploration", "level_note": m.get("note", "Every observed execution is judged by an oracle; executions are sampled, so what was not executed is not covered. Trusts the reference geometry in kmcv/geom.py and the compiler.")})
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in meta]
man = {"version": 1, "setup_cmd": "python3 -m kmcv.setup", "checks": checks, "not_applicable": na,
       "notes": "No hooks are needed in /repo: every monitor observes the library through its public interface and its own backend bindings."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
