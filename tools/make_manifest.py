#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present in checks/ and the properties listed in properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}
NOTES = {
    "default": "exploration by generated-input search against an explicit oracle; establishes no absence beyond the cases generated",
}
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(HERE, "checks", pid.lower() + ".py")
    if os.path.exists(path):
        tech = "property-based testing"
        for line in open(path):
            if line.startswith("TECHNIQUE ="):
                tech = eval(line.split("=", 1)[1])
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"python3 run_check.py {pid} --tier quick",
                "thorough_cmd": f"python3 run_check.py {pid} --tier thorough",
                "technique": tech,
                "level": "exploration",
                "level_note": NOTES.get(pid, NOTES["default"]),
            }
        )
    else:
        na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "no check has been built yet")})
out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
