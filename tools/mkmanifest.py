"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import registry  # noqa: E402

checks, missing = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in registry.CHECKS:
        c = registry.CHECKS[p]
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p}",
                       "technique": c.technique, "level": c.level, "level_note": c.note})
    else:
        missing.append({"property": p, "reason": "The check is still being built."})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": missing}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    print("not validated (use python3-vt)")
