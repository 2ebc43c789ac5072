#!/usr/bin/env python3
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for d in props.P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
try:
    import checks
except ImportError:
    sys.exit(0)
ids = [d["id"] for d in props.P]
man = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=[], notes=checks.NOTES)
for i in ids:
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        man["checks"].append(dict(property=i, quick_cmd=c["cmd"] % "quick", thorough_cmd=c["cmd"] % "thorough",
            technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        man["not_applicable"].append(dict(property=i, reason=checks.NA.get(i, "not built yet")))
json.dump(dict(props={i: dict(level=c["level"], assumptions=c["assumptions"], outside=c["outside"], harnesses=c["harnesses"])
    for i, c in checks.CHECKS.items()}), open(os.path.join(root, "harness", "spec.json"), "w"), indent=1)
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
