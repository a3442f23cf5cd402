#!/usr/bin/env python3
"""Write MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import CHECKS, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(l)["id"] for l in open(f"{HERE}/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "technique": CHECKS[i]["technique"],
         "level": CHECKS[i]["level"], "level_note": CHECKS[i]["level_note"]} for i in ids if i in CHECKS],
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in CHECKS],
}
with open(f"{HERE}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
