#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks (harness list) and properties.jsonl."""
import json, os, subprocess, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
exe = os.path.join(root, "target/release/harness")
impl = subprocess.run([exe, "list"], capture_output=True, text=True).stdout.split()
NOTE = json.load(open(os.path.join(root, "tools/notes.json")))
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in impl:
        n = NOTE.get(i, {})
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": n.get("technique", "property-based testing: generated systems run through the real code against an independent oracle, with shrinking (proptest)"),
            "level": n.get("level", "exploration"), "level_note": n.get("note", "random search: absence of a violation is evidence over the generated cases only")})
    else:
        na.append({"property": i, "reason": "no check yet in this revision"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
