#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks (`ddrt list`) and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = subprocess.run([V + "/target/debug/ddrt", "list"], capture_output=True, text=True).stdout.split()
NOTES = json.load(open(V + "/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in NOTES:
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh run {i} quick", "thorough_cmd": f"./check.sh run {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": n["technique"], "level": n.get("level", "exploration"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "One Rust harness (harness/, binary ddrt) runs the real crate: planner, coordinator, workers and gRPC transport. No hooks in /repo: everything is observed through public extension points (channel resolver, leaf nodes, codecs, handlers, transports, memory pools)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "without")
