#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
cfg = json.load(open(root + "/props.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    c = cfg.get(i)
    if not c:
        na.append({"property": i, "reason": "no contract for it is discharged yet; see DESIGN.md"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh check " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh check " + i,
        "technique": c.get("technique", "contract-based deductive verification of the Go source (gocv: weakest preconditions to SMT), with a bounded differential replay against the executable specification"),
        "level": c.get("level", "proof"),
        "level_note": c.get("note", "Every obligation generated from the current source of the functions under contract is discharged for all inputs; assumed: the library contracts in contracts/lib.spec, the generator and the solvers. The bounded replay only supplies failing inputs."),
    })
json.dump({
    "version": 1,
    "setup_cmd": "./check.sh version",
    "hooks": {"guard": "none", "enable": "no hooks: specifications and contracts live in /verif and are overlaid", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
}, open(root + "/MANIFEST.json", "w"), indent=1)
