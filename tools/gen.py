"""Writes properties.jsonl and MANIFEST.json."""

import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import props
import specs

TECH = ("static analysis: abstract interpretation of the compiled bytecode of the sources in /repo "
        "(path-sensitive dataflow fixpoint with property automata, no code of the repository is run)")
claimed = [p["id"] for p in props.P if p["id"] in specs.SPECS]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps(p) + "\n")
na = {x["property"] for x in props.NA}
missing = [p["id"] for p in props.P if p["id"] not in specs.SPECS and p["id"] not in na]
assert not missing, missing
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); import sa.run, sa.explore, specs\"",
    "checks": [
        {"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
         "technique": getattr(specs.SPECS[i], "technique", None) or TECH, "level": specs.SPECS[i].level,
         "level_note": specs.SPECS[i].explanation}
        for i in claimed
    ],
    "not_applicable": props.NA,
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(claimed), "claimed,", len(props.NA), "not applicable")
