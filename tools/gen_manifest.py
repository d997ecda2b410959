#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "bin"))
import specs
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="true",
    checks=[
        dict(
            property=i,
            quick_cmd=f"bin/check {i} quick",
            thorough_cmd=f"bin/check {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=specs.SPECS[i]["technique"],
            level=specs.SPECS[i]["level"],
            level_note=specs.SPECS[i]["note"],
        )
        for i in ids
        if i in specs.SPECS
    ],
    not_applicable=[dict(property=i, reason="check not finished yet") for i in ids if i not in specs.SPECS],
    notes="All checks are black-box over the public API; no hooks are compiled into /repo. See DESIGN.md.",
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
