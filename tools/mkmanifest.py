#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/worlds.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from worlds import PROPS
import notapplicable
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (seeded search, minimised replay)",
            "level": "exploration",
            "level_note": PROPS[i].get("note", "Seeded search over simulated executions of the real library code; a clean run is evidence, not proof. Trusts the simulator's heap, stream, process-end and scheduler models and the reference model."),
        })
    else:
        na.append({"property": i, "reason": notapplicable.REASONS.get(i, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --help > /dev/null",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unmodified and redirect C library symbols in the resulting objects", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check rebuilds the library and its simulated programs from /repo's working tree (into .build, ignored by git). See DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
