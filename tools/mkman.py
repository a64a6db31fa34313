#!/usr/bin/env python3
"""Regenerates MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
notes = getattr(props, "NOTES", {})
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in props.PROPS:
        tech, note = notes.get(p, (None, None))
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": tech or "TLA+ specification enumerated by TLC; every enumerated behaviour replayed into the real library",
                       "level": "model_checking",
                       "level_note": note or "Exhaustive within the stated bounds on the specification; the code is bound by replaying every maximal behaviour. Trusts TLC, the compiler and the replay driver."})
    else:
        na.append({"property": p, "reason": getattr(props, "NA", {}).get(p, "check not built yet (in progress)")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
