#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks there are."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props

SPEC = {"CallTrace": "calls between the real client and server", "ServerTrace": "raw connections to a real server",
        "PoolTrace": "real clients and pools against scripted peers", "HelperTrace": "the field helpers"}
USES = {}
src = open(os.path.join(V, "lib", "props.py")).read()
for part in src.split("\ndef ")[1:]:
    USES[part[:3]] = [m for m in SPEC if f'"{m}"' in part]

checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not hasattr(props, i):
        na.append({"property": i, "reason": "the check is under construction"})
        continue
    mods = " and ".join(f"{m}.tla ({SPEC[m]})" for m in USES[i])
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "TLA+ specification checked by TLC; its histories and generated ones are replayed into the real code, whose traces must be behaviours of it",
        "level": "model_checking",
        "level_note": f"Every trace of the real code, driven through its public API over loopback sockets by generated and "
                      f"enumerated scenarios, must be a behaviour of {mods}, which state what the property allows. "
                      f"Bounded: the scenarios of the run; it trusts TLC, the harness's recording and the kernel's sockets.",
    })
json.dump({"version": 1,
           "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'lib'); import core; core.build()\"",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks: the harness uses the public API only. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
