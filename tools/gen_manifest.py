#!/usr/bin/env python3
"""writes MANIFEST.json; CLAIMED lists the properties that have a check"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "stateless model checking of the compiled crates (all schedules up to a preemption bound)"
MCN = ("Every schedule of the listed small programs up to the preemption bound is executed on the real code "
       "(measured, its dependencies and std compiled with TSan instrumentation calling our runtime). Trusts the runtime and "
       "sequential consistency of atomic values; nothing is claimed beyond the bounds in the evidence.")
CLAIMED = {p: (MC, "model_checking", MCN) for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C08"]}
exec(open(os.path.join(V, "tools", "claims_seq.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims_seq.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "tools/setup.sh",
    "checks": [
        {"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
         "technique": CLAIMED[p][0], "level": CLAIMED[p][1], "level_note": CLAIMED[p][2]}
        for p in ids if p in CLAIMED
    ],
    "not_applicable": [{"property": p, "reason": "the check for this property is not built yet"} for p in ids if p not in CLAIMED],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
