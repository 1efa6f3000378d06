#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, sys
sys.path.insert(0, "/verif/tools")
from props import PROPS, NOT_CLAIMED, HOLD
ids = [json.loads(l) for l in open("/verif/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "cd /verif/gcv && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o /dev/null . && cd /repo && GOFLAGS=-mod=mod GOPROXY=off go build ./...",
     "checks": [], "not_applicable": [],
     "notes": "Contract-based deductive verification: contracts in /verif/contracts, VC generator for Go SSA in /verif/gcv, SMT back ends z3 and cvc5. Bounded replay harnesses in /verif/replay look for a concrete failing input and check assumed dependency contracts; they are never counted as proved."}
for p in ids:
    c = PROPS.get(p["id"])
    if c is None or p["id"] in HOLD:
        m["not_applicable"].append({"property": p["id"], "reason": NOT_CLAIMED[p["id"]]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p['id']}",
        "technique": c.get("technique", "contract-based deductive verification of the Go SSA (function contracts, loop invariants, ghost state), SMT-discharged"),
        "level": "proof", "level_note": c["note"]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
