#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED: properties whose functions are all under contract and discharged."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = ["C%02d" % i for i in range(1, 23)]
NOTE = {}
DEFAULT = "Verus discharges every obligation of the functions the property depends on, extracted from /repo's source on every run; std is assumed as listed in the evidence's trusted_base. A seeded search on the real crate against an independent decoder supplies failing inputs and tests the assumed contracts."
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
                           technique="contract-based deductive verification (Verus) of the extracted Rust source", level="proof", level_note=NOTE.get(i, DEFAULT)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not yet under contract: the functions it depends on are being annotated")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, hooks=dict(guard="none", enable="no hooks are needed: the checks read the source and use the public interface", source_commits=[]),
               not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
