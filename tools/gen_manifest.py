#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from registry import PROPS
try:
    from registry import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "LIB842_VERIF (reserved; no hook was needed, the checks build the unmodified sources)", "enable": "no define is set: engines compile /repo's sources as they are", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": P["technique"], "level": P["level"],
                            "level_note": P.get("note") or ("Exhaustive within the stated bounds. " + P["rule"] + " Assumes: " + "; ".join(P["assumptions"]))})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
