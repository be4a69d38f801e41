#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks (mc/checks.py) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
import checks as CK
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Exhaustive within the stated bounds, on the real code built from /repo's working tree; nothing is claimed beyond the bounds. "
        "Trusts the compiler, the harness oracle and (where a solve is involved) the bundled LAPACK/MUMPS. ")
checks = []
for p in props:
    if p not in CK.CHECKS:
        continue
    c = CK.CHECKS[p]
    checks.append({"property": p, "quick_cmd": "python3 mc/run.py %s --tier quick" % p, "thorough_cmd": "python3 mc/run.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "explicit-state model checking of the implementation: " + c.get("technique", "stateless exhaustive enumeration of executions against an independent oracle"),
                   "level": c["level"], "level_note": NOTE + "Bounds: " + c["bounds"] + ("; assumes: " + "; ".join(c["assumptions"]) if c["assumptions"] else "")})
m = {"version": 1, "setup_cmd": "python3 mc/run.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: harnesses use public interfaces, subclassing, interposed libc functions and -fno-access-control", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": p, "reason": "no check built yet"} for p in props if p not in CK.CHECKS],
     "notes": "See DESIGN.md. Genuine defects found are listed in known_findings.json (fixed in /repo by fix: commits, or recorded)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
