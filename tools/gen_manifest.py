#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
       "notes": "No hooks are needed: the harnesses use the public API, functions declared in the library's headers, and "
                "interposition of system calls.  See DESIGN.md and known-findings.txt."}
for p in props:
    pid = p["id"]
    if pid in checks.CHECKS:
        fn, level, ass = checks.CHECKS[pid]
        out["checks"].append({"property": pid, "quick_cmd": "python3 check.py %s" % pid,
                              "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
                              "evidence_file": "evidence/%s.json" % pid,
                              "technique": checks.TECHNIQUE.get(pid, "property-based testing with shrinking against a reference model"),
                              "level": level, "level_note": " ".join(ass)})
    else:
        out["not_applicable"].append({"property": pid, "reason": "check not built yet"})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
