#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and vlib/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib.specs import SPECS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
TECH = "runtime monitoring of the real code under generated, stressed and fault injected workloads"
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in SPECS:
        s = SPECS[i]
        sans = sorted({r["san"] for r in s["runs"]} - {"plain", "script"})
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": s.get("technique", TECH + (", " + "+".join({"asan": "ASan/UBSan/LSan", "tsan": "TSan"}[x] for x in sans) if sans else "")),
            "level": s["level"],
            "level_note": s.get("note") or "sampled executions: " + s["rule"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
