#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harness sources and tools/bounds.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C
V = C.P.VERIF
src = C.harness_sources()
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if any(h.startswith("h_%s_" % i.lower()) for h in src):
        b = C.BOUNDS.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the LLVM IR of the current tree, every branch and assertion decided by Z3, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": b.get("note") or ("Bounded: holds for every value of the free bytes and every choice within the listed bounds. " + b.get("quick", "")).strip(),
        })
    else:
        na.append({"property": i, "reason": "no harness yet"})
json.dump({"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
