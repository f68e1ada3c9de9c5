#!/usr/bin/env python3
"""regenerate MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib.util
spec = importlib.util.spec_from_file_location("manifest_data", os.path.join(V, "tools", "manifest_data.py"))
d = importlib.util.module_from_spec(spec); spec.loader.exec_module(d)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in d.CLAIMS:
        t, note = d.CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "python3-vt tools/check.py %s" % p, "thorough_cmd": "python3-vt tools/check.py %s --thorough" % p,
                       "technique": t, "level": "other", "level_note": note})
na = [{"property": p, "reason": d.NA.get(p, "not claimed yet: the deciding analysis is not finished")} for p in props if p not in d.CLAIMS]
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import scipy, numpy'", "checks": checks, "not_applicable": na, "notes": d.NOTES}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
