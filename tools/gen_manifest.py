#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/."""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        m = importlib.import_module("checks." + p.lower())
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
            technique=getattr(m, "TECHNIQUE", "runtime monitoring: sanitizer-instrumented execution against an independent oracle"), level="exploration",
            level_note=getattr(m, "NOTE", "seeded exploration of executions; holds on everything observed, no exhaustiveness claimed beyond the enumerated parts named in the evidence")))
    else:
        na.append(dict(property=p, reason="machinery for this property is not built yet"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
