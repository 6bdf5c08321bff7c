#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import parts
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = parts.NOTES
checks, na = [], []
for p in props:
    i = p["id"]
    if i in parts.PARTS:
        t, n = notes.get(i, ("", ""))
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s" % i,
            "thorough_cmd": "python3 tools/check.py %s --thorough" % i,
            "technique": t or "TLA+ specification (Bromine.tla) checked with TLC; executions of the real library validated against it (TraceBromine.tla)",
            "level": parts.LEVELS.get(i, "model_checking"),
            "level_note": n or parts.DEFAULT_NOTE})
    else:
        na.append({"property": i, "reason": parts.NOT_YET.get(i, "Check not built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the library is used through its public interface only; the transport below it is an implementation of its transport traits in /verif/harness."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
