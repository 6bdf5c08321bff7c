#!/usr/bin/env python3
"""replay.py <file>: runs the scenario of a reported violation again and says whether it is still rejected."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, parts

r = json.load(open(sys.argv[1]))
print(r["what"])
if "scenario" in r:
    exe = vlib.build(r["features"])
    wd = vlib.workdir("replay")
    rec = vlib.run_driver(exe, r["mode"], [r["scenario"]], wd)
    tr = parts.TO_TRACES[r["module"]]([r["scenario"]], rec)
    rej, _, _ = vlib.tlc_traces(r["module"], tr, wd)
    if rej:
        print("rejected again: " + parts.describe(tr[0], rej[0]))
        for line in parts.pretty(tr[0], rej[0]):
            print("  " + line)
        sys.exit(1)
    print("accepted this time")
