#!/usr/bin/env python3
"""catch.py <dir of a planted bug> ... [--all]: runs the check of its property (--all: of every property) on /repo
with the change applied, undoes the change and prints what the check said. Not used by any check."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
git = ["git", "-C", "/repo"]
missed = 0
for d in [a for a in sys.argv[1:] if not a.startswith("-")]:
    meta = json.load(open(os.path.join(d, "meta.json")))
    props = [meta["property"]]
    if "--all" in sys.argv:
        props = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    assert subprocess.run(git + ["status", "--porcelain", "-uno"], capture_output=True, text=True).stdout == "", "/repo is not clean"
    subprocess.check_call(git + ["apply", os.path.join(os.path.abspath(d), "patch.diff")])
    try:
        for p in props:
            t = time.time()
            r = subprocess.run([sys.executable, "tools/check.py", p], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            hit = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
            if not hit:
                missed += 1
            first = [l for l in r.stdout.splitlines() if l.startswith("  ")]
            print("%-34s %s %-7s %5.1f s  %s" % (os.path.basename(d), p, "CAUGHT" if hit else "missed(%d)" % r.returncode, time.time() - t,
                                               (first[0] if first and hit else (r.stdout[-300:] if not hit else ""))[:170]), flush=True)
    finally:
        subprocess.check_call(git + ["checkout", "-q", "--", "."])
sys.exit(1 if missed else 0)
