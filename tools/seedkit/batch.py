"""batch.py <file>: makes the directories under /verif/seeded for the planted bugs defined in a Python file
(SEEDS: list of dicts id, property, edits [(file, old, new)], needs, breaks, main)."""
import json, os, subprocess, sys, runpy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/tmp/seedwork/repo"
V = "/verif/seeded"


def sh(c):
    return subprocess.run(c, cwd=REPO, shell=True, stdout=subprocess.PIPE, text=True, check=True).stdout


if not os.path.isdir(REPO):
    os.makedirs("/tmp/seedwork", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", REPO])
sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq -e target")
base = sh("git rev-list --max-parents=0 HEAD").strip()
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    orig_ok = True
    for f, old, new in s["edits"]:
        p = os.path.join(REPO, f)
        t = open(p).read()
        if t.count(old) != 1:
            sys.exit("%s: %d times in %s: %r" % (s["id"], t.count(old), f, old))
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(V, s["id"])
    os.makedirs(d, exist_ok=True)
    diff = sh("git diff")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    # does it change lines of the original repository?
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    orig = "".join(sh("git show %s:%s" % (base, f)) for f, _, _ in s["edits"])
    orig_lines = set(orig.splitlines())
    n = sum(1 for l in removed if l in orig_lines and l.strip())
    print("%-36s %d lines removed, %d of them original" % (s["id"], len(removed), n))
    sh("git checkout -q -- .")
    open(os.path.join(d, "main.rs"), "w").write(s["main"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
