#!/usr/bin/env python3
"""mkseed.py <dir with patch.diff, main.rs, meta.json> ...: confirms planted bugs in a scratch copy of /repo
(builds, passes the stable tests, the demonstration passes without and fails with the change), then completes
the directories. Nothing else in /verif uses this."""
import json, os, shutil, subprocess, sys
KIT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedkit")
S = "/tmp/seedwork"
REPO = S + "/repo"


def sh(cmd, cwd=REPO, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare():
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(REPO):
        subprocess.check_call(["cp", "-a", "/repo", REPO])
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq")
    for f in ("build.sh", "test.sh", "env.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", REPO)
        open(S + "/" + f, "w").write(t)
    for f in os.listdir("/opt/vp"):
        if not os.path.exists(S + "/" + f) and os.path.isfile("/opt/vp/" + f):
            shutil.copy("/opt/vp/" + f, S + "/" + f)


def demo(d, target):
    e = dict(os.environ, DEMO_TARGET=S + "/" + target)
    return sh("bash %s/demo.sh" % d, env=e, timeout=400)


def main():
    prepare()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    bad = 0
    for d in sys.argv[1:]:
        d = os.path.abspath(d)
        for f in ("kit.rs", "Cargo.toml.in", "Cargo.lock", "demo.sh"):
            if not os.path.exists(os.path.join(d, f)):
                shutil.copy(os.path.join(KIT, f), d)
        sh("git checkout -q -- . && git clean -fdq -e target")
        r0 = demo(d, "dt")
        a = sh("git apply %s/patch.diff" % d)
        if a.returncode:
            print(d, "PATCH DOES NOT APPLY", a.stdout)
            bad = 1
            continue
        b = sh("bash %s/build.sh" % S)
        t = sh("bash %s/test.sh %s/out.json" % (S, S))
        res = json.load(open(S + "/out.json")) if os.path.exists(S + "/out.json") else {"passed": [], "failed": ["?"]}
        base = json.load(open("/opt/vp/BASELINE.json"))
        need = set(base.get("passed") or base.get("stable") or [])
        lost = need - set(res["passed"])
        r1 = demo(d, "dt")
        sh("git checkout -q -- .")
        ok = r0.returncode == 0 and b.returncode == 0 and not lost and r1.returncode not in (0, 3)
        print("%-40s %s  clean=%d build=%d lost=%d patched=%d  %s" % (os.path.basename(d), "ok" if ok else "BAD", r0.returncode,
              b.returncode, len(lost), r1.returncode, (r1.stdout or "").strip()[-150:].replace("\n", " | ")))
        if not ok:
            bad = 1
            print("   clean:", r0.stdout[-1500:])
            if b.returncode:
                print("   build:", b.stdout[-1500:])
            print("   lost:", sorted(lost)[:5])
            print("   patched:", r1.stdout[-500:])
    sys.exit(bad)


main()
