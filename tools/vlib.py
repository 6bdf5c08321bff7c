"""Common parts of all checks: building the harness, running the driver, running TLC."""
import json, os, re, subprocess, sys, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))


class NoAnswer(Exception):
    """The machinery itself failed."""


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "1.85.1"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "1"
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    e["HOME"] = e.get("HOME", "/root")
    return e


def build(features="full"):
    """Builds the driver against /repo's working tree, returns its path."""
    subset = features not in ("full", "none")
    target = os.path.join(HARNESS, "target", "subset" if subset else features)
    cmd = ["cargo", "build", "--offline", "--locked", "--target-dir", target]
    if features != "full":
        cmd.append("--no-default-features")
    if subset:
        cmd += ["--features", features]
    r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-8000:])
        raise NoAnswer("the harness does not build")
    exe = os.path.join(target, "debug", "driver")
    if subset:
        # the next one would overwrite it
        own = os.path.join(target, "driver-" + features)
        shutil.copyfile(exe, own + ".tmp")
        os.chmod(own + ".tmp", 0o755)
        os.replace(own + ".tmp", own)
        exe = own
    return exe


def workdir(name):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def run_driver(exe, mode, scenarios, wd, timeout=300, tag="t", extra_env=None):
    """Runs all scenarios (dicts), returns for each the list of recorded events. What the
    driver does not survive is part of the record."""
    inp = os.path.join(wd, tag + ".scenarios")
    with open(inp, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s) + "\n")
    out = os.path.join(wd, tag + ".log")
    open(out, "w").close()
    e = env()
    e.update(extra_env or {})
    start, t0 = 0, time.time()
    deaths = {}
    while start < len(scenarios):
        try:
            p = subprocess.run([exe, mode, inp, out, str(start)], env=e, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=max(5, timeout - (time.time() - t0)))
            rc, err = p.returncode, p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            if deaths:
                break
            raise NoAnswer("the driver took more than %d s" % timeout)
        if rc == 0:
            break
        # which scenario was it?
        last = start
        with open(out) as f:
            for line in f:
                m = re.search(r'"s":(\d+)', line)
                if m:
                    last = max(last, int(m.group(1)))
        if rc == 2:
            raise NoAnswer("driver: " + err[-2000:])
        if deaths.get(last):
            last += 1
        if last < len(scenarios):
            deaths[last] = (rc, err[-400:])
        start = last + 1
        # the rest would not tell more
        if len(deaths) > 20 or time.time() - t0 > 100:
            break
    traces = [[] for _ in scenarios]
    with open(out) as f:
        for line in f:
            try:
                ev = json.loads(line)
            except ValueError:
                continue
            traces[ev.pop("s")].append(ev)
    for i, (rc, err) in deaths.items():
        t = traces[i][-1]["t"] if traces[i] else 0
        if not any(ev["e"] == "hang" for ev in traces[i]):
            traces[i].append({"e": "crash", "t": t, "rc": rc, "msg": err})
    return traces


def run_driver_parallel(exe, mode, scenarios, wd, timeout=300, n=None, extra_env=None):
    n = n or CORES
    k = max(1, (len(scenarios) + n - 1) // n)
    parts = [scenarios[i:i + k] for i in range(0, len(scenarios), k)]
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda a: run_driver(exe, mode, a[1], wd, timeout, "p%d" % a[0], extra_env), enumerate(parts)))
    return [t for r in rs for t in r]


def rmtree(d):
    shutil.rmtree(d, ignore_errors=True)


def java(args, cwd, extra_env=None, timeout=800, mem="3g"):
    e = dict(os.environ)
    e.update(extra_env or {})
    # where TLC would otherwise leave a directory for each run
    tmp = args[args.index("-metadir") + 1] if "-metadir" in args else cwd
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + os.path.abspath(tmp), "-XX:+UseSerialGC", "-Xmx" + mem, "-Xss16m", "-Dtlc2.tool.impl.Tool.cdot=true", "-cp", TLA, "tlc2.TLC"] + args
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoAnswer("TLC took more than %d s" % timeout)
    return p.returncode, p.stdout


def stats(out):
    """states generated, distinct states"""
    m = re.findall(r"(\d+) states generated, (\d+) distinct states", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def tlc_traces(module, traces, wd, timeout=800, chunks=None, mem="3g"):
    """Checks the traces (dicts with "ev") against spec/<module>.tla. Returns
    (rejected: {index: number of the first event that can't be explained}, states, distinct)."""
    if not traces:
        return {}, 0, 0
    chunks = chunks or CORES
    # by size, biggest first
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["ev"]))
    parts = [[] for _ in range(min(chunks, len(order)))]
    loads = [0] * len(parts)
    for i in order:
        j = loads.index(min(loads))
        parts[j].append(i)
        loads[j] += len(traces[i]["ev"]) + 5

    def one(arg):
        j, idx = arg
        path = os.path.join(wd, "%s.%d.ndjson" % (module, j))
        with open(path, "w") as f:
            for i in idx:
                f.write(json.dumps(traces[i]) + "\n")
        meta = os.path.join(wd, "%s.%d.meta" % (module, j))
        rc, out = java(["-workers", "1", "-noGenerateSpecTE", "-metadir", meta, "-config", module + ".cfg", module + ".tla"],
                       SPEC, {"TRACES": path}, timeout, mem)
        with open(os.path.join(wd, "%s.%d.out" % (module, j)), "w") as f:
            f.write(out)
        shutil.rmtree(meta, ignore_errors=True)
        if "Model checking completed. No error has been found" not in out or rc != 0:
            raise NoAnswer("TLC failed on %s: %s" % (path, out[-3000:]))
        rej = {}
        for m in re.finditer(r'<<"REJECTED", (\d+), (\d+)>>', out):
            rej[idx[int(m.group(1)) - 1]] = int(m.group(2))
        return rej, stats(out)

    with ThreadPoolExecutor(len(parts)) as ex:
        rs = list(ex.map(one, enumerate(parts)))
    rej = {}
    for r, _ in rs:
        rej.update(r)
    return rej, sum(s[0] for _, s in rs), sum(s[1] for _, s in rs)


def tlc_model(module, wd, cfg=None, timeout=800, args=(), extra_env=None, mem="6g", workers=None):
    """Plain model checking; returns (ok, output, states, distinct)."""
    meta = os.path.join(wd, (cfg or module) + ".meta")
    rc, out = java(["-workers", str(workers or CORES), "-noGenerateSpecTE", "-metadir", meta, "-config", (cfg or module) + ".cfg"]
                   + list(args) + [module + ".tla"], SPEC, extra_env, timeout, mem)
    with open(os.path.join(wd, (cfg or module) + ".out"), "w") as f:
        f.write(out)
    shutil.rmtree(meta, ignore_errors=True)
    g, d = stats(out)
    return rc == 0, out, g, d
