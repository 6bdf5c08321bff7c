"""Scenarios made of behaviours of the specification (GenBromine, walked through by TLC)."""
import json, os
import gen, vlib

UNIT = 10   # ms per unit of time of the specification; the timeout is 2


def behaviours(cfg, num, seed, wd):
    module = "GenChannel" if cfg == "GenChannel" else "GenBromine"
    meta = os.path.join(wd, cfg + ".meta")
    rc, out = vlib.java(["-noGenerateSpecTE", "-simulate", "num=%d" % num, "-depth", "400", "-seed", str(seed), "-workers", "1",
                         "-metadir", meta, "-config", cfg + ".cfg", module + ".tla"], vlib.SPEC, timeout=300)
    vlib.rmtree(meta)
    if rc != 0:
        raise vlib.NoAnswer("TLC failed on %s/%s: %s" % (module, cfg, out[-3000:]))
    seen, scripts = set(), []
    for line in out.splitlines():
        if line.startswith('"SCRIPT '):
            x = json.loads(line)[7:]
            if x not in seen:
                seen.add(x)
                scripts.append(json.loads(x))
    return scripts


def scenario(cfg, script, rng):
    sc = gen.Sc("spec-" + cfg, rng)
    ends = {x["pl"]: x["res"] for x in script if x["a"] == "hend"}
    calls = {x["pl"] for x in script if x["a"] == "hcall"}
    events = [x["pl"] for x in script if x["a"] == "frame"]
    prog = {}
    for p in events:
        g = "g" + p
        sc.gates.append(g)
        prog[p] = ([{"stash": "s" + p}] if p in calls else []) + [{"gate": g}]
        prog[p] += [{"ok": {"ok": {"tag": "r" + p}}, "err": {"err": "1"}, "panic": {"panic": 1}}[ends[p]]] if p in ends else []
    on = [sc.handler("a", [{"switch": prog}])]
    hard = rng.random() < 0.4
    flavor = lambda: sc.flavor(hard)
    if cfg in ("GenClient", "GenPool"):
        sc.raw_listen(50)
        n = 2 if cfg == "GenPool" else 1
        e = sc.ep("pool" if n > 1 else "client", 50, on, n=n, tmo=2 * UNIT, flavor=flavor())
        sc.start(e)
        link = {i + 1: "%d.%d" % (e, i) for i in range(n)}
    else:
        e = sc.ep("server", 1, on, tmo=2 * UNIT, flavor=flavor())
        sc.start(e)
        link = {i + 1: sc.connect(1, flavor=flavor()) for i in range(2 if cfg == "GenServer2" else 1)}
    sc.settle()
    for x in script:
        if x["quiet"]:
            sc.settle()
        elif rng.random() < 0.5:
            sc.do("yield", n=rng.randrange(1, 6))
        a = x["a"]
        c = link.get(x.get("c"))
        if a == "call":
            sc.o = x["o"] - 1
            sc.call(x["kind"], e, "a", tag="o%d" % x["o"])
        elif a == "hcall":
            sc.o = x["o"] - 1
            sc.call(x["kind"], nm="a", h="s" + x["pl"], tag="o%d" % x["o"])
        elif a == "hend":
            sc.do("open", gate="g" + x["pl"])
        elif a in ("next", "unnext", "drop"):
            sc.do(a, o=x["o"])
        elif a == "frame":
            ref = {0: None, -1: "u1"}.get(x["ref"], "t:o%d" % x["ref"])
            kw = {"code": 404, "msg": "FAIL%s;" % x["pl"]} if x["ty"] == "X" and rng.random() < 0.7 else {"tag": x["pl"]}
            sc.frame(c, x["ty"], x["nm"], ref=ref, chunk=rng.choice([None, None, 5]), **kw)
        elif a == "bad":
            sc.do("bytes", c=c, hex=rng.choice(["ffffffffffffffffffff", "0000000000000003000900" + "00" * 8]))
        elif a == "eof":
            sc.do("end", c=c, err=rng.random() < 0.3)
        elif a in ("fault", "repair"):
            on_ = a == "fault"
            if x["field"] == "wb":
                sc.do("wblock", c=c, **({"n": rng.choice([0, 0, 3, 30])} if on_ else {}))
            elif x["field"] == "wc":
                sc.do("refuse", c=c)
            else:
                sc.do("fhold" if x["field"] == "fh" else "rhold", c=c, v=on_)
        elif a == "stop":
            sc.do("stop", ep=e)
        elif a == "tick":
            sc.do("adv", ms=UNIT)
    for x in script:
        if x["a"] == "fault" and x["field"] in ("wb", "fh", "rh") and rng.random() < 0.5:
            sc.do({"wb": "wblock", "fh": "fhold", "rh": "rhold"}[x["field"]], c=link[x["c"]], **({} if x["field"] == "wb" else {"v": False}))
    return sc.finish(rng.choice([0, 100]))
