"""Scenarios for the event layer. A scenario says what users, handlers, peers and the
transport do; what has to come out of it is decided by the specification alone."""
import random

NAMELESS = "\x01"   # the harness registers it as ""
NAMES = ["n0", "n1", "n2", "n3"]
SPACES = ["s1", "s2"]
ERRORS = ["io", "timeout", "corrupt", "ioeof", "iopipe", "iointr", "send", "state", "build", "version", "recv", "ser", "peer", "long"]


class Sc:
    def __init__(self, name, rng):
        self.rng = rng
        self.s = {"name": name, "eps": [], "raw": [], "steps": []}
        self.o = 0
        self.h = 0
        self.tags = 0
        self.gates = []
        self.ops = {}
        self.raws = []     # raw connections to servers
        self.conns = []    # names of all sides of which the scenario plays the peer
        self.qid = 0

    def do(self, what, **kw):
        kw["do"] = what
        self.s["steps"].append(kw)

    def settle(self):
        self.do("settle")

    def flavor(self, hard=None):
        r = self.rng
        if hard is None:
            hard = r.random() < 0.6
        if not hard:
            return {"seed": r.randrange(1 << 30)}
        return {"seed": r.randrange(1 << 30), "wmax": r.choice([0, 1, 3, 7, 40]), "pend": r.choice([0, 1, 3, 5]),
                "buffered": r.random() < 0.5, "rmax": r.choice([0, 1, 2, 9, 64])}

    def tag(self, p="t"):
        self.tags += 1
        return "%s%d" % (p, self.tags)

    def handler(self, nm, prog, ns=""):
        self.h += 1
        return {"ns": ns, "nm": nm, "h": self.h, "prog": prog}

    def ep(self, kind, addr, on=(), **kw):
        e = {"ep": len(self.s["eps"]) + 1, "kind": kind, "addr": addr, "on": list(on)}
        e.update(kw)
        if "flavor" not in e:
            e["flavor"] = self.flavor()
        self.s["eps"].append(e)
        return e["ep"]

    def start(self, ep):
        self.do("start", ep=ep)

    def raw_listen(self, addr):
        self.s["raw"].append(addr)

    def connect(self, addr, name=None, **kw):
        name = name or "r%d" % (len(self.raws) + 1)
        self.raws.append(name)
        self.conns.append(name)
        self.do("connect", addr=addr, flavor=kw.get("flavor") or self.flavor(), **{"as": name})
        return name

    def call(self, kind, ep=None, nm="n0", ns="", h=None, **kw):
        self.o += 1
        t = kw.pop("tag", None) or self.tag()
        d = {"o": self.o, "kind": kind, "nm": nm, "ns": ns, "tag": t}
        if h:
            d["h"] = h
        else:
            d["ep"] = ep
        d.update(kw)
        self.do("call", **d)
        self.ops[self.o] = {"kind": kind, "tag": t}
        return self.o

    def frame(self, c, ty="I", nm="n0", ns="", ref=None, id=None, tag=None, **kw):
        self.qid += 1
        if id is None and self.rng.random() < 0.04:
            id = self.rng.choice([0, 2 ** 64 - 1])
        d = {"c": c, "ty": ty, "nm": nm, "ns": ns, "id": id if id is not None else "q%d" % self.qid}
        if ref is not None:
            d["ref"] = ref
        if tag is None and "code" not in kw and "hex" not in kw:
            tag = self.tag("p")
        if tag is not None:
            d["tag"] = tag
        d.update(kw)
        self.do("frame", **d)
        return d["id"]

    def gate(self):
        g = "g%d" % (len(self.gates) + 1)
        self.gates.append(g)
        return g

    def finish(self, ms=70000):
        """everything that was held back goes on, every request comes to its end"""
        for g in self.gates:
            self.do("open", gate=g)
        self.settle()
        if ms:
            self.do("adv", ms=ms)
            self.settle()
        return self.s


def prog(sc, level, client=False, depth=0, fail=True, req=True):
    """a random handler program that only emits events of a lower level"""
    r = sc.rng
    p = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.random()
        lower = "n%d" % r.randrange(level) if level > 0 else None
        ns = r.choice(["", "", "s1", "s2"])
        if k < 0.35 and lower:
            p.append({"emit": {"nm": lower, "ns": ns, "tag": sc.tag("e"), "size": r.choice([0, 0, 300])}})
        elif k < 0.55 and lower and req:
            p.append({"req": {"nm": lower, "ns": ns, "tag": sc.tag("e"), "tmo": r.choice([50, 200, 900]),
                              "prop": r.random() < 0.3, "echo": r.random() < 0.2}})
        elif k < 0.63 and lower and req:
            p.append({"stream": {"nm": lower, "ns": ns, "tag": sc.tag("e"), "tmo": r.choice([50, 200]), "n": r.choice([1, 2, 9])}})
        elif k < 0.75:
            p.append({"gate": sc.gate() if r.random() < 0.5 or not sc.gates else r.choice(sc.gates)})
        elif k < 0.83:
            p.append({"sleep": r.choice([1, 10, 60, 300])})
        elif k < 0.92:
            p.append({"yield": r.randrange(1, 6)})
        elif lower:
            p.append({"bg": [{"sleep": r.choice([1, 20])}, {"emit": {"nm": lower, "tag": sc.tag("e")}}]})
    k = r.random()
    if k < 0.35:
        p.append({"ok": {"tag": sc.tag("y"), "size": r.choice([0, 0, 200])}})
    elif k < 0.5:
        p.append({"echo": 1})
    elif k < 0.7 and fail:
        p.append({"err": r.choice(["1", "2", "code1"] + ERRORS)})
    elif k < 0.74 and fail:
        p.append({"panic": 1})
    return p


def random_handlers(sc, fail=True, error_ok=True):
    r = sc.rng
    on = []
    for i, n in enumerate(NAMES):
        if r.random() < 0.75:
            on.append(sc.handler(n, prog(sc, i, fail=fail)))
        for ns in SPACES:
            if r.random() < 0.45:
                on.append(sc.handler(n, prog(sc, i, fail=fail), ns))
    if r.random() < 0.2:
        i = r.randrange(len(NAMES))
        on.append(sc.handler(NAMES[i], prog(sc, i, fail=fail)))   # registered again: replaces
    if error_ok and r.random() < 0.3:
        on.append(sc.handler("error", [{"ok": {"tag": sc.tag("y")}}]))
    if r.random() < 0.15:
        on.append(sc.handler("end", [{"ok": {"tag": sc.tag("y")}}]))
    r.shuffle(on)
    # within one name the last one wins: numbers have to grow with the registration
    hs = sorted(h["h"] for h in on)
    for h, n in zip(on, hs):
        h["h"] = n
    return on


def topology(sc, kinds=None, fail=True):
    """returns endpoints that can call"""
    r = sc.rng
    kind = r.choice(kinds or ["server", "client", "pair", "pair", "pool", "poolraw", "two"])
    callers = []
    tmo = r.choice([None, None, 100, 1000])
    if kind in ("server", "pair", "pool", "two"):
        s = sc.ep("server", 1, random_handlers(sc, fail), tmo=tmo)
        sc.start(s)
        for _ in range(r.choice([1, 1, 2, 3]) if kind == "server" else r.choice([0, 1])):
            sc.connect(1)
    if kind in ("client", "poolraw"):
        sc.raw_listen(50)
    ct = r.choice([None, None, 150, 2000])
    if kind in ("client", "pair", "two"):
        for _ in range(2 if kind == "two" else 1):
            c = sc.ep("client", 50 if kind == "client" else 1, random_handlers(sc, fail, error_ok=True), tmo=ct)
            sc.start(c)
            callers.append(c)
            if kind == "client":
                sc.conns.append("%d.0" % c)
    if kind in ("pool", "poolraw"):
        n = r.choice([1, 2, 3])
        c = sc.ep("pool", 50 if kind == "poolraw" else 1, random_handlers(sc, fail), tmo=ct, n=n)
        sc.start(c)
        callers.append(c)
        if kind == "poolraw":
            for i in range(n):
                sc.conns.append("%d.%d" % (c, i))
    return callers


def random_frame(sc, c, malformed=False):
    r = sc.rng
    tags = [o["tag"] for o in sc.ops.values()]
    k = r.random()
    nm = r.choice(NAMES + ["unknown", "error", "end"])
    ns = r.choice(["", "", "s1", "s2", "nowhere"])
    chunk = r.choice([None, None, 1, 5])
    kw = {"chunk": chunk} if chunk else {}
    if r.random() < 0.2:
        kw["extra"] = r.choice([1, 8, 30])
        kw["ver"] = [0, r.randrange(256), r.randrange(256)]
    if k < 0.35 or not tags:
        if r.random() < 0.15:
            # refers to something nobody asked
            sc.frame(c, r.choice(["R", "E", "X"]), nm, ns, ref="u%d" % r.randrange(9), code=7, msg="FAILu;", **kw)
        elif r.random() < 0.1 and sc.qid > 1:
            sc.frame(c, r.choice(["I", "R"]), nm, ns, id="q%d" % r.randrange(1, sc.qid), **kw)
        else:
            sc.frame(c, r.choice(["I", "I", "I", "R", "X", "E"]), nm, ns, **kw)
    else:
        ref = "t:" + r.choice(tags)
        k = r.random()
        if k < 0.5:
            sc.frame(c, "R", nm, ns, ref=ref, **kw)
        elif k < 0.62:
            sc.frame(c, "I", nm, ns, ref=ref, **kw)
        elif k < 0.82:
            sc.frame(c, "E", pick(r, "end", nm), pick(r, "", ns), ref=ref, **kw)
        elif k < 0.95:
            sc.frame(c, "X", pick(r, "error", nm), pick(r, "", ns), ref=ref, code=r.choice([404, 500, 1]), msg="FAILx%d;" % r.randrange(9), **kw)
        else:
            sc.frame(c, "X", "error", "", ref=ref, **kw)
        if r.random() < 0.05:
            # an event that carries the id of one of our own
            sc.frame(c, "I", nm, ns, id=ref, **kw)


def general(rng, kinds=None, n=None, name="general", faults=True, fail=True):
    sc = Sc(name, rng)
    r = rng
    callers = topology(sc, kinds, fail)
    sc.settle()
    blocked = []
    for _ in range(n or r.choice([4, 8, 14, 20])):
        k = r.random()
        if k < 0.3 and callers:
            for _ in range(r.choice([1, 1, 2, 4])):
                sc.call(r.choice(["emit", "req", "req", "stream"]), r.choice(callers), r.choice(NAMES + ["unknown"]),
                        r.choice(["", "", "s1", "s2", "nowhere"]), size=r.choice([0, 0, 50, 3000]),
                        **({"tmo": r.choice([20, 100, 400])} if r.random() < 0.5 else {}))
            if r.random() < 0.8:
                sc.settle()
        elif k < 0.55 and sc.conns:
            for _ in range(r.choice([1, 1, 2, 4])):
                random_frame(sc, r.choice(sc.conns))
            if r.random() < 0.8:
                sc.settle()
        elif k < 0.68 and sc.ops:
            ss = [o for o in sc.ops if sc.ops[o]["kind"] == "stream"]
            if ss:
                o = r.choice(ss)
                for _ in range(r.choice([1, 2, 3])):
                    sc.do("next", o=o)
                    if r.random() < 0.7:
                        sc.settle()
                    elif r.random() < 0.5:
                        sc.do("unnext", o=o)
        elif k < 0.73 and sc.ops:
            sc.do("drop", o=r.choice(list(sc.ops)))
        elif k < 0.8:
            sc.do("adv", ms=r.choice([1, 20, 100, 500]))
            sc.settle()
        elif k < 0.86 and sc.gates:
            sc.do("open", gate=r.choice(sc.gates))
            sc.settle()
        elif k < 0.92 and faults:
            cs = list(sc.conns) + ["%d.0" % c for c in callers]
            if not cs:
                continue
            c = r.choice(cs)
            j = r.random()
            if j < 0.35:
                sc.do("wblock", c=c, n=r.choice([0, 1, 30, 100]))
                blocked.append(("wblock", c))
            elif j < 0.6:
                sc.do("fhold", c=c, v=True)
                blocked.append(("fhold", c))
            elif j < 0.7:
                sc.do("rhold", c=c, v=True)
                blocked.append(("rhold", c))
            elif j < 0.8 and c in sc.conns:
                sc.do("end", c=c, err=r.random() < 0.3)
                sc.conns.remove(c)
            elif j < 0.9 and c in sc.conns:
                sc.do("bytes", c=c, hex="%02x" % r.randrange(256) * r.choice([3, 12, 40]))
            elif callers:
                sc.do("stop", ep=r.choice(callers))
        else:
            sc.do("yield", n=r.randrange(1, 8))
    for k, c in blocked:
        if k == "wblock":
            sc.do("wblock", c=c)
        else:
            sc.do(k, c=c, v=False)
    sc.settle()
    return sc.finish(r.choice([0, 0, 3000, 70000]))


# ---------------------------------------------------------------------------
# Families: each directs the scenarios at one guarantee

def near(r):
    """an id that is nearly another (but not one that could be the next)"""
    return "~%s" % r.choice(["prev", 12, 15, 16, 31, 32, 33, 47, 48, 50, 60, 63, "swap", "low", "not"])


def pick(r, *xs):
    return r.choice(xs)


TEXTS = ["", "a", "ping", "Ping", "PING\u0130", " a ", "ünïcödé", "日本語", "a b\tc", "x" * 255, "y" * 256, "z" * 300, "end", "error", "\u0000", "é" * 128,
         "\ufeffa", "a\ufeff", "\u00e9", "e\u0301", "\u00a0a", "a\u200b", "\u202ea", "a\r\n", "stra\u00dfe", "\u00c5", "A\u030a", "\u212b"]


def fidelity(rng):
    """C01: namespaces, names, payloads, header variants"""
    sc = Sc("fidelity", rng)
    r = rng
    texts = [r.choice(TEXTS) for _ in range(4)]
    spaces = [t for t in [r.choice(TEXTS) for _ in range(3)] if t]
    big = r.random() < 0.12
    if big:
        texts[0] = "q" * r.choice([32768, 65000, 65506, 65516, 65517])
    # (what handlers emit has no handler)
    said = ["-" + t for t in TEXTS] + ["-other"]
    talk = lambda: [{"emit": {"nm": r.choice(said), "ns": r.choice(["", "Elsewhere"] + [t for t in TEXTS if t]), "tag": sc.tag("e"),
                              "size": r.choice([0, 3, 300])}}] if r.random() < 0.4 else []
    mk = lambda: [sc.handler(t, talk() + ([{"echo": 1}] if r.random() < 0.7 else [{"err": "1"}]), ns) for t in texts for ns in [""] + spaces if t != "error" or ns]
    s = sc.ep("server", 1, mk())
    c = sc.ep("client", 1, mk())
    sc.start(s)
    sc.start(c)
    sc.connect(1)
    for _ in range(r.choice([3, 6, 10])):
        nm, ns = r.choice(texts + ["other"]), r.choice(["", "", "elsewhere"] + spaces)
        size = r.choice([0, 0, 1, 2, 255, 256, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 70000])
        if r.random() < 0.6:
            kw = {}
            if big and r.random() < 0.4:
                # around the limit of what the format can represent
                k = pick(r, "nslen", "nmlen")
                other = len((nm if k == "nslen" else ns).encode())
                kw[k] = max(0, r.choice([65535, 65536, 65535 - 17, 65535 - 16, 65535 - 18, 70000, 131072 + 5]) - (other if r.random() < 0.7 else 0))
                if k == "nslen" and not ns:
                    ns = "a"
            sc.call(pick(r, "emit", "req", "req", "stream"), c, nm, ns, size=size, **kw)
        else:
            kw = {}
            if r.random() < 0.6:
                kw["extra"] = r.choice([1, 2, 7, 8, 255, 4000])
            if r.random() < 0.6:
                kw["ver"] = [0, r.randrange(256), r.randrange(256)]
            if r.random() < 0.3:
                kw["hex"] = "%0*x" % (2 * r.choice([1, 5, 40]), r.getrandbits(300))
                kw["hex"] = kw["hex"][:2 * (len(kw["hex"]) // 2)]
            kw["id"] = r.choice([0, 1, (1 << 63) + 5, (1 << 64) - 1, 255, None])
            sc.frame("r1", pick(r, "I", "I", "R", "X", "E"), nm, ns, ref=r.choice([None, 0, (1 << 64) - 1, 77]), size=size,
                     chunk=r.choice([None, 1, 7, 100]) if size < 300 else r.choice([None, 1000]), **kw)
        if r.random() < 0.7:
            sc.settle()
    return sc.finish(0)


def huge(rng):
    """C01, C03, C24: payloads of many MiB, several at a time in both directions"""
    sc = Sc("huge", rng)
    r = rng
    on = lambda: [sc.handler("a", [{"echo": 1}]), sc.handler("b", [{"emit": {"nm": "a", "tag": sc.tag("e"), "size": 3 << 20}}, {"ok": {"tag": sc.tag("y")}}])]
    s = sc.ep("server", 1, on(), flavor={"seed": 1})
    c = sc.ep("client", 1, on(), flavor={"seed": 1})
    sc.start(s)
    sc.start(c)
    for _ in range(r.choice([2, 3])):
        sc.call(pick(r, "emit", "req", "stream"), c, pick(r, "a", "b", "other"),
                size=r.choice([1 << 18, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3000000, (4 << 20) + 5, 9 << 20]))
    sc.call("req", c, "a", size=r.choice([10, (16 << 20) - 39, 17 << 20]))
    sc.settle()
    sc.call("req", c, "a", size=10)
    sc.settle()
    for o in sc.ops:
        if sc.ops[o]["kind"] == "stream":
            for _ in range(3):
                sc.do("next", o=o)
                sc.settle()
    return sc.finish(70000)


def huge_transports(rng):
    """C24: the same, over sockets and encrypted"""
    return over(rng.choice(["tcp", "unix", "enc", "enctcp", "encunix"]), huge, rng)


def malformed(rng):
    """C02: garbage on one connection, others keep working"""
    sc = Sc("malformed", rng)
    r = rng
    server = r.random() < 0.6
    on = [sc.handler("n0", [{"echo": 1}]), sc.handler("n1", [{"emit": {"nm": "n0", "tag": "e"}}, {"ok": {"tag": "y"}}]),
          sc.handler("n0", [{"echo": 1}], "s1"), sc.handler("n2", [{"gate": sc.gate()}, {"echo": 1}])]
    if server:
        s = sc.ep("server", 1, on)
        sc.start(s)
        bad, good = sc.connect(1), sc.connect(1)
        caller = None
    else:
        sc.raw_listen(50)
        c = sc.ep("pool", 50, on, n=r.choice([2, 2, 3]), tmo=r.choice([None, 200]))
        sc.start(c)
        bad, good = "%d.0" % c, "%d.1" % c
        caller = c
    for _ in range(r.randrange(4)):
        sc.frame(pick(r, bad, good), "I", pick(r, "n0", "n1", "n2", "nx"), pick(r, "", "s1"))
    if caller:
        for _ in range(2):
            sc.call(pick(r, "req", "stream", "emit"), caller)
    if r.random() < 0.5:
        sc.settle()
    k = r.random()
    tags = [o["tag"] for o in sc.ops.values()]
    base = dict(ty=pick(r, "I", "R", "E", "X"), nm=pick(r, "n0", "n1", "n0x"), ns=pick(r, "", "s1"), size=pick(r, 0, 40),
                ref=pick(r, None, "t:" + tags[0]) if tags else pick(r, None, 5))
    hl = 3 + 8 + 1 + 1 + (8 if base["ref"] is not None else 0) + 4 + len(base["ns"]) + len(base["nm"])
    off = 10 + 3 + 8  # event type
    if k < 0.12:
        patch = [[0, 1 + r.randrange(255)]] if r.random() < 0.5 else [[i, 255] for i in range(8)]
    elif k < 0.22:
        patch = [[i, 0] for i in range(8)] + ([[7, r.randrange(hl)]] if r.random() < 0.6 else [])
    elif k < 0.32:
        patch = [[8, r.randrange(256)], [9, r.randrange(256)]]
    elif k < 0.42:
        patch = [[10, 1 + r.randrange(255)]]
    elif k < 0.52:
        patch = [[off, r.choice([4, 5, 127, 255])]]
    elif k < 0.62:
        patch = [[off + 1, r.choice([1, 2, 127, 254])]]
    elif k < 0.74:
        p = off + 2 + (8 if base["ref"] is not None else 0)
        j = p if r.random() < 0.5 else p + 2 + len(base["ns"])
        patch = [[j, r.choice([0, 1, 255])], [j + 1, r.choice([0, 1, 2, 3, 30, 255])]]
    elif k < 0.84:
        p = off + 2 + (8 if base["ref"] is not None else 0) + 4 + len(base["ns"])
        patch = [[p + r.randrange(len(base["nm"])), r.choice([0x80, 0xFF, 0xC3])]]
    else:
        patch = [[r.randrange(10 + hl), r.randrange(256)] for _ in range(r.choice([1, 2, 3]))]
    kw = {}
    if r.random() < 0.15:
        kw["cut"] = r.randrange(1, 10 + hl)
    if r.random() < 0.4:
        kw["chunk"] = r.choice([1, 3, 11])
    sc.frame(bad, patch=patch, **base, **kw)
    # whatever follows on this connection
    for _ in range(r.randrange(4)):
        if tags and r.random() < 0.5:
            sc.frame(bad, pick(r, "R", "E", "X"), "n0", ref="t:" + r.choice(tags))
        else:
            sc.frame(bad, "I", pick(r, "n0", "n1"), pick(r, "", "s1"))
    if r.random() < 0.3:
        sc.do("bytes", c=bad, hex="%02x" % r.randrange(256) * r.choice([1, 50, 3000]))
    if r.random() < 0.7:
        sc.settle()
    for _ in range(r.randrange(1, 4)):
        if tags and r.random() < 0.4:
            sc.frame(good, pick(r, "R", "E"), "n0", ref="t:" + r.choice(tags))
        else:
            sc.frame(good, "I", pick(r, "n0", "n1", "n2"), pick(r, "", "s1"))
    sc.settle()
    if r.random() < 0.5:
        sc.do("end", c=bad, err=r.random() < 0.5)
        sc.settle()
    if server:
        g2 = sc.connect(1)
        sc.frame(g2, "I", "n1")
        sc.settle()
    elif r.random() < 0.5:
        sc.call("req", caller, tmo=50)
    return sc.finish(r.choice([0, 3000, 70000]))


def concurrent_writes(rng):
    """C03: many emitters, awkward transports"""
    sc = Sc("writes", rng)
    r = rng
    h = []
    for i in range(3):
        p = []
        for _ in range(r.randrange(1, 5)):
            p.append({"emit": {"nm": "sink", "tag": sc.tag("e"), "size": r.choice([0, 10, 1500, 9000])}})
            if r.random() < 0.4:
                p.append({"yield": r.randrange(1, 5)})
            if r.random() < 0.2:
                p.append({"bg": [{"emit": {"nm": "sink", "tag": sc.tag("e"), "size": r.choice([0, 2000])}}]})
        p.append({"ok": {"tag": sc.tag("y"), "size": r.choice([0, 5000])}})
        h.append(sc.handler("n%d" % i, p))
    fl = {"seed": r.randrange(1 << 30), "wmax": r.choice([0, 1, 7, 13, 100, 1000]), "pend": r.choice([0, 1, 4, 6]),
          "buffered": r.random() < 0.5, "rmax": r.choice([0, 3, 100])}
    if fl["wmax"] == 1 or fl["rmax"] == 3:
        for x in h:
            for st in x["prog"]:
                for v in st.values():
                    if isinstance(v, dict) and "size" in v:
                        v["size"] = min(v["size"], 300)
    small = fl["wmax"] == 1 or fl["rmax"] == 3
    s = sc.ep("server", 1, h, flavor=fl)
    c = sc.ep("client", 1, [sc.handler("sink", [])] + ([sc.handler("n0", [{"emit": {"nm": "sink2", "tag": "z"}}])]), flavor=fl)
    sc.start(s)
    sc.start(c)
    link = "%d.0" % c
    for rnd in range(r.choice([1, 2, 3])):
        k = r.random()
        bl = None
        if k < 0.4:
            bl = pick(r, link, link + "p")
            if r.random() < 0.6:
                sc.do("wblock", c=bl, n=r.choice([0, 1, 9, 30, 60, 200]))
            else:
                sc.do("fhold", c=bl, v=True)
        for _ in range(r.choice([2, 4, 8])):
            sc.call(pick(r, "emit", "emit", "req", "stream"), c, pick(r, "n0", "n1", "n2", "sink"), size=r.choice([0, 5, 200, 200 if small else 8000]))
            if r.random() < 0.3:
                sc.do("yield", n=r.randrange(1, 6))
        if r.random() < 0.6:
            sc.settle()
        if bl:
            if r.random() < 0.3:
                # held up for long
                sc.do("adv", ms=r.choice([1000, 6000, 31000, 400000]))
            if r.random() < 0.15:
                # the peer goes away in the middle of a write or a flush
                sc.do("refuse", c=bl)
                sc.settle()
            if r.random() < 0.5:
                sc.do("wblock", c=bl, n=r.choice([0, 1, 20, 100]))
                sc.settle()
            sc.do("wblock", c=bl)
            sc.do("fhold", c=bl, v=False)
        if r.random() < 0.6:
            sc.settle()
    sc.settle()
    return sc.finish(0)


def routing(rng):
    """C04: all combinations of namespaces and names, on servers, clients and pools"""
    sc = Sc("routing", rng)
    r = rng
    # names that a lookup with too much imagination could take for each other
    names = ["a", "error"] + r.sample(["b", "end", "A", "a ", " a", "/a", "a/", "x/a", "x:a", "x::a", "x.a", "ya", "aa", "*", "", "a\0", "a*", "Error", "\ufeffa", "\u00e4", "a\u0308", "a\u200b"], 5)
    spaces = ["x"] + r.sample(["y", "X", "a", "xy", "x/", "/x", "*", "x ", "error", "x:", "xx"], 3)
    on = []
    for n in names:
        for ns in [""] + spaces:
            if r.random() < 0.35:
                on.append(sc.handler(n, pick(r, [], [{"echo": 1}], [{"ok": {"tag": sc.tag("y")}}], [{"err": "1"}] if n != "error" else []), ns))
    for _ in range(r.randrange(3)):
        h = dict(r.choice(on)) if on else None
        if h:
            on.append(sc.handler(h["nm"], [{"ok": {"tag": sc.tag("y")}}], h["ns"]))
    nss = ["empty"] if r.random() < 0.4 else []
    if r.random() < 0.4:
        # a namespace that is registered a second time
        ns = pick(r, *spaces)
        if r.random() < 0.3:
            nss.append(ns)
        else:
            for n in r.sample(names, r.randrange(1, 4)):
                on.append(dict(sc.handler(n, pick(r, [], [{"echo": 1}], [{"ok": {"tag": sc.tag("y")}}]), ns), reg=1))
    if r.random() < 0.3:
        # a namespace that has no name: no event can get there
        for n in r.sample(names, r.randrange(1, 4)):
            on.append(sc.handler(n, [], NAMELESS))
    kind = pick(r, "server", "client", "pool")
    if kind == "server":
        e = sc.ep("server", 1, on, nss=nss)
        sc.start(e)
        sc.connect(1)
        sc.connect(1)
    else:
        sc.raw_listen(50)
        n = r.choice([2, 2, 3, 5])
        e = sc.ep(kind, 50, on, nss=nss, n=n)
        sc.start(e)
        sc.conns += ["%d.%d" % (e, i) for i in range(n if kind == "pool" else 1)]
        if r.random() < 0.6:
            sc.call("req", e, "a", tmo=100)
            sc.call("stream", e, "a", tmo=100)
            sc.settle()
    for _ in range(r.choice([4, 8, 12])):
        c = r.choice(sc.conns)
        ty = pick(r, "I", "I", "I", "R", "X", "E")
        kw = {}
        if ty == "X" and r.random() < 0.7:
            kw = {"code": 500, "msg": "FAILr;"}
        ref = r.choice([None, "u1", "u2"]) if ty != "I" or r.random() < 0.3 else None
        if sc.ops and r.random() < 0.2:
            ref = "t:" + r.choice([o["tag"] for o in sc.ops.values()]) + pick(r, "", near(r))
        sc.frame(c, ty, r.choice(names + ["nope"]), r.choice(["", ""] + spaces + ["nowhere", "empty"]), ref=ref, **kw)
        if r.random() < 0.5:
            sc.settle()
    sc.settle()
    return sc.finish(r.choice([0, 70000]))


def replies(rng):
    """C05, C06, C08, C10: a peer that answers requests in every possible way"""
    sc = Sc("replies", rng)
    r = rng
    on = [sc.handler(n, pick(r, [], [{"echo": 1}], [{"gate": sc.gate()}, {"err": "1"}], [{"sleep": 20}]), ns)
          for n in ("n0", "n1", "error") for ns in ("", "s1") if r.random() < 0.6 and (n, ns) != ("error", "")]
    sc.raw_listen(50)
    kind = pick(r, "client", "client", "pool")
    e = sc.ep(kind, 50, on, n=r.choice([1, 2, 3]), tmo=r.choice([None, 30, 100, 100, 500]))
    sc.start(e)
    conns = ["%d.%d" % (e, i) for i in range(sc.s["eps"][-1]["n"] if kind == "pool" else 1)]
    live = []
    hold = None
    if r.random() < 0.3:
        hold = r.choice(conns)
        sc.do(pick(r, "fhold", "fhold"), c=hold, v=True)
    for _ in range(r.choice([3, 6, 10, 16])):
        k = r.random()
        if k < 0.3 or not sc.ops:
            for _ in range(r.choice([1, 1, 2, 5])):
                kw = {"tmo": r.choice([1, 10, 40, 100, 1000])} if r.random() < 0.6 else {}
                if r.random() < 0.05:
                    kw["badpl"] = True
                live.append(sc.call(pick(r, "req", "req", "stream", "stream", "emit"), e, pick(r, "n0", "n1"), pick(r, "", "s1"), **kw))
            if r.random() < 0.75:
                sc.settle()
            else:
                sc.do("yield", n=r.randrange(1, 9))
        elif k < 0.65:
            for _ in range(r.choice([1, 1, 2, 4])):
                o = r.choice(list(sc.ops)[-6:])
                ref = "t:" + sc.ops[o]["tag"]
                c = r.choice(conns)
                j = r.random()
                nm, ns = pick(r, "n0", "n1", "error", "zz", ""), pick(r, "", "s1", "nowhere")
                if j < 0.4:
                    kw = {"hex": ""} if r.random() < 0.2 else {"size": r.choice([0, 100])}
                    if r.random() < 0.1:
                        # what an error looks like, but it isn't one
                        nm, kw = "error", {"hex": "0194000000026e6f"}
                    sc.frame(c, pick(r, "R", "R", "I"), nm, ns, ref=ref, **kw)
                elif j < 0.65:
                    kw = {"hex": ""} if r.random() < 0.4 else {}
                    sc.frame(c, "E", pick(r, "end", "end", nm), pick(r, "", ns), ref=ref, **kw)
                elif j < 0.85:
                    sc.frame(c, "X", pick(r, "error", nm), pick(r, "", ns), ref=ref, code=r.choice([0, 1, 404, 500, 65535]), msg=pick(r, "", "FAILa;", "FAILb;", " padded\n", "\t", "é" * 300, "Error: x"))
                elif j < 0.9:
                    sc.frame(c, "X", "error", "", ref=ref, hex=pick(r, "", "00", "0194000000ff41", "019400000002c328"))
                elif j < 0.95:
                    sc.frame(c, pick(r, "I", "R"), nm, ns, id=ref, ref=pick(r, None, "u1"))
                elif j < 0.97:
                    sc.frame(c, pick(r, "R", "E", "X"), nm, ns, ref="u%d" % r.randrange(3))
                else:
                    sc.frame(c, pick(r, "R", "R", "E", "X"), nm, ns, ref=ref + near(r))
            if r.random() < 0.7:
                sc.settle()
        elif k < 0.85:
            ss = [o for o in sc.ops if sc.ops[o]["kind"] == "stream"]
            if ss:
                o = r.choice(ss[-3:])
                for _ in range(r.choice([1, 2, 4])):
                    sc.do("next", o=o)
                    if r.random() < 0.25:
                        sc.do("yield", n=r.randrange(0, 4))
                        sc.do("unnext", o=o)
                    elif r.random() < 0.8:
                        sc.settle()
        elif k < 0.9:
            sc.do("drop", o=r.choice(list(sc.ops)))
        else:
            sc.do("adv", ms=r.choice([1, 5, 9, 39, 99, 100, 1000]))
            if r.random() < 0.7:
                sc.settle()
        if hold and r.random() < 0.4:
            sc.do("fhold", c=hold, v=False)
            hold = None
    if hold:
        sc.do("fhold", c=hold, v=False)
    sc.settle()
    for o in sc.ops:
        if sc.ops[o]["kind"] == "stream" and r.random() < 0.5:
            for _ in range(2):
                sc.do("next", o=o)
                sc.settle()
    return sc.finish(r.choice([3000, 70000]))


def timeouts(rng):
    """C08: exact times; default, configured and own timeouts"""
    sc = Sc("timeouts", rng)
    r = rng
    sc.raw_listen(50)
    cfg = r.choice([None, None, 50, 2000, 2000, 7200000])
    n = r.choice([1, 1, 2, 3, 5])
    e = sc.ep("pool" if n > 1 else "client", 50, [], n=n, tmo=cfg)
    c = lambda: "%d.%d" % (e, r.randrange(n))
    sc.start(e)
    s = sc.ep("server", 1, [sc.handler("slow", [{"req": {"nm": "q", "tag": "e1", "prop": True, **({"tmo": 33} if r.random() < 0.4 else {})}}]),
                            sc.handler("st", [{"stream": {"nm": "q", "tag": "e2", **({"tmo": 44} if r.random() < 0.4 else {})}}])], tmo=r.choice([None, 70]))
    sc.start(s)
    sc.connect(1)
    own = r.choice([None, None, 0, 1, 80, 5000, 5400000, 2000000000])
    deft = r.choice([None, None, 30, 90000])
    for _ in range(r.choice([1, 3, 5])):
        sc.call(pick(r, "req", "stream"), e, "n0", **({"tmo": own} if own is not None else {}), **({"deft": deft} if deft else {}))
        if r.random() < 0.5:
            sc.do("adv", ms=r.choice([1, 7]))
    blocked = r.random() < 0.25
    if blocked:
        b = c()
        sc.do("wblock", c=b, n=r.choice([0, 5]))
        sc.call("req", e, "n1", **({"tmo": own} if own is not None else {}))
        sc.do("adv", ms=r.choice([10, 100, 90000]))
        sc.do("wblock", c=b)
    sc.frame("r1", "I", pick(r, "slow", "st"))
    sc.settle()
    d = own if own is not None else deft or (cfg if cfg is not None else 60000)
    for o in sc.ops:
        if sc.ops[o]["kind"] == "stream":
            sc.do("next", o=o)
    sc.do("yield", n=4)
    step = r.choice([0, 1, -1, -3, 3])
    if 100000000 > d + step > 2:
        sc.do("adv", ms=max(1, d + step - 2))
    for o in sc.ops:
        if r.random() < 0.6:
            sc.frame(c(), pick(r, "R", "E", "X"), "n0", ref="t:" + sc.ops[o]["tag"], code=404, msg="FAILt;")
    sc.settle()
    if r.random() < 0.5:
        for o in sc.ops:
            if sc.ops[o]["kind"] == "stream":
                sc.do("next", o=o)
    sc.do("adv", ms=r.choice([10, 100, 70, 61000]))
    sc.settle()
    return sc.finish(r.choice([3000, 70000]))


def finals(rng):
    """C07, C10: all kinds of received events, all outcomes of handlers"""
    sc = Sc("finals", rng)
    r = rng

    def hp():
        p = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            p.append(pick(r, {"emit": {"nm": "e", "tag": sc.tag("e"), "size": pick(r, 0, 500)}}, {"yield": 2}, {"gate": sc.gate()}, {"sleep": pick(r, 1, 9)},
                          {"emit": {"nm": "e", "ns": "s", "tag": sc.tag("e")}}, {"req": {"nm": "e", "tag": sc.tag("e"), "tmo": 20, "prop": True}}))
        p.append(pick(r, {"yield": 1}, {"ok": {"tag": sc.tag("y"), "size": pick(r, 0, 3000, 3000, 65536, 70000)}}, {"echo": 1}, {"err": pick(r, "1", "code3", *ERRORS)}, {"panic": 1}))
        return p
    on = [sc.handler(n, hp(), ns) for n in ("a", "b", "c") for ns in ("", "s")]
    if r.random() < 0.4:
        on.append(sc.handler("error", [{"echo": 1}]))
    server = r.random() < 0.5
    if server:
        e = sc.ep("server", 1, on)
        sc.start(e)
        for _ in range(r.choice([1, 2])):
            sc.connect(1)
        conns = sc.conns
    else:
        sc.raw_listen(50)
        n = r.choice([1, 2, 3, 4])
        e = sc.ep("pool" if n > 1 else "client", 50, on, n=n)
        sc.start(e)
        conns = ["%d.%d" % (e, i) for i in range(n)]
    for _ in range(r.choice([2, 4, 8])):
        c = r.choice(conns)
        k = r.random()
        if k < 0.12:
            sc.do("wblock", c=c, n=r.choice([0, 10, 50]))
        elif k < 0.2:
            sc.do("open", gate=r.choice(sc.gates)) if sc.gates else None
        else:
            for _ in range(r.choice([1, 2, 3])):
                ty = pick(r, "I", "I", "R", "X", "E")
                kw = pick(r, {}, {"code": 500, "msg": "FAILu;"}, {"hex": "00ff"}) if ty == "X" else {}
                if r.random() < 0.15 and sc.qid:
                    kw["id"] = "q%d" % r.randrange(1, sc.qid + 1)   # the same id again
                sc.frame(c, ty, pick(r, "a", "b", "c", "none", "error", "end"), pick(r, "", "s", "nowhere"), ref=pick(r, None, "u1"), **kw)
        if r.random() < 0.6:
            sc.settle()
        if r.random() < 0.3:
            sc.do("adv", ms=r.choice([1, 5, 25]))
    for c in conns:
        sc.do("wblock", c=c)
    sc.settle()
    return sc.finish(r.choice([100, 70000]))


def nesting(rng):
    """C11: handlers that emit, ask back, stream and leave things behind, on both sides"""
    sc = Sc("nesting", rng)
    r = rng
    depth = r.choice([2, 3, 4, 5])

    def side(mine):
        on = []
        for i in range(depth):
            p = []
            for _ in range(r.choice([1, 1, 2])):
                if i > 0:
                    w = {"nm": "n%d" % r.randrange(max(0, i - 2), i), "tag": sc.tag("e"), "size": pick(r, 0, 0, 700)}
                    k = r.random()
                    if k < 0.55:
                        p.append({"req": dict(w, prop=r.random() < 0.5, echo=r.random() < 0.2)})
                    elif k < 0.7:
                        p.append({"stream": w})
                    elif k < 0.85:
                        p.append({"emit": w})
                    else:
                        p.append({"bg": [{"yield": 3}, {pick(r, "emit", "req"): w}]})
                if r.random() < 0.3:
                    p.append(pick(r, {"yield": 3}, {"sleep": 5}, {"gate": sc.gate()}))
            p.append(pick(r, {"ok": {"tag": sc.tag("y")}}, {"echo": 1}, {"err": "1"}, {"ok": {"tag": "y$e"}}))
            if r.random() < 0.4:
                p.insert(0, {"stash": "h%d%s" % (i, mine)})
            on.append(sc.handler("n%d" % i, p))
        return on
    s = sc.ep("server", 1, side("s"))
    sc.start(s)
    pool = r.random() < 0.25
    c = sc.ep("pool" if pool else "client", 1, side("c"), n=r.choice([2, 3]))
    sc.start(c)
    if r.random() < 0.4:
        c2 = sc.ep("client", 1, side("d"))
        sc.start(c2)
    else:
        c2 = c
    for _ in range(r.choice([1, 2, 4, 6])):
        k = r.random()
        if k < 0.75:
            for _ in range(r.choice([1, 2, 3])):
                o = sc.call(pick(r, "req", "req", "emit", "stream"), pick(r, c, c2), "n%d" % r.randrange(depth))
        else:
            sc.call(pick(r, "emit", "req", "stream"), h="h%d%s" % (r.randrange(depth), pick(r, "s", "c")), nm="n%d" % r.randrange(depth), tmo=300)
        if r.random() < 0.6:
            sc.settle()
        if sc.gates and r.random() < 0.4:
            sc.do("open", gate=r.choice(sc.gates))
            sc.settle()
    return sc.finish(r.choice([1000, 70000, 200000]))


def collisions(rng):
    """C11, C07: a peer whose events have the ids of this side's own events, waiting or not, or all the same one"""
    sc = Sc("collisions", rng)
    r = rng
    on, tags = [], []
    for n in ("n0", "n1", "n2"):
        p = []
        for _ in range(r.choice([1, 1, 2, 3])):
            w = {"nm": "q", "tag": sc.tag("e"), "ns": pick(r, "", "s")}
            tags.append(w["tag"])
            p.append(pick(r, {"emit": w}, {"emit": w}, {"req": dict(w, tmo=50, prop=r.random() < 0.4)}, {"stream": w}, {"bg": [{"yield": 3}, {"emit": w}]},
                          {"gate": sc.gate()}, {"yield": 3}))
        p.append(pick(r, {"ok": {"tag": sc.tag("y")}}, {"echo": 1}, {"err": "1"}))
        on.append(sc.handler(n, p))
    raw = r.random() < 0.6
    if raw:
        sc.raw_listen(50)
        e = sc.ep(pick(r, "client", "client", "pool"), 50, on, n=2)
        sc.start(e)
        conns = ["%d.%d" % (e, i) for i in range(sc.s["eps"][-1].get("n", 1) if sc.s["eps"][-1]["kind"] == "pool" else 1)]
    else:
        e = sc.ep("server", 1, on)
        sc.start(e)
        conns = [sc.connect(1) for _ in range(2)]
    sc.settle()
    for _ in range(r.choice([3, 6, 10])):
        k = r.random()
        if raw and k < 0.35:
            o = sc.call(pick(r, "req", "req", "stream", "emit"), e, "q", tmo=r.choice([20, 1000]))
            tags.append(sc.ops[o]["tag"])
            sc.settle()
        else:
            c = r.choice(conns)
            i = pick(r, None, "t:" + r.choice(tags) if tags else None, "t:" + r.choice(tags) if tags else None, "u%d" % r.randrange(2))
            kw = {} if i is None else {"id": i}
            sc.frame(c, pick(r, "I", "I", "R"), pick(r, "n0", "n1", "n2"), **kw)
            if r.random() < 0.6:
                sc.settle()
        if tags and r.random() < 0.2:
            sc.frame(r.choice(conns), pick(r, "R", "E", "X"), "n0", ref="t:" + r.choice(tags), code=500, msg="FAILz;")
        if sc.gates and r.random() < 0.3:
            sc.do("open", gate=r.choice(sc.gates))
            sc.settle()
        if r.random() < 0.1:
            sc.do("adv", ms=r.choice([19, 50]))
    sc.settle()
    return sc.finish(r.choice([100, 3000]))


def independence(rng):
    """C16: several connections of one server, some of them misbehaving"""
    sc = Sc("independence", rng)
    r = rng
    on = [sc.handler("ok", [{"emit": {"nm": "e", "tag": sc.tag("e")}}, {"echo": 1}]), sc.handler("fail", [{"err": "1"}]),
          sc.handler("panic", [{"panic": 1}]), sc.handler("never", [{"never": 1}]), sc.handler("gate", [{"gate": sc.gate()}, {"echo": 1}]),
          sc.handler("ask", [{"req": {"nm": "q", "tag": "ask$e", "tmo": r.choice([50, 1000])}}, {"ok": {"tag": "asked"}}]),
          sc.handler("big", [{"emit": {"nm": "e", "tag": "big$e", "size": 20000}}, {"ok": {"tag": "y", "size": 20000}}])]
    s = sc.ep("server", 1, on)
    sc.start(s)
    n = r.choice([2, 3, 4])
    for _ in range(n):
        sc.connect(1, flavor=sc.flavor(r.random() < 0.3))
    cl = None
    if r.random() < 0.5:
        cl = sc.ep("client", 1, [sc.handler("e", []), sc.handler("q", [{"ok": {"tag": "ans"}}])])
        sc.start(cl)
    gone = set()
    blocked = set()
    for _ in range(r.choice([5, 9, 14])):
        alive = [c for c in sc.conns if c not in gone]
        if not alive:
            break
        c = r.choice(alive)
        k = r.random()
        if k < 0.45:
            for _ in range(r.choice([1, 2, 6])):
                sc.frame(c, "I", pick(r, "ok", "fail", "panic", "never", "gate", "ask", "big", "zz"))
        elif k < 0.55:
            sc.do("wblock", c=c, n=r.choice([0, 40]))
            blocked.add(c)
        elif k < 0.62:
            sc.do("bytes", c=c, hex=pick(r, "00", "ffffffffffffffffffff", "0000000000000001" + "0009" + "01"))
        elif k < 0.68:
            sc.do("end", c=c, err=r.random() < 0.5)
            gone.add(c)
        elif k < 0.74:
            sc.do("refuse", c=c)
            gone.add(c)
        elif k < 0.86 and sc.qid:
            # answers the question another connection was asked
            asks = [x for x in sc.s["steps"] if x["do"] == "frame" and x["nm"] == "ask"]
            if asks:
                a = r.choice(asks)
                sc.settle()
                sc.frame(pick(r, a["c"], c), pick(r, "R", "E", "X"), "n0", ref="t:ask" + a["tag"], code=500, msg="FAILq;")
        elif k < 0.92:
            sc.connect(1)
        elif cl:
            sc.call(pick(r, "req", "stream"), cl, pick(r, "ok", "ask", "fail", "gate", "never"), tmo=100)
        if r.random() < 0.65:
            sc.settle()
    if r.random() < 0.5:
        for c in blocked:
            sc.do("wblock", c=c)
    g = sc.connect(1)
    sc.frame(g, "I", "ok")
    sc.settle()
    return sc.finish(r.choice([100, 3000]))


def crowd(rng):
    """C16: very many connections of one server open at the same time; one more comes and goes"""
    sc = Sc("crowd", rng)
    r = rng
    s = sc.ep("server", 1, [sc.handler("ok", [{"echo": 1}]), sc.handler("gate", [{"gate": sc.gate()}, {"echo": 1}]),
                            sc.handler("never", [{"never": 1}])])
    sc.start(s)
    n = r.choice([70, 70, 140, 270, 300])
    loud = r.random() < 0.5
    for i in range(n):
        c = sc.connect(1, flavor={"seed": i})
        if loud or r.random() < 0.1:
            sc.frame(c, "I", pick(r, "ok", "gate", "never", "ok"))
        if r.random() < 0.02:
            sc.settle()
    sc.settle()
    gone = set(r.sample(sc.conns, r.choice([0, 1, 20])))
    for c in gone:
        if r.random() < 0.5:
            sc.do("end", c=c)
        else:
            sc.do("refuse", c=c)
            sc.frame(c, "I", "ok")
    for _ in range(r.choice([1, 10])):
        sc.frame(sc.connect(1), "I", "ok")
    sc.settle()
    for c in r.sample([c for c in sc.conns if c not in gone], 5) + [sc.conns[0] if sc.conns[0] not in gone else sc.conns[-1]]:
        sc.frame(c, "I", "ok")
    return sc.finish(0)


def endings(rng):
    """C17: connections that end in every way, at every moment"""
    sc = Sc("endings", rng)
    r = rng
    on = lambda: [sc.handler("a", [{"emit": {"nm": "b", "tag": sc.tag("e"), "size": 2000}}, {"echo": 1}]), sc.handler("b", []),
                  sc.handler("g", [{"gate": sc.gate()}, {"emit": {"nm": "b", "tag": sc.tag("e")}}, {"echo": 1}]),
                  sc.handler("q", [{"req": {"nm": "x", "tag": sc.tag("e"), "tmo": 200, "prop": True}}]),
                  sc.handler("st", [{"stash": "h"}, {"echo": 1}]),
                  sc.handler("bg", [{"bg": [{"sleep": 50}, {"emit": {"nm": "b", "tag": sc.tag("e")}}]}])]
    kind = pick(r, "server", "client", "pair", "pool")
    conns, caller = [], None
    if kind in ("server", "pair"):
        s = sc.ep("server", 1, on(), tmo=r.choice([None, 300]))
        sc.start(s)
        if kind == "server":
            conns = [sc.connect(1), sc.connect(1)]
    if kind in ("client", "pool"):
        sc.raw_listen(50)
        n = r.choice([2, 2, 3, 4])
        caller = sc.ep(kind, 50, on(), n=n, tmo=r.choice([None, 300]))
        sc.start(caller)
        conns = ["%d.%d" % (caller, i) for i in range(n if kind == "pool" else 1)]
    if kind == "pair":
        caller = sc.ep("client", 1, on(), tmo=r.choice([None, 300]))
        sc.start(caller)
        other = sc.ep("client", 1, on())
        sc.start(other)
    ended = False
    for i in range(r.choice([3, 5, 8])):
        k = r.random()
        if k < 0.3 and caller:
            for _ in range(r.choice([1, 2])):
                o = sc.call(pick(r, "req", "stream", "emit"), caller, pick(r, "a", "g", "b", "q"), tmo=r.choice([60, 500, 500]), size=r.choice([0, 500]))
                if sc.ops[o]["kind"] == "stream" and r.random() < 0.5:
                    sc.settle()
                    sc.do("next", o=o)
        elif k < 0.55 and conns:
            for _ in range(r.choice([1, 3])):
                sc.frame(r.choice(conns), "I", pick(r, "a", "g", "b", "q", "st", "bg"), chunk=r.choice([None, 4]))
        elif k < 0.7:
            sc.do("yield", n=r.randrange(1, 12))
        elif k < 0.9:
            j = r.random()
            if j < 0.3 and caller:
                sc.do("stop", ep=caller)
                if r.random() < 0.4:
                    sc.do("stop", ep=caller)
            elif j < 0.45 and caller:
                sc.do("ctxdrop", ep=caller)
            elif conns:
                c = r.choice(conns)
                m = r.random()
                if m < 0.35:
                    sc.do("end", c=c, err=r.random() < 0.4)
                elif m < 0.55:
                    sc.do("refuse", c=c)
                elif m < 0.75:
                    sc.do("bytes", c=c, hex="00" * 7 + "01" + "0005" + "0000")
                elif m < 0.85:
                    sc.frame(c, "I", "a", cut=r.randrange(1, 25))
                    sc.do("end", c=c)
                else:
                    sc.do("end", c=c)
                    sc.do("refuse", c=c)
            elif kind == "pair":
                sc.do("refuse", c="%d.0" % caller)
        else:
            sc.call("emit", h="h", nm="b")
        if r.random() < 0.6:
            sc.settle()
    if kind == "server":
        g = sc.connect(1)
        sc.frame(g, "I", "a")
        sc.settle()
    if kind == "pair":
        sc.call("req", other, "a", tmo=100)
        sc.settle()
    sc.do("adv", ms=600)
    sc.settle()
    if r.random() < 0.7:
        sc.do("unstash", h="h")
    if caller and r.random() < 0.7:
        sc.do("ctxdrop", ep=caller)
        for o in list(sc.ops):
            sc.do("drop", o=o)
        sc.settle()
    return sc.finish(70000)


def busy(rng):
    """C22: replies nobody reads, handlers that don't end"""
    sc = Sc("busy", rng)
    r = rng
    many = r.choice([5, 9, 12, 33, 70, 130])
    big = r.choice([[0], [0], [0, 0, 0, 3000], [0, 5000, 40000]]) if many < 100 else [0]
    p = [{"emit": {"nm": "item", "tag": "i"}}] * many
    on = [sc.handler("many", p + [{"ok": {"tag": "fin"}}]), sc.handler("never", [{"never": 1}]), sc.handler("gate", [{"gate": sc.gate()}, {"echo": 1}]),
          sc.handler("quick", [{"echo": 1}]), sc.handler("ask", [{"req": {"nm": "quick", "tag": "a$e"}}, {"ok": {"tag": "y"}}])]
    on2 = [sc.handler("quick", [{"echo": 1}]), sc.handler("item", pick(r, [], [{"never": 1}], [{"gate": sc.gate()}]))]
    # the same tag many times is fine: they are all alike
    for h in on:
        n = 0
        for i, stp in enumerate(h["prog"]):
            if "emit" in stp:
                n += 1
                h["prog"][i] = {"emit": dict(stp["emit"], tag="i%d" % n, size=r.choice(big))}
    s = sc.ep("server", 1, on, flavor=sc.flavor(False))
    sc.start(s)
    c = sc.ep("client", 1, on2, flavor=sc.flavor(False))
    sc.start(c)
    streams = []
    for _ in range(r.choice([1, 2, 3])):
        k = r.random()
        if k < 0.6:
            o = sc.call("stream", c, "many")
            streams.append(o)
            sc.settle()
            for _ in range(r.choice([0, 0, 1, 3])):
                sc.do("next", o=o)
                sc.settle()
        elif k < 0.8:
            for _ in range(r.choice([3, 10, 40])):
                sc.call(pick(r, "emit", "req"), c, pick(r, "never", "gate"), tmo=500)
        else:
            sc.call("emit", c, "many")
        if r.random() < 0.5:
            sc.settle()
        for _ in range(2):
            sc.call("req", c, pick(r, "quick", "ask"), tmo=1000)
        sc.settle()
    for o in streams:
        for _ in range(r.choice([2, many + 2])):
            sc.do("next", o=o)
            sc.settle()
    sc.call("req", c, "quick")
    sc.settle()
    return sc.finish(r.choice([0, 70000]))


def flood(rng):
    """C22: thousands of replies nobody reads, of handlers that don't end, of requests nobody answers"""
    sc = Sc("flood", rng)
    r = rng
    sc.raw_listen(50)
    e = sc.ep("client", 50, [sc.handler("ev", [{"echo": 1}]), sc.handler("never", [{"never": 1}])], flavor={"seed": 1})
    sc.start(e)
    c = "%d.0" % e
    sc.settle()
    n = r.choice([300, 1100, 1100, 2100])

    def probe():
        sc.frame(c, "I", "ev")
        o = sc.call("req", e, "ask", tmo=1000)
        sc.settle()
        sc.frame(c, "R", "x", ref="t:" + sc.ops[o]["tag"])
        sc.settle()

    k = r.choice(["replies", "replies", "handlers", "requests"])
    if k == "handlers":
        n = min(n, 1100)
    if k == "replies":
        streams = [sc.call("stream", e, "st") for _ in range(r.choice([1, 1, 3]))]
        sc.settle()
        for i in range(n):
            o = streams[0] if r.random() < 0.9 else r.choice(streams)
            sc.frame(c, pick(r, "R", "R", "I"), "item", ref="t:" + sc.ops[o]["tag"])
            if i % 250 == 249:
                sc.settle()
        probe()
        for _ in range(r.choice([0, 20])):
            sc.do("next", o=streams[0])
        sc.settle()
        sc.frame(c, "E", "end", ref="t:" + sc.ops[streams[0]]["tag"])
    elif k == "handlers":
        for i in range(n):
            sc.frame(c, "I", "never")
            if i % 250 == 249:
                sc.settle()
        probe()
    else:
        ops = [sc.call("req", e, "q", tmo=60000) for _ in range(n)]
        sc.settle()
        probe()
        for o in [ops[-1], ops[0], r.choice(ops)]:
            sc.frame(c, "R", "x", ref="t:" + sc.ops[o]["tag"])
            sc.settle()
    probe()
    return sc.finish(0)


def outstanding(rng):
    """C05, C08, C22: more than a thousand requests of one client or pool that wait at the same time"""
    sc = Sc("outstanding", rng)
    r = rng
    sc.raw_listen(50)
    kind = pick(r, "client", "client", "pool")
    e = sc.ep(kind, 50, [sc.handler("x", [{"echo": 1}])], n=3, tmo=600000)
    sc.start(e)
    conns = ["%d.%d" % (e, i) for i in range(3 if kind == "pool" else 1)]
    n = r.choice([600, 1100, 1100, 2100])
    ops = []
    for i in range(n):
        ops.append(sc.call("stream" if r.random() < 0.02 else "req", e, "q"))
        if i % 200 == 199:
            sc.settle()
    sc.settle()
    first = ops[:3] + ops[-3:] + r.sample(ops, 20)
    r.shuffle(first)
    for o in first:
        sc.frame(r.choice(conns), pick(r, "R", "I", "E", "X"), "x", ref="t:" + sc.ops[o]["tag"], code=404, msg="FAILa;")
        if r.random() < 0.3:
            sc.settle()
    sc.settle()
    return sc.finish(0)


def long_streams(rng):
    """C06: more than a thousand replies, all of which are read"""
    sc = Sc("long_streams", rng)
    r = rng
    sc.raw_listen(50)
    e = sc.ep("client", 50, [sc.handler("x", [{"echo": 1}])], tmo=r.choice([None, 100]))
    sc.start(e)
    c = "%d.0" % e
    o = sc.call("stream", e, "q")
    sc.settle()
    n, k = r.choice([1100, 2100]), r.choice([1, 10, 40])
    for i in range(0, n, k):
        for _ in range(k):
            sc.frame(c, pick(r, "R", "R", "I"), "x", ref="t:" + sc.ops[o]["tag"])
        for _ in range(k):
            sc.do("next", o=o)
            sc.settle()
    sc.frame(c, pick(r, "E", "X"), "x", ref="t:" + sc.ops[o]["tag"], code=404, msg="FAILa;")
    for _ in range(2):
        sc.do("next", o=o)
        sc.settle()
    return sc.finish(0)


def many_drops(rng):
    """C23: more than a thousand operations that are dropped"""
    sc = Sc("many_drops", rng)
    r = rng
    sc.raw_listen(50)
    kind = pick(r, "client", "client", "pool")
    e = sc.ep(kind, 50, [sc.handler("x", [{"echo": 1}])], n=2, tmo=600000)
    sc.start(e)
    link = "%d.0" % e
    n, k = r.choice([1100, 2100, 2100]), r.choice([10, 50])
    what = pick(r, ("req",), ("req",), ("req", "stream"), ("stream",), ("emit",))
    for i in range(0, n, k):
        hold = r.random() < 0.3
        if hold:
            sc.do("fhold", c=link, v=True)
        ops = [sc.call(pick(r, *what), e, "q") for _ in range(k)]
        if not hold and r.random() < 0.8:
            sc.settle()
        else:
            sc.do("yield", n=r.randrange(4))
        for o in ops:
            sc.do("drop", o=o)
        if hold:
            sc.do("fhold", c=link, v=False)
    sc.settle()
    for kind in ("req", "stream", "emit"):
        o = sc.call(kind, e, "q")
        sc.settle()
        sc.frame(link, "R", "x", ref="t:" + sc.ops[o]["tag"])
        if kind == "stream":
            sc.do("next", o=o)
        sc.settle()
    return sc.finish(0)


def drops(rng, at=None):
    """C23: an operation dropped at an arbitrary moment"""
    sc = Sc("drops", rng)
    r = rng
    on = [sc.handler("a", [{"emit": {"nm": "b", "tag": sc.tag("e")}}, {"emit": {"nm": "b", "tag": sc.tag("e")}}, {"echo": 1}]), sc.handler("f", [{"err": "1"}]),
          sc.handler("b", []), sc.handler("g", [{"gate": sc.gate()}, {"echo": 1}])]
    fl = {"seed": r.randrange(1 << 30), "wmax": r.choice([0, 0, 1, 5, 50]), "pend": r.choice([0, 2, 4]), "buffered": r.random() < 0.4, "rmax": r.choice([0, 5])}
    # (with so little at a time a long event takes ages)
    big = r.choice([9000, 70000, 140000, 300000]) if fl["wmax"] in (0, 50) and fl["rmax"] == 0 and r.random() < 0.5 else 1500
    if big > 1500 and fl["wmax"]:
        fl["wmax"] = r.choice([4096, 65536])
    raw = r.random() < 0.4
    if raw:
        sc.raw_listen(50)
    else:
        s = sc.ep("server", 1, on, flavor=fl)
        sc.start(s)
    c = sc.ep(pick(r, "client", "pool"), 50 if raw else 1, [sc.handler("b", [])], flavor=fl, n=1)
    sc.start(c)
    link = "%d.0" % c
    bl = None
    k = r.random()
    if k < 0.5:
        bl = "wblock"
        sc.do("wblock", c=link, n=r.choice([0, 1, 5, 9, 10, 20, 35, 50] + ([big // 2, big - 1, 66000] if big > 1500 else [])))
    elif k < 0.7:
        bl = "fhold"
        sc.do("fhold", c=link, v=True)
    victims = []
    for _ in range(r.choice([1, 1, 2, 3])):
        kind = pick(r, "emit", "req", "stream")
        victims.append(sc.call(kind, c, pick(r, "a", "f", "g"), size=r.choice([0, 0, 100, 1500, big])))
        if r.random() < 0.3:
            sc.do("yield", n=r.randrange(0, 8))
    after = []
    if r.random() < 0.5:
        after.append(sc.call(pick(r, "emit", "req", "stream"), c, pick(r, "a", "b"), size=r.choice([0, 300])))
    n = r.randrange(0, 14) if at is None else at
    if n:
        sc.do("yield", n=n)
    elif r.random() < 0.5:
        sc.settle()
    if r.random() < 0.3 and bl == "wblock":
        sc.do("wblock", c=link, n=r.choice([1, 7, 30]))
        sc.do("yield", n=r.randrange(0, 6))
    for o in victims:
        if sc.ops[o]["kind"] == "stream" and r.random() < 0.5:
            sc.do("next", o=o)
            sc.do("yield", n=r.randrange(0, 5))
        if r.random() < 0.85:
            sc.do("drop", o=o)
    if r.random() < 0.5:
        sc.do("yield", n=r.randrange(0, 6))
    after.append(sc.call(pick(r, "emit", "req", "stream"), c, pick(r, "a", "b"), size=r.choice([0, 300])))
    if bl:
        if r.random() < 0.5:
            sc.settle()
        sc.do("wblock", c=link)
        sc.do("fhold", c=link, v=False)
    sc.settle()
    for o in victims + after:
        if raw:
            sc.frame(link, "R", "b", ref="t:" + sc.ops[o]["tag"])
            sc.frame(link, pick(r, "E", "X"), "end", ref="t:" + sc.ops[o]["tag"], code=500, msg="FAILz;")
    sc.settle()
    for o in after:
        if sc.ops[o]["kind"] == "stream":
            for _ in range(4):
                sc.do("next", o=o)
                sc.settle()
    sc.call("req", c, "a", tmo=100)
    sc.settle()
    return sc.finish(r.choice([0, 3000, 70000]))


def over(transport, base, rng):
    """The same over another transport, where the scenario can't hold back what the transport does"""
    s = base(rng)
    real = transport not in ("mem", "enc")
    steps = []
    for x in s["steps"]:
        if x["do"] in ("wblock", "fhold", "rhold", "refuse"):
            continue
        if x["do"] == "end":
            x = dict(x, err=False)
        if x["do"] == "adv" and real:
            x = dict(x, ms=min(x["ms"], 30))
        if x["do"] == "connect":
            x = dict(x)
        steps.append(x)
    s["steps"] = steps
    s["transport"] = transport
    s["name"] = transport + "-" + s["name"]
    return s


def transports(rng):
    """C24: everything else, over all transports"""
    t = rng.choice(["tcp", "unix", "enc", "enctcp", "encunix"])
    return over(t, rng.choice([routing, replies, finals, nesting, fidelity, endings, drops, general, independence, timeouts, malformed, concurrent_writes]), rng)


def plain_transports(rng):
    """those that exist without the optional features"""
    t = rng.choice(["tcp", "unix", "mem"])
    return over(t, rng.choice([routing, replies, finals, nesting, fidelity, endings, general, independence]), rng)


FAMILIES = {f.__name__: f for f in (general, fidelity, malformed, concurrent_writes, routing, replies, timeouts, finals, nesting, collisions,
                                    independence, crowd, endings, busy, flood, outstanding, long_streams, many_drops, drops, huge, huge_transports, transports, plain_transports)}
