"""Scenarios for ids, pools and shared data (driver modes "ids", "pool", "store"), and their traces."""

ABSENT = -999999


# ---------------------------------------------------------------- ids

def ids(r):
    steps = []
    for _ in range(r.randrange(1, 4)):
        th = r.choice([1, 2, 3, 8, 8])
        steps.append({"do": "make", "threads": th, "n": r.choice([10, 1000, 20000 // th]),
                      "kinds": r.choice([["I"], ["I", "R"], ["I", "R", "E", "X"], ["E"], ["X", "R"]]),
                      "clock": r.choice(["real", "frozen", "back", "jump"])})
    return {"name": "ids", "steps": steps}


def ids_many(r):
    th = r.choice([1, 4, 8])
    return {"name": "ids_many", "steps": [{"do": "make", "threads": th, "n": 600000 // th, "kinds": ["I", "R", "E", "X"],
                                           "clock": r.choice(["real", "frozen"])}]}


def ids_real(r):
    """spans at least one change of the millisecond and of the second"""
    return {"name": "ids_real", "steps": [
        {"do": "make", "threads": 8, "n": 40000, "kinds": ["I", "X"], "clock": "real"} for _ in range(3)]}


def ids_mass(r):
    """more than 2^24 while the clock stands still"""
    return {"name": "ids_mass", "steps": [{"do": "make", "threads": 8, "n": (1 << 21) + 5000, "kinds": ["I", "X"], "clock": "frozen", "mass": True}]}


def ids_emit(r):
    return {"name": "ids_emit", "steps": [{"do": "emit", "threads": r.choice([2, 6]), "n": r.choice([30, 90]), "clock": r.choice(["real", "frozen", "jump"])}]}


# ---------------------------------------------------------------- pools

class P:
    def __init__(self, r):
        self.r, self.steps, self.next = r, [], 1
        self.objs, self.guards = {}, {}   # object -> pool, guard -> pool

    def new(self):
        self.next += 1
        return self.next

    def build(self, n, addr=1):
        o = self.new()
        self.steps.append({"do": "build", "obj": o, "n": n, "addr": addr})
        if n > 0 and addr == 1:
            self.objs[o] = o
        return o

    def op(self, objs, guards, out, acq=0.45):
        r = self.r
        x = r.random()
        if x < acq and objs:
            o, g = r.choice(sorted(objs)), self.new()
            out.append({"do": "acq", "obj": o, "g": g})
            guards[g] = objs[o]
        elif x < acq + 0.15 and guards:
            g, a = r.choice(sorted(guards)), self.new()
            out.append({"do": "cloneg", "g": g, "as": a})
            guards[a] = guards[g]
        elif x < acq + 0.40 and guards:
            g = r.choice(sorted(guards))
            out.append({"do": "dropg", "g": g})
            del guards[g]
        elif x < acq + 0.48 and objs:
            o, a = r.choice(sorted(objs)), self.new()
            out.append({"do": "clonep", "obj": o, "as": a})
            objs[a] = objs[o]
        elif len(objs) > 1:
            o = r.choice(sorted(objs))
            if list(objs.values()).count(objs[o]) > 1:
                out.append({"do": "dropp", "obj": o})
                del objs[o]

    def drain(self, k):
        """many acquisitions without a drop in between: they have to fill up evenly"""
        for _ in range(k):
            o, g = self.r.choice(sorted(self.objs)), self.new()
            self.steps.append({"do": "acq", "obj": o, "g": g})
            self.guards[g] = self.objs[o]


def pool(r):
    p = P(r)
    for _ in range(r.choice([1, 1, 2])):
        p.build(r.choice([1, 2, 2, 3, 4, 7]))
    if r.random() < 0.15:
        p.build(0)
    if r.random() < 0.1:
        p.build(r.randrange(1, 3), addr=2)
    for _ in range(r.randrange(5, 45)):
        p.op(p.objs, p.guards, p.steps)
    p.drain(r.randrange(0, 9))
    return {"name": "pool", "raw": [1], "steps": p.steps}


def pool_many(r):
    """connections that are used very often at once, and big pools"""
    p = P(r)
    p.build(r.choice([2, 2, 3, 3, 4, 9, 20, 40, 70]))
    for _ in range(r.randrange(3, 12)):
        p.op(p.objs, p.guards, p.steps, 0.6)
    many = {}
    for _ in range(r.randrange(2, 9)):
        if not p.guards:
            p.drain(1)
        if many and r.random() < 0.3:
            a = r.choice(sorted(many))
            k = r.choice([min(1, many[a]), many[a] // 2, many[a]])
            p.steps.append({"do": "unbundle", "g": a, "n": k})
            many[a] -= k
        else:
            g, a = r.choice(sorted(p.guards)), p.new()
            n = r.choice([7, 15, 31, 63, 100, 127, 200, 255, 256, 511, 1000, 4096, 32768, 65535, 65536]) + r.randrange(-3, 3)
            many[a] = n
            p.steps.append({"do": "bundle", "g": g, "as": a, "n": n})
        for _ in range(r.randrange(0, 6)):
            p.op(p.objs, p.guards, p.steps, 0.7)
    p.drain(r.randrange(0, 9))
    if r.random() < 0.15:
        p.drain(r.choice([60, 140, 290]))
    return {"name": "pool_many", "raw": [1], "steps": p.steps}


def pool_threads(r):
    p = P(r)
    p.build(r.choice([2, 3, 4]))
    for _ in range(r.randrange(2, 10)):
        p.op(p.objs, p.guards, p.steps)
    n = r.choice([2, 2, 3])
    while len(p.objs) < n + 1:
        o, a = r.choice(sorted(p.objs)), p.new()
        p.steps.append({"do": "clonep", "obj": o, "as": a})
        p.objs[a] = p.objs[o]
    for _ in range(r.randrange(1, 3)):
        keep = sorted(p.objs)[0]
        objs = [o for o in sorted(p.objs) if o != keep]
        guards = sorted(p.guards)
        r.shuffle(objs), r.shuffle(guards)
        ths, allobjs, allguards = [], {keep: p.objs[keep]}, {}
        for i in range(n):
            mo = {o: p.objs[o] for o in objs[i::n]}
            mg = {g: p.guards[g] for g in guards[i::n]}
            t = {"pools": sorted(mo), "guards": sorted(mg), "ops": []}
            for _ in range(r.randrange(1, 5)):
                p.op(mo, mg, t["ops"])
            ths.append(t)
            allobjs.update(mo)
            allguards.update(mg)
        p.steps.append({"do": "par", "threads": ths})
        p.objs, p.guards = allobjs, allguards
        while len(p.objs) < n + 1:
            o, a = r.choice(sorted(p.objs)), p.new()
            p.steps.append({"do": "clonep", "obj": o, "as": a})
            p.objs[a] = p.objs[o]
    p.drain(r.randrange(3, 12))
    return {"name": "pool_threads", "raw": [1], "steps": p.steps}


def pool_stress(r):
    p = P(r)
    p.build(r.choice([2, 3, 5]))
    for _ in range(r.randrange(0, 10)):
        p.op(p.objs, p.guards, p.steps)
    if r.random() < 0.5:
        p.steps.append({"do": "stress", "obj": sorted(p.objs)[0], "threads": 6, "n": 3000})
    else:
        p.steps.append({"do": "bare", "obj": sorted(p.objs)[0], "threads": r.choice([2, 4, 8]), "n": 12000})
    p.drain(r.randrange(6, 16))
    return {"name": "pool_stress", "raw": [1], "steps": p.steps}


# ---------------------------------------------------------------- shared data

class S:
    def __init__(self, r):
        self.r, self.a = r, 0

    def acc(self, deep=2, namespaces=("", "a", "b"), slow=True):
        r = self.r
        self.a += 1
        me = self.a
        ops = []
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            k = r.randrange(1, 4)
            y = r.choice([0, 0, 1, 3]) if slow else r.choice([0, 1])
            if x < 0.35:
                ops.append(["rd", k, y])
            elif x < 0.75:
                ops.append(["up", k, r.randrange(1, 9), y])
            elif x < 0.85:
                ops.append(["set", k, r.choice([r.randrange(100), None])])
            elif deep:
                ops.append(["fwd", r.choice(namespaces), self.acc(deep - 1, namespaces, slow)])
        return {"a": me, "ops": ops}

    def build(self):
        """calls of the builder and what they insert"""
        r = self.r
        calls = [["on"], ["ns", "a"], ["addns", "b"]]
        for _ in range(r.randrange(0, 4)):
            calls.append(["ins", r.randrange(1, 4), r.randrange(100)])
        if r.random() < 0.4:
            calls.append(["all", [[k, r.randrange(100)] for k in r.sample([1, 2, 3], r.randrange(0, 4))]])
        if r.random() < 0.3:
            calls.append(["provider"])
        if r.random() < 0.3:
            calls.append(["timeout", 5000])
        r.shuffle(calls)
        ins = []
        for c in calls:
            if c[0] == "ins":
                ins.append([c[1], c[2]])
            if c[0] == "all":
                ins += c[1]
        return calls, ins


def store(r, mt=False):
    s = S(r)
    steps = []
    servers, users, pools, ep = [], [], [], 0
    for i in range(r.choice([1, 1, 2])):
        ep += 1
        b, ins = s.build()
        steps.append({"do": "start", "ep": ep, "kind": "server", "addr": ep, "build": b, "ins": ins})
        servers.append(ep)
    for i in range(r.randrange(1, 4)):
        ep += 1
        b, ins = s.build()
        kind = r.choice(["client", "client", "pool"])
        steps.append({"do": "start", "ep": ep, "kind": kind, "addr": r.choice(servers), "build": b, "ins": ins, "n": r.choice([1, 2, 3])})
        users.append(ep)
        if kind == "pool":
            pools.append(ep)
    for i in range(r.randrange(4, 20)):
        x = r.random()
        u = r.choice(users)
        k = {"keep": r.random() < 0.7}
        if x < 0.35:
            steps.append(dict(k, do="acc", ep=u, acc=s.acc(2)))
        elif x < 0.85:
            steps.append(dict(k, do="send", ep=u, ns=r.choice(["", "a", "b"]), acc=s.acc(2)))
        else:
            steps.append({"do": r.choice(["settle", "yield"])})
    steps.append({"do": "settle"})
    # at last, everybody looks at everything
    for u in users:
        look = [["rd", 1, 0], ["rd", 2, 0], ["rd", 3, 0]]
        s.a += 1
        steps.append({"do": "acc", "ep": u, "acc": {"a": s.a, "ops": look}, "keep": True})
        for _ in range(2 if u in pools else 1):
            for ns in ("", "a", "b"):
                s.a += 1
                a = {"a": s.a, "ops": list(look)}
                if ns == "a":
                    s.a += 1
                    a["ops"].append(["fwd", r.choice(["", "a", "b"]), {"a": s.a, "ops": look}])
                steps.append({"do": "send", "ep": u, "ns": ns, "acc": a, "keep": True})
    steps.append({"do": "settle"})
    return {"name": "store_threads" if mt else "store", "mt": mt, "steps": steps}


def store_threads(r):
    return store(r, True)


# ---------------------------------------------------------------- leaks

FAST = ("emit emitto unhandled nowhere emitbad req reqto requnhandled reqnowhere reqerr reqbad reqmany reqask reqnever reqpolled stream streamto "
        "streamerr streambad streamunread streamatonce streamnever response clone").split()
SLOW = "reqlong reqtimeout reqtimeouterr reqaskdrop reqpanic reqdrop streamtimeout streamtimeout2 streamdrop".split()
RAW = "rawreply rawend rawerror rawinitial rawreplyname rawendname rawerrorname rawinitialname rawspace".split()
CONN = "conngarbage conncut connsilent conndeaf connbusy connstop conninflight connpending connstream".split()
ENC = "connencgarbage connenccut connencslow connenc connencunknown connencabandoned".split()


def leak_rounds(r, kinds, n, start=None):
    par = r.choice([1, 4, 16])
    fl = {"seed": r.randrange(1 << 30), "wmax": r.choice([0, 0, 30]), "pend": r.choice([0, 0, 2]), "buffered": r.random() < .3, "rmax": r.choice([0, 0, 40])}
    steps = [{"do": "server", "flavor": fl}, {"do": "raw", "flavor": fl}]
    if start:
        steps.append(dict(start, flavor=fl))
    for i in range(4):
        steps.append({"do": "round", "kinds": kinds, "n": n, "par": par, "warm": i == 0, "flavor": fl})
    return {"name": "leak", "steps": steps}


def leak(r):
    kinds = [r.choice(r.choice([FAST, FAST, SLOW, RAW]))]
    for _ in range(r.choice([0, 0, 1, 4])):
        kinds.append(r.choice(FAST + SLOW + RAW))
    return leak_rounds(r, kinds, r.choice([1500, 2500]), r.choice([{"do": "client"}, {"do": "client"}, {"do": "pool", "n": r.randrange(1, 4)}]))


_every = []


def leak_kinds(r):
    """every kind, one after the other"""
    if not _every:
        _every.extend(FAST + SLOW + RAW + CONN + ENC)
    k = _every.pop()
    if k in CONN + ENC:
        return leak_rounds(r, [k], 1000)
    return leak_rounds(r, [k], 2000, r.choice([{"do": "client"}, {"do": "client"}, {"do": "pool", "n": 2}]))


def leak_refused(r):
    """the connection does not accept data anymore"""
    s = leak_rounds(r, [r.choice(FAST[:6] + ["req", "stream", "reqdrop", "reqtimeout"])], 2000, {"do": "client"})
    s["steps"].insert(3, {"do": "refuse"})
    return s


# ---------------------------------------------------------------- building

def built(r, plain=False):
    """servers, clients and pools on all transports, most of which can be built"""
    trs = ["tcp", "unix", "mem"] if plain else ["tcp", "unix", "mem", "enctcp", "encunix", "enc"]
    space = {"tcp": "tcp", "enctcp": "tcp", "unix": "unix", "encunix": "unix"}
    steps, n = [], 0
    up, at, stale, clients = {}, {}, set(), []
    for _ in range(r.choice([4, 8, 14])):
        k = r.random()
        tr = r.choice(trs)
        ttl = r.choice([None, None, 1, 17, 64, 200, 255])
        n += 1
        if k < 0.35:
            a = r.choice([0, 1, 1, 2, 3])
            steps.append({"do": "server", "n": n, "tr": tr, "a": a, "ttl": ttl})
            key = (space.get(tr, "mem"), a)
            if a and key not in at and key not in stale:
                up[n], at[key] = tr, n
        elif k < 0.75:
            pool = r.random() < 0.4
            c = {"do": "pool" if pool else "client", "n": n, "ttl": ttl, "size": r.choice([0, 1, 2, 5]) if pool else 1}
            j = r.random()
            if j < 0.7 and at:
                key = r.choice(sorted(at))
                c.update(tr=up[at[key]], a=key[1])
                if not pool or c["size"]:
                    clients.append(n)
            elif j < 0.8:
                c.update(tr=tr, a=0)
            else:
                free = [a for a in (1, 2, 3, 9) if (space.get(tr, "mem"), a) not in at]
                c.update(tr=tr, a=r.choice(free))
            steps.append(c)
        elif k < 0.9 and clients:
            steps.append({"do": "ask", "n": r.choice(clients)})
        elif k < 0.94 and not any(a[0] == "unix" and a[1] == 3 for a in at) and ("unix", 3) not in stale:
            steps.append({"do": "file", "a": 3})
            stale.add(("unix", 3))
            steps.append({"do": "server", "n": n, "tr": "unix", "a": 3})
            steps.append({"do": "look", "a": 3})
        elif at:
            key = r.choice(sorted(at))
            steps.append({"do": "down", "n": at[key]})
            del up[at[key]], at[key]
            if key[0] == "unix":
                # nobody knows what becomes of the address
                at[key] = 0
                up[0] = "unix"
                steps.append({"do": "ask", "n": r.choice(clients)}) if clients else None
                break
    for c in clients:
        steps.append({"do": "ask", "n": c})
    return {"name": "built", "steps": steps}


def built_plain(r):
    return built(r, True)


FAMILIES = {f.__name__: f for f in (ids, ids_many, ids_real, ids_mass, ids_emit, pool, pool_many, pool_threads, pool_stress, store, store_threads,
                                   leak, leak_kinds, leak_refused, built, built_plain)}

KEEP = {
    "built": {"default", "try", "sock", "built", "who", "down", "file", "look"},
    "ids": {"ids", "told"},
    "leak": {"begin", "ended", "mem"},
    "pool": {"bp", "open", "built", "b", "r", "is", "stress", "bundle", "unbundle"},
    "store": {"build", "rd", "up", "acc", "fin", "idle", "sendfail"},
}
BAD = {"panic", "crash", "hang", "startfail"}


def to_traces(mode):
    def f(scs, recs):
        out = []
        for sc, ev in zip(scs, recs):
            done = any(e["e"] == "end" for e in ev)
            bad = any(e["e"] in BAD for e in ev)
            ev = [e for e in ev if e["e"] in KEEP[mode] or e["e"] in BAD]
            if mode == "pool":
                where = {e["g"]: e["c"] for e in ev if e["e"] == "is"}
                raw = {s.get("obj"): s["addr"] in sc["raw"] for s in sc["steps"] if s["do"] == "build"}
                ev = [e for e in ev if e["e"] != "is"]
                for e in ev:
                    if e["e"] == "b":
                        e["c"] = where.get({"acq": e["g"], "cloneg": e["as"]}.get(e["k"]), 0)
                    if e["e"] == "built":
                        e["listening"] = raw[e["obj"]]
            if not done and not bad:
                ev.append({"e": "crash", "t": 0})
            out.append({"name": sc["name"], "ev": ev})
        return out
    return f
