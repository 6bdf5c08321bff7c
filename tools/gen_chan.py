"""Scenarios for encrypted connections (driver mode "chan", specification Channel)."""

IDS = list(range(1, 9))
KNOWN = ["C15-directions", "C15-handshake-key"]


def flavor(r):
    k = r.randrange(6)
    f = {"seed": r.randrange(1 << 30)}
    if k == 0:
        return f
    if r.random() < 0.6:
        f["wmax"] = r.choice([1, 2, 3, 7, 20, 100, 1000])
    if r.random() < 0.6:
        f["pend"] = r.choice([1, 2, 4, 6])
    if r.random() < 0.4:
        f["buffered"] = True
    if r.random() < 0.6:
        f["rmax"] = r.choice([1, 2, 3, 5, 17, 64, 1000])
    return f


def tame(r):
    """for large amounts of data"""
    f = {"seed": r.randrange(1 << 30)}
    if r.random() < 0.5:
        f["wmax"] = r.choice([700, 3000])
    if r.random() < 0.5:
        f["pend"] = r.choice([1, 3])
    if r.random() < 0.5:
        f["buffered"] = True
    if r.random() < 0.5:
        f["rmax"] = r.choice([500, 5000])
    return f


def size(r):
    return r.choice([0, 1, 2, 3, 10, 31, 32, 33, 100, 500, 1000, 1022, 1023, 1024, 1025, 1500, 2048, 3000, 5000, r.randrange(1, 2500)])


def caps(r):
    return [r.choice([1, 2, 3, 8, 16, 17, 100, 1000, 1024, 1025, 2000, 4096, 10000]) for _ in range(r.randrange(1, 4))]


class G:
    def __init__(self, r, name, listeners=None):
        self.r, self.n = r, 0
        self.listeners = listeners or [{"addr": 1, "id": 1, "knows": [2, 3, 4], "any": r.random() < 0.2}]
        self.steps = []
        self.name = name

    def do(self, what, **kw):
        self.steps.append(dict(do=what, **kw))

    def settle(self):
        self.do("settle")

    def maybe(self, p=0.3):
        k = self.r.random()
        if k < p:
            self.settle()
        elif k < p + 0.2:
            self.do("yield", n=self.r.randrange(1, 5))

    def pair(self, addr=1, cid=None, knows=None, any_=None, auto=True, fl=flavor, rawc=None, raws=None):
        """a connection; returns (client end, server end)"""
        r = self.r
        a, b = self.n + 1, self.n + 2
        self.n += 2
        l = [x for x in self.listeners if x["addr"] == addr][0]
        cl = {"c": a, "id": cid or r.choice([2, 3]), "knows": knows if knows is not None else [l["id"]],
              "any": any_ if any_ is not None else r.random() < 0.1, "flavor": fl(r), "split": r.random() < 0.5, "auto": auto}
        sv = {"c": b, "addr": addr, "flavor": fl(r), "split": r.random() < 0.5, "auto": auto}
        if rawc is not None:
            cl.update(raw=True, **rawc)
        if raws is not None:
            sv.update(raw=True, id=l["id"])
            sv.update(**raws)
        self.do("connect", client=cl, server=sv)
        return a, b

    def scenario(self, known=KNOWN, **kw):
        self.settle()
        return dict(name=self.name, seed=self.r.randrange(1 << 30), listeners=self.listeners, steps=self.steps, known=known, **kw)


def traffic(g, ends, n, cancel=0.15, eof=False, block=0.15):
    """random use of established connections, in both directions"""
    r = g.r
    blocked = set()
    for c in ends:
        if r.random() < 0.8:
            g.do("rl", c=c, sizes=caps(r))
    for _ in range(n):
        c = r.choice(ends)
        k = r.random()
        if k < 0.25:
            g.do("w", c=c, n=size(r))
            if r.random() < 0.6:
                g.settle()
        elif k < 0.45:
            s = []
            for _ in range(r.randrange(1, 5)):
                s.append(size(r))
                if r.random() < 0.5:
                    s.append(-1)
            g.do("wl", c=c, sizes=s)
        elif k < 0.62:
            g.do("f", c=c)
            g.maybe(0.5)
        elif k < 0.62 + cancel:
            g.do(r.choice(["cw", "cr"]), c=c)
        elif k < 0.62 + cancel + block:
            j = r.randrange(3)
            if j == 0:
                if (c, "w") in blocked:
                    g.do("wblock", c=c)
                    blocked.discard((c, "w"))
                else:
                    g.do("wblock", c=c, n=r.choice([0, 1, 3, 20, 100, 1100]))
                    blocked.add((c, "w"))
            elif j == 1:
                g.do("fhold", c=c, v=(c, "f") not in blocked)
                blocked ^= {(c, "f")}
            else:
                g.maybe()
        else:
            g.do("r", c=c, n=r.choice([1, 2, 5, 16, 100, 1000, 5000]))
        g.maybe(0.25)
    for c, k in sorted(blocked):
        g.do("wblock" if k == "w" else "fhold", c=c, **({} if k == "w" else {"v": False}))
    # everything that was written is read
    for c in ends:
        if r.random() < 0.7:
            g.do("f", c=c)
            if r.random() < 0.4:
                g.settle()
        if r.random() < 0.8:
            g.do("rl", c=c, sizes=caps(r))
    g.settle()


def stream(r):
    g = G(r, "stream")
    ends = []
    for _ in range(r.choice([1, 1, 1, 2])):
        ends += g.pair()
        g.maybe()
    g.settle()
    traffic(g, ends, r.randrange(3, 14))
    # an end to it
    for c in r.sample(ends, r.randrange(0, len(ends) + 1)):
        k = r.random()
        if k < 0.5:
            if r.random() < 0.5:
                g.do("w", c=c, n=size(r))
            g.do("sd", c=c)
        elif k < 0.8:
            g.do("close", c=c)
        else:
            g.do("refuse", c=c)
            g.do("w", c=c, n=size(r))
            g.settle()
            g.do("f", c=c)
        g.maybe()
    for c in ends:
        g.do("rl", c=c, sizes=caps(r))
    g.settle()
    return g.scenario()


def bulk(r):
    """much data, few events"""
    g = G(r, "bulk")
    ends = g.pair(fl=tame)
    g.settle()
    a, b = ends if r.random() < 0.5 else ends[::-1]
    g.do("rl", c=b, sizes=[r.choice([4096, 65536, 200000])])
    g.do("rl", c=a, sizes=[r.choice([4096, 65536, 200000])])
    for x in (a, b):
        n = r.choice([0, 70000, 200000, 1 << 20, (1 << 20) + 1, 3 << 20])
        if n:
            g.do("wl", c=x, sizes=[n, -1, r.choice([1, 1023, 1024, 70000]), -1])
    g.settle()
    g.do("sd", c=a)
    g.settle()
    return g.scenario()


def giant(r):
    """one write of many MiB"""
    g = G(r, "giant")
    ends = g.pair(fl=tame)
    g.settle()
    a, b = ends if r.random() < 0.5 else ends[::-1]
    g.do("rl", c=b, sizes=[1 << 20])
    g.do("wl", c=a, sizes=[r.choice([(4 << 20) - 16, 5 << 20]), -1, 5, -1])
    g.settle()
    g.do("sd", c=a)
    g.settle()
    return g.scenario()


def peers(r):
    """hand-written peers that send packages of any size"""
    g = G(r, "peers")
    sizes = lambda: [r.choice([0, 0, 1, 5, 16, 100, 1024, 3000, 65519, 65520, 70000, 300000, r.randrange(1, 5000)]) for _ in range(r.randrange(1, 6))]
    if r.random() < 0.5:
        a, b = g.pair(rawc={"id": r.choice([2, 3])})
        raw, lib = a, b
    else:
        a, b = g.pair(raws={})
        raw, lib = b, a
    if r.random() < 0.8:
        g.settle()
    if r.random() < 0.7:
        g.do("rl", c=lib, sizes=caps(r))
    for _ in range(r.randrange(1, 5)):
        k = r.random()
        if k < 0.6:
            g.do("raw", c=raw, sizes=sizes())
        elif k < 0.8:
            g.do("wl", c=lib, sizes=[size(r), -1])
        elif k < 0.9:
            g.do("raw", c=raw, sizes=[r.choice([0, 10, 2000])], nonce=r.choice([0, 1, 2, 7, 256, 1 << 32]))
        else:
            g.do("r", c=lib, n=r.choice([1, 100, 70000]))
        g.maybe()
    if r.random() < 0.4:
        g.do("close", c=raw)
    g.do("rl", c=lib, sizes=caps(r))
    g.settle()
    return g.scenario()


def forward_some(g, c, k=None):
    r = g.r
    kw = {"k": k or r.choice([1, 1, 2, 3, 10])}
    if r.random() < 0.4:
        kw["pieces"] = r.choice([1, 2, 3, 5, 20, 500])
    g.do("fwd", c=c, **kw)


def tamper_once(g, c, others):
    """spoils what is at the head of the queue of c, or what reaches its peer"""
    r = g.r
    peer = c + 1 if c % 2 else c - 1
    k = r.randrange(13)
    if k == 0:
        g.do("lose", c=c)
    elif k == 1:
        g.do("dup", c=c)
    elif k == 2:
        g.do("swap", c=c)
    elif k in (3, 4, 5):
        g.do("flip", c=c, at=r.choice([0, 1, 2, 3, 4, 5, 8, 20, 10**6, r.randrange(2000)]), bit=r.randrange(8))
    elif k == 6:
        g.do("cut", c=c, n=r.choice([1, 3, 4, 5, 19, 20, 30, 100]))
    elif k == 7:
        g.do("grow", c=c, n=r.choice([1, 4, 16, 100]))
    elif k == 8:
        g.do("len", c=c, v=r.choice([0, 1, 15, 16, 17, 31, 40, 1000, 1040, 1 << 20, (1 << 32) - 1]))
    elif k == 9:
        g.do("garbage", c=peer, n=r.choice([1, 4, 16, 40, 100]), seed=r.randrange(1 << 30),
             **({"len": r.choice([0, 1, 16, 40, 36])} if r.random() < 0.7 else {}))
    elif k == 10:
        # again (a data package; not the one that is expected)
        g.do("inject", c=peer, f=c, i=r.choice([1, 2, 3]))
    elif k == 11 and others:
        f = r.choice(others)
        g.do("inject", c=peer, f=f, i=r.choice([2, 3, 4]))
    elif k == 12:
        g.do("eof", c=peer)


def tamper(r):
    g = G(r, "tamper")
    others = []
    if r.random() < 0.5:
        x, y = g.pair()
        g.settle()
        for c in (x, y):
            g.do("wl", c=c, sizes=[10, -1, 1030, -1, 5, -1, 7, -1])
        g.settle()
        others = [x, y]
    a, b = g.pair(auto=False)
    ends = [a, b]
    early = r.random() < 0.3
    if early:
        for _ in range(r.randrange(1, 6)):
            c = r.choice(ends)
            if r.random() < 0.3:
                # old server handshakes are only replayed in replayed_server()
                tamper_once(g, c, [])
            g.maybe(0.2)
            forward_some(g, c, 1)
            g.maybe(0.5)
    for _ in range(3):
        for c in ends:
            g.do("fwd", c=c, k=1)
            g.settle()
    g.settle()
    for c in ends:
        if r.random() < 0.7:
            g.do("rl", c=c, sizes=caps(r))
        g.do("wl", c=c, sizes=sum([[r.choice([1, 5, 100, 1030, 2000]), -1] for _ in range(r.randrange(1, 6))], []))
        g.maybe()
    g.settle()
    for _ in range(r.randrange(1, 10)):
        c = r.choice(ends)
        k = r.random()
        if k < 0.35:
            tamper_once(g, c, others)
        elif k < 0.8:
            forward_some(g, c)
        elif k < 0.9:
            g.do("wl", c=c, sizes=[size(r), -1])
        else:
            g.do("r", c=c, n=r.choice([1, 50, 3000]))
        g.maybe(0.3)
    for c in ends:
        g.do("fwd", c=c, k=50)
        g.settle()
        g.do("rl", c=c, sizes=caps(r))
        g.do("wl", c=c, sizes=[r.choice([1, 100, 1030]), -1])
        g.settle()
        g.do("fwd", c=c, k=50)
    g.settle()
    for c in ends:
        g.do("r", c=c, n=100)
        g.settle()
        g.do("r", c=c, n=100)
    g.settle()
    return g.scenario()


def wrap(r):
    """C13: a package that was sent a certain number of packages ago, or that comes too early"""
    g = G(r, "wrap")
    a, b = g.pair(auto=False, fl=tame)
    for _ in range(3):
        for c in (a, b):
            g.do("fwd", c=c, k=1)
            g.settle()
    c, d = r.choice([(a, b), (b, a)])
    far = r.choice([1, 2, 3, 8, 16, 100, 127, 128, 255, 256, 257, 512])
    n = far + r.randrange(1, 20)
    g.do("wl", c=c, sizes=[r.choice([1, 3]), -1] * n)
    g.do("rl", c=d, sizes=[3000])
    g.settle()
    g.do("fwd", c=c, k=n)
    g.settle()
    # it has the index 2 or 1 + n (the handshake: the key, the session key of a server)
    last = n + (1 if c % 2 == 0 else 0)
    for i in (last + 1, last, last - 1):
        if r.random() < 0.5:
            break
    g.do("inject", c=d, f=c, i=max(1, i - far))
    g.settle()
    g.do("wl", c=c, sizes=[1, -1])
    g.settle()
    g.do("fwd", c=c, k=2)
    g.settle()
    return g.scenario()


def reflect(r):
    """own packages come back, at another place than their own"""
    g = G(r, "reflect")
    a, b = g.pair(auto=False)
    for _ in range(3):
        for c in (a, b):
            g.do("fwd", c=c, k=1)
            g.settle()
    c, p = r.choice([(a, b), (b, a)])
    own, other = r.randrange(1, 5), r.randrange(0, 5)
    for _ in range(own):
        g.do("wl", c=c, sizes=[r.choice([1, 40, 900]), -1])
        g.settle()
    for _ in range(other):
        g.do("wl", c=p, sizes=[r.choice([1, 40, 900]), -1])
        g.settle()
    g.do("fwd", c=p, k=50)
    g.settle()
    i = r.choice([x for x in range(0, own) if x != other] or [0])
    if i == other:
        return reflect(r)
    # the first package of a server is that of the handshake
    g.do("inject", c=c, f=c, i=i + 1 + (1 if c == b else 0))
    g.settle()
    g.do("rl", c=c, sizes=caps(r))
    g.do("wl", c=p, sizes=[5, -1])
    g.settle()
    g.do("fwd", c=p, k=50)
    g.settle()
    g.do("r", c=c, n=100)
    g.settle()
    return g.scenario()


def use(g, a, b):
    """shows that a connection works"""
    r = g.r
    for c in (a, b):
        g.do("rl", c=c, sizes=caps(r))
        g.do("wl", c=c, sizes=[r.choice([1, 40, 1500]), -1])
    g.settle()


def among(r, ids):
    """known peers, some of them among many that never show up"""
    if r.random() < 0.7:
        return ids
    ids = ids + [1000 + i for i in range(r.choice([1, 3, 9, 40, 70]))]
    r.shuffle(ids)
    return ids


def look_alike(r, i):
    """an identity whose public key is similar to that of i"""
    return 31 + 4 * (i - 1) + r.randrange(4)


def auth(r):
    ids = [1, 5]
    ls = []
    for i, addr in zip(ids, (1, 2)):
        ls.append({"addr": addr, "id": i, "knows": among(r, r.sample([2, 3, 4, 6, 7], r.randrange(0, 6))), "any": r.random() < 0.25})
    g = G(r, "auth", ls)
    late = []
    for _ in range(r.randrange(1, 7)):
        addr = r.choice([1, 2])
        l = ls[addr - 1]
        cid = r.choice([2, 3, 4, 6, 7])
        if r.random() < 0.15:
            cid = look_alike(r, cid)
        knows = among(r, r.choice([[l["id"]], [l["id"]], [l["id"], 8], [], [8], [cid], [ids[2 - addr]], [look_alike(r, l["id"])]]))
        any_ = r.random() < 0.2
        k = r.random()
        if k < 0.55:
            a, b = g.pair(addr=addr, cid=cid, knows=knows, any_=any_)
            late.append((a, b))
            if r.random() < 0.2:
                g.do("yield", n=r.randrange(1, 10))
                g.do("close", c=a)
        elif k < 0.7:
            # a client that claims an identity without its secret, or is genuine
            if r.random() < 0.25:
                cid = 17 + r.randrange(7)
            a, b = g.pair(addr=addr, rawc={"id": cid, "holds": r.choice([cid, 8, 8])})
            if r.random() < 0.7:
                g.settle()
            g.do("raw", c=a, sizes=[r.choice([0, 5, 40])])
            g.do("garbage", c=b, n=40, seed=r.randrange(1 << 30), len=40)
            late.append((b, b))
        elif k < 0.85:
            # a server that claims an identity without its secret, or is genuine
            claimed = r.choice([l["id"], l["id"], 8, 17 + r.randrange(7)])
            a, b = g.pair(addr=addr, cid=cid, knows=knows, any_=any_,
                          raws={"id": claimed, "holds": r.choice([claimed, claimed, 7, 7])})
            g.settle()
            g.do("raw", c=b, sizes=[5])
            late.append((a, a))
        else:
            # attempts that come to nothing
            a, b = g.pair(addr=addr, cid=cid, knows=knows, any_=any_, auto=False)
            for _ in range(r.randrange(0, 3)):
                g.settle()
                c = r.choice([a, b])
                q = r.randrange(7)
                if q == 0:
                    g.do("fwd", c=c)
                elif q == 1:
                    g.do("eof", c=c)
                elif q == 2:
                    g.do("garbage", c=c, n=r.choice([1, 31, 32, 33, 100]), seed=r.randrange(1 << 30))
                elif q == 3:
                    g.do("close", c=c)
                elif q == 4:
                    g.do("key", c=c, id=r.randrange(1, 9))
                elif q == 5:
                    g.do("flip", c=c, at=r.randrange(32), bit=r.randrange(8))
                    g.do("fwd", c=c)
                else:
                    g.do("refuse", c=c)
                    g.do("fwd", c=c)
            if r.random() < 0.5:
                # or to something late
                late.append((a, b))
        if r.random() < 0.15:
            g.do("accept", addr=addr)
        g.maybe(0.4)
    g.settle()
    for a, b in late:
        for c in {a, b}:
            g.do("rl", c=c, sizes=caps(r))
            g.do("wl", c=c, sizes=[r.choice([1, 100]), -1])
    g.settle()
    # in the end good clients are still accepted
    for l in ls:
        good = [i for i in l["knows"] if i < 1000]
        if l["any"] or good:
            a, b = g.pair(addr=l["addr"], cid=good[-1] if good else 2, knows=[l["id"]])
            g.settle()
            use(g, a, b)
    return g.scenario()


def secrecy(r):
    """many connections, packages in both directions"""
    g = G(r, "secrecy", [{"addr": 1, "id": 1, "knows": [2, 3], "any": False}, {"addr": 2, "id": 2, "knows": [1, 3], "any": False}])
    ends = []
    for _ in range(r.randrange(2, 6)):
        addr = r.choice([1, 2])
        cid = r.choice([[2, 3], [1, 3]][addr - 1])
        a, b = g.pair(addr=addr, cid=cid, knows=[addr], fl=tame)
        ends += [a, b]
        g.maybe()
    g.settle()
    for _ in range(r.randrange(1, 5)):
        c = r.choice(ends)
        g.do("wl", c=c, sizes=[r.choice([1, 30, 1024, 5000]), -1] * r.randrange(1, 8))
        g.maybe()
    traffic(g, ends, r.randrange(0, 6))
    return g.scenario()


def many(r):
    """many packages on one connection"""
    g = G(r, "many")
    a, b = g.pair(fl=tame)
    g.settle()
    g.do("rl", c=b, sizes=[3000])
    g.do("wl", c=a, sizes=[1, -1] * 400)
    g.do("wl", c=b, sizes=[1, -1] * r.choice([0, 10, 300]))
    g.settle()
    g.do("rl", c=a, sizes=[3000])
    g.settle()
    return g.scenario()


def crowd(r, n=300):
    """many connections"""
    g = G(r, "crowd")
    for i in range(n):
        a, b = g.pair(fl=tame, knows=[1])
        if i % 20 == 19:
            g.settle()
        if i % 50 == 0:
            g.settle()
            g.do("wl", c=a, sizes=[3, -1])
            g.do("wl", c=b, sizes=[3, -1])
    return g.scenario()


def long(r, n=66000):
    """more packages than fit into two bytes"""
    g = G(r, "long")
    ends = g.pair(fl=lambda r: {"seed": 1}, knows=[1])
    g.settle()
    c, d = r.choice([ends, ends[::-1]])
    g.do("rl", c=d, sizes=[3000])
    g.do("rl", c=c, sizes=[3000])
    g.do("wl", c=d, sizes=[1, -1] * 3)
    for _ in range(4):
        g.do("wl", c=c, sizes=[1, -1] * (n // 4))
        g.settle()
    g.do("wl", c=d, sizes=[1, -1] * 3)
    return g.scenario()


# ---- known findings: histories that show them ----

def reflected(r):
    """C13: a connection's own package is accepted as the peer's"""
    g = G(r, "reflected")
    a, b = g.pair(auto=False, fl=tame, any_=False)
    for _ in range(3):
        for c in (a, b):
            g.do("fwd", c=c, k=1)
            g.settle()
    g.do("wl", c=a, sizes=[20, -1])
    g.settle()
    g.do("r", c=a, n=100)
    g.do("inject", c=a, f=a, i=1)
    g.settle()
    return g.scenario()


def replayed_server(r):
    """C13/C14: what an old connection's server sent is accepted by a new client with the same keys"""
    g = G(r, "replayed_server", [{"addr": 1, "id": 1, "knows": [2], "any": False}])
    a, b = g.pair(cid=2, fl=tame, any_=False)
    g.settle()
    g.do("wl", c=b, sizes=[20, -1])
    g.settle()
    c, d = g.pair(cid=2, fl=tame, any_=False, auto=False)
    g.settle()
    for i in (0, 1, 2):
        g.do("inject", c=c, f=b, i=i)
    g.settle()
    g.do("r", c=c, n=100)
    g.settle()
    return g.scenario()


def both_directions(r):
    """C15: both directions of a connection use the same key and nonces"""
    g = G(r, "both_directions")
    a, b = g.pair(fl=tame)
    g.settle()
    g.do("wl", c=a, sizes=[20, -1])
    g.do("wl", c=b, sizes=[20, -1])
    g.settle()
    return g.scenario(known=["C15-handshake-key"])


def two_handshakes(r):
    """C15: the session keys of all connections between the same peers are sent with the same key and nonce"""
    g = G(r, "two_handshakes", [{"addr": 1, "id": 1, "knows": [2], "any": False}])
    g.pair(cid=2, fl=tame)
    g.settle()
    g.pair(cid=2, fl=tame)
    g.settle()
    return g.scenario(known=["C15-directions"])


def walk(r, w):
    """a walk through GenChannel"""
    name = {"A": 2, "D": 3, "E": 4, "B": 1}
    knows = {x: [name[y] for y in w["knows"][x]] for x in w["knows"]}
    g = G(r, "walk", [{"addr": 1, "id": 1, "knows": knows["B"], "any": False}])
    steps = w["steps"]
    ids = {x["e"]: x["id"] for x in steps if x["a"] == "connect"}
    # whose session key a client takes is its other end
    other = {x["e"]: x["by"] for x in steps if x["a"] == "give" and x["good"] and x["st"] == "key"}
    free = [s for s in (c + 1 for c in ids) if s not in other.values()]
    # (who isn't the other end of anybody)
    for c in ids:
        if c not in other:
            other[c] = c + 1 if c + 1 in free else free[0]
            free.remove(other[c])
    end = {}
    for c in ids:
        if other[c] - 1 not in ids:
            return None
    for c in ids:
        end[c], end[other[c]] = g.pair(cid=name[ids[c]], knows=knows[ids[c]], any_=False, auto=False, fl=flavor if r.random() < 0.5 else tame)
        g.settle()
    for x in steps:
        c = end.get(x["e"])
        if x["a"] == "send":
            g.do("wl", c=c, sizes=[r.choice([1, 30, 700]), -1])
        elif x["a"] == "give" and x["by"]:
            g.do("inject", c=c, f=end[x["by"]], i=x["i"])
        elif x["a"] == "give" and x["i"] == 0:
            g.do("key", c=c, id=4)
        elif x["a"] == "give":
            g.do("garbage", c=c, n=40, len=40, seed=r.randrange(1 << 30))
        if x["a"] != "connect":
            g.settle()
        if r.random() < 0.3 and end:
            g.do(*["r"], c=r.choice(list(end.values())), n=r.choice([1, 20, 5000]))
            g.settle()
    for c in end.values():
        g.do("rl", c=c, sizes=caps(r))
    g.settle()
    return g.scenario()


FAMILIES = dict(stream=stream, bulk=bulk, giant=giant, peers=peers, tamper=tamper, reflect=reflect, wrap=wrap, auth=auth, secrecy=secrecy, many=many, crowd=crowd, long=long,
                reflected=reflected, replayed_server=replayed_server, both_directions=both_directions, two_handshakes=two_handshakes)
