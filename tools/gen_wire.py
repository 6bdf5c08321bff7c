"""Bytes and events for driver mode "wire", specification Wire."""
import struct

NAMES = ["n", "n1", "", "nö", "日", "a" * 300, "\ufffd", "n\ufffd", "\ufffdn", "😀", "Nö", "\ufeffn", "no\u0308"]
SPACES = ["s", "sé", "\ufffd", "s\ufffd", "b" * 257]
TEXTS = ["n", "n", "n1", "", "nö", "日", "😀", "\u07ff\u0800\uffff", "\U00010000\U0010ffff", "\u0000", "x y\n", "a" * 300, "other", "Nö", "\ufeffn", "n\ufeff", "no\u0308", "\u00a0n", "n\u200b", "\u202en"]
BROKEN = [[0x80], [0xBF], [0xC0, 0x80], [0xC1, 0xBF], [0xC2], [0xC2, 0x41], [0xDF, 0xC0], [0xE0, 0x80, 0x80], [0xE0, 0x9F, 0xBF], [0xE0, 0xA0], [0xED, 0xA0, 0x80],
          [0xED, 0xBF, 0xBF], [0xEF, 0xBF], [0xF0, 0x80, 0x80, 0x80], [0xF0, 0x8F, 0xBF, 0xBF], [0xF4, 0x90, 0x80, 0x80], [0xF5, 0x80, 0x80, 0x80], [0xF8], [0xFE], [0xFF],
          [0xF0, 0x9F, 0x98], [110, 0xFF], [0xFF, 110], [110, 0xC3], [0xE2, 0x28, 0xA1]]


def on():
    o = [{"ns": [], "nm": list(n.encode())} for n in NAMES]
    # one name per namespace
    return o + [{"ns": list(s.encode()), "nm": list(n.encode())} for s, n in zip(SPACES, ["n", "n", "n", "", "nö"])]


def b(x):
    return list(x) if isinstance(x, (bytes, list)) else list(x.encode())


def frame(id=5, ty=0, ref=None, ns=b"", nm=b"n", data=b"", ver=(0, 9, 0), extra=b"", total=None, hl=None):
    h = bytes(ver) + struct.pack(">Q", id) + bytes([ty])
    h += b"\0" if ref is None else b"\xff" + struct.pack(">Q", ref)
    h += struct.pack(">H", len(ns)) + bytes(ns) + struct.pack(">H", len(nm)) + bytes(nm) + bytes(extra)
    return struct.pack(">QH", len(h) + len(data) if total is None else total, len(h) if hl is None else hl) + h + bytes(data)


def base(r, small=False):
    nm = bytes(b(r.choice(TEXTS[:5] if small else TEXTS)))
    ns = bytes(b(r.choice(["", "", "s", "sé"] if small else ["", "", "s", "sé", "\ufffd", "b" * 257, "elsewhere", "s" * 2])))
    return dict(id=r.choice([0, 1, 255, 1 << 32, (1 << 63) + 9, (1 << 64) - 1, r.randrange(1 << 64)]), ty=r.choice([0, 0, 0, 1, 2, 3]),
                ref=r.choice([None, None, 0, 3, (1 << 64) - 1]), ns=ns, nm=nm, data=bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 3, 20]))))


def flavor(r):
    f = {"seed": r.randrange(1 << 30)}
    if r.random() < 0.3:
        f["rmax"] = r.choice([1, 2, 3, 9])
    if r.random() < 0.2:
        f["pend"] = r.choice([1, 4])
    if r.random() < 0.2:
        f["wmax"] = r.choice([1, 5])
    return f


def dec(r, data, p=0.3, **kw):
    s = {"do": "dec", "bytes": b(data), "flavor": flavor(r)}
    if r.random() < p and data:
        s["cuts"] = sorted(r.randrange(len(data)) for _ in range(r.randrange(1, 5)))
    if r.random() < 0.25:
        s["eof"] = True
        s["err"] = r.random() < 0.5
    s.update(kw)
    return s


def scenario(r, name, steps):
    return {"name": name, "side": r.choice(["server", "server", "client"]), "on": on(), "steps": steps}


def streams(r):
    """several events in a row"""
    steps = []
    for _ in range(12):
        fs = []
        for _ in range(r.choice([1, 2, 3, 6])):
            f = base(r)
            if r.random() < 0.4:
                f["ver"] = (0, r.randrange(256), r.randrange(256))
            if r.random() < 0.4:
                f["extra"] = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 8, 100])))
            if r.random() < 0.05:
                f["data"] = bytes([r.randrange(256)]) * r.choice([255, 256, 1023, 1024, 1025, 2000])
            fs.append(frame(**f))
        data = b"".join(fs)
        if r.random() < 0.4:
            data += frame(**base(r))[:r.randrange(1, 40)]
        steps.append(dec(r, data))
    return scenario(r, "streams", steps)


def mutated(r):
    """one byte of an event is replaced: every byte, by everything"""
    f = base(r, small=True)
    ok = frame(**f)
    before = frame(**base(r, small=True)) if r.random() < 0.5 else b""
    after = frame(**base(r, small=True)) if r.random() < 0.7 else b""
    steps = []
    for i in r.sample(range(len(ok)), min(12, len(ok))):
        for v in r.sample(range(256), 3) + r.sample([0, 1, 2, 3, 4, 127, 128, 194, 254, 255], 2):
            steps.append(dec(r, before + ok[:i] + bytes([v]) + ok[i + 1:] + after, 0.1))
    return scenario(r, "mutated", steps)


def edited(r):
    """bytes that are missing, doubled or too many"""
    f = base(r, small=True)
    ok = frame(**f)
    steps = []
    for _ in range(40):
        x = bytearray(ok + frame(**base(r, small=True)) if r.random() < 0.5 else ok)
        for _ in range(r.choice([1, 1, 2, 4])):
            k = r.random()
            i = r.randrange(len(x))
            if k < 0.35:
                del x[i]
            elif k < 0.6:
                x.insert(i, r.choice([0, 255, r.randrange(256)]))
            elif k < 0.8:
                x[i] ^= 1 << r.randrange(8)
            else:
                x = x[:i + 2]
            if len(x) < 2:
                break
        steps.append(dec(r, bytes(x)))
    return scenario(r, "edited", steps)


def truncated(r):
    """every beginning of an event, at the end of the connection or not"""
    f = base(r, small=True)
    ok = frame(**f)
    before = frame(**base(r, small=True)) if r.random() < 0.5 else b""
    return scenario(r, "truncated", [dec(r, before + ok[:n], 0.1, eof=e, err=r.random() < 0.5) for n in range(len(ok)) for e in ((True, False) if r.random() < 0.5 else (True,))])


def lengths(r):
    """length fields that do not fit together, or are huge"""
    steps = []
    for _ in range(30):
        f = base(r, small=True)
        n = len(frame(**f)) - 10
        h = n - len(f["data"])
        k = r.random()
        if k < 0.45:
            f["total"] = r.choice([0, 1, h - 1, h, h + 1, n - 1, n + 1, n + 200, 65535, 65536, 1 << 18, 1 << 20, 1 << 22, 1 << 24, (1 << 26) + 5, 1 << 31, 1 << 32, 1 << 40, 1 << 62, 1 << 63, (1 << 64) - 1,
                                   (1 << 64) - 10, (1 << 32) + n, (1 << 56) + n])
        elif k < 0.7:
            f["hl"] = r.choice([0, 1, 12, 13, 16, 17, h - 1, h + 1, h + 2, n, n + 1, 255, 256, 32767, 65535, r.randrange(65536)])
            if r.random() < 0.5:
                f["total"] = max(n, f["hl"] + len(f["data"]))
        data = bytearray(frame(**f))
        if k >= 0.6:
            p = 10 + 13 + (8 if f["ref"] is not None else 0)
            if r.random() < 0.5:
                p += 2 + len(f["ns"])
            data[p:p + 2] = struct.pack(">H", r.choice([0, 1, 2, 3, len(f["nm"]) + 1, len(f["ns"]) + 1, 255, 256, 65535]))
        steps.append(dec(r, bytes(data) + bytes(r.choice([0, 0, 5, 600])), eof=r.random() < 0.15))
    return scenario(r, "lengths", steps)


def utf8(r):
    """names and namespaces that are not UTF-8"""
    steps = []
    for x in r.sample(BROKEN, 14) + [list(r.choice(TEXTS).encode()) + [r.randrange(128, 256)] for _ in range(3)] + [[r.randrange(194, 245)] + [r.randrange(128, 192) for _ in range(r.randrange(1, 4))] for _ in range(6)]:
        f = base(r, small=True)
        f["ty"] = r.choice([0, 0, 1])
        f[r.choice(["nm", "ns"])] = bytes(x)
        steps.append(dec(r, frame(**f) + frame(), 0.1))
    return scenario(r, "utf8", steps)


def huge(r):
    """large payloads, and how much memory they cost"""
    steps = []
    for _ in range(2):
        f = base(r, small=True)
        n = r.choice([20000, 70000])
        f["data"] = bytes([r.randrange(256)]) * n
        data = frame(**f)
        steps.append(dec(r, data[:r.choice([len(data), len(data) - 1, len(data) // 2])], flavor={"seed": 3}))
    return scenario(r, "huge", steps)


def encoded(r):
    """what events look like"""
    steps = []
    for _ in range(40):
        s = {"do": "enc", "how": r.choice(["event", "emit"]), "ns": b(r.choice(TEXTS + ["", "", ""])), "nm": b(r.choice(TEXTS)),
             "data": [r.randrange(256) for _ in range(r.choice([0, 0, 1, 2, 255, 256, 1025]))], "none": r.random() < 0.5, "flavor": flavor(r)}
        s["ty"] = r.randrange(4) if s["how"] == "event" else 0
        if s["ty"]:
            s["ref"] = str(r.choice([0, 1, 255, 1 << 32, (1 << 63) + 1, (1 << 64) - 1, r.randrange(1 << 64)]))
        steps.append(s)
    return scenario(r, "encoded", steps)


def limits(r):
    """what does not fit, and what just fits"""
    steps = []
    for _ in range(3):
        ty = r.choice([0, 0, 1, 2, 3])
        how = "event" if ty else r.choice(["event", "emit"])
        room = 65535 - 17 - (8 if ty else 0)
        k = r.choice(["nm", "ns", "both"])
        over = r.choice([0, 0, 1, 2, -1, 9, 65536, 131072])
        s = {"do": "enc", "how": how, "ty": ty, "ns": [], "nm": [], "data": [1, 2], "flavor": {"seed": 1}}
        if k == "both":
            a = r.randrange(room + 1)
            s["ns"], s["nm"] = {"n": a, "b": 97}, {"n": room - a + over if room - a + over >= 0 else 0, "b": 98}
        else:
            s[k] = {"n": room + over, "b": 99}
        if ty:
            s["ref"] = "9"
        steps.append(s)
    return scenario(r, "limits", steps)


FAMILIES = dict(streams=streams, mutated=mutated, edited=edited, truncated=truncated, lengths=lengths, utf8=utf8, huge=huge, encoded=encoded, limits=limits)


def to_traces(scs, recs):
    out = []
    for sc, ev in zip(scs, recs):
        done = any(e["e"] == "end" for e in ev)
        bad = any(e["e"] in ("panic", "crash", "hang") for e in ev)
        ev = [e for e in ev if e["e"] in ("enc", "dec", "panic", "crash", "hang")]
        if not done and not bad:
            ev.append({"e": "crash", "t": 0})
        out.append({"name": sc["name"], "on": sc["on"], "ev": ev})
    return out
