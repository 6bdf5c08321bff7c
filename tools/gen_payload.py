"""Scenarios for payloads (driver mode "payload", specification Payload)."""
import struct

ALL = [0, 1, 2, 3]
FORMATS = ["rmp", "bincode", "postcard", "json"]


def chars(r, n=None):
    n = r.choice([0, 1, 2, 5, 31, 32, 33, 40, 255, 256, 300] if r.random() < 0.3 else [0, 1, 2, 3, 4]) if n is None else n
    s = "".join(r.choice("ab\"\\\n\t c0é日😀\u07ff\uffff") for _ in range(n))
    return list(s.encode())


def small(r):
    return r.choice([0, 1, 5, 23, 127, 128, 255, 256, 257, 1000, 65535, 65536, 16777216, 2000000000, 2**31 - 1, r.randrange(2**31)])


def value(r, t=None):
    t = t or r.choice("usblotnre")
    v = {"t": t}
    if t == "u":
        v["u"] = small(r)
    if t == "s":
        v["s"] = chars(r)
    if t == "b":
        v["b"] = r.random() < 0.5
    if t == "l":
        v["l"] = [small(r) for _ in range(r.choice([0, 1, 2, 3, 15, 16, 17, 130, 260]))]
    if t == "o":
        v["o"] = r.choice([[], [chars(r)]])
    if t == "t":
        v["u"], v["b"] = small(r), r.random() < 0.5
    if t == "r":
        v["u"], v["s"], v["tags"] = small(r), chars(r), [chars(r, r.randrange(3)) for _ in range(r.choice([0, 1, 2, 16]))]
    if t == "e":
        v["e"] = r.choice("ABC")
        v["u"] = {"A": 0, "B": small(r), "C": r.randrange(2)}[v["e"]]
    if r.random() < 0.2:
        v["clone"] = True
    return v


def fmt(r, fs):
    """a format, mostly one that is there"""
    return r.choice(fs) if r.random() < 0.7 else r.randrange(4)


def payload(r, fs, depth=2, kinds=("byte", "err", "serde", "plain", "tandem")):
    k = r.choice(kinds)
    if k == "tandem" and depth == 0:
        k = "plain"
    p = {"k": k}
    if k == "byte":
        p["b"] = [r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 8, 9, 16, 200]))]
    if k == "err":
        p["code"], p["msg"] = r.choice([0, 1, 404, 500, 65535]), chars(r)
    if k == "serde":
        p["fmt"], p["v"] = fmt(r, fs), value(r)
    if k == "plain":
        p["v"] = value(r)
    if k == "tandem":
        p["l"], p["r"] = payload(r, fs, depth - 1), payload(r, fs, depth - 1)
    return p


def shape(r, p):
    s = {"k": p["k"]}
    if p["k"] in ("serde", "plain"):
        # however it was made, it can be received as value or as wrapped value
        s["k"] = r.choice(["serde", "plain"])
        s["t"] = p["v"]["t"]
    if p["k"] == "tandem":
        s["l"], s["r"] = shape(r, p["l"]), shape(r, p["r"])
    return s


def num(f, n):
    if f == 0:
        return bytes([n]) if n < 128 else bytes([0xCC, n]) if n < 256 else b"\xcd" + struct.pack(">H", n) if n < 65536 else b"\xce" + struct.pack(">I", n)
    if f == 1:
        return struct.pack("<I", n)
    if f == 2:
        return bytes([n]) if n < 128 else bytes([128 + n % 128]) + num(2, n // 128)
    return str(n).encode()


def text(f, s):
    s, n = bytes(s), len(s)
    if f == 0:
        return (bytes([0xA0 + n]) if n < 32 else bytes([0xD9, n]) if n < 256 else b"\xda" + struct.pack(">H", n) if n < 65536 else b"\xdb" + struct.pack(">I", n)) + s
    if f == 1:
        return struct.pack("<Q", n) + s
    if f == 2:
        return num(2, n) + s
    return b'"' + s.replace(b"\\", b"\\\\").replace(b'"', b'\\"').replace(b"\n", b"\\n").replace(b"\t", b"\\t") + b'"'


def boolean(f, b):
    return [b"\xc3" if b else b"\xc2", bytes([b]), bytes([b]), b"true" if b else b"false"][f]


def seq(f, items, fixed=False):
    n = len(items)
    if f == 0:
        return (bytes([0x90 + n]) if n < 16 else b"\xdc" + struct.pack(">H", n)) + b"".join(items)
    if f == 1:
        return (b"" if fixed else struct.pack("<Q", n)) + b"".join(items)
    if f == 2:
        return (b"" if fixed else num(2, n)) + b"".join(items)
    return b"[" + b",".join(items) + b"]"


def serialized(f, v):
    t = v["t"]
    if t == "u":
        return num(f, v["u"])
    if t == "s":
        return text(f, v["s"])
    if t == "b":
        return boolean(f, v["b"])
    if t == "l":
        return seq(f, [num(f, x) for x in v["l"]])
    if t == "o":
        if not v["o"]:
            return [b"\xc0", b"\0", b"\0", b"null"][f]
        return (b"\1" if f in (1, 2) else b"") + text(f, v["o"][0])
    if t == "t":
        return seq(f, [num(f, v["u"]), boolean(f, v["b"])], True)
    if t == "n":
        return [b"\xc0", b"", b"", b"null"][f]
    if t == "r":
        parts = [num(f, v["u"]), text(f, v["s"]), seq(f, [text(f, x) for x in v["tags"]])]
        if f == 3:
            return b'{"id":%s,"name":%s,"tags":%s}' % tuple(parts)
        return seq(f, parts, True)
    if t == "e":
        i = "ABC".index(v["e"])
        if f == 0:
            return b"\xa1A" if i == 0 else b"\x81\xa1B" + num(0, v["u"]) if i == 1 else b"\x81\xa1C\x91" + boolean(0, v["u"])
        if f == 3:
            return b'"A"' if i == 0 else b'{"B":%d}' % v["u"] if i == 1 else b'{"C":{"x":%s}}' % boolean(3, v["u"])
        return num(f, i) + (b"" if i == 0 else num(f, v["u"]) if i == 1 else boolean(f, v["u"]))


def encoded(p, d):
    k = p["k"]
    if k == "byte":
        return bytes(p["b"])
    if k == "err":
        return struct.pack(">HI", p["code"], len(p["msg"])) + bytes(p["msg"])
    if k in ("serde", "plain"):
        f = p.get("fmt", d)
        return bytes([f]) + serialized(f, p["v"])
    l, r = encoded(p["l"], d), encoded(p["r"], d)
    return struct.pack(">Q", len(l)) + l + struct.pack(">Q", len(r)) + r



def encode(r, fs=ALL):
    """what is sent"""
    steps = []
    for _ in range(r.randrange(1, 4)):
        s = {"do": "enc", "ps": [payload(r, fs) for _ in range(r.randrange(1, 8))]}
        if r.random() < 0.8:
            s["cd"] = fmt(r, fs)
        if r.random() < 0.2:
            s["set"] = fmt(r, fs)
        if r.random() < 0.3:
            s["n"] = r.choice([1, 2, 3])
        steps.append(s)
    return {"name": "encode", "formats": fs, "steps": steps}


def decode(r, fs=ALL):
    """what was sent, whatever sent it"""
    ps = []
    for _ in range(r.randrange(2, 12)):
        p = payload(r, fs)
        ps.append({"shape": shape(r, p), "hint": p, "bytes": list(encoded(p, fmt(r, fs)))})
    return {"name": "decode", "formats": fs, "steps": [{"do": "dec", "ps": ps}]}


def corrupt(r, fs=ALL):
    """something else"""
    ps = []
    for _ in range(r.randrange(2, 12)):
        p = payload(r, fs)
        b = bytearray(encoded(p, fmt(r, fs)))
        s, hint = shape(r, p), p
        x = r.random()
        if r.random() < 0.15:
            # two parts, one of which claims to be longer than all there is
            p = {"k": "tandem", "l": payload(r, fs, 1), "r": payload(r, fs, 1)}
            s, hint = shape(r, p), {"k": "none"}
            b = bytearray(encoded(p, fmt(r, fs)))
            i = r.choice([0, 8 + struct.unpack(">Q", b[:8])[0]])
            n = struct.unpack(">Q", b[i:i + 8])[0]
            n = r.choice([n + 1, n - 1, n + r.randrange(1, 40), 2 ** 64 - r.randrange(1, 40), 2 ** 64 - len(b), 2 ** 63, 2 ** 63 - 1, 2 ** 32, 2 ** 32 + n, 2 ** 31])
            b[i:i + 8] = struct.pack(">Q", n % 2 ** 64)
        elif x < 0.3:
            b = b[:r.randrange(len(b) + 1)]
        elif x < 0.5 and b:
            for _ in range(r.choice([1, 1, 2, 5])):
                b[r.randrange(len(b))] = r.choice([0, 1, 2, 3, 4, 127, 128, 255, r.randrange(256)])
            hint = {"k": "none"}
        elif x < 0.6:
            b += bytes(r.randrange(256) for _ in range(r.randrange(1, 5)))
            if p["k"] not in ("byte", "err"):
                hint = {"k": "none"}
        elif x < 0.75:
            # some huge length
            if len(b) > 8:
                i = r.choice([0, 0, 2, 1, r.randrange(len(b) - 7)])
                v = r.choice([b"\xff" * 8, b"\x7f" + b"\xff" * 7, b"\0\0\0\0\xff\xff\xff\xff", b"\0\0\0\1\0\0\0\0", b"\xdd\xff\xff\xff\xff", b"\xdb\x7f\xff\xff\xff", b"\xff\xff\xff\xff\xff\xff\xff\xff\x7f"])
                b[i:i + len(v)] = v
            hint = {"k": "none"}
        elif x < 0.9:
            # unknown formats
            p = payload(r, fs, 0, ("serde",))
            p["k"] = "serde"
            p["fmt"] = r.choice(fs)
            b = bytearray(encoded(p, 0))
            b = bytearray([r.choice([0, 1, 2, 3, 4, 5, 16, 127, 128, 255, r.randrange(4, 256)])]) + b[1:]
            if b[0] in fs:
                b[0] = 4
            s, hint = {"k": r.choice(["serde", "plain"]), "t": p["v"]["t"]}, p
        else:
            # expected to be something else
            s = shape(r, payload(r, fs))
            hint = {"k": "none"}
        ps.append({"shape": s, "hint": hint, "bytes": list(b)})
    return {"name": "corrupt", "formats": fs, "steps": [{"do": "dec", "ps": ps}]}


def large(r, fs=ALL):
    """more than fits into two bytes"""
    n = r.choice([65535, 65536, 65537, 70000])
    k = r.choice(["byte", "err", "s"])
    if k == "byte":
        p = {"k": k, "b": [r.randrange(256) for _ in range(n)]}
    elif k == "err":
        p = {"k": k, "code": r.choice([0, 500]), "msg": chars(r, 5) + [97 + i % 26 for i in range(n)]}
    else:
        p = {"k": "serde", "fmt": r.choice([f for f in fs if f != 3] or fs), "v": {"t": "s", "s": [97 + i % 26 for i in range(n if fs != [3] else 3)]}}
    for _ in range(r.choice([0, 1, 1, 2])):
        q = payload(r, [f for f in fs if f != 3] or fs, 0)
        p = {"k": "tandem", "l": p, "r": q} if r.random() < 0.7 else {"k": "tandem", "l": q, "r": p}
    f = fmt(r, fs)
    if r.random() < 0.5:
        return {"name": "large", "formats": fs, "steps": [{"do": "enc", "ps": [p], "cd": f}]}
    return {"name": "large", "formats": fs, "steps": [{"do": "dec", "ps": [{"shape": shape(r, p), "hint": p, "bytes": list(encoded(p, f))}]}]}


def usable(r, fs):
    """a payload that only uses formats which are there"""
    p = payload(r, fs)

    def fix(p):
        if p.get("fmt", fs[0]) not in fs:
            p["fmt"] = r.choice(fs)
        for k in "lr":
            if k in p:
                fix(p[k])
    fix(p)
    return p


def both(r, fs=ALL):
    """from clients to servers and back, with different defaults"""
    steps = []
    for _ in range(r.randrange(1, 3)):
        p, back, resp = usable(r, fs), usable(r, fs), usable(r, fs)
        s = {"do": "both", "p": p, "back": back, "resp": resp, "shape": shape(r, p), "bshape": shape(r, back), "rshape": shape(r, resp),
             "ns": r.choice(["", "n"])}
        if r.random() < 0.85:
            s["cd"] = r.choice(fs)
        if r.random() < 0.85:
            s["sd"] = r.choice(fs)
        if r.random() < 0.4:
            s["n"] = r.choice([1, 2, 3])
        steps.append(s)
    return {"name": "both", "formats": fs, "steps": steps[:1]}


FAMILIES = {f.__name__: f for f in (encode, decode, corrupt, both, large)}


def families(features):
    """for a build with these features"""
    fs = [i for i, f in enumerate(FORMATS) if f in features.split(",")] or ALL
    return {n: (lambda r, f=f: f(r, fs)) for n, f in FAMILIES.items()}


def to_traces(scs, recs):
    out = []
    for sc, ev in zip(scs, recs):
        done = any(e["e"] == "end" for e in ev)
        bad = any(e["e"] in ("panic", "crash", "hang") for e in ev)
        ev = [e for e in ev if e["e"] in ("enc", "dec", "noreply", "panic", "crash", "hang", "bigalloc")]
        if not done and not bad:
            ev.append({"e": "crash", "t": 0})
        out.append({"name": sc["name"], "formats": sc["formats"], "ev": ev})
    return out
