"""Traces of encrypted connections: from what the driver recorded to what TraceChannel reads."""


def to_traces(scs, recs):
    out = []
    for sc, ev in zip(scs, recs):
        done = any(e["e"] == "end" for e in ev)
        ev = [e for e in ev if e["e"] != "end"]
        if not done and not any(e["e"] in ("crash", "hang") for e in ev):
            ev.append({"e": "crash", "t": ev[-1]["t"] if ev else 0})
        for e in ev:
            e.setdefault("c", 0)
            e.pop("all", None)
        out.append({"name": sc["name"], "known": sc["known"], "ev": ev})
    return out


def key_use(name, known, recs, whole=False):
    """One history of what all these scenarios used as keys and nonces, for TraceKeyUse."""
    ev, base = [], 0
    for rec in recs:
        last, top, peers, raw = {}, 0, {}, {}
        for e in rec:
            c = e.get("c", 0)
            top = max(top, c, e.get("peer", 0))
            k = e["e"]
            if k == "att":
                peers[c], raw[c] = e["peer"], e["raw"]
                ev.append({"e": "att", "c": base + c, "peer": base + e["peer"], "raw": e["raw"]})
            elif k == "mk":
                ev.append({"e": "mk", "key": e["key"], "b": e.get("all", [])})
            elif k == "pk" and e["hs"]:
                ev.append({"e": "ses", "c": base + c, "key": e["key"], "n": e["n"], "sec": e["sec"], "b": [] if raw[c] else e.get("all", [])})
            elif k == "pk":
                for ch in e["ch"] or [{"a": 0, "n": 0}]:
                    p = last.get((c, "use"))
                    first = ch is e["ch"][0] if e["ch"] else True
                    if p and p["key"] == e["key"] and e["n"] == p["hi"] + first and p["n"] and ch["n"] and p["a"] + p["n"] == ch["a"]:
                        p["hi"] = e["n"]
                        p["n"] += ch["n"]
                    elif first:
                        p = {"e": "use", "c": base + c, "key": e["key"], "lo": e["n"], "hi": e["n"], "a": ch["a"], "n": ch["n"]}
                        ev.append(p)
                        last[c, "use"] = p
                    else:
                        # a gap inside a package
                        p["n"] = ch["a"] + ch["n"] - p["a"]
            elif k == "opr" and e["r"] == "data":
                for ch in e["ch"]:
                    p = last.get((c, "data"))
                    if p and p["a"] + p["n"] == ch["a"]:
                        p["n"] += ch["n"]
                    else:
                        p = {"e": "data", "c": base + c, "a": ch["a"], "n": ch["n"]}
                        ev.append(p)
                        last[c, "data"] = p
            elif k in ("clear", "crash", "hang", "panic"):
                ev.append(e)
        base += top
    ev.append({"e": "fin"})
    # reads may come before the range they are part of is complete: they follow
    ev.sort(key=lambda e: {"data": 1, "fin": 2}.get(e["e"], 0))
    return {"name": name, "known": known, "whole": whole, "ev": ev}
