"""Traces of the event layer: from what the driver recorded to what TraceBromine reads."""
import vlib


def handlers(sc):
    hd = []
    for ep in sc["eps"]:
        # a namespace that is registered again is replaced as a whole
        last = {}
        for h in ep.get("on", []):
            last[h.get("ns", "")] = max(last.get(h.get("ns", ""), 0), h.get("reg", 0))
        for h in ep.get("on", []):
            if h.get("ns", "") == "\x01":
                continue
            if h.get("ns", "") and (h.get("reg", 0) != last[h["ns"]] or h["ns"] in ep.get("nss", [])):
                continue
            hd.append({"ep": ep["ep"], "ns": h.get("ns", ""), "nm": h["nm"], "h": h["h"]})
    return hd


def to_traces(scs, recs):
    out = []
    for sc, ev in zip(scs, recs):
        done = any(e["e"] == "end" for e in ev)
        ev = [e for e in ev if e["e"] != "end"]
        if not done and not any(e["e"] in ("crash", "hang") for e in ev):
            ev.append({"e": "crash", "t": ev[-1]["t"] if ev else 0})
        out.append({"name": sc["name"], "hd": handlers(sc), "ev": ev})
    return out
