"""What the check of each property consists of."""
import json, os, re, time
from concurrent.futures import ThreadPoolExecutor
import vlib, core, gen, gen_spec, chan, gen_chan, gen_api, gen_payload, gen_wire
from vlib import NoAnswer

THOROUGH_S = 480   # how long the random parts of a thorough check go on


def describe(tr, p):
    ev = tr["ev"]
    if p > len(ev):
        return "rejected at its end"
    e = ev[p - 1]
    return "%s: event %d of %d can't be explained: %s" % (tr["name"], p, len(ev), json.dumps(e)[:400])


def pretty(tr, p, n=40):
    return [json.dumps(e) for e in tr["ev"][max(0, p - n):p]]


def events(fams, features="full", module="TraceBromine", mode="core", to_traces=core.to_traces, families=gen.FAMILIES):
    """Random scenarios of the given families (dict: name -> number) on the real library; what happened
    has to be a behaviour of the specification."""

    def part(run):
        exe = run.exe(features)
        batch, t0 = 0, time.time()
        while True:
            rng = run.rng("%s/%d" % (module, batch))
            scs = []
            for f in sorted(fams):
                for _ in range(fams[f] * (1 if run.quick() else 3)):
                    scs.append(families[f](rng))
            rng.shuffle(scs)
            wd = vlib.workdir(os.path.join(os.path.basename(run.wd), "b"))
            recs = vlib.run_driver_parallel(exe, mode, scs, wd)
            trs = to_traces(scs, recs)
            rej, st, dist = vlib.tlc_traces(module, trs, wd)
            run.transitions += st
            run.states += dist
            run.traces += len(trs)
            if batch == 0:
                for tr in trs[:2]:
                    run.samples.append({"trace": tr["name"], "events": tr["ev"][:25]})
            for i in sorted(rej):
                run.violation(describe(trs[i], rej[i]),
                              {"module": module, "mode": mode, "features": features, "scenario": scs[i], "trace": trs[i],
                               "first_unexplained": rej[i], "before": pretty(trs[i], rej[i])})
            batch += 1
            if run.quick() or run.violations or time.time() - t0 > THOROUGH_S:
                break
        run.note("%s on executions" % module, families=fams, batches=batch, features=features,
                 wall_s=round(time.time() - t0, 1))

    return part


def behaviours(**cfgs):
    """Behaviours of the specification (TLC walks through GenBromine, GenChannel), replayed on the real library."""

    def scenario(c, s, rng):
        return gen_chan.walk(rng, s) if c == "GenChannel" else gen_spec.scenario(c, s, rng)

    def part(run):
        exe, batch, t0, total = run.exe(), 0, time.time(), 0
        while True:
            wd = vlib.workdir(os.path.join(os.path.basename(run.wd), "sp"))
            rng = run.rng("behaviours/%d" % batch)
            names = sorted(cfgs)
            seeds = [rng.randrange(1 << 31) for _ in names]
            k = 1 if run.quick() else 8
            with ThreadPoolExecutor(len(names)) as ex:
                scripts = list(ex.map(lambda a: gen_spec.behaviours(a[0], cfgs[a[0]] * k, a[1], wd), zip(names, seeds)))
            for mode, module, to_traces in (("core", "TraceBromine", core.to_traces), ("chan", "TraceChannel", chan.to_traces)):
                scs = [scenario(c, s, rng) for c, ss in zip(names, scripts) if (c == "GenChannel") == (mode == "chan") for s in ss]
                if not scs:
                    continue
                recs = vlib.run_driver_parallel(exe, mode, scs, wd)
                trs = to_traces(scs, recs)
                rej, st, dist = vlib.tlc_traces(module, trs, wd)
                run.transitions += st
                run.states += dist
                run.traces += len(trs)
                total += len(trs)
                for i in sorted(rej):
                    run.violation(describe(trs[i], rej[i]),
                                  {"module": module, "mode": mode, "features": "full", "scenario": scs[i], "trace": trs[i],
                                   "first_unexplained": rej[i], "before": pretty(trs[i], rej[i])})
            batch += 1
            if run.quick() or run.violations or time.time() - t0 > THOROUGH_S / 3:
                break
        run.note("behaviours of the specification replayed on the library", configs=cfgs, behaviours=total, wall_s=round(time.time() - t0, 1))

    return part


def channel(**fams):
    return events(fams, module="TraceChannel", mode="chan", to_traces=chan.to_traces, families=gen_chan.FAMILIES)


def api(mode, module, features="full", **fams):
    return events(fams, features, module=module, mode=mode, to_traces=gen_api.to_traces(mode), families=gen_api.FAMILIES)


def payloads(features="full", **fams):
    return events(fams, features, module="TracePayload", mode="payload", to_traces=gen_payload.to_traces, families=gen_payload.families(features))


def wire(**fams):
    return events(fams, module="TraceWire", mode="wire", to_traces=gen_wire.to_traces, families=gen_wire.FAMILIES)


def findings(*names):
    """Histories that show known findings. They are checked without any excuse; if exactly the expected
    event can't be explained, it is that finding."""
    expected = {"reflected": ("opr", "data"), "replayed_server": ("est", None), "both_directions": ("pk", None), "two_handshakes": ("pk", None)}

    def part(run):
        rng = run.rng("findings")
        scs = [gen_chan.FAMILIES[f](rng) for f in names for _ in range(3)]
        wd = vlib.workdir(os.path.join(os.path.basename(run.wd), "f"))
        trs = chan.to_traces(scs, vlib.run_driver_parallel(run.exe(), "chan", scs, wd))
        rej, st, dist = vlib.tlc_traces("TraceChannel", trs, wd)
        run.transitions += st
        run.states += dist
        run.traces += len(trs)
        for i in sorted(rej):
            ev = trs[i]["ev"]
            e = ev[rej[i] - 1] if rej[i] <= len(ev) else {}
            exact = (e.get("e"), e.get("r")) == expected[trs[i]["name"]]
            run.violation(describe(trs[i], rej[i]),
                          {"module": "TraceChannel", "mode": "chan", "features": "full", "scenario": scs[i], "trace": trs[i],
                           "finding": trs[i]["name"] if exact else None,
                           "first_unexplained": rej[i], "before": pretty(trs[i], rej[i])})
        run.note("histories of known findings", names=names)

    return part


def keys(long=1, **fams):
    """Keys and nonces of thousands of connections in several processes, as one history, and connections
    with very many packages."""

    def part(run):
        t0, batch = time.time(), 0
        while True:
            rng = run.rng("keys/%d" % batch)
            wd = vlib.workdir(os.path.join(os.path.basename(run.wd), "k"))
            k = 1 if run.quick() else 4
            scs = [gen_chan.FAMILIES[f](rng) for f in sorted(fams) for _ in range(fams[f] * k)]
            rng.shuffle(scs)
            lng = [gen_chan.long(rng, 66000 if i == 0 else 20000) for i in range(long * (1 if run.quick() else 8))]
            known = sorted(set(k for sc in scs for k in sc["known"]))
            with ThreadPoolExecutor(2) as ex:
                one = ex.submit(vlib.run_driver_parallel, run.exe(), "chan", scs, wd)
                wl = vlib.workdir(os.path.join(os.path.basename(run.wd), "kl"))
                two = vlib.run_driver_parallel(run.exe(), "chan", lng, wl)
                one = one.result()
            trs = [chan.key_use("keys", known, one)] + [chan.key_use("long", known, [r], True) for r in two]
            rej, st, dist = vlib.tlc_traces("TraceKeyUse", trs, wd)
            run.transitions += st
            run.states += dist
            run.traces += len(scs) + len(lng)
            for i in sorted(rej):
                run.violation(describe(trs[i], rej[i]), {"module": "TraceKeyUse", "trace": trs[i], "first_unexplained": rej[i], "before": pretty(trs[i], rej[i])})
            batch += 1
            if run.quick() or run.violations or time.time() - t0 > THOROUGH_S:
                break
        run.note("TraceKeyUse on everything together", families=fams, long=long, batches=batch, wall_s=round(time.time() - t0, 1))

    return part


def model(module, cfg=None, walks=None, timeout=800):
    """Exhaustive model checking of the specification itself (it does not depend on the code); a thorough
    check also takes long random walks with larger bounds."""

    def part(run):
        t0 = time.time()
        c = cfg or module
        ok, out, g, d = vlib.tlc_model(module, run.wd, c, timeout=timeout)
        if not ok:
            raise NoAnswer("model checking of %s/%s failed: %s" % (module, c, out[-3000:]))
        run.states += d
        run.transitions += g
        run.note("TLC on %s" % module, config=c, distinct=d, generated=g, exhaustive=True, wall_s=round(time.time() - t0, 1))
        if walks and not run.quick():
            t0 = time.time()
            args = ["-simulate", "num=2500", "-depth", "120", "-seed", str(run.rng(walks).randrange(1 << 31))]
            ok, out, _, _ = vlib.tlc_model(module, run.wd, walks, timeout=timeout, args=args)
            m = re.findall(r"(\d+) states checked, (\d+) traces generated", out)
            if not ok or not m:
                raise NoAnswer("model checking of %s/%s failed: %s" % (module, walks, out[-3000:]))
            run.transitions += int(m[-1][0])
            run.note("TLC on %s" % module, config=walks, generated=int(m[-1][0]), walks=int(m[-1][1]), exhaustive=False, wall_s=round(time.time() - t0, 1))

    return part


def refuted(module, cfg, *invariants, timeout=600):
    """The other way round: with what it excludes admitted, the specification has to break an invariant.
    (Otherwise what is excluded would be no attack, or the invariant would say nothing.)"""

    def part(run):
        t0 = time.time()
        ok, out, g, d = vlib.tlc_model(module, run.wd, cfg, timeout=timeout)
        m = re.search(r"Invariant (\w+) is violated", out)
        if ok or not m or m.group(1) not in invariants:
            raise NoAnswer("TLC should have found a violation of %s in %s/%s: %s" % (invariants, module, cfg, out[-3000:]))
        run.note("TLC on %s" % module, config=cfg, refutes=m.group(1), steps=out.count("\nState "), generated=g, wall_s=round(time.time() - t0, 1))

    return part


def ev(own, n, **others):
    fams = {own: n}
    fams.update({"general": 150})
    fams.update(others)
    return events(fams)


# builds with only some of the serialization formats
SUBSETS = ["json", "bincode,postcard", "rmp,json", "postcard"]

PARTS = {
    "C01": [ev("fidelity", 300, huge=4), wire(streams=120, encoded=120, limits=40, utf8=20), model("MCWire")],
    "C02": [ev("malformed", 900, independence=100), wire(mutated=250, edited=120, truncated=80, lengths=150, utf8=80, huge=20), payloads(corrupt=450), channel(tamper=200, auth=100)],
    "C03": [ev("concurrent_writes", 250, drops=100, fidelity=20, huge=3)],
    "C04": [ev("routing", 900, general=300)],
    "C05": [ev("replies", 700, timeouts=150, nesting=80, independence=60, outstanding=5), behaviours(GenClient=400, GenPool=400), model("MCBromine", "MCBromineP", "MCBromineW")],
    "C06": [ev("replies", 600, timeouts=200, busy=25, long_streams=4), behaviours(GenClient=600), model("MCBromine", "MCBromineT", "MCBromineW")],
    "C07": [ev("finals", 900, routing=100), behaviours(GenServer=600, GenServer2=200), model("MCBromine", "MCBromineS", "MCBromineW2")],
    "C08": [ev("timeouts", 700, replies=250, finals=60), behaviours(GenClient=500), events({"timeouts": 100}, features="none")],
    "C09": [api("leak", "TraceLeak", leak_kinds=57, leak=100, leak_refused=10), ev("timeouts", 150, replies=150)],
    "C10": [ev("replies", 600, timeouts=150, routing=100, general=300), behaviours(GenClient=300, GenPool=300), model("MCBromine", "MCBromineD", "MCBromineW")],
    "C11": [ev("nesting", 600, independence=100, collisions=300), behaviours(GenServer=500)],
    "C12": [channel(stream=1200, bulk=25, peers=150, giant=3)],
    "C13": [channel(tamper=1400, reflect=300, peers=100, wrap=80), findings("reflected", "replayed_server"), behaviours(GenChannel=600),
            model("MCChannel"), refuted("MCChannel", "MCChannel_reflected", "Sequence", "Exclusive"), refuted("MCChannel", "MCChannel_replayed_server", "Sequence", "Exclusive")],
    "C14": [channel(auth=1200, tamper=150), findings("replayed_server"), behaviours(GenChannel=600),
            model("MCChannel"), refuted("MCChannel", "MCChannel_replayed_server", "Sequence", "Exclusive")],
    "C15": [channel(secrecy=500, auth=150, stream=150, many=6, bulk=12), keys(secrecy=150, crowd=4), findings("both_directions", "two_handshakes"),
            model("MCChannel"), refuted("MCChannel", "MCChannel_both_directions", "Nonces"), refuted("MCChannel", "MCChannel_two_handshakes", "Nonces")],
    "C16": [ev("independence", 600, endings=100, crowd=8), behaviours(GenServer2=700), model("MCBromine", "MCBromineD", "MCBromineW2")],
    "C17": [ev("endings", 900, malformed=100), behaviours(GenClient=400, GenServer2=400)],
    "C18": [api("pool", "TracePool", pool=700, pool_many=150, pool_threads=250, pool_stress=20), ev("routing", 150), model("MCPool", None, "MCPoolW")],
    "C19": [api("ids", "TraceEventId", ids=60, ids_many=4, ids_real=2, ids_emit=10, ids_mass=1), ev("routing", 150)],
    "C20": [payloads(encode=700, decode=500, corrupt=500, both=700, large=24)]
           + [payloads(f, encode=80, decode=80, corrupt=80, both=80) for f in SUBSETS],
    "C21": [api("store", "TraceStore", store=500, store_threads=120)],
    "C22": [ev("busy", 100, independence=60, flood=6)],
    "C24": [events({"transports": 500, "huge_transports": 8}), api("built", "TraceBuilder", built=300),
            events({"plain_transports": 250, "general": 60, "replies": 40}, features="none"), api("built", "TraceBuilder", features="none", built_plain=80)],
    "C23": [ev("drops", 800, concurrent_writes=40, timeouts=60, many_drops=12)],
}
LEVELS = {}
TO_TRACES = {"TraceWire": gen_wire.to_traces, "TraceBromine": core.to_traces, "TraceChannel": chan.to_traces, "TraceEventId": gen_api.to_traces("ids"),
             "TracePayload": gen_payload.to_traces, "TraceBuilder": gen_api.to_traces("built"), "TraceLeak": gen_api.to_traces("leak"), "TracePool": gen_api.to_traces("pool"), "TraceStore": gen_api.to_traces("store")}

DEFAULT_NOTE = ("TLC decides for every recorded execution of the unmodified library (random scenarios on a virtual clock and an "
                "adversarial in-memory transport) whether it is a behaviour of the specification. Assumes that the harness records "
                "what crosses the API and the transport; executions that were not generated are not covered.")
CHANNEL = ("TLA+ specification (Channel.tla) checked with TLC; executions of the real encryption layer on a hostile network validated against it (TraceChannel.tla)",
           "TLC decides for every recorded execution of the unmodified encryption layer whether it is a behaviour of the specification. "
           "The network is the harness, which holds back, splits, drops, repeats, reorders, changes, replays and forges; it knows all "
           "static secrets and decrypts every package to find its key, nonce and data. Cryptographic primitives are assumed to be secure; "
           "executions that were not generated are not covered.")
NOTES = {c: CHANNEL for c in ("C12", "C13", "C14", "C15")}
WIRE = ("TLA+ specifications (Wire.tla: the format, byte by byte; Bromine.tla) checked with TLC; what the real library encoded and made of received bytes validated against them (TraceWire.tla, TraceBromine.tla)",
        "TLC decodes every byte sequence given to a connection and compares with what handlers were given, what was answered, whether the connection is still served and how much memory was used; "
        "and computes the bytes of every event. Byte sequences that were not generated are not covered.")
NOTES["C01"] = NOTES["C02"] = WIRE
NOTES["C24"] = ("TLA+ specifications (Bromine.tla, Builder.tla) checked with TLC; executions of the real library over TCP, Unix sockets and the encryption layer validated against them (TraceBromine.tla, TraceBuilder.tla)",
                "The same scenarios and the same specification as for the in-memory transport; what crosses a real transport is recorded between it and the event layer, also without the optional features. "
                "Real sockets take real time: a message that takes longer than 0.4 s on the loopback would be missed. A socket file left behind by a server is unspecified.")
NOTES["C18"] = ("TLA+ specification (Pool.tla) checked with TLC; what real pools did, also with several threads, validated against it (TracePool.tla)",
                "TLC decides for every recorded history of operations on real pools whether Pool allows it; the connection of an acquisition is where "
                "its emission appears. Overlapping operations of threads may take effect at any moment between their beginning and end. The schedules of threads are those the machine produced.")
NOTES["C09"] = ("TLA+ specification (Leak.tla, Bromine.tla) checked with TLC; the memory that real processes used validated against it (TraceLeak.tla)",
                "A counting allocator measures what is allocated whenever nothing is going on; thousands of operations of every kind and way to end must not leave more than 32 KiB. "
                "State that is kept per connection that is still open is not covered, nor is memory that is kept once and never grows.")
NOTES["C19"] = ("TLA+ specification (EventId.tla, Bromine.tla) checked with TLC; ids made by real threads, also with a manipulated clock, validated against it (TraceEventId.tla)",
                "Ids are numbered by first appearance, TLC checks that every batch is fresh. Uniqueness beyond 2^32 events in one process is not claimed and not tested.")
NOTES["C20"] = ("TLA+ specification of all payload layouts, byte by byte (Payload.tla) checked with TLC; payloads encoded and decoded by the real library validated against it (TracePayload.tla)",
                "TLC computes the bytes of every encoded payload, and which payloads have to be decoded to what or refused. Serde data are of a fixed set of types (numbers, texts, options, lists, tuples, structs, enums).")
NOTES["C21"] = ("TLA+ specification (Store.tla) checked with TLC; accesses of real handlers and contexts, also on several threads, validated against it (TraceStore.tla)",
                "Accesses are recorded while their lock is held, TLC checks that every read sees the last update of that endpoint. The schedules of threads are those the machine produced.")
NOT_YET = {}
