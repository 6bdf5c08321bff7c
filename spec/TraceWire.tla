------------------------------ MODULE TraceWire -------------------------------
(* Checks what real connections made of the bytes they received, and what    *)
(* real events were turned into, against Wire.                               *)
EXTENDS Wire, Json, IOUtils, TLC, TLCExt

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
On == LET o == Traces[tid].on IN {<<o[i].ns, o[i].nm>> : i \in DOMAIN o}

TraceInit == tid \in DOMAIN Traces /\ l = 1

Logged ==
  CASE Ev.e = "enc" -> Sent(Ev.f, Ev.ok, Ev.bytes)
    [] Ev.e = "dec" -> Received(On, Ev.bytes, Ev.eof, Ev.got, Ev.out, Ev.open, Ev.kib)
    [] OTHER -> FALSE

\* what the harness's own parser made of it
Ours == Ev.e = "dec" => LET d == Decode(Ev.bytes) IN Ev.ours.frames = d.frames /\ Ev.ours.bad = (d.rest = "bad")

TraceNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ Logged = TRUE
  /\ Assert(Ours, "the harness does not understand frames")
  /\ l' = l + 1
  /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>

Progress ==
  TLCSet(tid, IF TLCGetOrDefault(tid, 0) < l THEN l ELSE TLCGetOrDefault(tid, 0))

Report ==
  TLCGet("stats").generated >= 0 /\ \A i \in DOMAIN Traces :
    LET m == TLCGetOrDefault(i, 0) IN
    m = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECTED", i, m>>)
=============================================================================
