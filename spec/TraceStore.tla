------------------------------ MODULE TraceStore -----------------------------
(* Checks accesses to the data of real endpoints against Store. *)
EXTENDS Store, Json, IOUtils, TLC, TLCExt

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]

TraceInit == Init /\ tid \in DOMAIN Traces /\ l = 1

Logged ==
  CASE Ev.e = "build" -> Build(Ev.g, Ev.ins)
    [] Ev.e = "rd" -> Ev.g \in DOMAIN data /\ Read(Ev.g, Ev.k, Ev.v)
    [] Ev.e = "up" -> Ev.g \in DOMAIN data /\ Update(Ev.g, Ev.k, Ev.old, Ev.new)
    [] Ev.e = "acc" -> Start(Ev.a)
    [] Ev.e = "fin" -> Finish(Ev.a)
    [] Ev.e = "idle" -> Idle
    [] OTHER -> FALSE

TraceNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ Logged
  /\ l' = l + 1
  /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceNext]_<<data, open, tid, l>>

Progress ==
  TLCSet(tid, IF TLCGetOrDefault(tid, 0) < l THEN l ELSE TLCGetOrDefault(tid, 0))

Report ==
  TLCGet("stats").generated >= 0 /\ \A i \in DOMAIN Traces :
    LET m == TLCGetOrDefault(i, 0) IN
    m = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECTED", i, m>>)
=============================================================================
