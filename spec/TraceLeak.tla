----------------------------- MODULE TraceLeak ------------------------------
(* Checks what was measured in real processes against Leak. *)
EXTENDS Leak, Sequences, Json, IOUtils, TLC, TLCExt

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]

TraceInit == Init /\ tid \in DOMAIN Traces /\ l = 1

Logged ==
  CASE Ev.e = "begin" -> Begin(Ev.n)
    [] Ev.e = "ended" -> End(Ev.n)
    [] Ev.e = "mem" -> Measure(Ev.live, Ev.warm = TRUE)
    [] OTHER -> FALSE

TraceNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ Logged
  /\ l' = l + 1
  /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>

Progress ==
  TLCSet(tid, IF TLCGetOrDefault(tid, 0) < l THEN l ELSE TLCGetOrDefault(tid, 0))

Report ==
  TLCGet("stats").generated >= 0 /\ \A i \in DOMAIN Traces :
    LET m == TLCGetOrDefault(i, 0) IN
    m = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECTED", i, m>>)
=============================================================================
