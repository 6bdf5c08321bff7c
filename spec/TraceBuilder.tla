---------------------------- MODULE TraceBuilder -----------------------------
(* Checks what came of building real servers, clients and pools. *)
EXTENDS Builder, Sequences, Json, IOUtils, TLC, TLCExt

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]

TraceInit == Init /\ tid \in DOMAIN Traces /\ l = 1

Logged ==
  CASE Ev.e = "default" -> Default(Ev.ttl)
    [] Ev.e = "try" -> Try(Ev.n, [kind |-> Ev.kind, tr |-> Ev.tr, a |-> Ev.a, size |-> Ev.size, ttl |-> Ev.ttl])
    [] Ev.e = "sock" -> Socket(Ev.n, Ev.what, Ev.ttl)
    [] Ev.e = "built" -> Built(Ev.n, Ev.r)
    [] Ev.e = "who" -> Ev.n \in DOMAIN conn /\ Asked(Ev.n, Ev.who)
    [] Ev.e = "down" -> Down(Ev.n)
    [] Ev.e = "file" -> File(Ev.a)
    [] Ev.e = "look" -> Look(Ev.a, Ev.ok)
    [] OTHER -> FALSE

TraceNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ Logged
  /\ l' = l + 1
  /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>

Progress ==
  TLCSet(tid, IF TLCGetOrDefault(tid, 0) < l THEN l ELSE TLCGetOrDefault(tid, 0))

Report ==
  TLCGet("stats").generated >= 0 /\ \A i \in DOMAIN Traces :
    LET m == TLCGetOrDefault(i, 0) IN
    m = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECTED", i, m>>)
=============================================================================
