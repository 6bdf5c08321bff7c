------------------------------ MODULE TracePool ------------------------------
(* Checks what real pools did against Pool.  When an operation of one of    *)
(* several threads takes effect is inferred.                                *)
EXTENDS Pool, Sequences, Json, IOUtils, TLC, TLCExt

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]

TraceInit == Init /\ tid \in DOMAIN Traces /\ l = 1

Logged ==
  CASE Ev.e = "bp" -> StartBuild
    [] Ev.e = "open" -> Opened(Ev.c)
    [] Ev.e = "built" -> IF Ev.ok THEN Built(Ev.obj, Ev.n)
                         ELSE IF Ev.err = "build" THEN Refused(Ev.n)
                         ELSE Failed(Ev.listening)
    [] Ev.e = "b" -> /\ Ev.obj = 0 \/ Ev.obj \in DOMAIN objs
                     /\ Begin(Ev.th, Ev.k, Ev.obj, Ev.g, Ev.as, Ev.c)
    [] Ev.e = "r" -> Return(Ev.th)
    [] Ev.e = "bundle" -> Bundle(Ev.g, Ev.as, Ev.n)
    [] Ev.e = "unbundle" -> Unbundle(Ev.g, Ev.n)
    [] Ev.e = "stress" -> Stress
    [] OTHER -> FALSE

Consume ==
  /\ l <= Len(Traces[tid].ev)
  /\ Logged
  /\ l' = l + 1
  /\ UNCHANGED tid

Silent(t) ==
  /\ Effect(t)
  /\ UNCHANGED <<tid, l>>

\* if only one thing is going on, it happens right away
TraceNext ==
  \/ Consume
  \/ l <= Len(Traces[tid].ev) /\ \E t \in DOMAIN run : Silent(t)

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>

Progress ==
  TLCSet(tid, IF TLCGetOrDefault(tid, 0) < l THEN l ELSE TLCGetOrDefault(tid, 0))

Report ==
  TLCGet("stats").generated >= 0 /\ \A i \in DOMAIN Traces :
    LET m == TLCGetOrDefault(i, 0) IN
    m = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECTED", i, m>>)
=============================================================================
