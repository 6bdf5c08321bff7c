----------------------------- MODULE TraceKeyUse ------------------------------
(***************************************************************************)
(* Checks what the encryption layer used as keys and nonces against module *)
(* KeyUse.  One history per line of the file TRACES: [name, known, ev].    *)
(***************************************************************************)
EXTENDS KeyUse, Json, IOUtils, TLCExt

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
Whole == Traces[tid].whole   \* nothing was given up, everything was read
ASet(s) == {s[i] : i \in DOMAIN s}

TraceInit ==
  /\ Init
  /\ tid \in DOMAIN Traces
  /\ l = 1
  /\ known = ASet(Traces[tid].known)

Logged ==
  CASE Ev.e = "att" -> Attempt(Ev.c, Ev.peer, Ev.raw)
    [] Ev.e = "mk" -> MadeSecret(Ev.key, Ev.b)
    [] Ev.e = "ses" -> Session(Ev.c, Ev.key, Ev.n, Ev.sec, Ev.b)
    [] Ev.e = "use" -> Packages(Ev.c, Ev.key, Ev.lo, Ev.hi, Ev.a, Ev.n) /\ (Whole => Ev.a = ends[Ev.c].sent)
    [] Ev.e = "data" -> Read(Ev.c, Ev.a, Ev.n) /\ (Whole => Ev.a = ends[Ev.c].seen)
    [] Ev.e = "fin" -> UNCHANGED vars /\ Random /\ (Whole => \A c \in DOMAIN ends : ends[c].seen = ends[ends[c].peer].sent)
    [] OTHER -> FALSE   \* something in the clear, a panic, ...

TraceNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ Logged
  /\ l' = l + 1
  /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>

Progress ==
  TLCSet(tid, IF TLCGetOrDefault(tid, 0) < l THEN l ELSE TLCGetOrDefault(tid, 0))

Report ==
  TLCGet("stats").generated >= 0 /\ \A i \in DOMAIN Traces :
    LET m == TLCGetOrDefault(i, 0) IN
    m = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECTED", i, m>>)
=============================================================================
