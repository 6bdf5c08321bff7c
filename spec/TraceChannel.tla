----------------------------- MODULE TraceChannel ----------------------------
(***************************************************************************)
(* Checks executions of the real encryption layer against module Channel:  *)
(* every recorded event has to be a step of it.  One execution per line of *)
(* the file TRACES: [name, known, ev].                                     *)
(***************************************************************************)
EXTENDS Channel, Json, IOUtils, TLCExt

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
ASet(s) == {s[i] : i \in DOMAIN s}

TraceInit ==
  /\ Init
  /\ tid \in DOMAIN Traces
  /\ l = 1
  /\ known = ASet(Traces[tid].known)

Pkg == [key |-> Ev.key, n |-> Ev.n, hs |-> Ev.hs, sec |-> Ev.sec, ch |-> Ev.ch]

Logged ==
  LET c == Ev.c IN
  CASE Ev.e = "att" -> Attempt(c, NewEnd(Ev.role, Ev.id, ASet(Ev.knows), Ev.any, Ev.raw, Ev.peer))
    [] Ev.e = "mk" -> MadeSecret(Ev.key)
    [] Ev.e = "hk" -> SendKey(c, Ev.id)
    [] Ev.e = "pk" -> SendPackage(c, Ev.i, Pkg)
    [] Ev.e = "weof" -> SendEof(c)
    [] Ev.e = "ahk" -> ArriveKey(c, Ev.id, Ev.dh)
    [] Ev.e = "apk" -> ArrivePackage(c, Ev.f, Ev.i)
    [] Ev.e = "aeof" -> ArriveEof(c)
    [] Ev.e = "est" -> Establish(c)
    [] Ev.e = "ref" -> Refuse(c)
    [] Ev.e = "wdrop" -> LetGo(c, "wd")
    [] Ev.e = "rdrop" -> LetGo(c, "rr")
    [] Ev.e = "set" -> SetEnd(c, Ev.field, Ev.v)
    [] Ev.e = "op" -> Begin(c, Ev.o, Ev.k, Ev.a, Ev.n)
    [] Ev.e = "opr" ->
         (CASE Ev.r = "wrote" -> Wrote(c, Ev.o, Ev.n)
           [] Ev.r = "flushed" -> Flushed(c, Ev.o)
           [] Ev.r = "shut" -> ShutDown(c, Ev.o)
           [] Ev.r = "werr" -> WriteError(c, Ev.o)
           [] Ev.r = "data" -> ReadData(c, Ev.o, Ev.ch)
           [] Ev.r = "eof" -> ReadEnd(c, Ev.o, FALSE)
           [] Ev.r = "rerr" -> ReadEnd(c, Ev.o, TRUE)
           [] OTHER -> FALSE)
    [] Ev.e = "cn" -> Cancel(c, Ev.o)
    [] Ev.e = "close" -> Close(c)
    [] Ev.e = "idle" -> Idle
    [] OTHER -> FALSE   \* something in the clear, an accept that failed, a panic, ...

TraceNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ Logged
  /\ l' = l + 1
  /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>

Progress ==
  TLCSet(tid, IF TLCGetOrDefault(tid, 0) < l THEN l ELSE TLCGetOrDefault(tid, 0))

Report ==
  TLCGet("stats").generated >= 0 /\ \A i \in DOMAIN Traces :
    LET m == TLCGetOrDefault(i, 0) IN
    m = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECTED", i, m>>)
=============================================================================
