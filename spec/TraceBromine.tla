---------------------------- MODULE TraceBromine ----------------------------
(***************************************************************************)
(* Checks executions of the real library against module Bromine.  The file *)
(* named by the environment variable TRACES has one execution per line:    *)
(*   [name, hd (registered handlers), mt (several threads), ev (events)]   *)
(* Every event is one action of Bromine with logged arguments; the steps   *)
(* of the library that cannot be observed (Dispatch) and the passing of    *)
(* time are inferred.  An execution is accepted iff all of it can be       *)
(* explained this way.                                                     *)
(***************************************************************************)
EXTENDS Bromine, Json, IOUtils, TLCExt

VARIABLES
  tid, l,   \* the execution and how much of it was explained
  lazy      \* links whose next received frame was decided to be dispatched as late as possible

Traces == ndJsonDeserialize(IOEnv.TRACES)

Ev == Traces[tid].ev[l]
tvars == <<vars, tid, l, lazy>>

Set(s) == {s[i] : i \in DOMAIN s}

TraceInit ==
  /\ Init
  /\ tid \in DOMAIN Traces
  /\ l = 1
  /\ lazy = {}
  /\ hd = Set(Traces[tid].hd)

Ret ==
  LET o == Ev.o IN
  CASE Ev.r = "id" -> RetOk(o, Ev.id)
    [] Ev.r = "reply" -> RetReply(o, Ev.f)
    [] Ev.r = "stream" -> RetStream(o)
    [] Ev.r = "event" -> RetError(o, Ev.pl)
    [] Ev.r = "timeout" -> RetTimeout(o) \/ RetLost(o)
    [] Ev.r = "fail" -> RetFail(o) \/ RetLost(o) \/ RetError(o, "undecodable")

Item ==
  LET o == Ev.o IN
  CASE Ev.r = "reply" -> ItemReply(o, Ev.f)
    [] Ev.r = "timeout" -> ItemTimeout(o)
    [] Ev.r = "fail" -> ItemLost(o)
    [] Ev.r = "none" -> ItemEnd(o)

\* the contexts given to handlers know their link and event
CallOf ==
  IF Ev.k = 0 THEN NewOp(Ev.kind, Set(Ev.cs), 0, Ev.ns, Ev.nm, Ev.pl, Ev.tmo, Ev.bad)
  ELSE NewOp(Ev.kind, {ctxs[Ev.k].c}, ctxs[Ev.k].ref, Ev.ns, Ev.nm, Ev.pl, Ev.tmo, Ev.bad)

Logged ==
  LET c == Ev.c IN
  CASE Ev.e = "open" -> Open(c, Ev.ep, Ev.dom, Ev.held)
    [] Ev.e = "call" -> Call(Ev.o, CallOf)
    [] Ev.e = "tx" -> Tx(c, Ev.f)
    [] Ev.e = "fl" -> Flushed(c)
    [] Ev.e = "rx" -> Arrive(c, FrameItem(Ev.f))
    [] Ev.e = "rxbad" -> Arrive(c, BadItem)
    [] Ev.e = "rxeof" -> Arrive(c, EofItem)
    [] Ev.e = "set" -> SetLink(c, Ev.field, Ev.v)
    [] Ev.e = "held" -> SetLink(ctxs[Ev.k].c, "kept", lnk[ctxs[Ev.k].c].kept + Ev.n)
    [] Ev.e = "wdrop" -> lnk[c].rd # "live" /\ SetLink(c, "wd", TRUE)
    [] Ev.e = "rdrop" -> lnk[c].rd # "live" /\ SetLink(c, "rr", TRUE)
    [] Ev.e = "hs" -> HStart(Ev.k, Ev.h, Ev.f)
    [] Ev.e = "he" -> HEnd(Ev.k, Ev.res, Ev.pl)
    [] Ev.e = "ret" -> Ev.o \in DOMAIN ops /\ Ret
    [] Ev.e = "nx" -> Ev.o \in DOMAIN ops /\ Next_(Ev.o)
    [] Ev.e = "un" -> Ev.o \in DOMAIN ops /\ Unnext(Ev.o)
    [] Ev.e = "it" -> Ev.o \in DOMAIN ops /\ Item
    [] Ev.e = "dr" -> Ev.o \in DOMAIN ops /\ Drop(Ev.o)
    [] Ev.e = "stop" -> Stop(c)
    [] Ev.e = "idle" -> Idle
    [] OTHER -> FALSE   \* anything else (a panic, a crash, a torn frame, ...) must not happen

(* When a received frame is dispatched cannot be observed.  It makes a         *)
(* difference only if the request that takes it comes to its end, or if the    *)
(* link is stopped, before everything has settled; otherwise it can be         *)
(* dispatched at once without loss of generality.                              *)

NextIdle ==
  CHOOSE j \in l .. Len(Traces[tid].ev) + 1 :
    /\ j = Len(Traces[tid].ev) + 1 \/ Traces[tid].ev[j].e = "idle"
    /\ \A i \in l .. j - 1 : Traces[tid].ev[i].e # "idle"

Before(P(_)) == \E j \in l .. NextIdle - 1 : P(Traces[tid].ev[j])

MayStop(c) ==
  LET Stops(e) == e.e = "stop" /\ e.c = c
  IN lnk[c].rd = "stopping" \/ Before(Stops)

MayEnd(O) ==
  LET Ends(e) == e.e \in {"ret", "it", "dr"} /\ e.o \in O
  IN Before(Ends)

Ready(c) == lnk[c].rx # <<>> /\ lnk[c].rd # "dead"

Taken(c) == LET it == Head(lnk[c].rx) IN IF it.k = "f" THEN Takers(c, it.f) ELSE {}

\* Replies to one request that arrive on different connections of a pool
Crossing(c) ==
  LET f == Head(lnk[c].rx).f
      Others == {x \in DOMAIN lnk : x # c /\ lnk[x].dom = lnk[c].dom}
      Same(e) == e.e = "rx" /\ e.c \in Others /\ e.f.ref = f.ref
  IN /\ Ready(c) /\ Taken(c) # {} /\ Others # {}
     /\ \/ Before(Same)
        \/ \E x \in Others : \E i \in DOMAIN lnk[x].rx : lnk[x].rx[i].f.ref = f.ref

\* it has to be dispatched now
Eager(c) ==
  /\ Ready(c)
  /\ ~Crossing(c)
  /\ ~MayStop(c)
  /\ IF c \in lazy THEN Taken(c) = {} ELSE Taken(c) = {} \/ ~MayEnd(Taken(c))

\* it may be dispatched now or later
Choice(c) ==
  /\ Ready(c)
  /\ ~Crossing(c)
  /\ IF c \in lazy THEN Taken(c) = {} /\ MayStop(c) ELSE Taken(c) # {} \/ MayStop(c)

Consume ==
  /\ l <= Len(Traces[tid].ev)
  /\ Ev.t <= now
  /\ Logged
  /\ l' = l + 1
  /\ UNCHANGED <<tid, lazy>>

Silent ==
  /\ l <= Len(Traces[tid].ev)
  /\ Ev.t > now /\ Tick(Ev.t)
  /\ UNCHANGED <<tid, l, lazy>>

TakeNow(c) ==
  /\ Dispatch(c)
  /\ lazy' = lazy \ {c}
  /\ UNCHANGED <<tid, l>>

Defer(c) ==
  /\ lazy' = lazy \cup {c}
  /\ UNCHANGED <<vars, tid, l>>

TraceNext ==
  LET E == {c \in DOMAIN lnk : Eager(c)}
      D == {c \in DOMAIN lnk : c \notin lazy /\ Choice(c)}
  IN IF E # {} THEN TakeNow(Min(E))
     ELSE IF D # {} THEN TakeNow(Min(D)) \/ Defer(Min(D))
     ELSE \/ Consume
          \/ Silent
          \/ \E c \in DOMAIN lnk : ((c \in lazy /\ Choice(c)) \/ Crossing(c)) = TRUE /\ TakeNow(c)

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* remember how far each execution could be explained (needs a single worker)
Progress ==
  TLCSet(tid, IF TLCGetOrDefault(tid, 0) < l THEN l ELSE TLCGetOrDefault(tid, 0))

Report ==
  TLCGet("stats").generated >= 0 /\ \A i \in DOMAIN Traces :
    LET m == TLCGetOrDefault(i, 0) IN
    m = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECTED", i, m>>)
=============================================================================
