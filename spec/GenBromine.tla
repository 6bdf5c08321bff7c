------------------------------ MODULE GenBromine ------------------------------
(***************************************************************************)
(* Behaviours of MCBromine as scenarios for the real library: TLC (in      *)
(* simulation mode) walks through the specification and writes down what   *)
(* users, handlers, peers and the transport did, and where the library was *)
(* given the time to do everything it could.  tools/gen_spec.py makes a    *)
(* scenario of it.  What the library then really does is again judged by   *)
(* TraceBromine.                                                           *)
(*                                                                         *)
(* First a kind of step is chosen and then a step of that kind, so that    *)
(* kinds with many possible steps are not the only ones that occur.        *)
(***************************************************************************)
EXTENDS MCBromine, Json

CONSTANT MaxScript

VARIABLES
  script,   \* what the world did so far
  kind,     \* the kind of the next step, "" if it was not chosen yet
  calm      \* the library goes on until it has nothing left to do

gvars == <<all, script, kind, calm>>

GenInit == MCInit /\ script = <<>> /\ kind = "" /\ calm = TRUE

\* quiet: the library had done everything it could before
Say(x) == script' = Append(script, [x EXCEPT !.quiet = Settled])

Count(what) == n' = [n EXCEPT ![what] = @ + 1]

Payload == "p" \o ToString(n.frames)

GCall ==
  /\ Shared /\ n.ops < MaxOps
  /\ \E k \in KindSet :
       /\ Call(NewNumber, NewOp(k, Links, 0, "", "a", "o" \o ToString(NewNumber), Tmo, FALSE))
       /\ Say([quiet |-> TRUE, a |-> "call", o |-> NewNumber, kind |-> k])
  /\ given' = Put(given, NewNumber, <<>>)
  /\ Count("ops") /\ UNCHANGED <<seen, born, came, out>>

GHandlerCall ==
  /\ n.ops < MaxOps
  /\ \E k \in KindSet : \E i \in DOMAIN inst :
       /\ inst[i].st = "running"
       /\ Call(NewNumber, NewOp(k, {inst[i].c}, ctxs[inst[i].k].ref, "", "a", "o" \o ToString(NewNumber), Tmo, FALSE))
       /\ Say([quiet |-> TRUE, a |-> "hcall", o |-> NewNumber, kind |-> k, pl |-> inst[i].f.pl])
  /\ given' = Put(given, NewNumber, <<>>)
  /\ Count("ops") /\ UNCHANGED <<seen, born, came, out>>

GHandlerEnds ==
  /\ \E i \in DOMAIN inst : \E res \in {"ok", "err", "panic"} :
       inst[i].k # 0 /\ HEnd(inst[i].k, res, "r") /\ Say([quiet |-> TRUE, a |-> "hend", pl |-> inst[i].f.pl, res |-> res])
  /\ UNCHANGED <<n, hist>>

GNext == (\E o \in DOMAIN ops : ops[o].kind = "stream" /\ Next_(o) /\ Say([quiet |-> TRUE, a |-> "next", o |-> o])) /\ UNCHANGED <<n, hist>>

GGiveUp ==
  /\ n.faults < MaxFaults
  /\ \E o \in DOMAIN ops : \/ Unnext(o) /\ Say([quiet |-> TRUE, a |-> "unnext", o |-> o])
                           \/ ops[o].st # "ghost" /\ Drop(o) /\ Say([quiet |-> TRUE, a |-> "drop", o |-> o])
  /\ Count("faults") /\ UNCHANGED hist

\* ref: the operation that is answered, 0: none, -1: something unknown
Frame(c, ty, ref, nm) ==
  /\ Arrive(c, FrameItem([id |-> 100 + n.frames, ty |-> ty, ref |-> IF ref > 0 THEN born[ref].id ELSE 0 - (99 * ref), ns |-> "", nm |-> nm,
                          pl |-> Payload, er |-> FALSE, code |-> 0]))
  /\ Say([quiet |-> TRUE, a |-> "frame", c |-> c, ty |-> ty, ref |-> ref, nm |-> nm, pl |-> Payload])

GEvent ==
  /\ n.frames < MaxFrames
  /\ \E c \in Links, nm \in Names : lnk[c].rd # "dead" /\ Frame(c, "I", 0, nm)
  /\ Count("frames") /\ UNCHANGED hist

GReply ==
  /\ n.frames < MaxFrames
  /\ \E c \in Links, ty \in {"R", "E", "X"}, ref \in DOMAIN born, nm \in {"a", "x"} : lnk[c].rd # "dead" /\ Frame(c, ty, ref, nm)
  /\ Count("frames") /\ UNCHANGED hist

GStray ==
  /\ n.frames < MaxFrames
  /\ \E c \in Links, ty \in {"R", "E", "X"}, nm \in Names : lnk[c].rd # "dead" /\ Frame(c, ty, 0 - 1, nm)
  /\ Count("frames") /\ UNCHANGED hist

GBreak ==
  /\ n.faults < MaxFaults
  /\ \E c \in Links :
       /\ lnk[c].rd # "dead"
       /\ \/ Arrive(c, BadItem) /\ Say([quiet |-> TRUE, a |-> "bad", c |-> c])
          \/ Arrive(c, EofItem) /\ Say([quiet |-> TRUE, a |-> "eof", c |-> c])
  /\ Count("faults") /\ UNCHANGED hist

GFault ==
  /\ n.faults < MaxFaults
  /\ \E c \in Links, field \in {"wb", "fh", "wc", "rh"} : ~lnk[c][field] /\ SetLink(c, field, TRUE) /\ Say([quiet |-> TRUE, a |-> "fault", c |-> c, field |-> field])
  /\ Count("faults") /\ UNCHANGED hist

GRepair ==
  /\ \E c \in Links, field \in {"wb", "fh", "rh"} : lnk[c][field] /\ SetLink(c, field, FALSE) /\ Say([quiet |-> TRUE, a |-> "repair", c |-> c, field |-> field])
  /\ UNCHANGED <<n, hist>>

GStop ==
  /\ Shared /\ Cardinality(Links) = 1 /\ n.faults < MaxFaults
  /\ \E c \in Links : lnk[c].rd = "live" /\ Stop(c) /\ Say([quiet |-> TRUE, a |-> "stop", c |-> c])
  /\ Count("faults") /\ UNCHANGED hist

GTick == now < MaxTime /\ Settled /\ Tick(now + 1) /\ Say([quiet |-> TRUE, a |-> "tick"]) /\ UNCHANGED <<n, hist>>

Step(k) ==
  CASE k = "call" -> GCall
    [] k = "hcall" -> GHandlerCall
    [] k = "hend" -> GHandlerEnds
    [] k = "next" -> GNext
    [] k = "giveup" -> GGiveUp
    [] k = "event" -> GEvent
    [] k = "reply" -> GReply
    [] k = "stray" -> GStray
    [] k = "break" -> GBreak
    [] k = "fault" -> GFault
    [] k = "repair" -> GRepair
    [] k = "stop" -> GStop
    [] k = "tick" -> GTick

Kinds == {"call", "hcall", "hend", "next", "giveup", "event", "reply", "stray", "break", "fault", "repair", "stop", "tick"}

GenNext ==
  IF ~Ready0 THEN Start /\ UNCHANGED <<script, kind, calm>>
  ELSE IF kind = "done" THEN FALSE
  ELSE IF calm /\ ~Settled THEN Library /\ UNCHANGED <<script, kind, calm>>
  ELSE IF kind = "" /\ (Len(script) >= MaxScript \/ (TLCGet("level") > 300 /\ Settled))
       THEN PrintT("SCRIPT " \o ToJson(script)) /\ kind' = "done" /\ UNCHANGED <<all, script, calm>>
  ELSE IF kind = "" THEN
         \/ \E k \in Kinds : kind' = k /\ UNCHANGED <<all, script, calm>>
         \/ ~calm /\ Library /\ UNCHANGED <<script, kind, calm>>
  ELSE \/ Step(kind) /\ kind' = "" /\ \E x \in 1 .. 3 : calm' = (x # 3)
       \/ kind' = "" /\ UNCHANGED <<all, script, calm>>

GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
