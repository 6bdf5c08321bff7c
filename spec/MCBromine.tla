------------------------------ MODULE MCBromine -------------------------------
(***************************************************************************)
(* Bromine closed with a small environment, for exhaustive checking: an    *)
(* endpoint with two links (a pool of two connections, or a server with    *)
(* two), a user who starts, awaits and drops a few operations, handlers    *)
(* that emit, succeed, fail and panic, peers that send what they want, and *)
(* transports that stall, break and end.                                   *)
(*                                                                         *)
(* Checked: the properties the module was written for, stated on what the  *)
(* outside can see (history variables), not on the module's own state; and *)
(* that the module never demands the impossible: as long as something is   *)
(* owed (not Settled), the library can take a step.                        *)
(***************************************************************************)
EXTENDS Bromine

CONSTANTS
  Links,
  Shared,    \* the links are a pool's: they share their requests
  MaxOps, MaxFrames, MaxTime, MaxFaults,
  Tmo,       \* the timeout of requests
  Names,     \* of the events that peers send; a has a handler, x has none
  KindSet    \* operations: subset of {"emit", "req", "stream"}

VARIABLES
  n,      \* how much of the bounds was used up
  seen,   \* link -> frames that were dispatched to nobody or a handler, in order: [f, fin]
  given,  \* operation -> all events its user was given, in order
  born,   \* operation -> [id, c, at]: its event was on the wire (and flushed at `at`)
  came,   \* link -> all frames that were taken by the read loop, in order
  out     \* link -> all events that appeared on its wire

hist == <<seen, given, born, came, out>>
all == <<vars, n, hist>>

\* (x has no handler)
HandlerSet == {[ep |-> 1, ns |-> "", nm |-> "a", h |-> 1]}

MCInit ==
  /\ Init
  /\ hd = HandlerSet
  /\ n = [ops |-> 0, frames |-> 0, faults |-> 0]
  /\ seen = [c \in Links |-> <<>>]
  /\ came = [c \in Links |-> <<>>]
  /\ out = [c \in Links |-> <<>>]
  /\ given = <<>>
  /\ born = <<>>

\* (the links are there from the start)
Ready0 == DOMAIN lnk = Links
Start ==
  /\ ~Ready0
  /\ LET c == CHOOSE x \in Links : x \notin DOMAIN lnk IN Open(c, 1, IF Shared THEN 1 ELSE 1000 + c, Shared)
  /\ UNCHANGED <<n, hist>>

Fresh == Cardinality(used) + 1

-----------------------------------------------------------------------------
(* The library                                                              *)

DoDispatch(c) ==
  /\ Dispatch(c)
  /\ LET it == Head(lnk[c].rx) IN
     /\ came' = IF it.k = "f" THEN [came EXCEPT ![c] = Append(@, it.f)] ELSE came
     /\ seen' = IF it.k = "f" /\ DOMAIN inst' # DOMAIN inst THEN [seen EXCEPT ![c] = Append(@, it.f)] ELSE seen
  /\ UNCHANGED <<n, given, born, out>>

DoStart ==
  \E i \in DOMAIN inst : HStart(IF DOMAIN ctxs = {} THEN 1 ELSE Max(DOMAIN ctxs) + 1, inst[i].h, inst[i].f) /\ UNCHANGED <<n, hist>>

\* all events that could appear on link c now
Possible(c) ==
  {[id |-> Fresh, ty |-> OpType(ops[o]), ref |-> ops[o].ref, ns |-> ops[o].ns, nm |-> ops[o].nm, pl |-> ops[o].pl, er |-> FALSE, code |-> 0]
     : o \in {x \in DOMAIN ops : ops[x].st = "called" /\ c \in ops[x].cs /\ ~ops[x].bad}}
  \cup {[id |-> Fresh, ty |-> inst[i].fin.ty, ref |-> inst[i].fin.ref, ns |-> inst[i].fin.ns, nm |-> inst[i].fin.nm, pl |-> inst[i].fin.pl,
         er |-> inst[i].fin.ty = "X", code |-> IF inst[i].fin.ty = "X" THEN 500 ELSE 0]
     : i \in {x \in DOMAIN inst : inst[x].st = "done" /\ inst[x].c = c}}

DoTx(c) ==
  /\ ~lnk[c].wb /\ ~lnk[c].wc /\ ~lnk[c].wd
  /\ \E f \in Possible(c) :
       /\ Tx(c, f)
       /\ out' = [out EXCEPT ![c] = Append(@, f)]
       /\ born' = [o \in DOMAIN born \cup {x \in DOMAIN ops' : ops'[x].st = "sent"} |->
                     IF o \in DOMAIN born THEN born[o] ELSE [id |-> f.id, c |-> c, at |-> None]]
  /\ UNCHANGED <<n, seen, given, came>>

DoFlush(c) ==
  /\ ~lnk[c].fh /\ ~lnk[c].wc
  /\ \E o \in DOMAIN ops : ops[o].st = "sent" /\ ops[o].c = c
  /\ Flushed(c)
  /\ born' = [o \in DOMAIN born |-> IF o \in DOMAIN ops /\ ops[o].st = "sent" /\ ops[o].c = c THEN [born[o] EXCEPT !.at = now + 1] ELSE born[o]]
  /\ UNCHANGED <<n, seen, given, came, out>>

Gets(o, x) == given' = [given EXCEPT ![o] = Append(@, x)]
Res(k) == [k |-> k, f |-> NoFrame, t |-> now]

\* the outcome of an operation, or the next item of a stream
DoReturn(o) ==
  /\ \/ RetOk(o, ops[o].id) /\ Gets(o, Res("ok"))
     \/ RetFail(o) /\ Gets(o, Res("fail"))
     \/ ops[o].buf # <<>> /\ RetReply(o, Head(ops[o].buf)) /\ Gets(o, [k |-> "event", f |-> Head(ops[o].buf), t |-> now])
     \/ ops[o].buf # <<>> /\ RetError(o, IF Head(ops[o].buf).er THEN Head(ops[o].buf).pl ELSE "undecodable") /\ Gets(o, [k |-> "event", f |-> Head(ops[o].buf), t |-> now])
     \/ RetTimeout(o) /\ Gets(o, Res("timeout"))
     \/ RetLost(o) /\ Gets(o, Res("lost"))
     \/ RetStream(o) /\ UNCHANGED given
     \/ ops[o].buf # <<>> /\ ItemReply(o, Head(ops[o].buf)) /\ Gets(o, [k |-> "event", f |-> Head(ops[o].buf), t |-> now])
     \/ ItemTimeout(o) /\ Gets(o, Res("timeout"))
     \/ ItemLost(o) /\ Gets(o, Res("lost"))
     \/ ItemEnd(o) /\ Gets(o, Res("end"))
  /\ UNCHANGED <<n, seen, born, came, out>>

\* a stopped read loop ends, an abandoned connection is closed
DoEnd ==
  \E c \in Links :
    /\ \/ lnk[c].rd = "stopping" /\ lnk' = [lnk EXCEPT ![c].rd = "dead", ![c].rx = <<>>]
       \/ Abandoned(c) /\ ~lnk[c].wd /\ lnk' = [lnk EXCEPT ![c].wd = TRUE]
    /\ UNCHANGED <<now, hd, ops, inst, ctxs, used, n, hist>>

Library ==
  \/ \E c \in Links : DoDispatch(c) \/ DoTx(c) \/ DoFlush(c)
  \/ DoStart
  \/ \E o \in DOMAIN ops : DoReturn(o)
  \/ DoEnd

-----------------------------------------------------------------------------
(* The user                                                                 *)

NewNumber == n.ops + 1

DoCall ==
  /\ n.ops < MaxOps
  /\ \E kind \in KindSet :
       \/ \* outside of handlers, on one connection or any
          /\ Shared
          /\ \E cs \in {{1}, Links} : Call(NewNumber, NewOp(kind, cs, 0, "", "a", "o" \o ToString(NewNumber), Tmo, FALSE))
       \/ \* in a handler
          \E i \in DOMAIN inst :
            /\ inst[i].st = "running"
            /\ Call(NewNumber, NewOp(kind, {inst[i].c}, ctxs[inst[i].k].ref, "", "a", "o" \o ToString(NewNumber), Tmo, FALSE))
  /\ given' = Put(given, NewNumber, <<>>)
  /\ n' = [n EXCEPT !.ops = @ + 1]
  /\ UNCHANGED <<seen, born, came, out>>

DoHandlerEnds ==
  /\ \E i \in DOMAIN inst : \E res \in {"ok", "err", "panic"} : inst[i].k # 0 /\ HEnd(inst[i].k, res, "r")
  /\ UNCHANGED <<n, hist>>

\* (a stream that has ended can be asked for ever)
DoNext == (\E o \in DOMAIN ops : Len(given[o]) < MaxFrames + 3 /\ Next_(o)) /\ UNCHANGED <<n, hist>>

DoGiveUp ==
  /\ n.faults < MaxFaults
  /\ \E o \in DOMAIN ops : Unnext(o) \/ (ops[o].st # "ghost" /\ Drop(o))
  /\ n' = [n EXCEPT !.faults = @ + 1]
  /\ UNCHANGED hist

-----------------------------------------------------------------------------
(* The peers and the transport                                              *)

Refs == {0} \cup {born[o].id : o \in DOMAIN born} \cup {99}

DoPeer ==
  /\ n.frames < MaxFrames
  /\ \E c \in Links :
       /\ lnk[c].rd # "dead"
       /\ \/ \E ty \in {"I", "R", "E", "X"}, ref \in Refs, nm \in Names :
               /\ (ty = "I") = (ref = 0)
               /\ ty \in {"E", "X"} => nm = "x"
               /\ Arrive(c, FrameItem([id |-> 100 + n.frames, ty |-> ty, ref |-> ref, ns |-> "", nm |-> nm, pl |-> "p", er |-> FALSE, code |-> 0]))
          \/ n.faults < MaxFaults /\ Arrive(c, BadItem)
          \/ n.faults < MaxFaults /\ Arrive(c, EofItem)
       /\ LET it == lnk'[c].rx[Len(lnk'[c].rx)] IN
          n' = [n EXCEPT !.frames = @ + 1, !.faults = IF it.k = "f" THEN @ ELSE @ + 1]
  /\ UNCHANGED hist

DoFault ==
  /\ n.faults < MaxFaults
  /\ \E c \in Links, field \in {"wb", "fh", "wc", "rh"} : ~lnk[c][field] /\ SetLink(c, field, TRUE)
  /\ n' = [n EXCEPT !.faults = @ + 1]
  /\ UNCHANGED hist

DoRepair ==
  /\ \E c \in Links, field \in {"wb", "fh", "rh"} : lnk[c][field] /\ SetLink(c, field, FALSE)
  /\ UNCHANGED <<n, hist>>

DoStop ==
  /\ Shared /\ n.faults < MaxFaults
  /\ \E c \in Links : lnk[c].rd = "live" /\ Stop(c)
  /\ n' = [n EXCEPT !.faults = @ + 1]
  /\ UNCHANGED hist

\* time passes when everything that can happen has happened: the library is fast
DoTick == now < MaxTime /\ Settled /\ Tick(now + 1) /\ UNCHANGED <<n, hist>>

World == DoCall \/ DoHandlerEnds \/ DoNext \/ DoGiveUp \/ DoPeer \/ DoFault \/ DoRepair \/ DoStop

MCNext == Start \/ (Ready0 /\ (Library \/ World \/ DoTick))

MCSpec == MCInit /\ [][MCNext]_all

-----------------------------------------------------------------------------
(* What has to hold                                                         *)

\* (nothing impossible is demanded)
Satisfiable == Ready0 /\ ~Settled => ENABLED Library

Events(o) == SelectSeq(given[o], LAMBDA x : x.k = "event")

\* C05: a request only gets events that answer it, from its connection (or pool)
Mine ==
  \A o \in DOMAIN given : \A i \in DOMAIN Events(o) :
    LET f == Events(o)[i].f IN
    /\ o \in DOMAIN born /\ f.ref = born[o].id
    /\ \E c \in Links : (c = born[o].c \/ Shared) /\ \E j \in DOMAIN came[c] : came[c][j] = f

\* C06: in the order they were received on a connection, none twice
InOrder ==
  \A o \in DOMAIN given : \A i, j \in DOMAIN Events(o) :
    i < j => LET f == Events(o)[i].f
                 g == Events(o)[j].f
             IN /\ f # g
                /\ \A c \in Links : \A x, y \in DOMAIN came[c] : (came[c][x] = f /\ came[c][y] = g) => x < y

\* and nothing after the final one, or after the end
Ended ==
  \A o \in DOMAIN given : \A i \in DOMAIN given[o] :
    (given[o][i].k \in {"timeout", "lost", "end", "fail", "ok"} \/ IsFinal(given[o][i].f)) =>
      \A j \in DOMAIN given[o] : j > i => given[o][j].k = "end"

\* what a request was given nobody else was given, and no handler
Once ==
  \A o \in DOMAIN given : \A i \in DOMAIN Events(o) :
    LET f == Events(o)[i].f IN
    /\ \A p \in DOMAIN given : p # o => \A j \in DOMAIN Events(p) : Events(p)[j].f # f
    /\ \A c \in Links : \A j \in DOMAIN seen[c] : seen[c][j] # f

\* C07: at most one final reply per event that was received, on its connection
Finals ==
  \A c \in Links : \A i \in DOMAIN out[c] :
    out[c][i].ty \in {"E", "X"} =>
      /\ \E j \in DOMAIN seen[c] : seen[c][j].id = out[c][i].ref
      /\ \A j \in DOMAIN out[c] : (j # i /\ out[c][j].ty \in {"E", "X"}) => out[c][j].ref # out[c][i].ref

\* and exactly one as soon as there is nothing left to do (unless its handler runs or panicked)
AllFinals ==
  Ready0 /\ Settled =>
    \A c \in Links : \A j \in DOMAIN seen[c] :
      \/ \E i \in DOMAIN out[c] : out[c][i].ty \in {"E", "X"} /\ out[c][i].ref = seen[c][j].id
      \/ lnk[c].wb \/ lnk[c].fh \/ lnk[c].wc
      \/ \E i \in DOMAIN inst : inst[i].f = seen[c][j] /\ inst[i].st \in {"running", "gone"}

\* C08: a timeout not before its time, and the user does not wait for ever
Timely ==
  /\ \A o \in DOMAIN given : \A i \in DOMAIN given[o] :
       given[o][i].k = "timeout" => o \in DOMAIN born /\ born[o].at # None /\ given[o][i].t >= born[o].at - 1 + Tmo
  /\ Ready0 /\ Settled => \A o \in DOMAIN ops :
       ops[o].kind = "req" /\ ops[o].st = "flushed" => now <= born[o].at - 1 + Tmo + Slack

\* C10: an event that answers nothing that is waiting goes to a handler or is answered,
\* unless it is an end event
Unclaimed ==
  \A c \in Links : \A i \in DOMAIN came[c] :
    LET f == came[c][i] IN
    \/ f.ty = "E"
    \/ \E j \in DOMAIN seen[c] : seen[c][j] = f
    \/ \E o \in DOMAIN born : born[o].id = f.ref /\ (Shared \/ born[o].c = c)

\* C19
Ids == \A c, d \in Links : \A i \in DOMAIN out[c], j \in DOMAIN out[d] : (c # d \/ i # j) => out[c][i].id # out[d][j].id

\* C16: an event's final reply, and what its handler emits, go back on its own connection (c is part of seen/out above)
\* C17: nothing is taken from a connection after its end
DeadIsDead == [][\A c \in DOMAIN lnk : lnk[c].rd = "dead" => came'[c] = came[c]]_all
=============================================================================
