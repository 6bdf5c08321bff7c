------------------------------- MODULE Bromine -------------------------------
(***************************************************************************)
(* The event layer of one process that uses bromine: its servers, clients  *)
(* and pools ("endpoints"), the connections they hold ("links"), the       *)
(* requests that wait for replies, the handlers that run and the final     *)
(* replies that are owed.                                                  *)
(*                                                                         *)
(* The actions are those of the implementation: an emission is called,     *)
(* appears on the wire, is flushed and returns; a received frame waits in  *)
(* the connection's read queue until the read loop takes it ("Dispatch",   *)
(* which nobody can observe directly) and hands it either to the request   *)
(* it answers or to a handler; and so on.  The module describes an open    *)
(* system: MCBromine closes it with a small nondeterministic environment   *)
(* for exhaustive checking, GenBromine makes TLC produce behaviours that   *)
(* are replayed on the real library, and TraceBromine constrains it by     *)
(* what was recorded from the real library.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  now,    \* time in ms
  hd,     \* registered handlers: set of [ep, ns, nm, h]; h grows with the order of registration
  lnk,    \* link -> its state
  ops,    \* emission/request/stream (by number) -> its state, while it exists
  inst,   \* received event that is being handled -> its state, until its final reply was sent
  ctxs,   \* handler context (by number) -> the link and the event it belongs to
  used    \* event ids that events of this process were seen to carry

vars == <<now, hd, lnk, ops, inst, ctxs, used>>

None == 0
\* an event as it is on the wire; er: its payload is error data, with this code
NoFrame == [id |-> 0, ty |-> "-", ref |-> 0, ns |-> "", nm |-> "", pl |-> "", er |-> FALSE, code |-> 0]

\* how long after its deadline a timeout may be observed (granularity of the timer)
Slack == 2

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Init ==
  /\ now = 0
  /\ lnk = <<>>
  /\ ops = <<>>
  /\ inst = <<>>
  /\ ctxs = <<>>
  /\ used = {}

-----------------------------------------------------------------------------
(* Handlers                                                                 *)

Builtin == 0 - 1   \* the default handler of the "error" event

\* The handler that has to run for an event: the last one registered for exactly
\* this namespace and name.  Events without a namespace have ns = "".
Lookup(ep, ns, nm) ==
  LET S == {x \in hd : x.ep = ep /\ x.ns = ns /\ x.nm = nm}
  IN IF S # {} THEN Max({x.h : x \in S})
     ELSE IF ns = "" /\ nm = "error" THEN Builtin
     ELSE None

Final(ty, f, pl) ==
  [ty |-> ty, ref |-> f.id, ns |-> "", nm |-> IF ty = "E" THEN "end" ELSE "error", pl |-> pl]

\* the built-in handler fails if the payload of the event is not error data
BuiltinFinal(f) == IF f.er THEN Final("E", f, "") ELSE Final("X", f, "err:500:*")

NextInst == IF DOMAIN inst = {} THEN 1 ELSE Max(DOMAIN inst) + 1

-----------------------------------------------------------------------------
(* Links                                                                    *)

NewLink(ep, dom, held) ==
  [ep |-> ep, dom |-> dom,
   held |-> held,      \* the user holds the context of its endpoint
   kept |-> 0,         \* number of contexts of handlers that were kept beyond the handler
   rx |-> <<>>,        \* received but not yet taken by the read loop
   rd |-> "live",      \* "live", "stopping" or "dead": whether received events are handled
   wb |-> FALSE,       \* the transport does not accept (all) data at the moment
   fh |-> FALSE,       \* the transport does not complete flushes at the moment
   rh |-> FALSE,       \* the transport does not hand over received data at the moment
   wc |-> FALSE,       \* the transport refuses writes
   lossy |-> FALSE,    \* what it had accepted before then may have been lost
   wd |-> FALSE,       \* the endpoint has closed its sending direction
   rr |-> FALSE]       \* the endpoint has closed its receiving direction

Open(c, ep, dom, held) ==
  /\ c \notin DOMAIN lnk
  /\ lnk' = Put(lnk, c, NewLink(ep, dom, held))
  /\ UNCHANGED <<now, hd, ops, inst, ctxs, used>>

SetLink(c, field, v) ==
  /\ lnk' = [lnk EXCEPT ![c] = [@ EXCEPT ![field] = v]]
  /\ UNCHANGED <<now, hd, ops, inst, ctxs, used>>

\* Something arrives: a frame, the mark of malformed input, or the end of the input.
Arrive(c, item) ==
  /\ lnk' = [lnk EXCEPT ![c].rx = Append(@, item)]
  /\ UNCHANGED <<now, hd, ops, inst, ctxs, used>>

FrameItem(f) == [k |-> "f", f |-> f]
BadItem == [k |-> "bad", f |-> NoFrame]
EofItem == [k |-> "eof", f |-> NoFrame]

-----------------------------------------------------------------------------
(* Requests that can take a reply                                           *)

\* A request takes replies from the moment its event is on the wire until it has
\* its result (a stream: until it has yielded the final reply or timed out).
Listening(o) == ops[o].kind \in {"req", "stream"} /\ ops[o].st \in {"sent", "flushed", "open", "wait", "paused"}

Takers(c, f) ==
  {o \in DOMAIN ops : f.ref # 0 /\ Listening(o) /\ ops[o].id = f.ref /\ ops[o].dom = lnk[c].dom}

\* The read loop takes the next thing from its queue.
Dispatch(c) ==
  /\ lnk[c].rx # <<>>
  /\ lnk[c].rd # "dead"
  /\ ~lnk[c].rh
  /\ LET it == Head(lnk[c].rx)
         f == it.f
     IN IF it.k # "f"
        THEN \* the connection ends, whatever else was received is discarded
             /\ lnk' = [lnk EXCEPT ![c].rd = "dead", ![c].rx = <<>>]
             /\ UNCHANGED <<ops, inst>>
        ELSE /\ lnk' = [lnk EXCEPT ![c].rx = Tail(@)]
             /\ IF Takers(c, f) # {}
                THEN LET o == CHOOSE x \in Takers(c, f) : TRUE
                     IN /\ ops' = [ops EXCEPT ![o].buf = Append(@, f),
                                              ![o].bt = IF ops[o].buf = <<>> THEN now ELSE @]
                        /\ UNCHANGED inst
                ELSE IF f.ty = "E"
                THEN UNCHANGED <<ops, inst>>
                ELSE LET h == Lookup(lnk[c].ep, f.ns, f.nm)
                         r == CASE h = None -> [st |-> "done", fin |-> Final("E", f, "")]
                                [] h = Builtin -> [st |-> "done", fin |-> BuiltinFinal(f)]
                                [] OTHER -> [st |-> "pending", fin |-> Final("E", f, "")]
                     IN /\ inst' = Put(inst, NextInst,
                              [c |-> c, h |-> h, f |-> f, k |-> 0, st |-> r.st, fin |-> r.fin])
                        /\ UNCHANGED ops
  /\ UNCHANGED <<now, hd, ctxs, used>>

-----------------------------------------------------------------------------
(* Handlers                                                                 *)

HStart(k, h, f) ==
  /\ k \notin DOMAIN ctxs
  /\ LET S == {i \in DOMAIN inst : inst[i].st = "pending" /\ inst[i].h = h /\ inst[i].f = f}
     IN /\ S # {}
        /\ \E i \in {Min({x \in S : inst[x].c = c}) : c \in {inst[y].c : y \in S}} :
             /\ inst' = [inst EXCEPT ![i].st = "running", ![i].k = k]
             /\ ctxs' = Put(ctxs, k, [c |-> inst[i].c, ref |-> f.id])
  /\ UNCHANGED <<now, hd, lnk, ops, used>>

\* The handler is done; from now on its final reply is owed.  res: "ok", "err" or
\* "panic"; pl: the payload of its response or the description of its failure.
HEnd(k, res, pl) ==
  \E i \in DOMAIN inst :
    /\ inst[i].k = k /\ inst[i].st = "running"
    /\ inst' = CASE res = "ok" -> [inst EXCEPT ![i].st = "done", ![i].fin = Final("E", inst[i].f, pl)]
                 [] res = "err" -> [inst EXCEPT ![i].st = "done", ![i].fin = Final("X", inst[i].f, pl)]
                 [] res = "panic" -> [inst EXCEPT ![i].st = "gone", ![i].fin = Final("X", inst[i].f, "*")]
    /\ UNCHANGED <<now, hd, lnk, ops, ctxs, used>>

-----------------------------------------------------------------------------
(* Emissions                                                                *)

\* kind: "emit", "req" or "stream"; cs: the links it may use (a pool chooses one);
\* ref: the event it answers; bad: the event cannot be represented on the wire.
NewOp(kind, cs, ref, ns, nm, pl, tmo, bad) ==
  [kind |-> kind, cs |-> cs, ref |-> ref, ns |-> ns, nm |-> nm, pl |-> pl, tmo |-> tmo,
   bad |-> bad, st |-> "called", id |-> 0, c |-> 0, dom |-> 0,
   dl |-> 0,        \* when it times out
   dl2 |-> 0,       \* and until when this must have happened
   pz |-> FALSE,    \* its user did not wait all the time since the timeout was started
   buf |-> <<>>,    \* replies it was given and has not delivered to its user yet
   bt |-> 0]        \* since when the oldest of them waits

Call(o, op) ==
  /\ o \notin DOMAIN ops
  /\ ops' = Put(ops, o, op)
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

OpType(op) == IF op.ref = 0 THEN "I" ELSE "R"

FinMatches(fin, f) ==
  /\ fin.ty = f.ty /\ fin.ref = f.ref /\ fin.ns = f.ns /\ fin.nm = f.nm
  /\ \/ fin.pl = f.pl
     \/ fin.pl = "*"
     \/ fin.pl = "err:500:*" /\ f.code = 500

\* A whole event has appeared on the wire of link c: an emission that was called and
\* not sent before, or a final reply that is owed.
Tx(c, f) ==
  /\ f.id \notin used
  /\ used' = used \cup {f.id}
  /\ \/ \E o \in DOMAIN ops :
          /\ ops[o].st \in {"called", "ghost"} /\ c \in ops[o].cs /\ ~ops[o].bad
          /\ OpType(ops[o]) = f.ty /\ ops[o].ref = f.ref
          /\ ops[o].ns = f.ns /\ ops[o].nm = f.nm /\ ops[o].pl = f.pl
          /\ ops' = IF ops[o].st = "ghost" THEN Del(ops, o)
                    ELSE [ops EXCEPT ![o].st = "sent", ![o].id = f.id, ![o].c = c, ![o].dom = lnk[c].dom]
          /\ UNCHANGED inst
     \/ \E i \in DOMAIN inst :
          /\ inst[i].st \in {"done", "gone"} /\ inst[i].c = c /\ FinMatches(inst[i].fin, f) = TRUE
          /\ inst' = Del(inst, i)
          /\ UNCHANGED ops
  /\ UNCHANGED <<now, hd, lnk, ctxs>>

\* The transport has completed a flush of link c.
Flushed(c) ==
  /\ ops' = [o \in DOMAIN ops |->
               IF ops[o].st = "sent" /\ ops[o].c = c
               THEN [ops[o] EXCEPT !.st = "flushed", !.dl = now + ops[o].tmo, !.dl2 = now + ops[o].tmo]
               ELSE ops[o]]
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* all the links an operation might be using are broken in the given way
Broken(o, P(_)) == LET S == IF ops[o].c # 0 THEN {ops[o].c} ELSE ops[o].cs
                   IN \E c \in S : c \notin DOMAIN lnk \/ P(lnk[c])
Unwritable(L) == L.wc
Lossy(L) == L.lossy
Unreadable(L) == L.rd # "live"

\* An emission reports success and the id of its event.
RetOk(o, id) ==
  /\ ops[o].kind = "emit"
  /\ \/ ops[o].st = "flushed" /\ ops[o].id = id
     \/ ops[o].st \in {"called", "sent"} /\ Broken(o, Lossy) = TRUE
  /\ ops' = Del(ops, o)
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* An emission or request fails because its event could not be sent.
RetFail(o) ==
  /\ \/ ops[o].st = "called" /\ ops[o].bad
     \/ ops[o].st \in {"called", "sent"} /\ Broken(o, Unwritable) = TRUE
  /\ ops' = Del(ops, o)
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* A request yields the first event that answers it,
RetReply(o, f) ==
  /\ ops[o].kind = "req" /\ ops[o].st = "flushed"
  /\ ops[o].buf # <<>> /\ Head(ops[o].buf) = f /\ f.ty # "X"
  /\ ops' = Del(ops, o)
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* or the error it carries (er: the payload was error data at all),
RetError(o, pl) ==
  /\ ops[o].kind = "req" /\ ops[o].st = "flushed"
  /\ ops[o].buf # <<>> /\ Head(ops[o].buf).ty = "X"
  /\ IF Head(ops[o].buf).er THEN Head(ops[o].buf).pl = pl ELSE pl = "undecodable"
  /\ ops' = Del(ops, o)
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* or a timeout, if nothing answered in time,
TimedOut(o) ==
  /\ now >= ops[o].dl
  /\ ops[o].buf = <<>> \/ ops[o].bt >= ops[o].dl - 1 \/ ops[o].pz

RetTimeout(o) ==
  /\ ops[o].kind = "req" /\ ops[o].st = "flushed"
  /\ TimedOut(o) = TRUE
  /\ ops' = Del(ops, o)
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* or another error if its connection has ended.
RetLost(o) ==
  /\ ops[o].kind = "req" /\ ops[o].st = "flushed"
  /\ ops[o].buf = <<>> /\ Broken(o, Unreadable) = TRUE
  /\ ops' = Del(ops, o)
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* A stream of replies has been established.
RetStream(o) ==
  /\ ops[o].kind = "stream" /\ ops[o].st = "flushed"
  /\ ops' = [ops EXCEPT ![o].st = "open"]
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* Its user starts waiting for the next item,
Next_(o) ==
  /\ ops[o].st \in {"open", "paused", "over"}
  /\ LET op == ops[o]
         due == now + op.tmo
     IN ops' = [ops EXCEPT ![o] = CASE op.st = "open" -> [op EXCEPT !.st = "wait", !.dl = due, !.dl2 = due, !.pz = FALSE]
                                    [] op.st = "paused" -> [op EXCEPT !.st = "wait", !.dl2 = due]
                                    [] OTHER -> [op EXCEPT !.st = "last"]]
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* may give up waiting (the timeout may go on from when it was started),
Unnext(o) ==
  /\ ops[o].st \in {"wait", "last"}
  /\ ops' = [ops EXCEPT ![o].st = IF @ = "wait" THEN "paused" ELSE "over", ![o].pz = TRUE]
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

IsFinal(f) == f.ty \in {"E", "X"}

\* and gets the next reply,
ItemReply(o, f) ==
  /\ ops[o].st = "wait" /\ ops[o].buf # <<>> /\ Head(ops[o].buf) = f
  /\ ops' = [ops EXCEPT ![o].st = IF IsFinal(f) THEN "over" ELSE "open",
                        ![o].buf = Tail(@), ![o].bt = now]
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* a timeout error,
ItemTimeout(o) ==
  /\ ops[o].st = "wait" /\ TimedOut(o) = TRUE
  /\ ops' = [ops EXCEPT ![o].st = "over", ![o].buf = <<>>]
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* another error (or the end) if the connection has ended,
ItemLost(o) ==
  /\ ops[o].st = "wait" /\ ops[o].buf = <<>> /\ Broken(o, Unreadable) = TRUE
  /\ ops' = [ops EXCEPT ![o].st = "over"]
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* or the end of the stream.
ItemEnd(o) ==
  /\ \/ ops[o].st = "last"
     \/ ops[o].st = "wait" /\ ops[o].buf = <<>> /\ Broken(o, Unreadable) = TRUE
  /\ ops' = [ops EXCEPT ![o].st = "over", ![o].buf = <<>>]
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* The user drops an operation.  Its event may still appear on the wire, as a whole.
Drop(o) ==
  /\ ops' = IF ops[o].st = "called" THEN [ops EXCEPT ![o].st = "ghost"] ELSE Del(ops, o)
  /\ UNCHANGED <<now, hd, lnk, inst, ctxs, used>>

\* The user stops a client.  Its read loop ends soon.
Stop(c) ==
  /\ lnk' = [lnk EXCEPT ![c].rd = IF @ = "live" THEN "stopping" ELSE @]
  /\ UNCHANGED <<now, hd, ops, inst, ctxs, used>>

-----------------------------------------------------------------------------
(* Quiescence: whatever the process could do by itself, it has done.        *)

Due(i) == inst[i].st = "done"

\* Operation o has nothing to do before something happens.
OpSettled(o) ==
  LET op == ops[o]
      stuck == \E c \in (IF op.c # 0 THEN {op.c} ELSE op.cs) : lnk[c].wb \/ lnk[c].fh
  IN CASE op.st = "called" -> ~op.bad /\ stuck
       [] op.st = "sent" -> stuck
       [] op.st = "flushed" -> op.kind = "req" /\ op.buf = <<>> /\ now <= op.dl + Slack
       [] op.st = "wait" -> op.buf = <<>> /\ now <= op.dl2 + Slack
       [] op.st = "last" -> FALSE
       [] OTHER -> TRUE

InstSettled(i) ==
  CASE inst[i].st = "pending" -> FALSE
    [] inst[i].st = "done" -> \/ lnk[inst[i].c].wb \/ lnk[inst[i].c].fh \/ lnk[inst[i].c].wc
    [] OTHER -> TRUE

\* A connection that has ended and that nobody uses anymore was closed.
Abandoned(c) ==
  /\ lnk[c].rd = "dead" /\ ~lnk[c].held /\ lnk[c].kept = 0
  /\ ~lnk[c].fh   \* (a final reply may wait for its flush)
  /\ \A i \in DOMAIN inst : inst[i].c # c \/ inst[i].st = "gone" \/ (inst[i].st = "done" /\ lnk[c].wc)
  /\ \A o \in DOMAIN ops : c \notin ops[o].cs

LinkSettled(c) ==
  /\ lnk[c].rd # "live" \/ lnk[c].rh \/ lnk[c].rx = <<>>
  /\ Abandoned(c) => lnk[c].wd

Settled ==
  /\ \A o \in DOMAIN ops : OpSettled(o)
  /\ \A i \in DOMAIN inst : InstSettled(i)
  /\ \A c \in DOMAIN lnk : LinkSettled(c)

\* ("= TRUE": TLC would otherwise branch on every disjunction)
Idle ==
  /\ Settled = TRUE
  /\ lnk' = [c \in DOMAIN lnk |-> IF lnk[c].rd = "stopping" THEN [lnk[c] EXCEPT !.rd = "dead", !.rx = <<>>] ELSE lnk[c]]
  /\ inst' = [i \in {x \in DOMAIN inst : ~(inst[x].st = "done" /\ lnk[inst[x].c].wc)} |-> inst[i]]
  /\ UNCHANGED <<now, hd, ops, ctxs, used>>

Tick(t) ==
  /\ t >= now
  /\ now' = t
  /\ UNCHANGED <<hd, lnk, ops, inst, ctxs, used>>
=============================================================================
