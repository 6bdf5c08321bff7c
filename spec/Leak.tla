-------------------------------- MODULE Leak --------------------------------
(***************************************************************************)
(* What the library keeps of things that are over.  A user does the same   *)
(* things again and again: requests and streams that are answered, fail,   *)
(* time out or are dropped, emissions, whole connections.  The state of    *)
(* the specification is what is still going on; once that is nothing, the  *)
(* memory in use is a function of that state alone, and so must be what it *)
(* was at the last such moment, however much happened in between.  What    *)
(* grows once and stays (tables, queues) did so while `warm`.              *)
(***************************************************************************)
EXTENDS Integers

CONSTANT Slack      \* bytes; far less than anything per operation would add up to

VARIABLES going,    \* operations that have begun and not ended
          base      \* memory in use when nothing was going on, -1: not known yet

vars == <<going, base>>

Init == going = 0 /\ base = -1

Begin(n) == n > 0 /\ going' = going + n /\ UNCHANGED base

\* However it ended
End(n) == n \in 1 .. going /\ going' = going - n /\ UNCHANGED base

\* Nothing has happened for a while
Measure(live, warm) ==
  /\ going = 0
  /\ IF warm THEN base' = live
     ELSE /\ base >= 0
          /\ live <= base + Slack
          /\ UNCHANGED base
  /\ UNCHANGED going
=============================================================================
