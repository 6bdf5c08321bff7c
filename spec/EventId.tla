------------------------------- MODULE EventId -------------------------------
(***************************************************************************)
(* The ids of the events that one process creates.  Which numbers it uses  *)
(* does not matter, so the ids are known here by the order of their first  *)
(* appearance: 1, 2, 3, ...  An id that appears again is one that was used  *)
(* before.                                                                 *)
(***************************************************************************)
EXTENDS Integers

VARIABLE count     \* the ids 1 .. count were used

Init == count = 0

\* One thread has created n events, with the ids from, from + 1, ...
New(from, n) ==
  /\ n > 0
  /\ from = count + 1        \* none of them was used before
  /\ count' = count + n

\* The users of the library were told n ids, of which `found` are ids of events on the wire.
Told(n, found) ==
  /\ found = n
  /\ UNCHANGED count
=============================================================================
