-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The data shared by all handlers and contexts of an endpoint (a server,  *)
(* a client, or a pool).                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  data,     \* endpoint -> key -> value
  open      \* accesses that were asked for and are not finished

Keys == 1 .. 3
Absent == 0 - 999999

Init == data = <<>> /\ open = {}

\* what is inserted while building: a sequence of <<key, value>>, the last one wins
RECURSIVE Inserted(_, _)
Inserted(s, d) == IF s = <<>> THEN d ELSE Inserted(Tail(s), [d EXCEPT ![s[1][1]] = s[1][2]])

Build(g, ins) ==
  /\ g \notin DOMAIN data
  /\ data' = [x \in DOMAIN data \cup {g} |->
               IF x = g THEN Inserted(ins, [k \in Keys |-> Absent]) ELSE data[x]]
  /\ UNCHANGED open

\* somebody who has locked the data of g reads,
Read(g, k, v) ==
  /\ data[g][k] = v
  /\ UNCHANGED <<data, open>>

\* or, with the exclusive lock, replaces what it has read
Update(g, k, old, new) ==
  /\ data[g][k] = old
  /\ data' = [data EXCEPT ![g][k] = new]
  /\ UNCHANGED open

Start(a) == open' = open \cup {a} /\ UNCHANGED data
Finish(a) == a \in open /\ open' = open \ {a} /\ UNCHANGED data

\* all the accesses that were asked for have happened (all locks are given back)
Idle == open = {} /\ UNCHANGED <<data, open>>
=============================================================================
