------------------------------- MODULE MCPool --------------------------------
(***************************************************************************)
(* The mechanism of a pool, in steps as small as those of threads: a       *)
(* count per connection, an acquisition reads them one after the other and *)
(* then adds to the first smallest it saw; a clone of the pool adds to     *)
(* all of them one after the other.  Whatever it does Pool allows, and     *)
(* what was promised holds:                                                *)
(*   the counts are exact, no acquisition is lost;                         *)
(*   who acquires while nothing else is going on gets a least used one.    *)
(***************************************************************************)
EXTENDS Pool, Sequences, TLC

CONSTANTS Conns, Threads, MaxOps

VARIABLES
  real,   \* connection -> its counter (clones of the pool included)
  pos,    \* thread -> how many counters it has read or changed
  saw,    \* thread -> what it read
  n       \* number of operations so far

all == <<vars, real, pos, saw, n>>

MCInit ==
  /\ fresh = Conns
  /\ objs = 1 :> Conns
  /\ cnt = [c \in Conns |-> 0]
  /\ guards = <<>> /\ many = <<>> /\ run = <<>>
  /\ real = [c \in Conns |-> 0]
  /\ pos = [t \in Threads |-> 0]
  /\ saw = [t \in Threads |-> <<>>]
  /\ n = 0

\* what another operation is going to use up
Taken == {run[u].g : u \in {v \in DOMAIN run : run[v].k \in {"cloneg", "dropg"}}}
Gone == {run[u].o : u \in {v \in DOMAIN run : run[v].k \in {"dropp"}}}
Using == {run[u].o : u \in {v \in DOMAIN run : run[v].k \in {"acq", "clonep", "dropp"}}}

Start(t) ==
  /\ n < MaxOps
  /\ n' = n + 1
  /\ pos' = [pos EXCEPT ![t] = 0]
  /\ saw' = [saw EXCEPT ![t] = <<>>]
  /\ \/ \E o \in DOMAIN objs \ Gone, c \in Conns : Begin(t, "acq", o, 100 + n, 0, c)
     \/ \E g \in DOMAIN guards \ Taken : Begin(t, "cloneg", 0, g, 100 + n, guards[g])
     \/ \E g \in DOMAIN guards \ Taken : Begin(t, "dropg", 0, g, 0, 0)
     \/ \E o \in DOMAIN objs \ Gone : Begin(t, "clonep", o, 0, 200 + n, 0)
     \/ \E o \in DOMAIN objs \ Using : Cardinality(DOMAIN objs \ Gone) > 1 /\ Begin(t, "dropp", o, 0, 0, 0)
  /\ UNCHANGED real

Size == Cardinality(Conns)
\* (connections are numbered from 1 on)
Best(s) == CHOOSE i \in 1..Size : /\ \A j \in 1..Size : s[i] <= s[j]
                                  /\ \A j \in 1..(i - 1) : s[i] < s[j]

Step(t) ==
  /\ t \in DOMAIN run /\ ~run[t].done
  /\ LET op == run[t]
         i == pos[t] + 1
     IN CASE op.k = "acq" /\ i <= Size ->
               /\ saw' = [saw EXCEPT ![t] = Append(@, real[i])]
               /\ pos' = [pos EXCEPT ![t] = i]
               /\ UNCHANGED <<vars, real>>
          [] op.k = "acq" /\ i > Size ->
               /\ op.c = Best(saw[t])      \* (it was guessed at the beginning)
               /\ Effect(t)
               /\ real' = [real EXCEPT ![op.c] = @ + 1]
               /\ UNCHANGED <<pos, saw>>
          [] op.k = "cloneg" ->
               /\ Effect(t)
               /\ real' = [real EXCEPT ![op.c] = @ + 1]
               /\ UNCHANGED <<pos, saw>>
          [] op.k = "dropg" ->
               /\ real' = [real EXCEPT ![guards[op.g]] = @ - 1]
               /\ Effect(t)
               /\ UNCHANGED <<pos, saw>>
          [] op.k \in {"clonep", "dropp"} ->
               /\ real' = [real EXCEPT ![i] = @ + (IF op.k = "clonep" THEN 1 ELSE 0 - 1)]
               /\ pos' = [pos EXCEPT ![t] = i]
               /\ IF i = Size THEN Effect(t) ELSE UNCHANGED vars
               /\ UNCHANGED saw
  /\ UNCHANGED n

End(t) == Return(t) /\ UNCHANGED <<real, pos, saw, n>>

MCNext == \E t \in Threads : Start(t) \/ Step(t) \/ End(t)

MCSpec == MCInit /\ [][MCNext]_all

-----------------------------------------------------------------------------
\* Pool never forbids what the mechanism does
Allowed ==
  \A t \in DOMAIN run :
    (run[t].k = "acq" /\ ~run[t].done /\ pos[t] = Size /\ run[t].c = Best(saw[t])) => ENABLED Effect(t)

\* the counters say how often a connection is in use, but for the pool objects
Counters ==
  run = <<>> => \A c \in Conns : real[c] = cnt[c] + Cardinality(DOMAIN objs) - 1

\* (no counter falls below zero, where it would wrap, while somebody may look)
NoWrap == DOMAIN objs \ Gone # {} => \A c \in Conns : real[c] >= 0

\* nobody disturbs: the least used one
Least ==
  [][\A t \in Threads :
       (DOMAIN run = {t} /\ run[t].k = "acq" /\ cnt' # cnt /\ n = n' /\ run[t].slack = 0 /\ run[t].lo = cnt /\ run[t].hi = cnt)
         => \A x \in Conns : cnt[run[t].c] <= cnt[x]]_all
=============================================================================
