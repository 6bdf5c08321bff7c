-------------------------------- MODULE Pool ---------------------------------
(***************************************************************************)
(* Pools of connections.  A pool object stands for a set of connections;   *)
(* clones of it share them.  Acquiring yields a guard for the connection   *)
(* that is used the least; a guard counts as one use of its connection     *)
(* until it is dropped, and so does every further clone of it.             *)
(*                                                                         *)
(* Operations may overlap: an operation has an effect at one moment        *)
(* between its beginning and its end.  An acquisition looks at the         *)
(* connections one after the other, so that it may use one that was the    *)
(* least used by what it saw.                                              *)
(*                                                                         *)
(* A clone of a pool counts as one use of every connection.  This does not *)
(* change which one is the least used, except for those who look while it  *)
(* is being made or dropped (`slack`: how many there were).                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

VARIABLES
  fresh,    \* connections that were opened by the pool that is being built
  objs,     \* pool object -> set of its connections
  cnt,      \* connection -> number of guards
  guards,   \* guard -> connection
  many,     \* bundle of guards of the same connection -> how many, and of which
  run       \* thread -> the operation it is executing

vars == <<fresh, objs, cnt, guards, many, run>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init ==
  /\ fresh = {}
  /\ objs = <<>>
  /\ cnt = <<>>
  /\ guards = <<>>
  /\ many = <<>>
  /\ run = <<>>

StartBuild ==
  /\ fresh' = {}
  /\ UNCHANGED <<objs, cnt, guards, many, run>>

Opened(c) ==
  /\ c \notin fresh
  /\ fresh' = fresh \cup {c}
  /\ UNCHANGED <<objs, cnt, guards, many, run>>

\* A pool of n connections has exactly n connections,
Built(o, n) ==
  /\ n > 0
  /\ Cardinality(fresh) = n
  /\ objs' = Put(objs, o, fresh)
  /\ cnt' = [c \in DOMAIN cnt \cup fresh |-> IF c \in fresh THEN 0 ELSE cnt[c]]
  /\ UNCHANGED <<fresh, guards, many, run>>

\* there is none of size zero,
Refused(n) ==
  /\ n = 0
  /\ fresh = {}
  /\ UNCHANGED vars

\* and none where nobody listens.
Failed(listening) ==
  /\ ~listening
  /\ fresh = {}
  /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* Operations                                                               *)

Acquiring(t) == run[t].k = "acq" /\ ~run[t].done

\* o: the pool object used, g: the guard used, a: the guard or pool object made,
\* c: the connection of the guard that is made
Begin(t, k, o, g, a, c) ==
  /\ t \notin DOMAIN run
  /\ LET range == IF k = "acq" THEN [x \in objs[o] |-> cnt[x]] ELSE <<>>
         Shifts(u) == run[u].k \in {"clonep", "dropp"}
         new == [k |-> k, o |-> o, g |-> g, a |-> a, c |-> c, done |-> FALSE, lo |-> range, hi |-> range,
                 slack |-> Cardinality({u \in DOMAIN run : Shifts(u)})]
         now == IF k \in {"clonep", "dropp"} THEN [u \in DOMAIN run |-> [run[u] EXCEPT !.slack = @ + 1]] ELSE run
     IN run' = Put(now, t, new)
  /\ UNCHANGED <<fresh, objs, cnt, guards, many>>

Done(t, r) == [r EXCEPT ![t].done = TRUE]

Effect(t) ==
  /\ ~run[t].done
  /\ LET op == run[t] IN
     CASE op.k = "acq" ->
            /\ op.c \in objs[op.o]
            /\ \A x \in objs[op.o] : op.lo[op.c] <= op.hi[x] + op.slack
            /\ cnt' = [cnt EXCEPT ![op.c] = @ + 1]
            /\ run' = [u \in DOMAIN run |->
                 IF u = t THEN [op EXCEPT !.done = TRUE]
                 ELSE IF Acquiring(u) /\ op.c \in DOMAIN run[u].hi
                 THEN [run[u] EXCEPT !.hi[op.c] = IF cnt[op.c] + 1 > @ THEN cnt[op.c] + 1 ELSE @]
                 ELSE run[u]]
            /\ guards' = Put(guards, op.g, op.c)
            /\ UNCHANGED <<fresh, objs, many>>
       [] op.k = "cloneg" ->
            /\ op.g \in DOMAIN guards
            /\ op.c = guards[op.g]
            /\ cnt' = [cnt EXCEPT ![op.c] = @ + 1]
            /\ run' = [u \in DOMAIN run |->
                 IF u = t THEN [op EXCEPT !.done = TRUE]
                 ELSE IF Acquiring(u) /\ op.c \in DOMAIN run[u].hi
                 THEN [run[u] EXCEPT !.hi[op.c] = IF cnt[op.c] + 1 > @ THEN cnt[op.c] + 1 ELSE @]
                 ELSE run[u]]
            /\ guards' = Put(guards, op.a, op.c)
            /\ UNCHANGED <<fresh, objs, many>>
       [] op.k = "dropg" ->
            LET c == guards[op.g] IN
            /\ cnt' = [cnt EXCEPT ![c] = @ - 1]
            /\ run' = [u \in DOMAIN run |->
                 IF u = t THEN [op EXCEPT !.done = TRUE]
                 ELSE IF Acquiring(u) /\ c \in DOMAIN run[u].lo
                 THEN [run[u] EXCEPT !.lo[c] = IF cnt[c] - 1 < @ THEN cnt[c] - 1 ELSE @]
                 ELSE run[u]]
            /\ guards' = Del(guards, op.g)
            /\ UNCHANGED <<fresh, objs, many>>
       [] op.k = "clonep" ->
            /\ objs' = Put(objs, op.a, objs[op.o])
            /\ run' = Done(t, run)
            /\ UNCHANGED <<fresh, cnt, guards, many>>
       [] op.k = "dropp" ->
            /\ objs' = Del(objs, op.o)
            /\ run' = Done(t, run)
            /\ UNCHANGED <<fresh, cnt, guards, many>>

Return(t) ==
  /\ t \in DOMAIN run /\ run[t].done
  /\ run' = Del(run, t)
  /\ UNCHANGED <<fresh, objs, cnt, guards, many>>

\* A guard was cloned n times in a row, while nothing else was going on,
Bundle(g, a, n) ==
  /\ run = <<>>
  /\ g \in DOMAIN guards
  /\ many' = Put(many, a, [c |-> guards[g], n |-> n])
  /\ cnt' = [cnt EXCEPT ![guards[g]] = @ + n]
  /\ UNCHANGED <<fresh, objs, guards, run>>

\* and n of these clones are dropped.
Unbundle(a, n) ==
  /\ run = <<>>
  /\ many[a].n >= n
  /\ cnt' = [cnt EXCEPT ![many[a].c] = @ - n]
  /\ many' = [many EXCEPT ![a].n = @ - n]
  /\ UNCHANGED <<fresh, objs, guards, run>>

\* Many operations happened, and everything they made was dropped again.
Stress == run = <<>> /\ UNCHANGED vars

-----------------------------------------------------------------------------
RECURSIVE Total(_, _)
Total(S, c) == IF S = {} THEN 0
               ELSE LET a == CHOOSE x \in S : TRUE
                    IN (IF many[a].c = c THEN many[a].n ELSE 0) + Total(S \ {a}, c)

(* The counts are exact.                                                    *)
Exact ==
  \A c \in DOMAIN cnt : cnt[c] = Cardinality({g \in DOMAIN guards : guards[g] = c}) + Total(DOMAIN many, c)
=============================================================================
