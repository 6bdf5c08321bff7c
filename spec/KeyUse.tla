-------------------------------- MODULE KeyUse --------------------------------
(***************************************************************************)
(* What Channel says about keys and nonces, on its own: the state is small *)
(* enough for thousands of connections in several processes and for        *)
(* connections with a hundred thousand packages.  A step uses a range of   *)
(* nonces lo..hi, one after the other.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  ends,    \* end -> [peer, raw, key, next, sent, seen]: session key, next nonce to be used, bytes sent and read so far
  ranges,  \* key -> set of [by, hs, lo, hi] that were used with it
  secs,    \* session keys that were handed out
  vals,    \* kind of secret -> [n, at]: how many there were, and (some of) the values of each of their bytes
  known    \* known findings that are excused

vars == <<ends, ranges, secs, vals, known>>

Init == ends = <<>> /\ ranges = <<>> /\ secs = {} /\ vals = [k \in {"mk", "ses"} |-> [n |-> 0, at |-> [i \in 1..32 |-> {}]]]

\* Secrets are made of 32 random bytes.  What can be told without knowing how they are made: none of
\* the bytes only has a few values.
Enough == 8
Note(kind, b) ==
  vals' = IF Len(b) # 32 THEN vals
          ELSE [vals EXCEPT ![kind] = [n |-> @.n + 1,
                  at |-> [i \in 1..32 |-> IF Cardinality(@.at[i]) < Enough THEN @.at[i] \cup {b[i]} ELSE @.at[i]]]]
Random == \A k \in DOMAIN vals : vals[k].n >= 150 => \A i \in 1..32 : Cardinality(vals[k].at[i]) = Enough

Ranges(k) == IF k \in DOMAIN ranges THEN ranges[k] ELSE {}

Attempt(c, peer, raw) ==
  /\ c \notin DOMAIN ends
  /\ ends' = [x \in DOMAIN ends \cup {c} |-> IF x = c THEN [peer |-> peer, raw |-> raw, key |-> "", next |-> 0, sent |-> 0, seen |-> 0] ELSE ends[x]]
  /\ UNCHANGED <<ranges, secs, vals, known>>

MadeSecret(k, b) ==
  /\ Note("mk", b)
  /\ k \notin secs /\ k \notin DOMAIN ranges
  /\ secs' = secs \cup {k}
  /\ UNCHANGED <<ends, ranges, known>>

Overlap(a, b) == a.lo <= b.hi /\ b.lo <= a.hi

\* Channel's Reuse
Clash(c, u, v) ==
  /\ Overlap(u, v)
  /\ ~("C15-directions" \in known /\ ~u.hs /\ ~v.hs /\ v.by = ends[c].peer)
  /\ ~("C15-handshake-key" \in known /\ u.hs /\ v.hs)

Record(c, key, u) ==
  /\ ends[c].raw \/ \A v \in Ranges(key) : ~Clash(c, u, v)
  /\ ranges' = [k \in DOMAIN ranges \cup {key} |-> IF k = key THEN Ranges(key) \cup {u} ELSE ranges[k]]

\* a server hands out a session key that has never been used, nor handed out
Session(c, key, n, sec, b) ==
  /\ Note("ses", b)
  /\ ends[c].raw \/ (sec \notin secs /\ sec \notin DOMAIN ranges /\ n = 0 /\ ends[c].key = "")
  /\ secs' = secs \cup {sec}
  /\ ends' = [x \in DOMAIN ends |-> IF x = c THEN [ends[x] EXCEPT !.key = sec] ELSE IF x = ends[c].peer /\ ~ends[x].raw /\ ends[x].key = "" THEN [ends[x] EXCEPT !.key = sec] ELSE ends[x]]
  /\ Record(c, key, [by |-> c, hs |-> TRUE, lo |-> n, hi |-> n])
  /\ UNCHANGED known

\* packages with the nonces lo..hi, with n bytes that were written from a on (there are gaps where
\* writes were given up)
Packages(c, key, lo, hi, a, n) ==
  /\ \/ ends[c].raw
     \/ /\ IF ends[ends[c].peer].raw THEN key \in secs ELSE key = ends[c].key /\ key # ""
        /\ lo = ends[c].next
        /\ n > 0 => a >= ends[c].sent
  /\ ends' = [ends EXCEPT ![c].next = hi + 1, ![c].sent = IF n > 0 THEN a + n ELSE @]
  /\ Record(c, key, [by |-> c, hs |-> FALSE, lo |-> lo, hi |-> hi])
  /\ UNCHANGED <<secs, vals, known>>

\* n bytes, the peer's from a on, were read
Read(c, a, n) ==
  /\ a >= ends[c].seen
  /\ ends[ends[c].peer].raw \/ a + n <= ends[ends[c].peer].sent
  /\ ends' = [ends EXCEPT ![c].seen = a + n]
  /\ UNCHANGED <<ranges, secs, vals, known>>
=============================================================================
