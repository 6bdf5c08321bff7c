------------------------------- MODULE Channel -------------------------------
(***************************************************************************)
(* Encrypted connections of a process, on a network that belongs to an     *)
(* adversary: it sees, holds back, drops, repeats, reorders, changes and   *)
(* invents whatever it wants.  An "end" is one side of one connection      *)
(* attempt, either of the library or of a hand-written peer ("raw").  A    *)
(* peer proves nothing but the possession of the secret that belongs to    *)
(* its public key ("identity").                                            *)
(*                                                                         *)
(* The module says what has to hold, not how it is reached: an end accepts *)
(* the packages of its peer on this connection in their order and nothing  *)
(* else.  MCChannel is a model of the mechanism (keys and counters) with   *)
(* an adversary, checked against this.                                     *)
(*                                                                         *)
(* Data is identified by labels: every byte handed to a write is numbered, *)
(* a chunk [a |-> a, n |-> n] is the n bytes from a on.  Bytes of dropped  *)
(* writes keep their labels, they must never appear anywhere.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  ends,   \* end -> its state
  pks,    \* <<end, number>> -> package that was emitted
  used,   \* <<key, nonce>> pairs that were used to encrypt: set of [key, n, by, hs]
  secs,   \* session keys
  known   \* known findings that are to be excused here

vars == <<ends, pks, used, secs, known>>

None == 0

-----------------------------------------------------------------------------
(* Sequences of chunks                                                      *)

Push(s, c) ==
  IF c.n = 0 THEN s
  ELSE IF s # <<>> /\ s[Len(s)].a + s[Len(s)].n = c.a
       THEN [s EXCEPT ![Len(s)] = [a |-> s[Len(s)].a, n |-> s[Len(s)].n + c.n]]
       ELSE Append(s, c)

RECURSIVE PushAll(_, _)
PushAll(s, t) == IF t = <<>> THEN s ELSE PushAll(Push(s, t[1]), Tail(t))

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE s[1].n + Total(Tail(s))

\* the first n bytes of s and what remains
RECURSIVE TakeN(_, _)
TakeN(s, n) ==
  IF n = 0 \/ s = <<>> THEN <<>>
  ELSE IF s[1].n <= n THEN <<s[1]>> \o TakeN(Tail(s), n - s[1].n)
  ELSE <<[a |-> s[1].a, n |-> n]>>

RECURSIVE DropN(_, _)
DropN(s, n) ==
  IF n = 0 \/ s = <<>> THEN s
  ELSE IF s[1].n <= n THEN DropN(Tail(s), n - s[1].n)
  ELSE <<[a |-> s[1].a + n, n |-> s[1].n - n]>> \o Tail(s)

Prefix(t, s) == Total(t) <= Total(s) /\ PushAll(<<>>, t) = PushAll(<<>>, TakeN(s, Total(t)))

-----------------------------------------------------------------------------
(* Ends                                                                     *)

NoOp == [o |-> None, k |-> "", a |-> 0, n |-> 0, t |-> 0]

NewEnd(role, id, knows, any, raw, peer) ==
  [role |-> role,     \* "C" or "S"
   id |-> id, knows |-> knows, any |-> any,   \* identity; whom it accepts
   raw |-> raw, peer |-> peer,
   st |-> "hs",       \* "hs", "est", "dead" (refused or failed)
   told |-> FALSE,    \* the user was told that the attempt failed
   hk |-> FALSE,      \* own public key was sent
   pid |-> None,      \* identity the peer claims, once its public key arrived
   got |-> FALSE,     \* the peer's public key arrived
   dh |-> "",         \* key from the key exchange
   hs |-> FALSE,      \* the package with the session key was sent (S) or accepted (C)
   key |-> "",        \* session key
   npk |-> 0,         \* data packages sent with it
   acc |-> <<>>,      \* accepted from the user but not yet sent
   wop |-> NoOp,      \* write, flush or shutdown in progress; t: bytes of a write that were already sent
   rop |-> NoOp,      \* read in progress
   nacc |-> 0,        \* data packages accepted
   buf |-> <<>>,      \* received but not yet read
   bad |-> FALSE,     \* something arrived that must not be accepted: nothing after it can be trusted
   eof |-> FALSE,     \* the transport ended, or failed
   cut |-> FALSE,     \*   before the handshake had all it needs
   weof |-> FALSE,    \* this end closed its direction
   wb |-> FALSE, fh |-> FALSE, wc |-> FALSE,  \* transport: writes/flushes held up, peer does not read anymore
   closed |-> FALSE,  \* dropped by its user
   wd |-> FALSE, rr |-> FALSE]   \* transport was let go

Init ==
  /\ ends = <<>>
  /\ pks = <<>>
  /\ used = {}
  /\ secs = {}

Set(c, r) == ends' = [ends EXCEPT ![c] = r]

Attempt(c, end) ==
  /\ c \notin DOMAIN ends
  /\ ends' = [x \in DOMAIN ends \cup {c} |-> IF x = c THEN end ELSE ends[x]]
  /\ UNCHANGED <<pks, used, secs, known>>

\* Default options come with a secret of their own.
MadeSecret(k) ==
  /\ k \notin secs
  /\ \A u \in used : u.key # k
  /\ secs' = secs \cup {k}
  /\ UNCHANGED <<ends, pks, used, known>>

\* Public keys of small order: no secret belongs to them, and everybody knows the key that
\* results from a key exchange with them.
NobodysKeys == 17..23

Accepts(e) == e.pid \notin NobodysKeys /\ (e.any \/ e.pid \in e.knows)

-----------------------------------------------------------------------------
(* What an end sends                                                        *)

SendKey(c, id) ==
  LET e == ends[c] IN
  /\ e.raw \/ (e.id = id /\ ~e.hk /\ e.st = "hs")
  /\ Set(c, [e EXCEPT !.hk = TRUE])
  /\ UNCHANGED <<pks, used, secs, known>>

\* Two packages with the same key and nonce: an adversary learns the difference of their
\* contents and can forge more.
Reuse(c, p, u) ==
  /\ u.key = p.key /\ u.n = p.n
  /\ ~("C15-directions" \in known /\ ~p.hs /\ ~u.hs /\ u.by = ends[c].peer)
  /\ ~("C15-handshake-key" \in known /\ p.hs /\ u.hs)

Record(c, i, p) ==
  /\ <<c, i>> \notin DOMAIN pks
  /\ pks' = [x \in DOMAIN pks \cup {<<c, i>>} |-> IF x = <<c, i>> THEN p ELSE pks[x]]
  /\ used' = used \cup {[key |-> p.key, n |-> p.n, by |-> c, hs |-> p.hs]}
  /\ IF ends[c].raw THEN TRUE ELSE \A u \in used : ~Reuse(c, p, u)
  /\ UNCHANGED known

\* p: [key, n, hs, sec, ch]; an end of the library
SendPackage(c, i, p) ==
  LET e == ends[c] IN
  \/ \* a hand-written peer does what it wants
     /\ e.raw
     /\ Record(c, i, p)
     /\ UNCHANGED <<ends, secs>>
  \/ \* a server hands out a new session key, but only to whom it accepts
     /\ ~e.raw /\ p.hs
     /\ e.role = "S" /\ e.st = "hs" /\ e.got /\ Accepts(e) /\ e.hk /\ ~e.hs
     /\ p.key = e.dh /\ p.n = 0
     /\ p.sec \notin secs
     /\ \A u \in used : u.key # p.sec
     /\ secs' = secs \cup {p.sec}
     /\ Set(c, [e EXCEPT !.hs = TRUE, !.key = p.sec])
     /\ Record(c, i, p)
  \/ \* data, in the order it was written
     /\ ~e.raw /\ ~p.hs
     /\ e.st = "est" /\ ~e.weof
     /\ p.key = e.key /\ p.n = e.npk
     /\ LET wr == IF e.wop.k = "w" THEN <<[a |-> e.wop.a + e.wop.t, n |-> e.wop.n - e.wop.t]>> ELSE <<>>
            all == PushAll(e.acc, wr)
            n == Total(p.ch)
            fromAcc == IF n <= Total(e.acc) THEN n ELSE Total(e.acc)
        IN /\ Prefix(p.ch, all)
           /\ Set(c, [e EXCEPT !.npk = e.npk + 1, !.acc = DropN(e.acc, fromAcc),
                               !.wop = [e.wop EXCEPT !.t = e.wop.t + n - fromAcc]])
     /\ Record(c, i, p)
     /\ UNCHANGED secs

SendEof(c) ==
  LET e == ends[c] IN
  /\ e.raw \/ e.closed \/ e.st = "dead" \/ (e.wop.k = "sd" /\ e.acc = <<>>)
  /\ Set(c, [e EXCEPT !.weof = TRUE])
  /\ UNCHANGED <<pks, used, secs, known>>

-----------------------------------------------------------------------------
(* What reaches an end                                                      *)

\* the handshake has everything it needs from the other side
HasAll(e) == IF e.role = "S" THEN e.got ELSE e.got /\ (e.hs \/ ~Accepts(e) \/ e.bad)

ArriveKey(c, id, dh) ==
  LET e == ends[c] IN
  /\ ~e.got
  /\ Set(c, [e EXCEPT !.got = TRUE, !.pid = id, !.dh = dh])
  /\ UNCHANGED <<pks, used, secs, known>>

Genuine(e, f, i) == f # None /\ f = e.peer /\ <<f, i>> \in DOMAIN pks

ArrivePackage(c, f, i) ==
  LET e == ends[c]
      good == Genuine(e, f, i)
      p == pks[<<f, i>>]
  IN /\ Set(c, IF e.raw \/ e.bad \/ e.eof THEN e
               ELSE IF e.role = "C" /\ ~e.hs
               THEN IF e.got /\ Accepts(e) /\ good /\ p.hs /\ p.key = e.dh /\ p.n = 0
                    THEN [e EXCEPT !.hs = TRUE, !.key = p.sec]
                    ELSE [e EXCEPT !.bad = TRUE]
               ELSE IF good /\ ~p.hs /\ p.key = e.key /\ p.n = e.nacc
               THEN [e EXCEPT !.nacc = e.nacc + 1, !.buf = PushAll(e.buf, p.ch)]
               ELSE [e EXCEPT !.bad = TRUE])
     /\ UNCHANGED <<pks, used, secs, known>>

ArriveEof(c) ==
  LET e == ends[c] IN
  /\ Set(c, [e EXCEPT !.eof = TRUE, !.cut = e.cut \/ ~HasAll(e)])
  /\ UNCHANGED <<pks, used, secs, known>>

-----------------------------------------------------------------------------
(* The outcome of the handshake                                             *)

Establish(c) ==
  LET e == ends[c] IN
  /\ e.st = "hs"
  /\ e.hk /\ e.got /\ Accepts(e) /\ e.hs
  /\ Set(c, [e EXCEPT !.st = "est"])
  /\ UNCHANGED <<pks, used, secs, known>>

MustFail(e) ==
  \/ e.got /\ ~Accepts(e)
  \/ e.role = "C" /\ e.bad /\ ~e.hs
  \/ e.cut

\* the other side doesn't want to hear anything anymore
MayFail(e) == MustFail(e) \/ e.wc

Refuse(c) ==
  LET e == ends[c] IN
  /\ e.st \in {"hs", "dead"} /\ MayFail(e) /\ ~e.told
  /\ Set(c, [e EXCEPT !.st = "dead", !.told = TRUE])
  /\ UNCHANGED <<pks, used, secs, known>>

\* the library lets go of the transport: which is "wd" or "rr"
LetGo(c, which) ==
  LET e == ends[c] IN
  /\ \/ e.closed \/ e.st = "dead"
     \/ e.st = "hs" /\ MayFail(e)
     \/ e.st = "est" /\ which = "rr" /\ (e.bad \/ e.eof)
     \/ e.st = "est" /\ which = "wd" /\ e.wc
  /\ Set(c, IF which = "wd" THEN [e EXCEPT !.wd = TRUE, !.st = IF e.st = "hs" THEN "dead" ELSE e.st]
            ELSE [e EXCEPT !.rr = TRUE, !.st = IF e.st = "hs" THEN "dead" ELSE e.st])
  /\ UNCHANGED <<pks, used, secs, known>>

SetEnd(c, field, v) ==
  /\ LET e == ends[c] IN
     Set(c, CASE field = "wb" -> [e EXCEPT !.wb = v]
              [] field = "fh" -> [e EXCEPT !.fh = v]
              [] field = "wc" -> [e EXCEPT !.wc = v])
  /\ UNCHANGED <<pks, used, secs, known>>

-----------------------------------------------------------------------------
(* Use of an established connection                                         *)

\* write of n bytes labelled from a on ("w"), flush ("f"), shutdown ("sd")
Begin(c, o, k, a, n) ==
  LET e == ends[c] IN
  /\ e.st = "est" /\ ~e.closed
  /\ IF k = "r"
     THEN e.rop.k = "" /\ Set(c, [e EXCEPT !.rop = [NoOp EXCEPT !.o = o, !.k = "r", !.n = n]])
     ELSE e.wop.k = "" /\ Set(c, [e EXCEPT !.wop = [NoOp EXCEPT !.o = o, !.k = k, !.a = a, !.n = n]])
  /\ UNCHANGED <<pks, used, secs, known>>

Wrote(c, o, n) ==
  LET e == ends[c]
      w == e.wop
  IN /\ w.o = o /\ w.k = "w"
     /\ n <= w.n /\ n >= w.t /\ (n > 0 \/ w.n = 0)
     /\ Set(c, [e EXCEPT !.wop = NoOp, !.acc = Push(e.acc, [a |-> w.a + w.t, n |-> n - w.t])])
     /\ UNCHANGED <<pks, used, secs, known>>

\* everything that was written has left, and can't be held back anymore
Flushed(c, o) ==
  LET e == ends[c] IN
  /\ e.wop.o = o /\ e.wop.k = "f"
  /\ e.acc = <<>>
  /\ Set(c, [e EXCEPT !.wop = NoOp])
  /\ UNCHANGED <<pks, used, secs, known>>

ShutDown(c, o) ==
  LET e == ends[c] IN
  /\ e.wop.o = o /\ e.wop.k = "sd"
  /\ e.acc = <<>> /\ e.weof
  /\ Set(c, [e EXCEPT !.wop = NoOp])
  /\ UNCHANGED <<pks, used, secs, known>>

WriteError(c, o) ==
  LET e == ends[c] IN
  /\ e.wop.o = o /\ e.wop.k # ""
  /\ e.wc \/ e.weof
  /\ Set(c, [e EXCEPT !.wop = NoOp])
  /\ UNCHANGED <<pks, used, secs, known>>

ReadData(c, o, ch) ==
  LET e == ends[c]
      n == Total(ch)
  IN /\ e.rop.o = o /\ e.rop.k = "r"
     /\ n > 0 /\ n <= e.rop.n
     /\ Prefix(ch, e.buf)
     /\ Set(c, [e EXCEPT !.rop = NoOp, !.buf = DropN(e.buf, n)])
     /\ UNCHANGED <<pks, used, secs, known>>

\* only after everything that was received intact
ReadEnd(c, o, error) ==
  LET e == ends[c] IN
  /\ e.rop.o = o /\ e.rop.k = "r"
  /\ \/ e.rop.n = 0 /\ ~error
     \/ e.buf = <<>> /\ e.eof
     \/ e.buf = <<>> /\ e.bad /\ error
  /\ Set(c, [e EXCEPT !.rop = NoOp])
  /\ UNCHANGED <<pks, used, secs, known>>

\* The user loses interest. Nothing of a write that was not completed may have been sent.
Cancel(c, o) ==
  LET e == ends[c] IN
  /\ \/ e.wop.o = o /\ (e.wop.k = "w" => e.wop.t = 0) /\ Set(c, [e EXCEPT !.wop = NoOp])
     \/ e.rop.o = o /\ Set(c, [e EXCEPT !.rop = NoOp])
  /\ UNCHANGED <<pks, used, secs, known>>

Close(c) ==
  LET e == ends[c] IN
  /\ ~e.closed
  /\ Set(c, [e EXCEPT !.closed = TRUE, !.wop = NoOp, !.rop = NoOp])
  /\ UNCHANGED <<pks, used, secs, known>>

-----------------------------------------------------------------------------
(* Nothing is happening anymore: nothing is owed                            *)

Settled(e) ==
  \/ e.raw
  \/ /\ \* a handshake only waits for the other side
        e.st = "hs" =>
          \/ e.wb \/ e.fh
          \/ /\ ~MustFail(e) /\ ~HasAll(e)
             /\ e.role = "C" => e.hk
     /\ \* who was refused is let go
        (e.st = "dead" \/ e.closed) => (e.wd /\ e.rr)
     /\ (e.st = "dead" /\ e.role = "C" /\ ~e.closed) => e.told
     /\ e.wop.k # "" => (e.wb \/ e.fh)
     /\ e.rop.k = "r" => (e.buf = <<>> /\ ~e.bad /\ ~e.eof /\ e.rop.n > 0)

Idle ==
  /\ \A c \in DOMAIN ends : Settled(ends[c])
  /\ UNCHANGED vars
=============================================================================
