------------------------------ MODULE MCChannel ------------------------------
(***************************************************************************)
(* How the encryption layer reaches what Channel demands: public keys,     *)
(* Diffie-Hellman, a session key of the server, one counter per direction  *)
(* for nonces; and an adversary E who owns the network and an identity.    *)
(* Cryptography is perfect: a package can only be made or read with its    *)
(* key.                                                                    *)
(*                                                                         *)
(* Pair i of ends is a client (2i-1) and a server (2i), but the adversary  *)
(* is free to connect whom it wants.  Four weaknesses of the mechanism are *)
(* known (known-findings.json); `Excused` says which of them the adversary *)
(* does not use.  With all of them everything holds, without any of them   *)
(* TLC finds the attack (MCChannel_*.cfg), which the scenarios of          *)
(* gen_chan.py with the same name carry out on the real library.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Pairs,      \* number of pairs of ends
  MaxData,    \* packages an end sends
  Clients,    \* identities of clients: subset of {"A", "D"}
  Failures,   \* whether what can't be accepted is delivered, too (such an end is not heard of anymore)
  Excused     \* subset of {"reflected", "replayed_server", "both_directions", "two_handshakes"}

VARIABLES
  knows,   \* identity -> identities it accepts
  ends,    \* end -> its state
  net      \* everything that was ever sent: [by, i, m], the i-th message of end `by`

vars == <<knows, ends, net>>

Server == "B"
Evil == "E"
Ends == 1 .. (2 * Pairs)
IsServer(e) == e % 2 = 0

\* keys
DH(x, y) == [k |-> "dh", a |-> {x, y}]
Session(e) == [k |-> "s", a |-> {ToString(e)}]
EvilSession == [k |-> "s", a |-> {Evil}]
NoKey == [k |-> "-", a |-> {}]

\* messages: a public key, or a package of a key or of data (the n-th of an end)
Pk(id) == [t |-> "pk", id |-> id, key |-> NoKey, n |-> 0, body |-> [b |-> "-", key |-> NoKey, by |-> 0, n |-> 0]]
KeyPkg(key, k) == [t |-> "pkg", id |-> "-", key |-> key, n |-> 0, body |-> [b |-> "key", key |-> k, by |-> 0, n |-> 0]]
DataPkg(key, n, by) == [t |-> "pkg", id |-> "-", key |-> key, n |-> n, body |-> [b |-> "data", key |-> NoKey, by |-> by, n |-> n]]

New(e) == [id |-> "-", st |-> "new", peer |-> "-", key |-> NoKey, from |-> 0, en |-> 0, de |-> 0, got |-> <<>>, out |-> 0]

Init ==
  /\ \E b \in SUBSET (Clients \cup {Evil}), a \in SUBSET {Server, Evil} :
       knows = [x \in Clients \cup {Server} |-> IF x = Server THEN b ELSE a]
  /\ ends = [e \in Ends |-> New(e)]
  /\ net = {}

\* e sends ms, after what it has sent before
Sends(e, ms) == net' = net \cup {[by |-> e, i |-> ends[e].out + j - 1, m |-> ms[j]] : j \in DOMAIN ms}

-----------------------------------------------------------------------------
(* The library                                                              *)

Connect(e) ==
  /\ ~IsServer(e) /\ ends[e].st = "new"
  /\ \E id \in Clients :
       /\ ends' = [ends EXCEPT ![e] = [@ EXCEPT !.id = id, !.st = "pk", !.out = 1], ![e + 1] = [@ EXCEPT !.id = Server, !.st = "pk"]]
       /\ Sends(e, <<Pk(id)>>)
  /\ UNCHANGED knows

Fail(e) == Failures /\ ends' = [ends EXCEPT ![e].st = "failed"] /\ UNCHANGED net

TakePk(e, m) ==
  /\ ends[e].st = "pk"
  /\ IF m.t # "pk" \/ m.id \notin knows[ends[e].id]
     THEN Fail(e)
     ELSE IF IsServer(e)
     THEN \* answers with its own and with a new session key
          /\ ends' = [ends EXCEPT ![e] = [@ EXCEPT !.st = "est", !.peer = m.id, !.key = Session(e), !.out = 2]]
          /\ Sends(e, <<Pk(Server), KeyPkg(DH(Server, m.id), Session(e))>>)
     ELSE /\ ends' = [ends EXCEPT ![e] = [@ EXCEPT !.st = "key", !.peer = m.id, !.key = DH(ends[e].id, m.id)]]
          /\ UNCHANGED net

\* (the counters start again with the session key)
TakeKey(e, x) ==
  /\ ends[e].st = "key"
  /\ IF x.m.t = "pkg" /\ x.m.key = ends[e].key /\ x.m.n = 0 /\ x.m.body.b = "key"
     THEN ends' = [ends EXCEPT ![e] = [@ EXCEPT !.st = "est", !.key = x.m.body.key, !.from = x.by]] /\ UNCHANGED net
     ELSE Fail(e)

TakeData(e, m) ==
  /\ ends[e].st = "est" /\ ends[e].de < MaxData
  /\ IF m.t = "pkg" /\ m.key = ends[e].key /\ m.n = ends[e].de
     THEN ends' = [ends EXCEPT ![e] = [@ EXCEPT !.de = @ + 1, !.got = Append(@, m.body)]] /\ UNCHANGED net
     ELSE Fail(e)

Send(e) ==
  /\ ends[e].st = "est" /\ ends[e].en < MaxData
  /\ ends' = [ends EXCEPT ![e] = [@ EXCEPT !.en = @ + 1, !.out = @ + 1]]
  /\ Sends(e, <<DataPkg(ends[e].key, ends[e].en, e)>>)
  /\ UNCHANGED knows

-----------------------------------------------------------------------------
(* The adversary: delivers to e what was sent by anybody at any time, or    *)
(* what it can make itself                                                  *)

RECURSIVE Learn(_)
Learn(K) ==
  LET L == K \cup {x.m.body.key : x \in {y \in net : y.m.t = "pkg" /\ y.m.key \in K /\ y.m.body.b = "key"}}
  IN IF L = K THEN K ELSE Learn(L)

EvilKeys == Learn({EvilSession} \cup {DH(Evil, x) : x \in Clients \cup {Server}})

Forged(e) ==
  {[by |-> 0, i |-> 0, m |-> m] :
    m \in {Pk(Evil)} \cup {KeyPkg(k, EvilSession) : k \in EvilKeys} \cup {DataPkg(k, ends[e].de, 0) : k \in EvilKeys \cap {ends[e].key}}}

\* what the known weaknesses are about
Reflected(e, x) == x.by = e /\ x.m.t = "pkg" /\ ends[e].st = "est" /\ x.m.key = ends[e].key
ReplayedServer(e, x) ==
  /\ ends[e].st = "key" /\ x.by # 0 /\ x.m.body.b = "key"
  /\ \E c \in Ends : c # e /\ ends[c].from = x.by

Deliver(e, x) ==
  /\ x.by # 0 => x \in net
  /\ "reflected" \in Excused => ~Reflected(e, x)
  /\ "replayed_server" \in Excused => ~ReplayedServer(e, x)
  /\ TakePk(e, x.m) \/ TakeKey(e, x) \/ TakeData(e, x.m)
  /\ UNCHANGED knows

Next ==
  \E e \in Ends : Connect(e) \/ Send(e) \/ \E x \in net \cup Forged(e) : Deliver(e, x)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What has to hold                                                         *)

Honest(id) == id \in Clients \cup {Server}

\* C13: everything an end accepts comes from one other end, which has the other role, has the same
\* key, is who it claimed to be, and sent exactly this
Sequence ==
  \A e \in Ends : (Honest(ends[e].peer) /\ ends[e].got # <<>>) =>
    LET p == ends[e].got[1].by IN
    /\ p \in Ends /\ IsServer(p) # IsServer(e)
    /\ ends[p].id = ends[e].peer /\ ends[p].peer = ends[e].id /\ ends[p].key = ends[e].key
    /\ ends[e].got = [i \in 1 .. Len(ends[e].got) |-> DataPkg(ends[p].key, i - 1, p).body]
    /\ Len(ends[e].got) <= ends[p].en

\* and no two ends have the same other end
Exclusive ==
  \A c, d \in Ends : (c # d /\ IsServer(c) = IsServer(d) /\ ends[c].st = "est" /\ ends[d].st = "est" /\ Honest(ends[c].peer))
    => ends[c].key # ends[d].key

\* C14: only who is accepted
Accepted == \A e \in Ends : ends[e].st = "est" => ends[e].peer \in knows[ends[e].id]

\* a client is connected to a server that has the secret of the public key it presented, and accepted the client
Authentic ==
  \A e \in Ends : (ends[e].st = "est" /\ ~IsServer(e) /\ Honest(ends[e].peer)) =>
    \E s \in Ends : IsServer(s) /\ ends[s].key = ends[e].key /\ ends[s].peer = ends[e].id /\ ends[e].id \in knows[Server]

\* C15: session keys of connections between honest ends stay secret, and are different
Secret == \A e \in Ends : (ends[e].st = "est" /\ Honest(ends[e].peer)) => ends[e].key \notin EvilKeys
FreshKeys == \A s, t \in Ends : (s # t /\ IsServer(s) /\ IsServer(t) /\ ends[s].st = "est" /\ ends[t].st = "est") => ends[s].key # ends[t].key

\* no two packages with the same key (that the adversary doesn't know anyway) and nonce
Nonces ==
  \A x, y \in net : (x.m.t = "pkg" /\ y.m.t = "pkg" /\ x # y /\ x.m.key = y.m.key /\ x.m.n = y.m.n /\ x.m.key \notin EvilKeys) =>
    \/ "both_directions" \in Excused /\ x.m.body.b = "data" /\ y.m.body.b = "data" /\ IsServer(x.by) # IsServer(y.by)
    \/ "two_handshakes" \in Excused /\ x.m.body.b = "key" /\ y.m.body.b = "key"
=============================================================================
