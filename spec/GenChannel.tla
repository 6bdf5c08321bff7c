------------------------------ MODULE GenChannel ------------------------------
(***************************************************************************)
(* Walks of the adversary through MCChannel as scenarios for the real      *)
(* library: which identities connect and accept whom, what is sent, and    *)
(* what the adversary delivers to whom.  tools/gen_chan.py makes scenarios *)
(* of them, what the library then does is judged by TraceChannel.          *)
(*                                                                         *)
(* The known weaknesses are not used (they have scenarios of their own);   *)
(* and packages with keys the adversary has are left to other scenarios.   *)
(* A kind of step is chosen first, see GenBromine.                         *)
(***************************************************************************)
EXTENDS MCChannel, Json

CONSTANT MaxScript

VARIABLES script, kind

gvars == <<vars, script, kind>>

\* (mostly peers that accept each other)
GenInit ==
  /\ Init /\ script = <<>> /\ kind = ""
  /\ \E x \in 1 .. 100 : x > 1 => (Clients \subseteq knows[Server] /\ \A c \in Clients : Server \in knows[c])

Say(x) == script' = Append(script, x)

Junk == [by |-> 0, i |-> 1, m |-> DataPkg([k |-> "junk", a |-> {}], 0, 0)]
EvilPk == [by |-> 0, i |-> 0, m |-> Pk(Evil)]

\* a session key counts for the end it was made for, even if it never arrives there
Taken(e, x) == \E c \in Ends : c # e /\ ends[c].from = x.by

\* the other end of e
Partner(e) == IF IsServer(e) THEN {c \in Ends : ends[c].from = e} ELSE {ends[e].from}

Give(e, x, good) ==
  /\ x.m.t = "pkg" /\ x.by # 0 /\ good => x.m.key \notin EvilKeys
  /\ good /\ ends[e].st = "key" => ~Taken(e, x)
  \* (data reaches a server only once it is clear who its client is)
  /\ good /\ ends[e].st = "est" => x.by \in Partner(e)
  /\ Deliver(e, x)
  /\ (ends'[e].st # "failed") = good
  /\ Say([a |-> "give", e |-> e, by |-> x.by, i |-> x.i, good |-> good, st |-> ends[e].st])

\* (what goes wrong ends connections: not too much of it)
Room == 5 * Cardinality({i \in DOMAIN script : script[i].a = "give" /\ ~script[i].good}) < Len(script) - 2

Step(k) ==
  CASE k = "connect" -> \E e \in Ends : Connect(e) /\ Say([a |-> "connect", e |-> e, id |-> ends'[e].id])
    [] k = "send" -> \E e \in Ends : Send(e) /\ Say([a |-> "send", e |-> e])
    [] k = "pk" -> \E e \in Ends, x \in net : ends[e].st = "pk" /\ Give(e, x, TRUE)
    [] k = "evil" -> Room /\ \E e \in Ends, good \in BOOLEAN : ends[e].st = "pk" /\ Give(e, EvilPk, good)
    [] k = "key" -> \E e \in Ends, x \in net : ends[e].st = "key" /\ Give(e, x, TRUE)
    [] k = "data" -> \E e \in Ends, x \in net : ends[e].st = "est" /\ Give(e, x, TRUE)
    [] k = "bad" -> Room /\ \E e \in Ends, x \in net \cup {EvilPk, Junk} : ends[e].st \in {"key", "est"} /\ Give(e, x, FALSE)
    [] k = "badpk" -> Room /\ \E e \in Ends, x \in net \cup {EvilPk, Junk} : ends[e].st = "pk" /\ Give(e, x, FALSE)

Weighted == <<"connect", "connect", "send", "send", "evil", "pk", "pk", "pk", "badpk", "bad", "key", "key", "key", "data", "data", "data", "bad">>

GenNext ==
  IF kind = "done" THEN FALSE
  ELSE IF kind = "" /\ (Len(script) >= MaxScript \/ TLCGet("level") > 300)
       THEN PrintT("SCRIPT " \o ToJson([knows |-> knows, steps |-> script])) /\ kind' = "done" /\ UNCHANGED <<vars, script>>
  ELSE IF kind = "" THEN (\E x \in 1 .. Len(Weighted) : kind' = Weighted[x]) /\ UNCHANGED <<vars, script>>
  ELSE \/ Step(kind) /\ kind' = ""
       \/ kind' = "" /\ UNCHANGED <<vars, script>>

GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
