------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* What comes of building servers, clients and pools: a server is up or    *)
(* could not be built, a client is connected to the server at its address  *)
(* or there is an error, whatever the transport.  Servers that are up are  *)
(* not disturbed by attempts that fail.                                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

VARIABLES
  dflt,     \* time to live of sockets that nobody set
  want,     \* attempt (number) -> what it is about
  socks,    \* attempt -> the sockets it made so far
  up,       \* server -> its address [space, a]
  conn,     \* client or pool -> the server it talks to
  files     \* addresses at which there is something else

vars == <<dflt, want, socks, up, conn, files>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init ==
  /\ dflt = 0
  /\ want = <<>>
  /\ socks = <<>>
  /\ up = <<>>
  /\ conn = <<>>
  /\ files = {}

\* the encryption layer uses the addresses of the transport below it
Space(tr) == CASE tr \in {"tcp", "enctcp"} -> "tcp"
               [] tr \in {"unix", "encunix"} -> "unix"
               [] OTHER -> "mem"

Default(ttl) ==
  /\ dflt' = ttl
  /\ UNCHANGED <<want, socks, up, conn, files>>

\* w: [kind, tr, a (0: no address), size (of a pool), ttl (-1: not set)]
Try(n, w) ==
  /\ want' = Put(want, n, w)
  /\ socks' = Put(socks, n, 0)
  /\ UNCHANGED <<dflt, up, conn, files>>

Ttl(n) == IF want[n].ttl >= 0 THEN want[n].ttl ELSE dflt

\* The time to live of a socket is the one that was asked for.
Socket(n, what, ttl) ==
  /\ n \in DOMAIN want   \* made with the options of that attempt
  /\ ttl = Ttl(n)
  /\ socks' = [socks EXCEPT ![n] = IF what = "accepted" THEN @ ELSE @ + 1]
  /\ UNCHANGED <<dflt, want, up, conn, files>>

Servers(w) == {s \in DOMAIN up : up[s] = [space |-> Space(w.tr), a |-> w.a]}
Taken(w) == Servers(w) # {} \/ (Space(w.tr) = "unix" /\ w.a \in files)

\* the error that the transport gives
Own(w) == IF Space(w.tr) = "mem" THEN "other" ELSE "io"

Result(w) ==
  CASE w.kind = "pool" /\ w.size = 0 -> "build"
    [] w.a = 0 -> "build"
    [] w.kind = "server" -> IF Taken(w) THEN Own(w) ELSE "up"
    [] OTHER -> IF Servers(w) # {} THEN "up" ELSE Own(w)

\* every connection has a socket of its own
Enough(n) ==
  want[n].tr \in {"tcp", "enctcp"} => socks[n] = IF want[n].kind = "pool" THEN want[n].size ELSE 1

Built(n, r) ==
  LET w == want[n] IN
  /\ r = Result(w)
  /\ r = "up" => Enough(n)
  /\ up' = IF r = "up" /\ w.kind = "server" THEN Put(up, n, [space |-> Space(w.tr), a |-> w.a]) ELSE up
  /\ conn' = IF r = "up" /\ w.kind # "server" THEN Put(conn, n, CHOOSE s \in Servers(w) : TRUE) ELSE conn
  /\ UNCHANGED <<dflt, want, socks, files>>

\* Who answers is the server at the address.
Asked(n, who) ==
  /\ who = conn[n]
  /\ UNCHANGED vars

\* A server is gone.  (Its connections are not.)  A socket in the file system stays there.
Down(n) ==
  /\ files' = IF up[n].space = "unix" THEN files \cup {up[n].a} ELSE files
  /\ up' = Del(up, n)
  /\ UNCHANGED <<dflt, want, socks, conn>>

File(a) ==
  /\ files' = files \cup {a}
  /\ UNCHANGED <<dflt, want, socks, up, conn>>

Look(a, ok) ==
  /\ a \in files /\ ok
  /\ UNCHANGED vars
=============================================================================
