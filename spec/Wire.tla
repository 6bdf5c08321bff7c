--------------------------------- MODULE Wire ---------------------------------
(***************************************************************************)
(* The format of events on the wire, byte by byte:                         *)
(*   8 bytes: length of everything that follows the next field             *)
(*   2 bytes: length of the header                                         *)
(*   header:                                                               *)
(*     3 bytes: version, of which the first has to be 0                    *)
(*     8 bytes: id                                                         *)
(*     1 byte: kind, 0 initiator, 1 response, 2 end, 3 error               *)
(*     1 byte: 255 if the id of another event follows, else 0              *)
(*     8 bytes: that id, if any                                            *)
(*     2 bytes length, namespace;  2 bytes length, name (both UTF-8)       *)
(*     whatever future versions add                                        *)
(*   payload                                                               *)
(* Encode is the only correct encoding of an event; Decode says for every  *)
(* sequence of bytes which events it contains, and whether something that  *)
(* is not an event follows them.  Ids are sequences of 8 bytes.            *)
(***************************************************************************)
EXTENDS Payload

Version == <<0, 9, 0>>
Kinds == 0 .. 3

-----------------------------------------------------------------------------
(* f = [id, ty, ref, ns, nm, data], ref = <<>>: none                        *)

Header(f, version, extra) ==
  version \o f.id \o <<f.ty>>
    \o (IF f.ref = <<>> THEN <<0>> ELSE <<255>> \o f.ref)
    \o U16(Len(f.ns)) \o f.ns \o U16(Len(f.nm)) \o f.nm \o extra

HeaderLen(f) == 17 + Len(f.ref) + Len(f.ns) + Len(f.nm)
Fits(f) == HeaderLen(f) <= 65535

EncodeAs(f, version, extra) ==
  LET h == Header(f, version, extra) IN U64(Len(h) + Len(f.data)) \o U16(Len(h)) \o h \o f.data

Encode(f) == EncodeAs(f, Version, <<>>)

-----------------------------------------------------------------------------
NoFrame == [id |-> <<>>, ty |-> 0, ref |-> <<>>, ns |-> <<>>, nm |-> <<>>, data |-> <<>>]

\* the event with this header, [ok |-> FALSE] if it is none
ParseHeader(h) ==
  LET bad == [ok |-> FALSE, f |-> NoFrame]
      n == Len(h)
      ref == IF n >= 13 /\ h[13] = 255 THEN 8 ELSE 0
      p == 13 + ref     \* last byte before the namespace
  IN IF n < p + 2 THEN bad
     ELSE IF h[1] # Version[1] \/ h[12] \notin Kinds \/ h[13] \notin {0, 255} THEN bad
     ELSE LET nsl == Number(SubSeq(h, p + 1, p + 2))
              q == p + 2 + nsl
          IN IF n < q + 2 THEN bad
             ELSE LET nml == Number(SubSeq(h, q + 1, q + 2))
                      ns == SubSeq(h, p + 3, q)
                      nm == SubSeq(h, q + 3, q + 2 + nml)
                  IN IF n < q + 2 + nml THEN bad
                     ELSE IF ~Utf8(ns) \/ ~Utf8(nm) THEN bad
                     ELSE [ok |-> TRUE,
                           f |-> [id |-> SubSeq(h, 4, 11), ty |-> h[12], ref |-> SubSeq(h, 14, 13 + ref),
                                  ns |-> ns, nm |-> nm, data |-> <<>>]]

\* What a receiver makes of b: the events in it, and what is left:
\*   "clean": nothing, "more": the beginning of an event,
\*   "start": the beginning of a header, which might be wrong already, "bad": no event can be made of it
RECURSIVE Decode(_)
Decode(b) ==
  LET none(rest) == [frames |-> <<>>, rest |-> rest] IN
  IF b = <<>> THEN none("clean")
  ELSE IF Len(b) < 10 THEN none("more")
  ELSE LET total == Number(SubSeq(b, 1, 8))
           hl == Number(SubSeq(b, 9, 10))
       IN IF hl > total THEN none("bad")
          ELSE IF Len(b) < 10 + hl THEN none("start")
          ELSE LET h == ParseHeader(SubSeq(b, 11, 10 + hl)) IN
               IF ~h.ok THEN none("bad")
               ELSE IF Len(b) - 10 < total THEN none("more")
               ELSE LET d == Decode(From(b, 11 + total)) IN
                    [frames |-> <<[h.f EXCEPT !.data = SubSeq(b, 11 + hl, 10 + total)]>> \o d.frames, rest |-> d.rest]

-----------------------------------------------------------------------------
Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
SubBag(s, t) == \A i \in DOMAIN s : Count(s, s[i]) <= Count(t, s[i])

\* A connection received b (and then its end, if eof). Of the events in it, those with a handler
\* (on: set of <<namespace, name>>) were given to it, all but end events were answered.
End == <<101, 110, 100>>   \* "end"

Handled(on, frames) == SelectSeq(frames, LAMBDA f : f.ty # 2 /\ <<f.ns, f.nm>> \in on)

\* without their own ids
Answer(on, f) == [ty |-> 2, ref |-> f.id, ns |-> <<>>, nm |-> End, data |-> IF <<f.ns, f.nm>> \in on THEN f.data ELSE <<>>]
Answers(on, frames) == Map(SelectSeq(frames, LAMBDA f : f.ty # 2), LAMBDA f : Answer(on, f))
Given(f) == [ty |-> f.ty, ref |-> f.ref, ns |-> f.ns, nm |-> f.nm, data |-> f.data]

\* memory (KiB) that may be in use for n received bytes: a header may be announced, everything else
\* has to be there
MemoryFor(n) == 256 + (n \div 128)

Received(on, b, eof, got, out, open, kib) ==
  LET d == Decode(b)
      o == Decode(out)
  IN /\ SameBag(got, Handled(on, d.frames))
     /\ o.rest = "clean"
     /\ \A i \in DOMAIN o.frames : \A j \in DOMAIN o.frames : i # j => o.frames[i].id # o.frames[j].id
     /\ Len(out) = 0 \/ Concat(Map(o.frames, Encode)) = out
     /\ IF open THEN SameBag(Map(o.frames, Given), Answers(on, d.frames))
        ELSE SubBag(Map(o.frames, Given), Answers(on, d.frames))
     /\ d.rest = "bad" \/ eof => ~open
     /\ d.rest \in {"clean", "more"} /\ ~eof => open
     /\ kib <= MemoryFor(Len(b))

\* An event was turned into bytes, or refused
Sent(f, ok, bytes) ==
  IF Fits(f) THEN ok /\ bytes = Encode(f)
  ELSE ~ok /\ bytes = <<>>
=============================================================================
