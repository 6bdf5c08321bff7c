------------------------------- MODULE Payload -------------------------------
(***************************************************************************)
(* What the payloads of events look like.  Payloads are nested: raw bytes, *)
(* error data, serde data with an explicit format ("serde") or with the    *)
(* default format of the context ("plain"), and pairs of payloads          *)
(* ("tandem").  All bytes are written out: Bytes(p, dflt) is the only      *)
(* correct encoding of p in a context with default format dflt.            *)
(* The formats of serde data are 0: MessagePack, 1: Bincode, 2: Postcard,  *)
(* 3: JSON.  Texts are sequences of their UTF-8 bytes.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))

Map(s, Op(_)) == [i \in DOMAIN s |-> Op(s[i])]

\* big endian and little endian numbers (all numbers here are below 2^31)
U16(n) == <<n \div 256, n % 256>>
U32(n) == U16(n \div 65536) \o U16(n % 65536)
U64(n) == <<0, 0, 0, 0>> \o U32(n)
L32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
L64(n) == L32(n) \o <<0, 0, 0, 0>>

-----------------------------------------------------------------------------
(* Serde data: t is its type                                                *)
(*   u: a number, s: a text, b: a bool, l: a list of numbers, o: maybe a    *)
(*   text, t: a number and a bool, n: nothing                               *)
(*   r: a struct {id, name, tags}, e: an enum {A, B(number), C {x: bool}}   *)

MNum(n) ==
  CASE n < 128 -> <<n>>
    [] n \in 128 .. 255 -> <<204, n>>
    [] n \in 256 .. 65535 -> <<205>> \o U16(n)
    [] OTHER -> <<206>> \o U32(n)
MText(s) ==
  LET n == Len(s) IN
  (CASE n < 32 -> <<160 + n>>
     [] n \in 32 .. 255 -> <<217, n>>
     [] n \in 256 .. 65535 -> <<218>> \o U16(n)
     [] OTHER -> <<219>> \o U32(n)) \o s
MBool(b) == IF b THEN <<195>> ELSE <<194>>
MArray(n) == IF n < 16 THEN <<144 + n>> ELSE <<220>> \o U16(n)

Messagepack(v) ==
  CASE v.t = "u" -> MNum(v.u)
    [] v.t = "s" -> MText(v.s)
    [] v.t = "b" -> MBool(v.b)
    [] v.t = "l" -> MArray(Len(v.l)) \o Concat(Map(v.l, MNum))
    [] v.t = "o" -> IF v.o = <<>> THEN <<192>> ELSE MText(v.o[1])
    [] v.t = "t" -> MArray(2) \o MNum(v.u) \o MBool(v.b)
    [] v.t = "n" -> <<192>>
    [] v.t = "r" -> MArray(3) \o MNum(v.u) \o MText(v.s) \o MArray(Len(v.tags)) \o Concat(Map(v.tags, MText))
    [] v.t = "e" -> (CASE v.e = "A" -> <<161, 65>>
                       [] v.e = "B" -> <<129, 161, 66>> \o MNum(v.u)
                       [] v.e = "C" -> <<129, 161, 67>> \o MArray(1) \o MBool(v.u = 1))

BText(s) == L64(Len(s)) \o s
BBool(b) == IF b THEN <<1>> ELSE <<0>>

Bincode(v) ==
  CASE v.t = "u" -> L32(v.u)
    [] v.t = "s" -> BText(v.s)
    [] v.t = "b" -> BBool(v.b)
    [] v.t = "l" -> L64(Len(v.l)) \o Concat(Map(v.l, L32))
    [] v.t = "o" -> IF v.o = <<>> THEN <<0>> ELSE <<1>> \o BText(v.o[1])
    [] v.t = "t" -> L32(v.u) \o BBool(v.b)
    [] v.t = "n" -> <<>>
    [] v.t = "r" -> L32(v.u) \o BText(v.s) \o L64(Len(v.tags)) \o Concat(Map(v.tags, BText))
    [] v.t = "e" -> (CASE v.e = "A" -> L32(0)
                       [] v.e = "B" -> L32(1) \o L32(v.u)
                       [] v.e = "C" -> L32(2) \o BBool(v.u = 1))

RECURSIVE PNum(_)
PNum(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o PNum(n \div 128)
PText(s) == PNum(Len(s)) \o s

Postcard(v) ==
  CASE v.t = "u" -> PNum(v.u)
    [] v.t = "s" -> PText(v.s)
    [] v.t = "b" -> BBool(v.b)
    [] v.t = "l" -> PNum(Len(v.l)) \o Concat(Map(v.l, PNum))
    [] v.t = "o" -> IF v.o = <<>> THEN <<0>> ELSE <<1>> \o PText(v.o[1])
    [] v.t = "t" -> PNum(v.u) \o BBool(v.b)
    [] v.t = "n" -> <<>>
    [] v.t = "r" -> PNum(v.u) \o PText(v.s) \o PNum(Len(v.tags)) \o Concat(Map(v.tags, PText))
    [] v.t = "e" -> (CASE v.e = "A" -> <<0>>
                       [] v.e = "B" -> <<1>> \o PNum(v.u)
                       [] v.e = "C" -> <<2>> \o BBool(v.u = 1))

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Escaped(c) ==
  CASE c = 34 -> <<92, 34>>
    [] c = 92 -> <<92, 92>>
    [] c = 10 -> <<92, 110>>
    [] c = 9 -> <<92, 116>>
    [] OTHER -> <<c>>
JText(s) == <<34>> \o Concat(Map(s, Escaped)) \o <<34>>
JBool(b) == IF b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
JNull == <<110, 117, 108, 108>>
RECURSIVE Commas(_)
Commas(s) == IF Len(s) < 2 THEN Concat(s) ELSE Head(s) \o <<44>> \o Commas(Tail(s))
JArray(s) == <<91>> \o Commas(s) \o <<93>>
JObject(s) == <<123>> \o Commas(s) \o <<125>>
JField(name, value) == JText(name) \o <<58>> \o value
Name == [A |-> <<65>>, B |-> <<66>>, C |-> <<67>>, x |-> <<120>>, id |-> <<105, 100>>,
         name |-> <<110, 97, 109, 101>>, tags |-> <<116, 97, 103, 115>>]

Json_(v) ==
  CASE v.t = "u" -> Digits(v.u)
    [] v.t = "s" -> JText(v.s)
    [] v.t = "b" -> JBool(v.b)
    [] v.t = "l" -> JArray(Map(v.l, Digits))
    [] v.t = "o" -> IF v.o = <<>> THEN JNull ELSE JText(v.o[1])
    [] v.t = "t" -> JArray(<<Digits(v.u), JBool(v.b)>>)
    [] v.t = "n" -> JNull
    [] v.t = "r" -> JObject(<<JField(Name.id, Digits(v.u)), JField(Name.name, JText(v.s)), JField(Name.tags, JArray(Map(v.tags, JText)))>>)
    [] v.t = "e" -> (CASE v.e = "A" -> JText(Name.A)
                       [] v.e = "B" -> JObject(<<JField(Name.B, Digits(v.u))>>)
                       [] v.e = "C" -> JObject(<<JField(Name.C, JObject(<<JField(Name.x, JBool(v.u = 1))>>))>>))

Serialized(fmt, v) ==
  CASE fmt = 0 -> Messagepack(v)
    [] fmt = 1 -> Bincode(v)
    [] fmt = 2 -> Postcard(v)
    [] fmt = 3 -> Json_(v)

\* A build of the library has some of these formats, `formats`. Without any other choice the first of them is used.
Default(d, formats) == IF d >= 0 THEN d ELSE CHOOSE f \in formats : \A g \in formats : f <= g

-----------------------------------------------------------------------------
(* Payloads                                                                 *)

RECURSIVE Bytes(_, _)
Bytes(p, dflt) ==
  CASE p.k = "byte" -> p.b
    [] p.k = "err" -> U16(p.code) \o U32(Len(p.msg)) \o p.msg
    [] p.k = "serde" -> <<p.fmt>> \o Serialized(p.fmt, p.v)
    [] p.k = "plain" -> <<dflt>> \o Serialized(dflt, p.v)
    [] p.k = "tandem" ->
         LET l == Bytes(p.l, dflt)
             r == Bytes(p.r, dflt)
         IN U64(Len(l)) \o l \o U64(Len(r)) \o r

\* Formats that are not there can't be used
RECURSIVE Encodable(_, _, _)
Encodable(p, dflt, formats) ==
  CASE p.k = "serde" -> p.fmt \in formats
    [] p.k = "plain" -> dflt \in formats
    [] p.k = "tandem" -> Encodable(p.l, dflt, formats) /\ Encodable(p.r, dflt, formats)
    [] OTHER -> TRUE

Encodes(p, d, formats, ok, bytes) ==
  LET dflt == Default(d, formats) IN
  /\ ok <=> Encodable(p, dflt, formats)
  /\ ok => bytes = Bytes(p, dflt)

-----------------------------------------------------------------------------
(* Decoding.  `shape` is what the receiver expects.  For serde data, which  *)
(* are not decoded here, `hint` is what they were made of.                  *)

From(s, n) == SubSeq(s, n, Len(s))

\* a number of n bytes; too large: Big
Big == 2147483647
RECURSIVE Number(_)
Number(s) ==
  IF s = <<>> THEN 0
  ELSE LET n == Number(SubSeq(s, 1, Len(s) - 1))
       IN IF n >= 8388607 THEN Big ELSE n * 256 + s[Len(s)]

Cont(c) == c \in 128 .. 191

\* how many bytes a character takes that begins with a
Width(a) ==
  CASE a < 128 -> 1
    [] a \in 194 .. 223 -> 2
    [] a \in 224 .. 239 -> 3
    [] a \in 240 .. 244 -> 4
    [] OTHER -> 0
Utf8(s) ==
  \A i \in DOMAIN s :
    LET a == s[i] IN
    IF Cont(a)
    THEN \* it is part of a character
         \E j \in 1 .. 3 : j < i /\ Width(s[i - j]) > j /\ \A k \in 1 .. j : Cont(s[i - k]) = (k < j)
    ELSE LET n == Width(a)
             b == IF i < Len(s) THEN s[i + 1] ELSE 0
         IN /\ n > 0
            /\ i + n - 1 <= Len(s)
            /\ \A k \in 1 .. n - 1 : Cont(s[i + k])
            /\ a = 224 => b >= 160        \* no overlong forms,
            /\ a = 237 => b <= 159        \* no surrogates,
            /\ a = 240 => b >= 144
            /\ a = 244 => b <= 143        \* nothing beyond the last code point

IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

\* "ok": has to be decoded, "err": must not, "any": not specified
SerdeVerdict(t, bytes, hint, formats) ==
  IF bytes = <<>> THEN "err"
  ELSE IF bytes[1] \notin formats THEN "err"
  ELSE IF hint.k = "none" THEN "any"
  ELSE LET full == <<bytes[1]>> \o Serialized(bytes[1], hint.v)
       IN CASE bytes = full -> IF t = hint.v.t THEN "ok" ELSE "any"
            \* truncated; the beginning of a JSON number is another number
            [] bytes # full /\ IsPrefix(bytes, full) /\ t = hint.v.t ->
                 IF bytes[1] = 3 /\ t = "u" THEN "any" ELSE "err"
            [] OTHER -> "any"

LeftPart(bytes) == SubSeq(bytes, 9, 8 + Number(SubSeq(bytes, 1, 8)))
AfterLeft(bytes) == From(bytes, 9 + Number(SubSeq(bytes, 1, 8)))
HasPart(bytes) == Len(bytes) >= 8 /\ Len(bytes) - 8 >= Number(SubSeq(bytes, 1, 8))

Half(hint, side) == IF hint.k = "tandem" THEN (IF side = "l" THEN hint.l ELSE hint.r) ELSE [k |-> "none"]

RECURSIVE Verdict(_, _, _, _)
Verdict(shape, bytes, hint, formats) ==
  CASE shape.k = "byte" -> "ok"
    [] shape.k = "err" ->
         IF Len(bytes) < 6 THEN "err"
         ELSE LET n == Number(SubSeq(bytes, 3, 6)) IN
              IF Len(bytes) - 6 < n \/ ~Utf8(SubSeq(bytes, 7, 6 + n)) THEN "err"
              ELSE IF Len(bytes) - 6 > n THEN "any" ELSE "ok"
    [] shape.k \in {"serde", "plain"} -> SerdeVerdict(shape.t, bytes, hint, formats)
    [] shape.k = "tandem" ->
         IF ~HasPart(bytes) THEN "err"
         ELSE LET rest == AfterLeft(bytes) IN
              IF ~HasPart(rest) THEN "err"
              ELSE LET a == Verdict(shape.l, LeftPart(bytes), Half(hint, "l"), formats)
                       b == Verdict(shape.r, LeftPart(rest), Half(hint, "r"), formats)
                   IN CASE a = "err" \/ b = "err" -> "err"
                        [] a = "ok" /\ b = "ok" /\ AfterLeft(rest) = <<>> -> "ok"
                        [] OTHER -> "any"

\* Are these the decoded data?  (Only where they are determined.)
RECURSIVE Right(_, _, _, _, _)
Right(shape, bytes, hint, formats, val) ==
  CASE shape.k = "byte" -> val.b = bytes
    [] shape.k = "err" ->
         /\ val.code = Number(SubSeq(bytes, 1, 2))
         /\ val.msg = SubSeq(bytes, 7, 6 + Number(SubSeq(bytes, 3, 6)))
    [] shape.k \in {"serde", "plain"} ->
         SerdeVerdict(shape.t, bytes, hint, formats) = "ok" => Serialized(0, val.v) = Serialized(0, hint.v)
    [] shape.k = "tandem" ->
         /\ Right(shape.l, LeftPart(bytes), Half(hint, "l"), formats, val.l)
         /\ Right(shape.r, LeftPart(AfterLeft(bytes)), Half(hint, "r"), formats, val.r)

Decodes(shape, bytes, hint, formats, ok, val) ==
  /\ Verdict(shape, bytes, hint, formats) = "ok" => ok
  /\ ok => /\ Verdict(shape, bytes, hint, formats) # "err"
           /\ Right(shape, bytes, hint, formats, val)
=============================================================================
