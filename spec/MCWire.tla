-------------------------------- MODULE MCWire --------------------------------
(* The format itself, for all events over small alphabets: what is encoded is *)
(* decoded to the same, whatever follows; the beginning of an event is never  *)
(* an event; events of future versions are understood.                        *)
EXTENDS Wire

Ids == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>, <<0, 0, 0, 1, 0, 255, 0, 9>>}
Texts == {<<>>, <<110>>, <<0>>, <<195, 182>>, <<240, 159, 152, 128>>, <<110, 110, 110>>}
Data == {<<>>, <<0>>, <<255, 0, 9>>}
Frames == [id : Ids, ty : Kinds, ref : {<<>>} \cup Ids, ns : Texts, nm : Texts, data : Data]
Versions == {Version, <<0, 0, 1>>, <<0, 255, 255>>}
Extras == {<<>>, <<7>>, <<0, 0, 255>>}
Wrong == {<<1, 9, 0>>, <<255, 0, 0>>}

\* what may follow
G == [id |-> <<1, 2, 3, 4, 5, 6, 7, 8>>, ty |-> 1, ref |-> <<0, 0, 0, 0, 0, 0, 0, 1>>, ns |-> <<115>>, nm |-> <<110>>, data |-> <<5>>]

VARIABLE f
Init == f \in Frames
Next == FALSE /\ UNCHANGED f
Spec == Init /\ [][Next]_f

RoundTrip == \A v \in Versions, x \in Extras :
  /\ Decode(EncodeAs(f, v, x)) = [frames |-> <<f>>, rest |-> "clean"]
  /\ Decode(EncodeAs(f, v, x) \o Encode(G)) = [frames |-> <<f, G>>, rest |-> "clean"]
Prefixes == LET b == Encode(f) IN \A n \in 1 .. Len(b) - 1 :
  LET d == Decode(SubSeq(b, 1, n)) IN d.frames = <<>> /\ d.rest \in {"more", "start"}
Versioned == \A v \in Wrong : Decode(EncodeAs(f, v, <<>>) \o Encode(G)) = [frames |-> <<>>, rest |-> "bad"]
\* a header that claims to be longer or shorter than it is, or to be longer than everything
Lengths == LET b == Encode(f)
               h == HeaderLen(f)
               with(n) == SubSeq(b, 1, 8) \o U16(n) \o From(b, 11)
           IN /\ \A n \in 0 .. h - 1 : Decode(with(n)).rest = "bad"
              /\ Decode(with(h + Len(f.data) + 1) \o Encode(G)).rest = "bad"
=============================================================================
