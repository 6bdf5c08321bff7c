----------------------------- MODULE TracePayload ----------------------------
(* Checks what the payloads of real events look like, and what they are      *)
(* decoded to, against Payload.                                              *)
EXTENDS Payload, Json, IOUtils, TLC, TLCExt

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev[l]
Formats == {Traces[tid].formats[i] : i \in DOMAIN Traces[tid].formats}

TraceInit == tid \in DOMAIN Traces /\ l = 1

Logged ==
  CASE Ev.e = "enc" -> Encodes(Ev.p, Ev.dflt, Formats, Ev.ok, Ev.bytes)
    [] Ev.e = "dec" -> Decodes(Ev.shape, Ev.bytes, Ev.hint, Formats, Ev.ok, Ev.val)
    [] OTHER -> FALSE

TraceNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ Logged = TRUE
  /\ l' = l + 1
  /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>

Progress ==
  TLCSet(tid, IF TLCGetOrDefault(tid, 0) < l THEN l ELSE TLCGetOrDefault(tid, 0))

Report ==
  TLCGet("stats").generated >= 0 /\ \A i \in DOMAIN Traces :
    LET m == TLCGetOrDefault(i, 0) IN
    m = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECTED", i, m>>)
=============================================================================
