------------------------------- MODULE CodecGen -------------------------------
(* Turns values into the bytes the protocol assigns to them (replayed into the real   *)
(* decoders), and checks on every one of them what the specification itself promises: *)
(* the bytes are an encoding of the value, a decoder consumes exactly them, and every *)
(* strict prefix is recognised as too short.                                          *)
EXTENDS Wire, TLC, Json, IOUtils
Items == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE t
TraceInit == t \in 1..Len(Items)
TraceNext == UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_t
Bytes == LET i == Items[t] IN Enc(i.ty, i.ver, i.val, i.mode)
Accepted == PrintT("OUT " \o ToString(t) \o " " \o ToJson(Bytes))
Inv ==
  LET i == Items[t]  b == Enc(i.ty, i.ver, i.val, i.mode) IN
  /\ Match(i.ty, i.ver, i.val, b, 1, IF i.mode = "strict" THEN "strict" ELSE "lax") = Len(b) + 1
  /\ Walk(i.ty, i.ver, b, 1) = Len(b) + 1
  /\ Len(b) <= 60 => \A k \in 0..(Len(b) - 1) : Walk(i.ty, i.ver, SubSeq(b, 1, k), 1) = 0
=============================================================================
