------------------------------ MODULE CodecTrace ------------------------------
(* Judges what the real encoders, decoders and size functions did against Wire.    *)
(* One state per recorded item; a rejected item is reported with the properties it *)
(* breaks, a deviation that only a known protocol gap explains with its key.       *)
EXTENDS Wire, TLC, Json, IOUtils

Items == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE t
TraceInit == t \in 1..Len(Items)
TraceNext == UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_t

Break(p, ok) == IF ok THEN {} ELSE {p}
Whole(b) == Len(b) + 1
\* C15: every strict prefix is short, whatever lies behind the cut
CutsOK(cuts, n) == IF n = 0 THEN cuts = <<>> ELSE Len(cuts) = 1 /\ cuts[1].a = 0 /\ cuts[1].b = n - 1 /\ cuts[1].o = "short"

Strict(i) == Match(i.ty, i.ver, i.val, i.enc, 1, "strict") = Whole(i.enc)
Flex(i) == Match(i.ty, i.ver, i.val, i.enc, 1, "flex") = Whole(i.enc)
Layout(i) == i.encok /\ (Strict(i) \/ (Flexible(i.ty, i.ver) /\ Flex(i)))
RoundTrip(d, i) == d.out = "ok" /\ d.rest = 0 /\ Same(i.ty, i.ver, i.val, d.val)

MsgBad(i) ==
  Break("C11", i.size = Len(i.enc))
  \cup Break("C12", RoundTrip(i.dec, i))
  \cup Break("C13", Layout(i))
  \cup Break("C15", i.cutdone => CutsOK(i.cuts, Len(i.enc)))
  \cup Break("C15", i.dec.out = "ok" => i.stale)
ApiName(ty) == IF Schema[ty].api = 0 THEN ty ELSE Api[Schema[ty].api].name
MsgKnown(i) ==
  (IF Flexible(i.ty, i.ver) /\ Strict(i) /\ ~Flex(i) THEN {"flexible:" \o ApiName(i.ty) \o ":" \o ToString(i.ver)} ELSE {})
  \cup (IF Lacks(i.ty, i.ver) /\ Strict(i) THEN {"missing-field:" \o ApiName(i.ty) \o ":" \o ToString(i.ver)} ELSE {})

\* bytes made by Enc: the decoder has to accept them and see the same value
ProtoBad(i) == Break("C13", RoundTrip(i.dec, i))

\* C07: memory in proportion to the input (KB)
MemOK(kb, n) == kb <= 512 + 2 * n
\* arbitrary bytes
RawBad(i) ==
  LET q == Walk(i.ty, i.ver, i.in, 1) IN
  Break("C07", MemOK(i.kb, Len(i.in)) /\ i.out \in {"ok", "short", "error"})
  \cup Break("C15", q = 0 => i.out = "short")
  \cup Break("C13", q > 0 => i.out = "ok" /\ i.rest = Whole(i.in) - q /\ Match(i.ty, i.ver, i.val, i.in, 1, "lax") = q)

Distinct == {"VarBytes", "NString"}   \* null and empty are different values
SamePrim(ty, x, y) ==
  IF ty \in {"Bytes", "Int32Array", "Int64Array", "StringArray"} THEN x.v = y.v
  ELSE IF ty \in Distinct THEN x.z = y.z /\ x.v = y.v
  ELSE x = y
PrimBad(i) ==
  Break("C14", i.encok /\ MatchPrim(i.t, i.x, i.enc, 1, "strict") = Whole(i.enc)
               /\ (i.size # -1 => i.size = Len(i.enc))
               /\ i.dec.out = "ok" /\ i.dec.rest = 0 /\ SamePrim(i.t, i.x, i.dec.val) /\ i.mid)
  \cup Break("C11", i.size # -1 => i.size = Len(i.enc))
  \cup Break("C15", CutsOK(i.cuts, Len(i.enc)))
PrimVal(ty, x, b, q) ==
  CASE ty = "VarInt" -> x = VarLimbs(b, 1, q)
    [] ty \in {"VarBytes", "VarString", "RecordHeader"} -> TRUE   \* lengths may be padded: see PrimTail
    [] ty = "ArrayLength" -> x = G32(b, 1)
    [] ty = "NString" -> IF x.z THEN G16(b, 1) = -1 ELSE Str(x.v) = SubSeq(b, 1, q - 1)
    [] OTHER -> MatchPrim(ty, x, b, 1, "lax") = q
PrimTail(ty, x, b, q) ==
  CASE ty = "VarBytes" -> Len(x.v) < q /\ x.v = SubSeq(b, q - Len(x.v), q - 1)
    [] ty = "VarString" -> Len(x) < q /\ x = SubSeq(b, q - Len(x), q - 1)
    [] ty = "RecordHeader" -> Len(x.v) < q /\ x.v = SubSeq(b, q - Len(x.v), q - 1)
    [] OTHER -> TRUE
PrimRawBad(i) ==
  LET q == WalkPrim(i.t, i.in, 1) IN
  Break("C07", MemOK(i.kb, Len(i.in)) /\ i.out \in {"ok", "short", "error"})
  \cup Break("C15", q = 0 => i.out = "short")
  \cup Break("C14", q > 0 /\ ~(i.t = "ArrayLength" /\ G32(i.in, 1) > Len(i.in) - 4)
                    => i.out = "ok" /\ i.rest = Whole(i.in) - q /\ PrimVal(i.t, i.val, i.in, q) /\ PrimTail(i.t, i.val, i.in, q))
\* C14: a string that does not fit its 16-bit length
TooLongBad(i) == Break("C14", IF i.n > 32767 THEN i.err /\ i.err2 /\ i.sent <= 4 ELSE ~i.err /\ ~i.err2)

RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in Perms(S \ {x})} : x \in S}
\* C20.  Headers kept in a map come out in any order.
Orders(r) == {[r EXCEPT !.hdr = [j \in 1..Len(r.hdr) |-> r.hdr[p[j]]]] : p \in Perms(1..Len(r.hdr))}
RecordAt(x, r, b, p) ==   \* the set of positions after record r at p
  IF r.map /\ Len(r.hdr) > 1
  THEN {At(b, p, Record(o, x.BaseOffset, x.FirstTimestamp)) : o \in Orders(r)} \ {0}
  ELSE {At(b, p, Record(r, x.BaseOffset, x.FirstTimestamp))} \ {0}
BatchFrom(x, b, p) ==
  Whole(b) \in FoldLeft(LAMBDA ps, r : UNION {RecordAt(x, r, b, q) : q \in ps}, {p} \ {0}, x.Records)
BatchBad(i) ==
  Break("C11", i.size = Len(i.enc)) \cup
  Break("C20", /\ i.encok
               /\ BatchFrom(i.x, i.enc, At(i.enc, 1, BatchHeader(i.x) \o I32(Len(i.x.Records))))
               /\ i.size = Len(i.enc))

Bad(i) == CASE i.kind = "msg" -> MsgBad(i)
            [] i.kind = "proto" -> ProtoBad(i)
            [] i.kind = "raw" -> RawBad(i)
            [] i.kind = "prim" -> PrimBad(i)
            [] i.kind = "praw" -> PrimRawBad(i)
            [] i.kind = "toolong" -> TooLongBad(i)
            [] i.kind = "batch" -> BatchBad(i)
Ids == <<"C07", "C11", "C12", "C13", "C14", "C15", "C20">>
Show(S) == LET G[k \in 0..Len(Ids)] == IF k = 0 THEN "" ELSE G[k-1] \o (IF Ids[k] \in S THEN "+" \o Ids[k] ELSE "") IN G[Len(Ids)]
Accepted ==
  LET i == Items[t]  b == Bad(i) IN
  /\ b # {} => PrintT("BAD " \o ToString(t) \o " " \o Show(b))
  /\ i.kind = "msg" => \A k \in MsgKnown(i) : PrintT("KNOWN " \o ToString(t) \o " " \o k)
Inv == TRUE
=============================================================================
