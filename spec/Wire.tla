-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The Kafka wire format: encodings of primitives, of every structure of   *)
(* Schema at every version, and of record batches.                         *)
(*                                                                         *)
(* Values: booleans; 8/16/32-bit integers as integers; 64-bit integers as  *)
(* four 16-bit limbs, most significant first; strings as sequences of      *)
(* bytes; byte arrays and arrays as [z |-> nil?, v |-> elements];          *)
(* structures as records with one entry per field, in any version.         *)
(*                                                                         *)
(*   Enc(ty, ver, v, mode)     the protocol bytes of v                     *)
(*   Match(ty, ver, v, b, p, mode)  b[p..] starts with an encoding of v:   *)
(*                             the position after it, else 0               *)
(*   Walk(ty, ver, b, p)       what a decoder makes of b[p..]: position    *)
(*                             after the value, 0 if the data is too       *)
(*                             short, -1 if it is malformed                *)
(*   Same(ty, ver, v, w)       w is v as it comes back from the wire       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Schema

Byte(x) == x % 256
I8(v)  == <<Byte(v)>>
I16(v) == <<Byte(v \div 256), Byte(v)>>
I32(v) == <<Byte(v \div 16777216), Byte(v \div 65536), Byte(v \div 256), Byte(v)>>
I64(l) == I16(l[1]) \o I16(l[2]) \o I16(l[3]) \o I16(l[4])
S8(x) == IF x > 127 THEN x - 256 ELSE x
G16(b, p) == S8(b[p]) * 256 + b[p+1]
G32(b, p) == S8(b[p]) * 16777216 + b[p+1] * 65536 + b[p+2] * 256 + b[p+3]
BoolB(x) == <<IF x THEN 1 ELSE 0>>

------------------------------------------------------------------- \* var ints
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
\* zig-zag: twice the value, inverted for negative ones; limbs, least significant first
ZigZag(l) ==
  LET d == <<(2 * l[4]) % 65536, (2 * l[3] + l[4] \div 32768) % 65536, (2 * l[2] + l[3] \div 32768) % 65536, (2 * l[1] + l[2] \div 32768) % 65536>> IN
  IF l[1] < 32768 THEN d ELSE <<65535 - d[1], 65535 - d[2], 65535 - d[3], 65535 - d[4]>>
\* the g-th group of seven bits
Group(z, g) ==
  LET i == (7 * g) \div 16  s == (7 * g) % 16  hi == IF i >= 3 THEN 0 ELSE z[i + 2] IN
  (z[i + 1] \div Pow2[s + 1] + (hi % 128) * Pow2[17 - s]) % 128
VarInt(l) ==
  LET z == ZigZag(l) IN
  IF z[2] = 0 /\ z[3] = 0 /\ z[4] = 0 /\ z[1] < 128 THEN <<z[1]>>
  ELSE LET gs == [g \in 1..10 |-> Group(z, g - 1)]
           top == CHOOSE k \in 1..10 : (k = 1 \/ gs[k] # 0) /\ \A j \in (k+1)..10 : gs[j] = 0
       IN [k \in 1..top |-> IF k < top THEN gs[k] + 128 ELSE gs[k]]
\* limbs of a small integer
Limbs(n) == IF n >= 0 THEN <<0, 0, n \div 65536, n % 65536>> ELSE <<65535, 65535, (n \div 65536) % 65536, n % 65536>>
VarLen(n) == VarInt(Limbs(n))
\* the value of a var int starting at p: [p |-> next position (0 short, -1 overflow), l |-> limbs]
VarEnd(b, p) ==
  LET fin == {k \in p..(p+9) : k <= Len(b) /\ b[k] < 128} IN
  IF fin = {} THEN (IF Len(b) >= p + 9 THEN -1 ELSE 0)
  ELSE LET k == CHOOSE x \in fin : \A y \in fin : x <= y IN
       IF k = p + 9 /\ b[k] > 1 THEN -1 ELSE k + 1
VarLimbs(b, p, q) ==
  LET bit(i) == LET g == (i - 1) \div 7 IN IF p + g < q THEN ((b[p+g] % 128) \div Pow2[((i-1) % 7) + 1]) % 2 ELSE 0
      val == [i \in 1..64 |-> IF i = 64 THEN bit(1) ELSE (bit(i+1) + bit(1)) % 2]
      limb(k) == LET s == 16 * (4 - k) IN
        val[s+1] + 2*val[s+2] + 4*val[s+3] + 8*val[s+4] + 16*val[s+5] + 32*val[s+6] + 64*val[s+7] + 128*val[s+8]
        + 256*val[s+9] + 512*val[s+10] + 1024*val[s+11] + 2048*val[s+12] + 4096*val[s+13] + 8192*val[s+14] + 16384*val[s+15] + 32768*val[s+16]
  IN <<limb(1), limb(2), limb(3), limb(4)>>
\* a length read from limbs: an integer, or -2 when it is no sensible length
SmallLen(l) == IF l[1] = 0 /\ l[2] = 0 /\ l[3] < 32768 THEN l[3] * 65536 + l[4]
               ELSE IF l = <<65535, 65535, 65535, 65535>> THEN -1
               ELSE IF l[1] > 32767 THEN -2 ELSE 2147483647
\* unsigned var int of a small non-negative number (compact lengths)
UVar(n) == IF n < 128 THEN <<n>> ELSE IF n < 16384 THEN <<(n % 128) + 128, n \div 128>>
           ELSE <<(n % 128) + 128, ((n \div 128) % 128) + 128, n \div 16384>>

-------------------------------------------------------------- \* primitive values
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1]
           ELSE LET h == Len(ss) \div 2 IN Cat(SubSeq(ss, 1, h)) \o Cat(SubSeq(ss, h + 1, Len(ss)))
Str(s) == I16(Len(s)) \o s
\* mode "null": absent rather than empty; mode "odd": null and unusual but legal booleans
Nullish(mode) == mode \in {"null", "odd"}
EncPrim(t, x, mode) ==
  CASE t = "Bool"   -> IF mode = "odd" /\ x THEN <<254>> ELSE BoolB(x)
    [] t = "Int8"   -> I8(x)
    [] t = "Int16"  -> I16(x)
    [] t = "Int32"  -> I32(x)
    [] t = "Int64"  -> I64(x)
    [] t = "String" -> IF Nullish(mode) /\ x = <<>> THEN I16(-1) ELSE Str(x)
    [] t = "NString" -> IF x.z THEN I16(-1) ELSE Str(x.v)
    [] t = "Bytes"  -> IF Nullish(mode) /\ x.v = <<>> THEN I32(-1) ELSE I32(Len(x.v)) \o x.v
    [] t = "Int32Array"  -> IF Nullish(mode) /\ x.v = <<>> THEN I32(-1) ELSE I32(Len(x.v)) \o Cat([i \in 1..Len(x.v) |-> I32(x.v[i])])
    [] t = "Int64Array"  -> IF Nullish(mode) /\ x.v = <<>> THEN I32(-1) ELSE I32(Len(x.v)) \o Cat([i \in 1..Len(x.v) |-> I64(x.v[i])])
    [] t = "StringArray" -> IF Nullish(mode) /\ x.v = <<>> THEN I32(-1) ELSE I32(Len(x.v)) \o Cat([i \in 1..Len(x.v) |-> Str(x.v[i])])
    [] t = "ArrayLength" -> I32(x)
    [] t = "VarInt"    -> VarInt(x)
    [] t = "VarBytes"  -> IF x.z THEN VarLen(-1) ELSE VarLen(Len(x.v)) \o x.v
    [] t = "VarString" -> VarLen(Len(x)) \o x
    [] t = "RecordHeader" -> VarLen(Len(x.k)) \o x.k \o VarLen(Len(x.v)) \o x.v

At(b, p, s) == IF p > 0 /\ p + Len(s) - 1 <= Len(b) /\ SubSeq(b, p, p + Len(s) - 1) = s THEN p + Len(s) ELSE 0
Either(x, y) == IF x # 0 THEN x ELSE y

\* mode "strict": as an encoder of this protocol writes it.  A nil array may be
\* written as null or as empty.  "lax": as a decoder has to accept it.  "flex": compact encoding.
MatchPrim(t, x, b, p, mode) ==
  CASE mode = "flex" /\ t = "String" -> At(b, p, UVar(Len(x) + 1) \o x)
    [] mode = "flex" /\ t = "Bytes"  -> Either(At(b, p, UVar(Len(x.v) + 1) \o x.v), IF x.z THEN At(b, p, <<0>>) ELSE 0)
    [] mode = "flex" /\ t \in {"Int32Array", "Int64Array", "StringArray"} ->
         LET e(y) == IF t = "Int32Array" THEN I32(y) ELSE IF t = "Int64Array" THEN I64(y) ELSE UVar(Len(y) + 1) \o y IN
         Either(At(b, p, UVar(Len(x.v) + 1) \o Cat([i \in 1..Len(x.v) |-> e(x.v[i])])), IF x.z THEN At(b, p, <<0>>) ELSE 0)
    [] t = "Bool" /\ mode = "lax" -> IF p <= Len(b) /\ ((b[p] # 0) = x) THEN p + 1 ELSE 0
    [] t = "String" -> Either(At(b, p, EncPrim(t, x, "strict")), IF mode = "lax" /\ x = <<>> THEN At(b, p, I16(-1)) ELSE 0)
    [] t = "StringArray" /\ mode = "lax" /\ x.v # <<>> ->   \* null elements count as empty
         FoldLeft(LAMBDA q, y : IF q = 0 THEN 0 ELSE Either(At(b, q, Str(y)), IF y = <<>> THEN At(b, q, I16(-1)) ELSE 0), At(b, p, I32(Len(x.v))), x.v)
    [] t \in {"Bytes", "Int32Array", "Int64Array", "StringArray"} ->
         Either(At(b, p, EncPrim(t, x, "strict")), IF x.v = <<>> /\ (x.z \/ mode = "lax") THEN At(b, p, I32(-1)) ELSE 0)
    [] OTHER -> At(b, p, EncPrim(t, x, "strict"))

\* n bytes at p
Take(b, p, n) == IF n < -1 THEN -1 ELSE IF n = -1 THEN p ELSE IF n > Len(b) - p + 1 THEN 0 ELSE p + n
Fixed(b, p, n) == IF p + n - 1 <= Len(b) THEN p + n ELSE 0
WalkStr(b, p) == IF Fixed(b, p, 2) = 0 THEN 0 ELSE Take(b, p + 2, G16(b, p))
WalkStrs(b, p, n) == FoldLeft(LAMBDA q, i : IF q <= 0 THEN q ELSE WalkStr(b, q), p, [i \in 1..n |-> i])
WalkVar(b, p, null) ==
  LET q == VarEnd(b, p) IN
  IF q <= 0 THEN q
  ELSE LET n == SmallLen(VarLimbs(b, p, q)) IN IF n < -1 \/ (n = -1 /\ ~null) THEN -1 ELSE Take(b, q, n)
WalkPrim(t, b, p) ==
  CASE t \in {"Bool", "Int8"} -> Fixed(b, p, 1)
    [] t = "Int16" -> Fixed(b, p, 2)
    [] t \in {"Int32", "ArrayLength"} -> Fixed(b, p, 4)
    [] t = "Int64" -> Fixed(b, p, 8)
    [] t \in {"String", "NString"} -> WalkStr(b, p)
    [] t = "Bytes" -> IF Fixed(b, p, 4) = 0 THEN 0 ELSE Take(b, p + 4, G32(b, p))
    [] t \in {"Int32Array", "Int64Array"} ->
         IF Fixed(b, p, 4) = 0 THEN 0
         ELSE LET n == G32(b, p)  w == IF t = "Int32Array" THEN 4 ELSE 8 IN
              IF n > Len(b) THEN 0 ELSE Take(b, p + 4, IF n <= 0 THEN n ELSE n * w)
    [] t = "StringArray" ->
         IF Fixed(b, p, 4) = 0 THEN 0
         ELSE LET n == G32(b, p) IN IF n < -1 THEN -1
              ELSE IF n <= Len(b) THEN WalkStrs(b, p + 4, n)
              ELSE LET q1 == WalkStrs(b, p + 4, Len(b)) IN IF q1 > 0 THEN 0 ELSE q1
    [] t = "VarInt" -> VarEnd(b, p)
    [] t = "VarBytes" -> WalkVar(b, p, TRUE)
    [] t = "VarString" -> WalkVar(b, p, FALSE)
    [] t = "RecordHeader" -> LET q == WalkVar(b, p, FALSE) IN IF q <= 0 THEN q ELSE WalkVar(b, q, FALSE)

------------------------------------------------------------------ \* structures
Present(f, ver) == f.lo <= ver /\ ver <= f.hi

RECURSIVE Enc(_, _, _, _)
Enc(ty, ver, v, mode) ==
  LET fs == SelectSeq(Schema[ty].f, LAMBDA f : Present(f, ver))
      one(f) == IF f.t # "Array" THEN EncPrim(f.t, v[f.n], mode)
                ELSE IF Nullish(mode) /\ v[f.n].v = <<>> THEN I32(-1)
                ELSE I32(Len(v[f.n].v)) \o Cat([j \in 1..Len(v[f.n].v) |-> Enc(f.e, ver, v[f.n].v[j], mode)])
  IN Cat([i \in 1..Len(fs) |-> one(fs[i])])

RECURSIVE Match(_, _, _, _, _, _)
Match(ty, ver, v, b, p, mode) ==
  LET items(e, s, q0) == FoldLeft(LAMBDA q, x : IF q = 0 THEN 0 ELSE Match(e, ver, x, b, q, mode), q0, s)
      array(f, x, q) ==
        LET cnt  == IF mode = "flex" THEN UVar(Len(x.v) + 1) ELSE I32(Len(x.v))
            null == IF mode = "flex" THEN <<0>> ELSE I32(-1)
            h    == At(b, q, cnt) IN
        IF h # 0 THEN items(f.e, x.v, h)
        ELSE IF x.v = <<>> /\ (x.z \/ mode = "lax") THEN At(b, q, null) ELSE 0
      field(q, f) ==
        IF q = 0 \/ ~Present(f, ver) THEN q
        ELSE IF f.t # "Array" THEN MatchPrim(f.t, v[f.n], b, q, mode)
        ELSE array(f, v[f.n], q)
      end == FoldLeft(field, p, Schema[ty].f)
  IN IF mode = "flex" THEN At(b, end, <<0>>) ELSE end

RECURSIVE Walk(_, _, _, _)
Walk(ty, ver, b, p) ==
  LET items(e, n, q0) == FoldLeft(LAMBDA q, i : IF q <= 0 THEN q ELSE Walk(e, ver, b, q), q0, [i \in 1..n |-> i])
      field(q, f) ==
        IF q <= 0 \/ ~Present(f, ver) THEN q
        ELSE IF f.t # "Array" THEN WalkPrim(f.t, b, q)
        ELSE IF Fixed(b, q, 4) = 0 THEN 0
        ELSE LET n == G32(b, q)
                 room == Len(b) - q - 3 IN
             IF n < -1 THEN -1
             ELSE IF n <= room THEN items(f.e, IF n < 0 THEN 0 ELSE n, q + 4)
             ELSE LET q1 == items(f.e, room, q + 4) IN IF q1 > 0 THEN 0 ELSE q1
  IN FoldLeft(field, p, Schema[ty].f)

ZeroPrim(t, x) ==
  CASE t = "Bool" -> x = FALSE
    [] t \in {"Int8", "Int16", "Int32"} -> x = 0
    [] t = "Int64" -> x = <<0, 0, 0, 0>>
    [] t = "String" -> x = <<>>
    [] OTHER -> x.v = <<>>

\* w is v after a round trip: fields of the version unchanged, the others zero; nil and empty agree
RECURSIVE Same(_, _, _, _)
SameField(f, ver, x, y) ==
  IF ~Present(f, ver) THEN ZeroPrim(f.t, y)
  ELSE IF f.t = "Array" THEN Len(x.v) = Len(y.v) /\ \A j \in 1..Len(x.v) : Same(f.e, ver, x.v[j], y.v[j])
  ELSE IF f.t \in {"Bytes", "Int32Array", "Int64Array", "StringArray"} THEN x.v = y.v
  ELSE x = y
Same(ty, ver, v, w) == FoldLeft(LAMBDA ok, f : ok /\ SameField(f, ver, v[f.n], w[f.n]), TRUE, Schema[ty].f)

\* Does this structure at this version hold a field the library lacks?
Lacks(ty, ver) == ty \in {"OffsetCommitRequest", "OffsetCommitRequestTopic8", "OffsetCommitRequestPartition8"} /\ Missing("OffsetCommitRequestPartition8", ver)

---------------------------------------------------------------- \* record batches
\* 64-bit difference of limbs
Sub64(x, y) ==
  LET d4 == x[4] - y[4]                b4 == IF d4 < 0 THEN 1 ELSE 0
      d3 == x[3] - y[3] - b4           b3 == IF d3 < 0 THEN 1 ELSE 0
      d2 == x[2] - y[2] - b3           b2 == IF d2 < 0 THEN 1 ELSE 0
      d1 == x[1] - y[1] - b2 IN
  <<d1 % 65536, d2 % 65536, d3 % 65536, d4 % 65536>>
\* r: [off, ts (limbs), key, val (nullable bytes), hdr (sequence of [k, v])]
RecordBody(r, base, first) ==
  <<0>> \o VarInt(Sub64(r.ts, first)) \o VarInt(Sub64(r.off, base))
  \o EncPrim("VarBytes", r.key, "strict") \o EncPrim("VarBytes", r.val, "strict")
  \o VarLen(Len(r.hdr)) \o Cat([i \in 1..Len(r.hdr) |-> EncPrim("RecordHeader", r.hdr[i], "strict")])
Record(r, base, first) == LET body == RecordBody(r, base, first) IN VarLen(Len(body)) \o body
BatchHeader(x) ==
  I64(x.BaseOffset) \o I32(x.BatchLength) \o I32(x.PartitionLeaderEpoch) \o I8(2) \o I32(x.CRC) \o I16(x.Attributes)
  \o I32(x.LastOffsetDelta) \o I64(x.FirstTimestamp) \o I64(x.MaxTimestamp) \o I64(x.ProducerId) \o I16(x.ProducerEpoch) \o I32(x.BaseSequence)
Batch(x) == BatchHeader(x) \o I32(Len(x.Records)) \o Cat([i \in 1..Len(x.Records) |-> Record(x.Records[i], x.BaseOffset, x.FirstTimestamp)])
=============================================================================
