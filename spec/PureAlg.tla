-------------------------------- MODULE PureAlg --------------------------------
(* Sizing, encoding and decoding messages (here: a sequence of numbers, of which the   *)
(* last exists from version 2 on) in small; every step is one Pure allows.             *)
(* Variants: sort (encoding puts the elements in order), fill (encoding version 1      *)
(* clears what that version does not have), scratch (results share a buffer),          *)
(* memo (the size is remembered regardless of the version).                            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, Variant
VARIABLES val, scratch, memoSize, hist, refs, n
vars == <<val, scratch, memoSize, hist, refs, n>>
X == {1, 2}
Start == <<<<2, 1, 3>>, <<1, 2, 4>>>>
Fields(v, ver) == IF ver = 1 THEN SubSeq(v, 1, 2) ELSE v
Sorted(v) == IF v[1] <= v[2] THEN v ELSE <<v[2], v[1], v[3]>>
Init == val = Start /\ scratch = <<>> /\ memoSize = <<0, 0>> /\ hist = <<>> /\ refs = <<>> /\ n = 0
Did(what, x, ver, res) == hist' = Append(hist, <<what, x, ver, res>>)
Encode(x, ver) ==
  LET v == IF Variant = "sort" THEN Sorted(val[x]) ELSE IF Variant = "fill" /\ ver = 1 THEN <<val[x][1], val[x][2], 0>> ELSE val[x] IN
  /\ val' = [val EXCEPT ![x] = v]
  /\ Did("encode", x, ver, Fields(v, ver)) /\ refs' = Append(refs, <<"copy", Fields(v, ver)>>)
  /\ UNCHANGED <<scratch, memoSize>>
Size(x, ver) ==
  LET s == IF Variant = "memo" /\ memoSize[x] # 0 THEN memoSize[x] ELSE Len(Fields(val[x], ver)) IN
  /\ memoSize' = [memoSize EXCEPT ![x] = s] /\ Did("size", x, ver, s) /\ refs' = Append(refs, <<"copy", s>>)
  /\ UNCHANGED <<val, scratch>>
Decode(x, ver) ==
  LET d == Fields(Start[x], ver) IN
  /\ scratch' = d
  /\ Did("decode", x, ver, d) /\ refs' = Append(refs, IF Variant = "scratch" THEN <<"ref">> ELSE <<"copy", d>>)
  /\ UNCHANGED <<val, memoSize>>
Next == n < N /\ n' = n + 1 /\ \E x \in X, ver \in {1, 2} : Encode(x, ver) \/ Size(x, ver) \/ Decode(x, ver)
Spec == Init /\ [][Next]_vars
Untouched == val = Start
Repeatable == \A i, j \in 1..Len(hist) : SubSeq(hist[i], 1, 3) = SubSeq(hist[j], 1, 3) => hist[i][4] = hist[j][4]
Function == \A i \in 1..Len(hist) : hist[i][1] = "size" => hist[i][4] = Len(Fields(Start[hist[i][2]], hist[i][3]))
KeptSame == \A i \in 1..Len(hist) : (IF refs[i][1] = "ref" THEN scratch ELSE refs[i][2]) = hist[i][4]
=============================================================================
