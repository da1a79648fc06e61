----------------------------- MODULE NegotiateAlg -----------------------------
(* The negotiation algorithm as implemented - walk the offers, clamp the broker's  *)
(* highest version to ours, compare with both lower bounds, give up on the first   *)
(* failure - against the definition in Negotiate, for every offer sequence.         *)
EXTENDS Negotiate, TLC
CONSTANTS Variant, Keys, Top, MaxLen
VARIABLES code, off, i, ver, out
Bounds == (-2)..Top
vars == <<code, off, i, ver, out>>
Offer == [k : Keys, lo : Bounds, hi : Bounds]
Init == /\ code \in {0, 35}
        /\ off \in UNION {{s \in [1..n -> Offer] : \A x, y \in 1..n : x # y => s[x].k # s[y].k} : n \in 0..MaxLen}
        /\ i = 1 /\ ver = [k \in Keys |-> -1] /\ out = "run"
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Match1(o) ==
  LET m == Api[ApiOf(o.k)].max
      v == IF Variant = "min" THEN Max2(o.lo, 0) ELSE Min2(o.hi, m) IN
  IF Variant = "nocheck" THEN v
  ELSE IF Variant = "brokerhi" THEN (IF o.hi >= 0 /\ o.lo <= m THEN o.hi ELSE -1)
  ELSE IF v >= 0 /\ v >= o.lo /\ v <= o.hi /\ v <= m THEN v ELSE -1
Step ==
  /\ out = "run"
  /\ IF code # 0 /\ Variant # "nocode" THEN out' = "fail" /\ UNCHANGED <<code, off, i, ver>>
     ELSE IF i > Len(off) THEN out' = "ok" /\ UNCHANGED <<code, off, i, ver>>
     ELSE IF ~Known(off[i].k) THEN i' = i + 1 /\ UNCHANGED <<code, off, ver, out>>
     ELSE IF Match1(off[i]) < 0 /\ Variant # "nocheck"
          THEN (IF Variant = "skip" THEN i' = i + 1 /\ UNCHANGED <<code, off, ver, out>> ELSE out' = "fail" /\ UNCHANGED <<code, off, i, ver>>)
     ELSE ver' = [ver EXCEPT ![off[i].k] = Match1(off[i])] /\ i' = i + 1 /\ UNCHANGED <<code, off, out>>
Spec == Init /\ [][Step]_vars
Right ==
  /\ out = "ok" => Acceptable(code, off) /\ \A k \in Keys : Known(k) /\ Advertised(off, k) => ver[k] = Version(off, k)
  /\ out = "fail" => ~Acceptable(code, off)
=============================================================================
