------------------------------- MODULE BrokerGen -------------------------------
(* Enumerates, for every API, the offers whose ends lie at and around the ends of the *)
(* supported range and of the 16-bit range, with the version that has to be used.     *)
EXTENDS Negotiate, TLC, Json
CONSTANT Wide
VARIABLE o
Ends(a) == LET m == Api[a].max IN {-32768, -1, 0, 1, m - 1, m, m + 1, 32767} \cup (IF Wide THEN (0..m) \cup {255, 256, 32766} ELSE {})
Init == \E a \in Apis : \E lo, hi \in Ends(a) : o = [k |-> Api[a].key, lo |-> lo, hi |-> hi]
Next == UNCHANGED o
Spec == Init /\ [][Next]_o
Emit == PrintT("GEN " \o ToJson([k |-> o.k, lo |-> o.lo, hi |-> o.hi, name |-> Api[ApiOf(o.k)].name,
                                 v |-> IF Common(o) = {} THEN -1 ELSE Highest(Common(o))]))
=============================================================================
