------------------------------ MODULE Negotiate ------------------------------
(***************************************************************************)
(* Version negotiation.  A broker answers the ApiVersions request with an  *)
(* error code and a sequence of offers [k |-> key, lo |-> .., hi |-> ..].   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Schema
Known(k) == \E a \in Apis : Api[a].key = k
ApiOf(k) == CHOOSE a \in Apis : Api[a].key = k
\* the versions both sides speak; this library speaks 0..max
Common(o) == {v \in 0..Api[ApiOf(o.k)].max : o.lo <= v /\ v <= o.hi}
Highest(S) == CHOOSE v \in S : \A w \in S : w <= v
Offers(off, k) == {i \in 1..Len(off) : off[i].k = k}
Advertised(off, k) == Offers(off, k) # {}
\* the version to use for an advertised API
Version(off, k) == LET i == CHOOSE i \in Offers(off, k) : TRUE IN Highest(Common(off[i]))
\* may this answer lead to a usable broker?
Acceptable(code, off) == code = 0 /\ \A i \in 1..Len(off) : Known(off[i].k) => Common(off[i]) # {}
=============================================================================
