----------------------------- MODULE TransportGen -----------------------------
(* Enumerates sequences of options and the peers they meet. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT MaxOpts
VARIABLE p
Symbols == {"d1", "d2", "dnil", "t1", "t2", "tnil"}
Peers == {"plain", "tls", "untrusted", "misnamed", "both", "broken", "strict"}
Init == \E n \in 0..MaxOpts : \E s \in [1..n -> Symbols] : \E q \in Peers : p = [opts |-> s, peer |-> q]
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
Emit == PrintT("GEN " \o ToJson(p))
=============================================================================
