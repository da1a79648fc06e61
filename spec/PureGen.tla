-------------------------------- MODULE PureGen --------------------------------
(* All histories of operations on two subjects at two versions. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLE h
Init == h = <<>>
Next == Len(h) < Depth /\ \E o \in {"size", "encode", "decode"}, x \in {0, 1}, v \in {0, 1} : h' = Append(h, [o |-> o, x |-> x, v |-> v])
Spec == Init /\ [][Next]_h
Emit == Len(h) = Depth => PrintT("GEN " \o ToJson(h))
=============================================================================
