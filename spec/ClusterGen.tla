------------------------------ MODULE ClusterGen ------------------------------
(* Enumerates the fates a client operation can meet: which bootstrap servers fail and *)
(* how, what becomes of its question, what the answer says, and how the node that has *)
(* to be dialled behaves.                                                             *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT MaxBoot
VARIABLE p
Fail == {"refuse", "code", "nocommon", "lost"}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Ops == {"metadata", "leader", "controller", "coordinator"}
Says(o) == CASE o = "metadata" -> {"ok"}
             [] o = "leader" -> {"node", "may", "notopic", "nopart", "noleader", "nonode"}
             [] o = "controller" -> {"node", "nocontroller", "nonode"}
             [] o = "coordinator" -> {"node", "err"}
None == "-"
Plan(o, b, q, s, n) == [op |-> o, boot |-> b, ask |-> q, says |-> s, node |-> n]
Init == \E o \in Ops, b \in Seqs(Fail, MaxBoot) :
          \/ p = Plan(o, b, None, None, None)                                   \* no server is usable
          \/ /\ Len(b) < MaxBoot
             /\ \/ p = Plan(o, Append(b, "ok"), "lost", None, None)             \* the question is not answered
                \/ \E s \in Says(o), n \in Fail \cup {"ok"} :
                     /\ s \notin {"node", "may"} => n = "ok"
                     /\ p = Plan(o, Append(b, "ok"), "ok", s, n)
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
Emit == PrintT("GEN " \o ToJson(p))
=============================================================================
