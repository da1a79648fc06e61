------------------------------- MODULE RingGen -------------------------------
(* Enumerates the macro-step behaviours of Ring: sequences of calls, each run  *)
(* to quiescence.  Every maximal history is printed and replayed on the code.  *)
EXTENDS Ring, TLC, Json
CONSTANTS Size, Depth, Sizes
VARIABLE hist
gvars == <<ringVars, hist>>

GInit == RingInit(Size) /\ hist = <<>>

\* deterministic settlement used for generation only: capacity size-1
Settle == LET r == IF req <= sub \/ closed THEN FALSE ELSE TRUE
              w == IF sub <= req + (size - 1) \/ closed THEN FALSE ELSE TRUE
          IN <<r, w>>
Op(k, n) == hist' = Append(hist, [k |-> k, n |-> n])
Blocked == Settle
GNext ==
  /\ Len(hist) < Depth
  /\ \/ \E n \in Sizes : /\ ~Blocked[2] /\ ~closed
                         /\ sub' = sub + n /\ Op("w", n)
                         /\ UNCHANGED <<size, fin, wact, req, rcv, ract, closed, atClose, drained>>
     \/ \E n \in Sizes : /\ ~Blocked[1] /\ ~closed
                         /\ req' = req + n /\ Op("r", n)
                         /\ UNCHANGED <<size, sub, fin, wact, rcv, ract, closed, atClose, drained>>
     \/ /\ ~closed /\ Len(hist) >= Depth - 2 /\ closed' = TRUE /\ Op("c", 0)
        /\ UNCHANGED <<size, sub, fin, wact, req, rcv, ract, atClose, drained>>
     \/ \E n \in Sizes \ {0} : /\ closed /\ req' = req + n /\ Op("r", n)
        /\ UNCHANGED <<size, sub, fin, wact, rcv, ract, closed, atClose, drained>>
GSpec == GInit /\ [][GNext]_gvars
Emit == (Len(hist) = Depth) => PrintT("GEN " \o ToJson(hist))
=============================================================================
