------------------------------- MODULE ConnGen -------------------------------
(* Enumerates environment scripts for one connection: what callers and the peer do, in *)
(* every order up to Depth steps.  Scripts are replayed on real connections.           *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth, MaxCalls
VARIABLES n, answered, part, ended, stalled, closes, faulted, hist
vars == <<n, answered, part, ended, stalled, closes, faulted, hist>>
Init == n = 0 /\ answered = {} /\ part = 0 /\ ended = FALSE /\ stalled = FALSE /\ closes = 0 /\ faulted = FALSE /\ hist = <<>>
Op(o, c) == hist' = Append(hist, [o |-> o, c |-> c])
Free == ~ended /\ part = 0
Next ==
  /\ Len(hist) < Depth
  /\ \/ /\ n < MaxCalls /\ n' = n + 1
        /\ (\E k \in {"resp", "oneway"} : Op(k, n + 1))
        /\ UNCHANGED <<answered, part, ended, stalled, closes, faulted>>
     \/ \E c \in 1..n :
          \/ Free /\ c \notin answered /\ Op("answer", c) /\ answered' = answered \cup {c} /\ UNCHANGED <<n, part, ended, stalled, closes, faulted>>
          \/ Free /\ c \in answered /\ Op("dup", c) /\ UNCHANGED <<n, answered, part, ended, stalled, closes, faulted>>
          \/ Free /\ c \notin answered /\ Op("garble", c) /\ answered' = answered \cup {c} /\ UNCHANGED <<n, part, ended, stalled, closes, faulted>>
          \/ Free /\ c \notin answered /\ Op("part", c) /\ part' = c /\ UNCHANGED <<n, answered, ended, stalled, closes, faulted>>
          \/ Free /\ c \notin answered /\ Op("answereof", c) /\ answered' = answered \cup {c} /\ ended' = TRUE /\ UNCHANGED <<n, part, stalled, closes, faulted>>
     \/ part # 0 /\ ~ended /\ Op("rest", part) /\ part' = 0 /\ answered' = answered \cup {part} /\ UNCHANGED <<n, ended, stalled, closes, faulted>>
     \/ Free /\ n > 0 /\ Op("unknown", 0) /\ UNCHANGED <<n, answered, part, ended, stalled, closes, faulted>>
     \/ Free /\ n > 0 /\ Op("short", 0) /\ UNCHANGED <<n, answered, part, ended, stalled, closes, faulted>>
     \/ ~ended /\ Op("eof", 0) /\ ended' = TRUE /\ UNCHANGED <<n, answered, part, stalled, closes, faulted>>
     \/ ~ended /\ Op("reset", 0) /\ ended' = TRUE /\ UNCHANGED <<n, answered, part, stalled, closes, faulted>>
     \/ ~faulted /\ n < MaxCalls /\ Op("fault", 0) /\ faulted' = TRUE /\ UNCHANGED <<n, answered, part, ended, stalled, closes>>
     \/ ~stalled /\ n < MaxCalls /\ Op("stall", 0) /\ stalled' = TRUE /\ UNCHANGED <<n, answered, part, ended, closes, faulted>>
     \/ stalled /\ Op("unstall", 0) /\ stalled' = FALSE /\ UNCHANGED <<n, answered, part, ended, closes, faulted>>
     \/ closes < 2 /\ Op("close", 0) /\ closes' = closes + 1 /\ UNCHANGED <<n, answered, part, ended, stalled, faulted>>
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = Depth) => PrintT("GEN " \o ToJson(hist))
=============================================================================
