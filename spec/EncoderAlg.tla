------------------------------ MODULE EncoderAlg ------------------------------
(* A buffered encoder on a failing stream, in small; refines Encoder.              *)
(* Variant: "ok", or a defect: "forget" (error cleared by flush), "goon" (keeps    *)
(* writing after a failure), "early" (flush succeeds with data still buffered).    *)
EXTENDS Integers, Sequences
CONSTANTS Cap, MaxPut, Variant
VARIABLES buf, err, all, sent, wfailed, lost, lastFlush, n
vars == <<buf, err, all, sent, wfailed, lost, lastFlush, n>>
Init == buf = <<>> /\ err = FALSE /\ all = <<>> /\ sent = <<>> /\ wfailed = FALSE /\ lost = FALSE /\ lastFlush = "none" /\ n = 0
\* write b to the stream: k bytes accepted
Out(b, k) == sent' = sent \o SubSeq(b, 1, k) /\ lost' = (lost \/ (wfailed /\ Len(b) > 0)) /\ wfailed' = (wfailed \/ k < Len(b))
Put ==
  /\ n < MaxPut /\ n' = n + 1 /\ lastFlush' = "none"
  /\ IF err /\ Variant # "goon" THEN UNCHANGED <<buf, err, all, sent, wfailed, lost>>
     ELSE LET b == Append(buf, n) IN
          /\ all' = IF wfailed THEN all ELSE Append(all, n)
          /\ IF Len(b) < Cap THEN buf' = b /\ UNCHANGED <<err, sent, wfailed, lost>>
             ELSE \E k \in 0..Len(b) : Out(b, k) /\ err' = (err \/ k < Len(b)) /\ buf' = <<>>
Flush ==
  /\ UNCHANGED <<all, n>>
  /\ IF err THEN lastFlush' = "err" /\ UNCHANGED <<buf, sent, wfailed, lost>> /\ err' = (Variant # "forget")
     ELSE IF Variant = "early" THEN lastFlush' = "ok" /\ UNCHANGED <<buf, sent, wfailed, lost, err>>
     ELSE \E k \in 0..Len(buf) : Out(buf, k) /\ err' = (k < Len(buf)) /\ lastFlush' = (IF k < Len(buf) THEN "err" ELSE "ok") /\ buf' = <<>>
Next == Put \/ Flush
Spec == Init /\ [][Next]_vars
Prefix == Len(sent) <= Len(all) /\ SubSeq(all, 1, Len(sent)) = sent
NothingAfter == ~lost
Sticky == (wfailed /\ lastFlush # "none") => lastFlush = "err"
Complete == lastFlush = "ok" => sent = all
=============================================================================
