------------------------------- MODULE RingAlg -------------------------------
(***************************************************************************)
(* The ring buffer algorithm, one action per atomic step of ring/buffer.go *)
(* (index load, index store, token release, token wait, byte copy), with   *)
(* arbitrary write and read sizes and a Close at any moment.               *)
(*                                                                         *)
(* `Variant' selects deliberate defects, all of which the original code    *)
(* had; they show that the properties below are not vacuous:               *)
(*   "ok"      the algorithm as it is now                                  *)
(*   "stale"   the reader does not reload the write index after a wait     *)
(*   "wstale"  the writer does not reload the read index after a wait      *)
(*   "lost"    a release that finds nobody waiting is forgotten            *)
(*   "onebyte" a one-byte write does not release the reader                *)
(*   "noclose" the reader tests for Close after loading the write index    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Size, MaxTotal, MaxOp, Variant, WithClose

VARIABLES data, start, next, rtok, wtok, closed,        \* shared
          wpc, wpos, wstart, wi, wn, wwrote, wwaiting,   \* writer
          rpc, rpos, rnext, ri, rn, rgot, rclosed, rwaiting, rok, \* reader
          sub, fin, req, rcv, atClose, bad, drained      \* observation

shared == <<data, start, next, rtok, wtok, closed>>
wvars == <<wpc, wpos, wstart, wi, wn, wwrote, wwaiting>>
rvars == <<rpc, rpos, rnext, ri, rn, rgot, rclosed, rwaiting, rok>>
ovars == <<sub, fin, req, rcv, atClose, bad, drained>>
vars == <<shared, wvars, rvars, ovars>>

Incr(p) == IF p + 1 = Size THEN 0 ELSE p + 1

Init ==
  /\ data = [i \in 0..Size-1 |-> 999] /\ start = 0 /\ next = 0 /\ rtok = 0 /\ wtok = 0 /\ closed = FALSE
  /\ wpc = "idle" /\ wpos = 0 /\ wstart = 0 /\ wi = 0 /\ wn = 0 /\ wwrote = 0 /\ wwaiting = FALSE
  /\ rpc = "idle" /\ rpos = 0 /\ rnext = 0 /\ ri = 0 /\ rn = 0 /\ rgot = <<>> /\ rclosed = FALSE /\ rwaiting = FALSE /\ rok = TRUE
  /\ sub = 0 /\ fin = 0 /\ req = 0 /\ rcv = 0 /\ atClose = 0 /\ bad = FALSE /\ drained = FALSE

ReleaseReader == IF Variant = "lost" THEN rtok' = (IF rwaiting THEN 1 ELSE rtok) ELSE rtok' = 1
ReleaseWriter == IF Variant = "lost" THEN wtok' = (IF wwaiting THEN 1 ELSE wtok) ELSE wtok' = 1

\* ---- writer
WCall == \E n \in 0..MaxOp :
  /\ wpc = "idle" /\ sub + n <= MaxTotal
  /\ wpc' = "loadNext" /\ wn' = n /\ wi' = 0 /\ wwrote' = 0 /\ sub' = sub + n
  /\ UNCHANGED <<shared, wpos, wstart, wwaiting, rvars, fin, req, rcv, atClose, bad, drained>>
WLoadNext ==
  /\ wpc = "loadNext" /\ wpos' = next /\ wpc' = "loadStart"
  /\ UNCHANGED <<shared, wstart, wi, wn, wwrote, wwaiting, rvars, ovars>>
WLoadStart ==
  /\ wpc = "loadStart" /\ wstart' = start /\ wpc' = "loop"
  /\ UNCHANGED <<shared, wpos, wi, wn, wwrote, wwaiting, rvars, ovars>>
WLoop ==
  /\ wpc = "loop"
  /\ wpc' = IF wi >= wn THEN "publish" ELSE IF Incr(wpos) = wstart THEN "fullStore" ELSE "copy"
  /\ UNCHANGED <<shared, wpos, wstart, wi, wn, wwrote, wwaiting, rvars, ovars>>
WCopy ==
  /\ wpc = "copy" /\ data' = [data EXCEPT ![wpos] = fin + wi]
  /\ wpos' = Incr(wpos) /\ wi' = wi + 1 /\ wpc' = "loop"
  /\ UNCHANGED <<start, next, rtok, wtok, closed, wstart, wn, wwrote, wwaiting, rvars, ovars>>
WFullStore ==
  /\ wpc = "fullStore" /\ next' = wpos /\ wpc' = "fullRelease"
  /\ UNCHANGED <<data, start, rtok, wtok, closed, wpos, wstart, wi, wn, wwrote, wwaiting, rvars, ovars>>
WFullRelease ==
  /\ wpc = "fullRelease" /\ ReleaseReader /\ wwrote' = wi /\ wpc' = "reload"
  /\ UNCHANGED <<data, start, next, wtok, closed, wpos, wstart, wi, wn, wwaiting, rvars, ovars>>
WReload ==
  /\ wpc = "reload" /\ wstart' = start /\ wpc' = "full?"
  /\ UNCHANGED <<shared, wpos, wi, wn, wwrote, wwaiting, rvars, ovars>>
WFull ==
  /\ wpc = "full?"
  /\ wpc' = IF Incr(wpos) # wstart THEN "copy" ELSE IF closed THEN "ret" ELSE "wait"
  /\ wwaiting' = (Incr(wpos) = wstart /\ ~closed)
  /\ UNCHANGED <<shared, wpos, wstart, wi, wn, wwrote, rvars, ovars>>
WWait ==
  /\ wpc = "wait" /\ (wtok = 1 \/ closed)
  /\ wtok' = IF wtok = 1 THEN 0 ELSE wtok   \* both ready: either choice re-checks
  /\ wwaiting' = FALSE /\ wpc' = IF Variant = "wstale" THEN "copy" ELSE "reload"
  /\ UNCHANGED <<data, start, next, rtok, closed, wpos, wstart, wi, wn, wwrote, rvars, ovars>>
WPublish ==
  /\ wpc = "publish" /\ next' = wpos /\ wpc' = "release?"
  /\ UNCHANGED <<data, start, rtok, wtok, closed, wpos, wstart, wi, wn, wwrote, wwaiting, rvars, ovars>>
WRelease ==
  /\ wpc = "release?" /\ wpc' = "ret"
  /\ IF wn > (IF Variant = "onebyte" THEN wwrote + 1 ELSE wwrote) THEN ReleaseReader ELSE UNCHANGED rtok
  /\ UNCHANGED <<data, start, next, wtok, closed, wpos, wstart, wi, wn, wwrote, wwaiting, rvars, ovars>>
WRet ==
  /\ wpc = "ret" /\ wpc' = (IF wi < wn THEN "done" ELSE "idle")   \* early return only after Close: the stream ends
  /\ fin' = IF wi < wn THEN fin ELSE sub
  /\ UNCHANGED <<shared, wpos, wstart, wi, wn, wwrote, wwaiting, rvars, sub, req, rcv, atClose, bad, drained>>
Writer == WCall \/ WLoadNext \/ WLoadStart \/ WLoop \/ WCopy \/ WFullStore \/ WFullRelease \/ WReload \/ WFull \/ WWait \/ WPublish \/ WRelease \/ WRet
\* ---- reader
RCall == \E n \in 0..MaxOp :
  /\ rpc = "idle" /\ req + n <= MaxTotal
  /\ rpc' = "loadStart" /\ rn' = n /\ ri' = 0 /\ rgot' = <<>> /\ req' = req + n
  /\ UNCHANGED <<shared, wvars, rpos, rnext, rclosed, rwaiting, rok, sub, fin, rcv, atClose, bad, drained>>
RLoadStart ==
  /\ rpc = "loadStart" /\ rpos' = start /\ rpc' = "loadNext"
  /\ UNCHANGED <<shared, wvars, rnext, ri, rn, rgot, rclosed, rwaiting, rok, ovars>>
RLoadNext ==
  /\ rpc = "loadNext" /\ rnext' = next /\ rpc' = "loop"
  /\ UNCHANGED <<shared, wvars, rpos, ri, rn, rgot, rclosed, rwaiting, rok, ovars>>
RLoop ==
  /\ rpc = "loop"
  /\ rpc' = IF ri >= rn THEN "publish" ELSE IF rpos = rnext THEN "emptyStore" ELSE "copy"
  /\ UNCHANGED <<shared, wvars, rpos, rnext, ri, rn, rgot, rclosed, rwaiting, rok, ovars>>
RCopy ==
  /\ rpc = "copy" /\ rgot' = Append(rgot, data[rpos]) /\ rpos' = Incr(rpos) /\ ri' = ri + 1 /\ rpc' = "loop"
  /\ UNCHANGED <<shared, wvars, rnext, rn, rclosed, rwaiting, rok, ovars>>
REmptyStore ==
  /\ rpc = "emptyStore" /\ start' = rpos /\ rpc' = "emptyRelease"
  /\ UNCHANGED <<data, next, rtok, wtok, closed, wvars, rpos, rnext, ri, rn, rgot, rclosed, rwaiting, rok, ovars>>
REmptyRelease ==
  /\ rpc = "emptyRelease" /\ rpc' = "reload1"
  /\ IF ri > 0 THEN ReleaseWriter ELSE UNCHANGED wtok
  /\ UNCHANGED <<data, start, next, rtok, closed, wvars, rpos, rnext, ri, rn, rgot, rclosed, rwaiting, rok, ovars>>
RReload1 ==
  /\ rpc = "reload1" /\ rnext' = next /\ rpc' = IF rpos # next THEN "copy" ELSE "closed?"
  /\ UNCHANGED <<shared, wvars, rpos, ri, rn, rgot, rclosed, rwaiting, rok, ovars>>
RClosed ==
  /\ rpc = "closed?" /\ rclosed' = closed /\ rpc' = "reload2"
  /\ UNCHANGED <<shared, wvars, rpos, rnext, ri, rn, rgot, rwaiting, rok, ovars>>
RReload2 ==
  /\ rpc = "reload2"
  /\ IF Variant = "noclose" THEN UNCHANGED rnext ELSE rnext' = next
  /\ LET c == IF Variant = "noclose" THEN closed ELSE rclosed IN
     /\ rpc' = IF rnext' # rpos THEN "copy" ELSE IF c THEN "fail" ELSE "wait"
     /\ rwaiting' = (rnext' = rpos /\ ~c)
  /\ UNCHANGED <<shared, wvars, rpos, ri, rn, rgot, rclosed, rok, ovars>>
RWait ==
  /\ rpc = "wait" /\ (rtok = 1 \/ closed)
  /\ rtok' = IF rtok = 1 THEN 0 ELSE rtok
  /\ rwaiting' = FALSE /\ rpc' = IF Variant = "stale" THEN "copy" ELSE "reload1"
  /\ UNCHANGED <<data, start, next, wtok, closed, wvars, rpos, rnext, ri, rn, rgot, rclosed, rok, ovars>>
RPublish ==
  /\ rpc = "publish" /\ start' = rpos /\ rpc' = "release?"
  /\ UNCHANGED <<data, next, rtok, wtok, closed, wvars, rpos, rnext, ri, rn, rgot, rclosed, rwaiting, rok, ovars>>
RRelease ==
  /\ rpc = "release?" /\ rpc' = "ret"
  /\ IF ri > 0 THEN ReleaseWriter ELSE UNCHANGED wtok
  /\ UNCHANGED <<data, start, next, rtok, closed, wvars, rpos, rnext, ri, rn, rgot, rclosed, rwaiting, rok, ovars>>
RRet ==
  /\ rpc = "ret" /\ rpc' = "idle" /\ rcv' = req
  /\ bad' = (bad \/ req > sub \/ \E i \in 1..Len(rgot) : rgot[i] # rcv + i - 1)
  /\ UNCHANGED <<shared, wvars, rpos, rnext, ri, rn, rgot, rclosed, rwaiting, rok, sub, fin, req, atClose, drained>>
RFail ==
  /\ rpc = "fail" /\ rpc' = "done" /\ rok' = FALSE /\ drained' = TRUE
  /\ bad' = (bad \/ ~closed \/ req <= atClose)
  /\ UNCHANGED <<shared, wvars, rpos, rnext, ri, rn, rgot, rclosed, rwaiting, sub, fin, req, rcv, atClose>>
Reader == RCall \/ RLoadStart \/ RLoadNext \/ RLoop \/ RCopy \/ REmptyStore \/ REmptyRelease \/ RReload1 \/ RClosed \/ RReload2 \/ RWait \/ RPublish \/ RRelease \/ RRet \/ RFail
-----------------------------------------------------------------------------
DoClose == WithClose /\ ~closed /\ closed' = TRUE /\ atClose' = fin
  /\ UNCHANGED <<data, start, next, rtok, wtok, wvars, rvars, sub, fin, req, rcv, bad, drained>>

Next == Writer \/ Reader \/ DoClose
InternalW == WLoadNext \/ WLoadStart \/ WLoop \/ WCopy \/ WFullStore \/ WFullRelease \/ WReload \/ WFull \/ WWait \/ WPublish \/ WRelease \/ WRet
InternalR == RLoadStart \/ RLoadNext \/ RLoop \/ RCopy \/ REmptyStore \/ REmptyRelease \/ RReload1 \/ RClosed \/ RReload2 \/ RWait \/ RPublish \/ RRelease \/ RRet \/ RFail
Spec == Init /\ [][Next]_vars /\ WF_vars(InternalW) /\ WF_vars(InternalR)

\* C01: every byte handed out is the right one, and was submitted
Fifo == ~bad
\* C02: whenever neither side can move, only legitimate waiting remains (= Ring!QuietOK)
WAct == wpc \notin {"idle", "done"}
RAct == rpc \notin {"idle", "done"}
QuietOK ==
  (~ENABLED InternalW /\ ~ENABLED InternalR) =>
     /\ RAct => (~closed /\ req > sub)
     /\ WAct => (~closed /\ sub > req + (Size - 1))
\* C02 as liveness
ReadLive  == (RAct /\ req <= sub) ~> (~RAct \/ closed)
WriteLive == (WAct /\ sub <= req) ~> (~WAct \/ closed)
CloseLiveR == (closed /\ RAct) ~> ~RAct
CloseLiveW == (closed /\ WAct) ~> ~WAct

\* Refinement: the step-level algorithm implements the stream-level specification
Stream == INSTANCE Ring WITH size <- Size, wact <- WAct, ract <- RAct
\* (calls, returns and Close map to Ring actions, everything else stutters)
RingStep ==
  [][ \/ \E n \in 0..MaxOp : Stream!CallWrite(n)
      \/ Stream!RetWrite
      \/ (WAct /\ ~WAct' /\ closed /\ fin' = fin)        \* early return of a write after Close
      \/ \E n \in 0..MaxOp : Stream!CallRead(n)
      \/ (RAct /\ ~RAct' /\ rcv' = req /\ req <= sub)
      \/ Stream!RetReadFail \/ Stream!Close
      \/ UNCHANGED <<sub, fin, WAct, req, rcv, RAct, closed, atClose, drained>> ]_<<sub, fin, WAct, req, rcv, RAct, closed, atClose, drained>>
=============================================================================
