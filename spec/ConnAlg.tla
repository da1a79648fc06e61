------------------------------- MODULE ConnAlg -------------------------------
(***************************************************************************)
(* The connection algorithm of gen.conn.go: one action per critical        *)
(* section or blocking step of Do, readLoop, messageLoop, fail and Close,  *)
(* against a peer that answers in any order, duplicates, invents ids, ends *)
(* the stream or stops accepting writes.  Frames are atomic here; bytes    *)
(* are the business of RingAlg.                                            *)
(*                                                                         *)
(* Every visible step is checked against Conn: `bad' records a return,     *)
(* frame or close that Conn does not allow; QuietOK is Conn's Quiet.       *)
(*                                                                         *)
(* Variants (defects, to show the properties are not vacuous):             *)
(*   "lateReg"   a request is registered after it was sent                 *)
(*   "noFail"    pending requests are not released when the stream ends    *)
(*   "sameId"    reading and advancing the id counter is not atomic        *)
(*   "noDelete"  an answered request stays registered                      *)
(*   "dropTail"  bytes received together with the end are dropped          *)
(***************************************************************************)
EXTENDS Conn, TLC
CONSTANTS NCalls, MaxResp, NClose, Variant, Kinds

VARIABLES
  pc, myid, tmp,             \* callers
  reply,                     \* reply channel of each caller: <<>> or <<[ok, tag]>>
  counter, reg,              \* id counter; registered requests: set of [id, c]
  over,                      \* Conn.closed: no further responses will be processed
  netin, neof, nreset,       \* peer -> client: frames in flight, end of stream
  rawClosed,
  ring, ringClosed,          \* frames received but not processed
  ctxDone, rpc, mpc, mcur,   \* read loop, message loop
  cpc,                       \* Close calls
  nresp, sent, wbroken,      \* peer: responses sent so far, ids of frames seen, writes fail
  bad

alg == <<pc, myid, tmp, reply, counter, reg, over, netin, neof, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mpc, mcur, cpc, nresp, sent, wbroken, bad>>
vars == <<connVars, alg>>
C == 1..NCalls
Closers == 1..NClose

Init ==
  /\ ConnInit
  /\ pc = [c \in C |-> "new"] /\ myid = [c \in C |-> 0] /\ tmp = [c \in C |-> 0] /\ reply = [c \in C |-> <<>>]
  /\ counter = 0 /\ reg = {} /\ over = FALSE
  /\ netin = <<>> /\ neof = FALSE /\ nreset = FALSE /\ rawClosed = FALSE
  /\ ring = <<>> /\ ringClosed = FALSE /\ ctxDone = FALSE
  /\ rpc = "read" /\ mpc = "check" /\ mcur = [id |-> 0, tag |-> 0] /\ cpc = [k \in Closers |-> "idle"]
  /\ nresp = 0 /\ sent = {} /\ wbroken = FALSE /\ bad = FALSE

\* callers are numbered in the order in which they start
Kind(c) == calls[c].kind
Goto(c, p) == pc' = [pc EXCEPT ![c] = p]

DoCall(c, kind) ==
  /\ pc[c] = "new" /\ c = Len(calls) + 1
  /\ Call(c, kind, FALSE) /\ Goto(c, "id")
  /\ UNCHANGED <<myid, tmp, reply, counter, reg, over, netin, neof, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mpc, mcur, cpc, nresp, sent, wbroken, bad>>
DoId(c) ==
  /\ pc[c] = "id"
  /\ IF Variant = "sameId"
     THEN tmp' = [tmp EXCEPT ![c] = counter] /\ Goto(c, "id2") /\ UNCHANGED <<counter, myid>>
     ELSE counter' = counter + 1 /\ myid' = [myid EXCEPT ![c] = counter + 1] /\ Goto(c, IF Variant = "lateReg" THEN "send" ELSE "reg") /\ UNCHANGED tmp
  /\ UNCHANGED <<connVars, reply, reg, over, netin, neof, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mpc, mcur, cpc, nresp, sent, wbroken, bad>>
DoId2(c) ==
  /\ pc[c] = "id2" /\ counter' = tmp[c] + 1 /\ myid' = [myid EXCEPT ![c] = tmp[c] + 1] /\ Goto(c, "reg")
  /\ UNCHANGED <<connVars, tmp, reply, reg, over, netin, neof, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mpc, mcur, cpc, nresp, sent, wbroken, bad>>
DoReg(c) ==   \* under readLock
  /\ pc[c] = "reg"
  /\ IF over
     THEN Goto(c, "err") /\ UNCHANGED reg
     ELSE /\ Goto(c, IF Variant = "lateReg" THEN "wait" ELSE "send")
          /\ reg' = IF Kind(c) = "oneway" THEN reg ELSE {r \in reg : r.id # myid[c]} \cup {[id |-> myid[c], c |-> c]}
  /\ UNCHANGED <<connVars, myid, tmp, reply, counter, over, netin, neof, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mpc, mcur, cpc, nresp, sent, wbroken, bad>>
DoSend(c) ==  \* under writeLock: encode and flush
  /\ pc[c] = "send"
  /\ IF rawClosed \/ nreset \/ wbroken
     THEN /\ WriteFail /\ Goto(c, "unreg") /\ UNCHANGED <<sent, bad>>
     ELSE /\ bad' = (bad \/ ~FrameOK(c, myid[c]))
          /\ calls' = [calls EXCEPT ![c].framed = TRUE, ![c].id = myid[c], ![c].pre = SelectSeq(loose, LAMBDA r : r.id = myid[c])]
          /\ sent' = IF Kind(c) = "oneway" THEN sent ELSE sent \cup {myid[c]}
          /\ Goto(c, IF Kind(c) = "oneway" THEN "ok" ELSE IF Variant = "lateReg" THEN "reg" ELSE "wait")
          /\ UNCHANGED <<loose, ended, settled, wfail, poison, mangled, closing, closed, stalled>>
  /\ UNCHANGED <<myid, tmp, reply, counter, reg, over, netin, neof, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mpc, mcur, cpc, nresp, wbroken>>
DoUnreg(c) ==
  /\ pc[c] = "unreg" /\ reg' = {r \in reg : r.id # myid[c]} /\ rawClosed' = TRUE /\ Goto(c, "err")
  /\ UNCHANGED <<connVars, myid, tmp, reply, counter, over, netin, neof, nreset, ring, ringClosed, ctxDone, rpc, mpc, mcur, cpc, nresp, sent, wbroken, bad>>
DoRet(c) ==
  /\ \/ pc[c] = "wait" /\ reply[c] # <<>> /\ (LET r == reply[c][1] IN
          /\ bad' = (bad \/ ~(IF r.ok THEN RetOK(c, r.tag) ELSE RetErr(c)))
          /\ calls' = [calls EXCEPT ![c].st = IF r.ok THEN "ok" ELSE "err", ![c].tag = r.tag])
     \/ pc[c] = "err" /\ bad' = (bad \/ ~RetErr(c)) /\ calls' = [calls EXCEPT ![c].st = "err"]
     \/ pc[c] = "ok" /\ bad' = (bad \/ ~RetOK(c, 0)) /\ calls' = [calls EXCEPT ![c].st = "ok"]
  /\ Goto(c, "done")
  /\ UNCHANGED <<loose, ended, settled, wfail, poison, mangled, closing, closed, stalled>>
  /\ UNCHANGED <<myid, tmp, reply, counter, reg, over, netin, neof, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mpc, mcur, cpc, nresp, sent, wbroken>>

\* readLoop
Rd ==
  /\ rpc = "read"
  /\ \/ /\ ~rawClosed /\ ~nreset /\ netin # <<>>
        /\ IF Variant = "dropTail" /\ neof /\ Len(netin) = 1 THEN UNCHANGED ring /\ rpc' = "close" ELSE ring' = (IF ringClosed THEN ring ELSE Append(ring, netin[1])) /\ UNCHANGED rpc
        /\ netin' = Tail(netin)
     \/ /\ rawClosed \/ nreset \/ (neof /\ netin = <<>>)
        /\ rpc' = "close" /\ UNCHANGED <<ring, netin>>
  /\ UNCHANGED <<connVars, pc, myid, tmp, reply, counter, reg, over, neof, nreset, rawClosed, ringClosed, ctxDone, mpc, mcur, cpc, nresp, sent, wbroken, bad>>
RdClose ==
  /\ rpc = "close" /\ ringClosed' = TRUE /\ rpc' = "done"
  /\ UNCHANGED <<connVars, pc, myid, tmp, reply, counter, reg, over, netin, neof, nreset, rawClosed, ring, ctxDone, mpc, mcur, cpc, nresp, sent, wbroken, bad>>

\* messageLoop
Ms ==
  /\ \/ mpc = "check" /\ mpc' = (IF ctxDone THEN "fail1" ELSE "get") /\ UNCHANGED <<ring, mcur>>
     \/ mpc = "get" /\ ring # <<>> /\ mcur' = ring[1] /\ ring' = Tail(ring) /\ mpc' = "match"
     \/ mpc = "get" /\ ring = <<>> /\ ringClosed /\ mpc' = "fail1" /\ UNCHANGED <<ring, mcur>>
  /\ UNCHANGED <<connVars, pc, myid, tmp, reply, counter, reg, over, netin, neof, nreset, rawClosed, ringClosed, ctxDone, rpc, cpc, nresp, sent, wbroken, bad>>
MsMatch ==   \* under readLock, then the reply
  /\ mpc = "match"
  /\ LET m == {r \in reg : r.id = mcur.id} IN
     IF m = {} THEN UNCHANGED <<reg, reply>>
     ELSE LET r == CHOOSE x \in m : TRUE IN
          /\ reg' = IF Variant = "noDelete" THEN reg ELSE reg \ {r}
          /\ reply' = [reply EXCEPT ![r.c] = <<[ok |-> TRUE, tag |-> mcur.tag]>>]
  /\ mpc' = "check"
  /\ UNCHANGED <<connVars, pc, myid, tmp, counter, over, netin, neof, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mcur, cpc, nresp, sent, wbroken, bad>>
MsFail1 ==
  /\ mpc = "fail1" /\ ringClosed' = TRUE /\ rawClosed' = TRUE /\ mpc' = "fail2"
  /\ UNCHANGED <<connVars, pc, myid, tmp, reply, counter, reg, over, netin, neof, nreset, ring, ctxDone, rpc, mcur, cpc, nresp, sent, wbroken, bad>>
MsFail2 ==   \* under readLock
  /\ mpc = "fail2" /\ over' = TRUE /\ mpc' = "done"
  /\ IF Variant = "noFail" THEN UNCHANGED <<reg, reply>>
     ELSE /\ reg' = {}
          /\ reply' = [c \in C |-> IF \E r \in reg : r.c = c THEN <<[ok |-> FALSE, tag |-> 0]>> ELSE reply[c]]
  /\ UNCHANGED <<connVars, pc, myid, tmp, counter, netin, neof, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mcur, cpc, nresp, sent, wbroken, bad>>

\* Close
ClCall(k) ==
  /\ cpc[k] = "idle" /\ CloseCall /\ cpc' = [cpc EXCEPT ![k] = "cancel"]
  /\ UNCHANGED <<pc, myid, tmp, reply, counter, reg, over, netin, neof, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mpc, mcur, nresp, sent, wbroken, bad>>
ClStep(k) ==
  /\ \/ cpc[k] = "cancel" /\ ctxDone' = TRUE /\ cpc' = [cpc EXCEPT ![k] = "ring"] /\ UNCHANGED <<ringClosed, rawClosed>>
     \/ cpc[k] = "ring" /\ ringClosed' = TRUE /\ cpc' = [cpc EXCEPT ![k] = "raw"] /\ UNCHANGED <<ctxDone, rawClosed>>
     \/ cpc[k] = "raw" /\ rawClosed' = TRUE /\ cpc' = [cpc EXCEPT ![k] = "wm"] /\ UNCHANGED <<ctxDone, ringClosed>>
     \/ cpc[k] = "wm" /\ mpc = "done" /\ cpc' = [cpc EXCEPT ![k] = "wr"] /\ UNCHANGED <<ctxDone, ringClosed, rawClosed>>
     \/ cpc[k] = "wr" /\ rpc = "done" /\ cpc' = [cpc EXCEPT ![k] = "ret"] /\ UNCHANGED <<ctxDone, ringClosed, rawClosed>>
  /\ UNCHANGED <<connVars, pc, myid, tmp, reply, counter, reg, over, netin, neof, nreset, ring, rpc, mpc, mcur, nresp, sent, wbroken, bad>>
ClRet(k) ==
  /\ cpc[k] = "ret" /\ bad' = (bad \/ ~rawClosed) /\ closed' = TRUE /\ cpc' = [cpc EXCEPT ![k] = "done"]
  /\ UNCHANGED <<calls, loose, ended, settled, wfail, poison, mangled, closing, stalled>>
  /\ UNCHANGED <<pc, myid, tmp, reply, counter, reg, over, netin, neof, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mpc, mcur, nresp, sent, wbroken>>

\* the peer
PeerResp(id) ==
  /\ ~neof /\ ~nreset /\ nresp < MaxResp
  /\ nresp' = nresp + 1 /\ netin' = Append(netin, [id |-> id, tag |-> nresp + 1])
  /\ Resp(id, nresp + 1, TRUE)
  /\ UNCHANGED <<pc, myid, tmp, reply, counter, reg, over, neof, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mpc, mcur, cpc, sent, wbroken, bad>>
PeerEof ==
  /\ ~neof /\ ~nreset /\ neof' = TRUE /\ PeerEnd("eof")
  /\ UNCHANGED <<pc, myid, tmp, reply, counter, reg, over, netin, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mpc, mcur, cpc, nresp, sent, wbroken, bad>>
PeerReset ==
  /\ ~nreset /\ nreset' = TRUE /\ netin' = <<>> /\ PeerEnd("reset")
  /\ UNCHANGED <<pc, myid, tmp, reply, counter, reg, over, neof, rawClosed, ring, ringClosed, ctxDone, rpc, mpc, mcur, cpc, nresp, sent, wbroken, bad>>
WBreak ==
  /\ ~wbroken /\ wbroken' = TRUE /\ UNCHANGED connVars
  /\ UNCHANGED <<pc, myid, tmp, reply, counter, reg, over, netin, neof, nreset, rawClosed, ring, ringClosed, ctxDone, rpc, mpc, mcur, cpc, nresp, sent, bad>>

Internal ==
  \/ \E c \in C : DoId(c) \/ DoId2(c) \/ DoReg(c) \/ DoSend(c) \/ DoUnreg(c) \/ DoRet(c)
  \/ Rd \/ RdClose \/ Ms \/ MsMatch \/ MsFail1 \/ MsFail2
  \/ \E k \in Closers : ClStep(k) \/ ClRet(k)
Env ==
  \/ \E c \in C, k \in Kinds : DoCall(c, k)
  \/ \E k \in Closers : ClCall(k)
  \/ \E id \in sent \cup {counter + 1} : PeerResp(id)
  \/ PeerEof \/ PeerReset \/ WBreak
\* the observer notices quiescence
Observe == /\ ~ENABLED Internal /\ (settled # Over \/ loose # <<>>)
           /\ settled' = Over /\ loose' = <<>> /\ UNCHANGED <<calls, ended, wfail, poison, mangled, closing, closed, stalled, alg>>
Next == Internal \/ Env \/ Observe
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal)

Allowed == ~bad
Goroutines == (IF rpc = "done" THEN 0 ELSE 1) + (IF mpc = "done" THEN 0 ELSE 1)
QuietOK == ~ENABLED Internal =>
   /\ QuietCalls(Active)
   /\ QuietClose(Cardinality({k \in Closers : cpc[k] \notin {"idle", "done"}}), Goroutines, rawClosed)
CallsEnd == \A c \in C : (Over /\ c \in Active) ~> (c \notin Active)
=============================================================================
