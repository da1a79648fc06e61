-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* One broker connection, at the level of what its users and its peer see. *)
(*                                                                         *)
(*   Call(c,..)     a caller issues a request                              *)
(*   Frame(c,id)    the peer has received c's complete request frame,      *)
(*                  which carries correlation id `id'                      *)
(*   Resp(id,tag)   the peer has sent a complete response frame            *)
(*   Ret(c,..)      the call returns                                       *)
(*   PeerEnd, WriteFail, CloseCall, CloseRet, Mangle, Stall: faults        *)
(*   Quiet(..)      nothing inside the library can move any more           *)
(*   Kept(c,tag)    the response returned by c is looked at again          *)
(*                                                                         *)
(* Ordering convention of the observations: Call, Resp, PeerEnd, CloseCall *)
(* are recorded before they take effect; Frame, WriteFail, Ret, CloseRet   *)
(* after they have.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  calls,     \* sequence: per call [st, kind, id, framed, pre, post, late, tag]
  loose,     \* responses sent whose id no outstanding call is known to have
  ended,     \* "no", "eof" (all that was sent arrives), "reset" (may be lost)
  settled,   \* a quiet point was observed after the connection ended
  wfail,     \* a write has failed
  poison,    \* a request could not be encoded; that may or may not end the connection
  mangled,   \* the peer broke the framing
  closing,   \* Close was called
  closed,    \* Close has returned
  stalled    \* the peer does not read

connVars == <<calls, loose, ended, settled, wfail, poison, mangled, closing, closed, stalled>>

ConnInit ==
  /\ calls = <<>> /\ loose = <<>> /\ ended = "no" /\ settled = FALSE /\ wfail = FALSE /\ poison = FALSE
  /\ mangled = FALSE /\ closing = FALSE /\ closed = FALSE /\ stalled = FALSE

Range(s) == {s[i] : i \in 1..Len(s)}
Active == {c \in 1..Len(calls) : calls[c].st = "active"}
Outstanding == {c \in Active : calls[c].framed /\ calls[c].kind = "resp"}
Over == ended # "no" \/ wfail \/ closing

\* kind "resp": waits for a response.  "oneway": does not (produce, acks=0).
\* bad: the request cannot be encoded, the call has to fail.
Call(c, kind, bad) ==
  /\ c = Len(calls) + 1
  /\ calls' = Append(calls, [st |-> "active", kind |-> kind, id |-> 0, framed |-> FALSE, pre |-> <<>>, post |-> <<>>,
                             late |-> settled \/ closed, bad |-> bad, tag |-> -1])
  /\ poison' = (poison \/ bad)
  /\ UNCHANGED <<loose, ended, settled, wfail, mangled, closing, closed, stalled>>

\* C04: a whole frame of a call that has not sent one yet; its id is not that of
\* another outstanding call; nothing follows a failed write.
FrameOK(c, id) ==
  /\ c \in Active /\ ~calls[c].framed /\ ~calls[c].bad
  /\ ~wfail
  /\ \A o \in Outstanding : calls[o].id # id
Frame(c, id) ==
  /\ FrameOK(c, id)
  /\ calls' = [calls EXCEPT ![c].framed = TRUE, ![c].id = id, ![c].pre = SelectSeq(loose, LAMBDA r : r.id = id)]
  /\ UNCHANGED <<loose, ended, settled, wfail, poison, mangled, closing, closed, stalled>>

\* A complete response.  ok = FALSE: its payload cannot be decoded.
Resp(id, tag, ok) ==
  /\ LET for == {c \in Outstanding : calls[c].id = id}   \* at most one: UniqueIds
         r   == [id |-> id, tag |-> tag, ok |-> ok] IN
     /\ loose' = IF for = {} THEN Append(loose, r) ELSE loose
     /\ calls' = [c \in 1..Len(calls) |-> IF c \in for THEN [calls[c] EXCEPT !.post = Append(@, r)] ELSE calls[c]]
  /\ UNCHANGED <<ended, settled, wfail, poison, mangled, closing, closed, stalled>>

\* The responses call c may have been given: the first one sent after its frame was
\* seen, or one that was in flight before that.
Candidates(c) == Range(calls[c].pre) \cup (IF calls[c].post = <<>> THEN {} ELSE {calls[c].post[1]})

RetOK(c, tag) ==
  /\ c \in Active /\ ~calls[c].late /\ ~calls[c].bad
  /\ calls[c].framed
  /\ calls[c].kind = "resp" => \E r \in Candidates(c) : r.ok /\ r.tag = tag
RetErr(c) ==
  /\ c \in Active
  /\ \/ wfail \/ poison \/ closing \/ mangled \/ ended = "reset"
     \/ ended = "eof" /\ (calls[c].kind = "oneway" \/ calls[c].post = <<>>)
     \/ calls[c].kind = "resp" /\ \E r \in Candidates(c) : ~r.ok
Ret(c, ok, tag) ==
  /\ IF ok THEN RetOK(c, tag) ELSE RetErr(c)
  /\ calls' = [calls EXCEPT ![c].st = IF ok THEN "ok" ELSE "err", ![c].tag = tag]
  /\ UNCHANGED <<loose, ended, settled, wfail, poison, mangled, closing, closed, stalled>>

PeerEnd(how) ==
  /\ ended' = IF ended = "reset" THEN ended ELSE how
  /\ UNCHANGED <<calls, loose, settled, wfail, poison, mangled, closing, closed, stalled>>
WriteFail == wfail' = TRUE /\ UNCHANGED <<calls, loose, ended, settled, poison, mangled, closing, closed, stalled>>
Mangle == mangled' = TRUE /\ UNCHANGED <<calls, loose, ended, settled, wfail, poison, closing, closed, stalled>>
Stall(on) == stalled' = on /\ UNCHANGED <<calls, loose, ended, settled, wfail, poison, mangled, closing, closed>>
Noise == UNCHANGED connVars
CloseCall == closing' = TRUE /\ UNCHANGED <<calls, loose, ended, settled, wfail, poison, mangled, closed, stalled>>
\* C06: the socket is closed when Close returns, and nothing (g) goes on in the background
CloseRet(sock, g) == closing /\ sock /\ g = 0 /\ closed' = TRUE /\ UNCHANGED <<calls, loose, ended, settled, wfail, poison, mangled, closing, stalled>>

\* C03/C05/C22: who may still be blocked when nothing can move
MayBlock(c) ==
  /\ ~Over
  /\ \/ mangled
     \/ stalled /\ ~calls[c].framed
     \/ calls[c].kind = "resp" /\ calls[c].framed /\ calls[c].post = <<>>
QuietCalls(b) == b = Active /\ \A c \in b : MayBlock(c)
\* C06: no Close is stuck, and after one has returned nothing is left running
QuietClose(closes, g, sock) == closes = 0 /\ (closed => g = 0 /\ sock)
\* C04: no incomplete frame is left on the wire of a healthy connection
QuietWire(tail) == tail = 0 \/ Over \/ stalled \/ poison
Quiet(b, closes, g, sock, tail) ==
  /\ QuietCalls(b) /\ QuietClose(closes, g, sock) /\ QuietWire(tail)
  /\ settled' = Over
  /\ loose' = <<>>
  /\ UNCHANGED <<calls, ended, wfail, poison, mangled, closing, closed, stalled>>

\* C08
Kept(c, tag) == c \in 1..Len(calls) /\ calls[c].st = "ok" /\ calls[c].tag = tag /\ UNCHANGED connVars

\* C07: memory in proportion to what was received (KB): buffers of two connections' worth plus a factor
Mem(kb, got) == kb <= 40000 + 16 * got /\ UNCHANGED connVars
-----------------------------------------------------------------------------
TypeOK == ended \in {"no", "eof", "reset"} /\ {settled, wfail, poison, mangled, closing, closed, stalled} \subseteq BOOLEAN
UniqueIds == \A a, b \in Outstanding : a # b => calls[a].id # calls[b].id
=============================================================================
