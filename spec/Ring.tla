-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* Stream-level specification of the single-reader/single-writer ring      *)
(* buffer (package ring).  A byte is identified with its position in the   *)
(* stream of everything ever submitted, so the contents of the ring are    *)
(* determined by counters:                                                 *)
(*                                                                         *)
(*   sub  bytes submitted by write calls that were made (returned or not)  *)
(*   fin  bytes submitted by write calls that have returned                *)
(*   req  bytes requested by read calls that were made (returned or not)   *)
(*   rcv  bytes received by read calls that have returned                  *)
(*                                                                         *)
(* An execution is described by the calls and returns of WriteN, ReadN and *)
(* Close, plus "quiet" observations: nothing inside the library can move   *)
(* any more, and these calls are still blocked.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES size, sub, fin, wact, req, rcv, ract, closed, atClose, drained
ringVars == <<size, sub, fin, wact, req, rcv, ract, closed, atClose, drained>>

Min(a, b) == IF a < b THEN a ELSE b

\* An implementation with an array of `size' bytes may keep one slot free and
\* may block a write that exactly fills the ring, hence a band of capacities.
MustFit == IF size > 2 THEN size - 2 ELSE 0  \* a write leaving this many unread bytes must not block
MayFit  == size                              \* a write leaving more unread bytes cannot have completed

RingInit(s) ==
    /\ size = s /\ sub = 0 /\ fin = 0 /\ wact = FALSE
    /\ req = 0 /\ rcv = 0 /\ ract = FALSE
    /\ closed = FALSE /\ atClose = 0 /\ drained = FALSE

CallWrite(n) ==
    /\ ~wact
    /\ wact' = TRUE /\ sub' = sub + n
    /\ UNCHANGED <<size, fin, req, rcv, ract, closed, atClose, drained>>

\* A write returns only when everything it submitted is stored in the ring or
\* consumed; after Close it may also return early.
RetWrite ==
    /\ wact
    /\ closed \/ sub <= req + MayFit
    /\ wact' = FALSE /\ fin' = sub
    /\ UNCHANGED <<size, sub, req, rcv, ract, closed, atClose, drained>>

CallRead(n) ==
    /\ ~ract
    /\ ract' = TRUE /\ req' = req + n
    /\ UNCHANGED <<size, sub, fin, wact, rcv, closed, atClose, drained>>

\* The byte the harness writes at stream position k
ByteAt(k) == k % 251

\* A successful read returns exactly the next req-rcv bytes of the stream, all
\* of which have been submitted.
RetReadOk(data) ==
    /\ ract /\ ~drained
    /\ rcv + Len(data) = req
    /\ req <= sub
    /\ {i \in 1..Len(data) : data[i] # ByteAt(rcv + i - 1)} = {}
    /\ ract' = FALSE /\ rcv' = req
    /\ UNCHANGED <<size, sub, fin, wact, req, closed, atClose, drained>>

\* A read may only report failure after Close, and only if the bytes whose
\* writes had returned before Close do not suffice.
RetReadFail ==
    /\ ract /\ closed
    /\ drained \/ req > atClose
    /\ ract' = FALSE /\ drained' = TRUE
    /\ UNCHANGED <<size, sub, fin, wact, req, rcv, closed, atClose>>

\* After a failed read the amount consumed is unknown: later reads only have to return.
RetReadAny ==
    /\ ract /\ drained /\ closed
    /\ ract' = FALSE
    /\ UNCHANGED <<size, sub, fin, wact, req, rcv, closed, atClose, drained>>

Close ==
    /\ closed' = TRUE
    /\ atClose' = IF closed THEN atClose ELSE fin
    /\ UNCHANGED <<size, sub, fin, wact, req, rcv, ract, drained>>

\* What may still be blocked when nothing can move:
\*   a read only for want of submitted bytes,
\*   a write only for want of room once the reader has taken all it asked for,
\*   nothing after Close.
ReadMayBlock  == ract /\ ~closed /\ req > sub
WriteMayBlock == wact /\ ~closed /\ sub > req + MustFit
QuietOK == (ract => ReadMayBlock) /\ (wact => WriteMayBlock)

Quiet(r, w) ==
    /\ r = ract /\ w = wact
    /\ QuietOK
    /\ UNCHANGED ringVars

-----------------------------------------------------------------------------
\* Invariants of the design
TypeOK == /\ {sub, fin, req, rcv, atClose} \subseteq Nat /\ {wact, ract, closed, drained} \subseteq BOOLEAN
Sane   == fin <= sub /\ rcv <= req /\ (~drained => rcv <= sub) /\ (~wact => fin = sub)
NeverBothStuck == ~(ReadMayBlock /\ WriteMayBlock)
=============================================================================
