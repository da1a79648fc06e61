------------------------------- MODULE Encoder -------------------------------
(***************************************************************************)
(* An encoder on an unreliable stream.  Bytes may be passed on when they    *)
(* are put or, through a buffer, later; a write may be cut short by a      *)
(* failure.  After that nothing more is written and every flush reports    *)
(* the first error.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES pend,     \* all bytes encoded so far
          got,      \* how many of them the stream has taken
          failed,   \* a write failed
          unfit,    \* a value could not be encoded
          told      \* a flush has reported an error
encVars == <<pend, got, failed, unfit, told>>
EncInit == pend = <<>> /\ got = 0 /\ failed = FALSE /\ unfit = FALSE /\ told = FALSE
Broken == failed \/ unfit
\* bs: the encoding of the value put
Put(bs) == pend' = (IF Broken THEN pend ELSE pend \o bs) /\ UNCHANGED <<got, failed, unfit, told>>
PutUnfit == unfit' = TRUE /\ UNCHANGED <<pend, got, failed, told>>
\* the stream is given bytes: the next ones, in order, and none after a failure
Write(bs, fail) ==
  /\ ~failed
  /\ got + Len(bs) <= Len(pend) /\ SubSeq(pend, got + 1, got + Len(bs)) = bs
  /\ got' = got + Len(bs) /\ failed' = fail
  /\ UNCHANGED <<pend, unfit, told>>
\* err 0: success, 1: the first error reported so far, 2: another one;
\* fault: it is the error of the failed write
Flush(err, fault) ==
  /\ IF Broken THEN err = 1 /\ (fault = (failed /\ ~unfit) \/ (failed /\ unfit)) ELSE err = 0 /\ got = Len(pend)
  /\ told' = (told \/ err # 0)
  /\ UNCHANGED <<pend, got, failed, unfit>>
=============================================================================
