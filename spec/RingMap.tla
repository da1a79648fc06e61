------------------------------- MODULE RingMap -------------------------------
(* RingAlg implements RingInd: positions in the stream from positions in the ring. *)
EXTENDS RingAlg
Behind(a, b) == (a + Size - b) % Size
MW == IF wpc = "idle" THEN fin ELSE fin + wi
MR == IF rpc = "idle" THEN rcv ELSE rcv + ri
PW == MW - Behind(wpos, next)
PR == MR - Behind(rpos, start)
Ind == INSTANCE RingInd WITH W <- PW, R <- PR, rtok <- (rtok = 1), wtok <- (wtok = 1), w <- MW, ws <- PR - Behind(start, wstart), wend <- sub,
         wpub <- (IF wpc \in {"idle", "done"} THEN MW ELSE fin + wwrote), r <- MR, rn <- PW - Behind(next, rnext),
         rfrom <- (IF rpc \in {"idle", "done"} THEN MR ELSE rcv), rend <- req
Small == 0..MaxTotal
IndStep == [][Ind!Next]_vars
IndInv == Ind!Inv /\ Ind!Safe
IndFirst == Ind!Init
Mapped == IndFirst /\ IndStep
=============================================================================
