------------------------------- MODULE RingInd -------------------------------
(***************************************************************************)
(* The steps of RingAlg with positions counted from the beginning of the   *)
(* stream instead of modulo the size: what remains is linear arithmetic,   *)
(* for which Apalache proves that Inv is inductive for EVERY size >= 2,    *)
(* every sequence of reads and writes of any length and every Close.       *)
(* TLC checks (RingMap) that RingAlg implements this module in small       *)
(* constants.                                                              *)
(***************************************************************************)
EXTENDS Integers
CONSTANT
  \* @type: Int;
  Size,
  \* @type: Str;
  Variant  \* as in RingAlg
VARIABLES
  \* @type: Int;
  W,       \* published write position
  \* @type: Int;
  R,       \* published read position
  \* @type: Bool;
  rtok,
  \* @type: Bool;
  wtok,
  \* @type: Bool;
  closed,
  \* @type: Int;
  atClose, \* bytes of completed writes when it was closed
  \* @type: Str;
  wpc,
  \* @type: Int;
  w,       \* the writer's position
  \* @type: Int;
  ws,      \* the read position the writer knows
  \* @type: Int;
  wend,    \* where the current write ends
  \* @type: Int;
  wpub,    \* up to here the reader has been released
  \* @type: Int;
  fin,     \* bytes of completed writes
  \* @type: Str;
  rpc,
  \* @type: Int;
  r,
  \* @type: Int;
  rn,
  \* @type: Int;
  rfrom,   \* where the current read began
  \* @type: Int;
  rend,
  \* @type: Bool;
  rclosed
shared == <<W, R, rtok, wtok, closed, atClose>>
wvars == <<wpc, w, ws, wend, wpub, fin>>
rvars == <<rpc, r, rn, rfrom, rend, rclosed>>
ivars == <<W, R, rtok, wtok, closed, atClose, wpc, w, ws, wend, wpub, fin, rpc, r, rn, rfrom, rend, rclosed>>

Init == /\ W = 0 /\ R = 0 /\ rtok = FALSE /\ wtok = FALSE /\ closed = FALSE /\ atClose = 0
        /\ wpc = "idle" /\ w = 0 /\ ws = 0 /\ wend = 0 /\ wpub = 0 /\ fin = 0
        /\ rpc = "idle" /\ r = 0 /\ rn = 0 /\ rfrom = 0 /\ rend = 0 /\ rclosed = FALSE

\* positions are compared modulo Size in the code; Inv makes that the same
Full == w + 1 - ws = Size
Empty == r = rn

WGo(pc) == wpc' = pc
RGo(pc) == rpc' = pc
WCall == \E n \in Nat : wpc = "idle" /\ WGo("loadNext") /\ wend' = w + n /\ wpub' = w /\ UNCHANGED <<shared, w, ws, fin, rvars>>
WLoadNext == wpc = "loadNext" /\ w' = W /\ WGo("loadStart") /\ UNCHANGED <<shared, ws, wend, wpub, fin, rvars>>
WLoadStart == wpc = "loadStart" /\ ws' = R /\ WGo("loop") /\ UNCHANGED <<shared, w, wend, wpub, fin, rvars>>
WLoop == wpc = "loop" /\ WGo(IF w >= wend THEN "publish" ELSE IF Full THEN "fullStore" ELSE "copy") /\ UNCHANGED <<shared, w, ws, wend, wpub, fin, rvars>>
WCopy == wpc = "copy" /\ w' = w + 1 /\ WGo("loop") /\ UNCHANGED <<shared, ws, wend, wpub, fin, rvars>>
WFullStore == wpc = "fullStore" /\ W' = w /\ WGo("fullRelease") /\ UNCHANGED <<R, rtok, wtok, closed, atClose, w, ws, wend, wpub, fin, rvars>>
\* "lost": a release that finds nobody waiting is forgotten
WriterOn(c) == wtok' = (wtok \/ (c /\ (Variant = "lost" => wpc = "wait")))
ReaderOn == IF Variant = "lost" THEN rtok' = (rtok \/ rpc = "wait") ELSE rtok' = TRUE
WFullRelease == wpc = "fullRelease" /\ ReaderOn /\ wpub' = w /\ WGo("reload") /\ UNCHANGED <<W, R, wtok, closed, atClose, w, ws, wend, fin, rvars>>
WReload == wpc = "reload" /\ ws' = R /\ WGo("full?") /\ UNCHANGED <<shared, w, wend, wpub, fin, rvars>>
WFull == wpc = "full?" /\ WGo(IF ~Full THEN "copy" ELSE IF closed THEN "ret" ELSE "wait") /\ UNCHANGED <<shared, w, ws, wend, wpub, fin, rvars>>
WWait == wpc = "wait" /\ (wtok \/ closed) /\ wtok' = FALSE /\ WGo(IF Variant = "wstale" THEN "copy" ELSE "reload") /\ UNCHANGED <<W, R, rtok, closed, atClose, w, ws, wend, wpub, fin, rvars>>
WPublish == wpc = "publish" /\ W' = w /\ WGo("release?") /\ UNCHANGED <<R, rtok, wtok, closed, atClose, w, ws, wend, wpub, fin, rvars>>
WRelease == wpc = "release?" /\ (IF wend > (IF Variant = "onebyte" THEN wpub + 1 ELSE wpub) THEN ReaderOn ELSE rtok' = rtok) /\ WGo("ret") /\ UNCHANGED <<W, R, wtok, closed, atClose, w, ws, wend, wpub, fin, rvars>>
WRet == wpc = "ret" /\ (IF w < wend THEN WGo("done") /\ fin' = fin ELSE WGo("idle") /\ fin' = wend) /\ wpub' = w /\ UNCHANGED <<shared, w, ws, wend, rvars>>

RCall == \E n \in Nat : rpc = "idle" /\ RGo("loadStart") /\ rend' = r + n /\ rfrom' = r /\ UNCHANGED <<shared, wvars, r, rn, rclosed>>
RLoadStart == rpc = "loadStart" /\ r' = R /\ RGo("loadNext") /\ UNCHANGED <<shared, wvars, rn, rfrom, rend, rclosed>>
RLoadNext == rpc = "loadNext" /\ rn' = W /\ RGo("loop") /\ UNCHANGED <<shared, wvars, r, rfrom, rend, rclosed>>
RLoop == rpc = "loop" /\ RGo(IF r >= rend THEN "publish" ELSE IF Empty THEN "emptyStore" ELSE "copy") /\ UNCHANGED <<shared, wvars, r, rn, rfrom, rend, rclosed>>
RCopy == rpc = "copy" /\ r' = r + 1 /\ RGo("loop") /\ UNCHANGED <<shared, wvars, rn, rfrom, rend, rclosed>>
REmptyStore == rpc = "emptyStore" /\ R' = r /\ RGo("emptyRelease") /\ UNCHANGED <<W, rtok, wtok, closed, atClose, wvars, r, rn, rfrom, rend, rclosed>>
REmptyRelease == rpc = "emptyRelease" /\ WriterOn(r > rfrom) /\ RGo("reload1") /\ UNCHANGED <<W, R, rtok, closed, atClose, wvars, r, rn, rfrom, rend, rclosed>>
RReload1 == rpc = "reload1" /\ rn' = W /\ RGo(IF r # W THEN "copy" ELSE "closed?") /\ UNCHANGED <<shared, wvars, r, rfrom, rend, rclosed>>
RClosed == rpc = "closed?" /\ rclosed' = closed /\ RGo("reload2") /\ UNCHANGED <<shared, wvars, r, rn, rfrom, rend>>
RReload2 == rpc = "reload2" /\ rn' = (IF Variant = "noclose" THEN rn ELSE W) /\ RGo(IF r # rn' THEN "copy" ELSE IF (IF Variant = "noclose" THEN closed ELSE rclosed) THEN "fail" ELSE "wait") /\ UNCHANGED <<shared, wvars, r, rfrom, rend, rclosed>>
RWait == rpc = "wait" /\ (rtok \/ closed) /\ rtok' = FALSE /\ RGo(IF Variant = "stale" THEN "copy" ELSE "reload1") /\ UNCHANGED <<W, R, wtok, closed, atClose, wvars, r, rn, rfrom, rend, rclosed>>
RPublish == rpc = "publish" /\ R' = r /\ RGo("release?") /\ UNCHANGED <<W, rtok, wtok, closed, atClose, wvars, r, rn, rfrom, rend, rclosed>>
RRelease == rpc = "release?" /\ WriterOn(r > rfrom) /\ RGo("ret") /\ UNCHANGED <<W, R, rtok, closed, atClose, wvars, r, rn, rfrom, rend, rclosed>>
RRet == rpc = "ret" /\ RGo("idle") /\ rfrom' = r /\ UNCHANGED <<shared, wvars, r, rn, rend, rclosed>>
RFail == rpc = "fail" /\ RGo("done") /\ rfrom' = r /\ UNCHANGED <<shared, wvars, r, rn, rend, rclosed>>
DoClose == ~closed /\ closed' = TRUE /\ atClose' = fin /\ UNCHANGED <<W, R, rtok, wtok, wvars, rvars>>

Next == \/ WCall \/ WLoadNext \/ WLoadStart \/ WLoop \/ WCopy \/ WFullStore \/ WFullRelease \/ WReload \/ WFull \/ WWait \/ WPublish \/ WRelease \/ WRet
        \/ RCall \/ RLoadStart \/ RLoadNext \/ RLoop \/ RCopy \/ REmptyStore \/ REmptyRelease \/ RReload1 \/ RClosed \/ RReload2 \/ RWait \/ RPublish \/ RRelease \/ RRet \/ RFail
        \/ DoClose
Spec == Init /\ [][Next]_ivars
-----------------------------------------------------------------------------
WPcs == {"idle", "loadNext", "loadStart", "loop", "copy", "fullStore", "fullRelease", "reload", "full?", "wait", "publish", "release?", "ret", "done"}
RPcs == {"idle", "loadStart", "loadNext", "loop", "copy", "emptyStore", "emptyRelease", "reload1", "closed?", "reload2", "wait", "publish", "release?", "ret", "fail", "done"}
\* positions: nobody overtakes, and what is held fits
Order == 0 <= ws /\ ws <= R /\ R <= r /\ r <= rn /\ rn <= W /\ W <= w /\ w - ws <= Size - 1
Writer == /\ wpc \in {"idle", "loadNext", "loadStart", "fullRelease", "reload", "full?", "wait", "release?", "ret", "done"} => w = W
          /\ wpc \in {"loadNext", "loadStart", "loop", "copy", "fullStore", "publish", "reload", "full?", "wait"} => wpub = W
          /\ wpc \in {"loadNext", "loadStart", "loop", "fullRelease", "reload", "full?", "wait"} => w <= wend
          /\ wpc \in {"copy", "fullStore", "fullRelease", "reload", "full?", "wait"} => w < wend
          /\ wpc \in {"publish", "release?"} => w = wend
          /\ wpc \in {"fullStore", "wait"} => Full
          /\ wpc = "copy" => ~Full
          /\ wpc = "ret" => w <= wend
          /\ 0 <= fin /\ fin <= W
Reader == /\ rpc \in {"idle", "loadStart", "loadNext", "emptyRelease", "reload1", "closed?", "reload2", "wait", "release?", "ret", "fail", "done"} => R = r
          /\ rpc \in {"emptyStore", "closed?", "wait", "fail"} => Empty
          /\ rpc = "copy" => r < rn /\ r < rend
          /\ rpc \in {"emptyStore", "emptyRelease", "reload1", "closed?", "reload2", "wait", "fail"} => r < rend
          /\ rpc \in {"loadStart", "loadNext", "loop"} => r <= rend
          /\ rpc \in {"publish", "release?"} => r = rend
          /\ rpc \notin {"idle", "done"} => rfrom <= R
\* a release that is still to come
WOwes == wpc = "fullRelease" \/ (wpc = "release?" /\ wend > wpub)
ROwes == rpc \in {"emptyRelease", "release?"} /\ r > rfrom
Wake == /\ rpc = "wait" /\ ~rtok => W = rn \/ WOwes
        /\ wpc \in {"full?", "wait"} /\ ~wtok => R = ws \/ ROwes
Closing == /\ 0 <= atClose
           /\ (closed => atClose <= W)
           /\ rpc \in {"reload2", "fail"} /\ rclosed => closed
           /\ rpc = "fail" => closed /\ r >= atClose
Inv == wpc \in WPcs /\ rpc \in RPcs /\ Order /\ Writer /\ Reader /\ Wake /\ Closing

\* What Inv is for.
\* C01: the writer never touches a slot with an unread byte, the reader reads only bytes that
\* were written and are still there; after Close it gets everything that was written before
Slots == /\ wpc = "copy" => w - r < Size
         /\ rpc = "copy" => r < W /\ w - r < Size
         /\ rpc = "fail" => r >= atClose
\* C02: when nobody can move, the reader has taken everything there is and the writer faces a full ring
WStuck == wpc = "wait" /\ ~wtok /\ ~closed
RStuck == rpc = "wait" /\ ~rtok /\ ~closed
WRest == wpc \in {"idle", "done"} \/ WStuck
RRest == rpc \in {"idle", "done"} \/ RStuck
NoStrand == WRest /\ RRest => /\ ~(WStuck /\ RStuck)
                              /\ RStuck => r = w /\ r < rend
                              /\ WStuck => w - r = Size - 1
Safe == Slots /\ NoStrand
-----------------------------------------------------------------------------
AnySize == Size \in Int /\ Size >= 2
ConstInit == AnySize /\ Variant = "ok"
BadStale == AnySize /\ Variant = "stale"
BadWstale == AnySize /\ Variant = "wstale"
BadLost == AnySize /\ Variant = "lost"
BadOnebyte == AnySize /\ Variant = "onebyte"
BadNoclose == AnySize /\ Variant = "noclose"
\* a state of Inv in which both sides have to wait their turn exists
Nobody == wpc # "full?" \/ rpc # "closed?" \/ Size < 1000
IndInit == /\ W \in Int /\ R \in Int /\ rtok \in BOOLEAN /\ wtok \in BOOLEAN /\ closed \in BOOLEAN /\ atClose \in Int
           /\ wpc \in WPcs /\ w \in Int /\ ws \in Int /\ wend \in Int /\ wpub \in Int /\ fin \in Int
           /\ rpc \in RPcs /\ r \in Int /\ rn \in Int /\ rfrom \in Int /\ rend \in Int /\ rclosed \in BOOLEAN
           /\ Inv
=============================================================================
