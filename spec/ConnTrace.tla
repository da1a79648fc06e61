------------------------------ MODULE ConnTrace ------------------------------
(* Judges recorded executions of real connections against Conn. *)
EXTENDS Conn, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
vars == <<connVars, t, l>>
E == Traces[t].ev[l]
More == l <= Len(Traces[t].ev)
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ ConnInit
Is(k) == More /\ E.k = k /\ l' = l + 1 /\ t' = t
Strict ==
  \/ Is("call") /\ Call(E.c, E.kind, E.bad)
  \/ Is("frame") /\ Frame(E.c, E.id)
  \/ Is("resp") /\ Resp(E.id, E.tag, E.ok)
  \/ Is("ret") /\ Ret(E.c, E.ok, E.tag)
  \/ Is("end") /\ PeerEnd(E.how)
  \/ Is("wfail") /\ WriteFail
  \/ Is("mangle") /\ Mangle
  \/ Is("stall") /\ Stall(E.on)
  \/ (Is("noise") \/ Is("part")) /\ Noise
  \/ Is("closecall") /\ CloseCall
  \/ Is("closeret") /\ CloseRet(E.sock, E.g)
  \/ Is("q") /\ Quiet(Range(E.b), E.closes, E.g, E.sock, E.tail)
  \/ Is("kept") /\ Kept(E.c, E.tag)
  \/ Is("mem") /\ Mem(E.kb, E.got)
  \* "junk" (bytes that are no frame of any call) is never allowed

\* Which properties a rejected observation breaks
Stuck == {c \in Range(E.b) : ~MayBlock(c)}
Unasked == \E i \in 1..l : Traces[t].ev[i].k \in {"noise", "mangle"}
Produce(c) == \E i \in 1..l : Traces[t].ev[i].k = "call" /\ Traces[t].ev[i].c = c /\ Traces[t].ev[i].prod
RetBlame(c, ok) ==
  (IF calls[c].kind = "oneway" THEN {} ELSE {"C03"})
  \cup (IF Produce(c) /\ ~calls[c].late THEN {"C22"} ELSE {})
  \cup (IF ok /\ (calls[c].late \/ calls[c].bad \/ Over) THEN {"C05"} ELSE {})
  \cup (IF ok /\ wfail THEN {"C04"} ELSE {})
  \cup (IF Unasked THEN {"C07"} ELSE {})
QuietBlame ==
  (IF QuietCalls(Range(E.b)) THEN {}
   ELSE (IF Over THEN {"C05"} ELSE {})
        \cup (IF \E c \in Stuck : calls[c].kind = "oneway" THEN {"C22"} ELSE {})
        \cup (IF \E c \in Stuck : calls[c].framed /\ calls[c].kind = "resp" /\ calls[c].post # <<>> THEN {"C03"} ELSE {})
        \cup (IF \E c \in Stuck : ~calls[c].framed /\ ~Over THEN {"C04"} ELSE {})
        \cup (IF Unasked THEN {"C07"} ELSE {})
        \cup (IF Stuck = {} THEN {"C03"} ELSE {}))
  \cup (IF QuietClose(E.closes, E.g, E.sock) THEN {} ELSE {"C06"})
  \cup (IF QuietWire(E.tail) THEN {} ELSE {"C04"})
Blame ==
  CASE E.k \in {"frame", "junk"} -> {"C04"}
    [] E.k = "ret" -> RetBlame(E.c, E.ok)
    [] E.k = "kept" -> {"C08"}
    [] E.k = "mem" -> {"C07"}
    [] E.k = "closeret" -> {"C06"}
    [] E.k = "q" -> QuietBlame
    [] OTHER -> {"C03"}
Ids == <<"C03", "C04", "C05", "C06", "C07", "C08", "C22">>
Show(S) == LET F[i \in 0..Len(Ids)] == IF i = 0 THEN "" ELSE F[i-1] \o (IF Ids[i] \in S THEN "+" \o Ids[i] ELSE "") IN F[Len(Ids)]

\* A trace that breaks another property than the one in question is followed beyond
\* that point, as if the step had been allowed.
Lenient == IOEnv.LENIENT
Loose ==
  /\ More /\ l' = l + 1 /\ t' = t
  /\ CASE E.k = "frame" /\ E.c \in Active /\ ~calls[E.c].framed ->
            /\ calls' = [calls EXCEPT ![E.c].framed = TRUE, ![E.c].id = E.id, ![E.c].pre = SelectSeq(loose, LAMBDA r : r.id = E.id)]
            /\ UNCHANGED <<loose, ended, settled, wfail, poison, mangled, closing, closed, stalled>>
       [] E.k = "ret" /\ E.c \in Active ->
            /\ calls' = [calls EXCEPT ![E.c].st = IF E.ok THEN "ok" ELSE "err", ![E.c].tag = E.tag]
            /\ UNCHANGED <<loose, ended, settled, wfail, poison, mangled, closing, closed, stalled>>
       [] E.k = "closeret" ->
            closed' = TRUE /\ UNCHANGED <<calls, loose, ended, settled, wfail, poison, mangled, closing, stalled>>
       [] E.k = "q" ->
            /\ settled' = Over /\ loose' = <<>>
            /\ UNCHANGED <<calls, ended, wfail, poison, mangled, closing, closed, stalled>>
       [] OTHER -> UNCHANGED connVars
TraceNext == Strict \/ (Lenient # "" /\ More /\ ~ENABLED Strict /\ Lenient \notin Blame /\ Loose)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == (More /\ ~ENABLED TraceNext) => PrintT("REJECT " \o ToString(t) \o " " \o ToString(l) \o " " \o Show(Blame))
Inv == TypeOK /\ (Lenient = "" => UniqueIds)
=============================================================================
