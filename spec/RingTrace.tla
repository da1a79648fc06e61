------------------------------ MODULE RingTrace ------------------------------
(* Judges recorded executions of the Go ring buffer against Ring. *)
EXTENDS Ring, TLC, Json, IOUtils
CONSTANT JudgeQuiet  \* FALSE: only the content of the stream is judged (C01)

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, l
vars == <<ringVars, t, l>>

Ev(i, j) == Traces[i].ev[j]
E == Ev(t, l)
More == l <= Len(Traces[t].ev)

TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ RingInit(Traces[t].size)

Is(k) == More /\ E.k = k /\ l' = l + 1 /\ t' = t

TraceNext ==
    \/ Is("cw") /\ CallWrite(E.n)
    \/ Is("rw") /\ RetWrite
    \/ Is("cr") /\ CallRead(E.n)
    \/ Is("rr") /\ E.ok /\ RetReadOk(E.data)
    \/ Is("rr") /\ ~E.ok /\ RetReadFail
    \/ Is("rr") /\ RetReadAny
    \/ Is("cl") /\ Close
    \/ Is("q")  /\ (JudgeQuiet => QuietOK) /\ E.r = ract /\ E.w = wact /\ UNCHANGED ringVars

TraceSpec == TraceInit /\ [][TraceNext]_vars

\* A trace is rejected if it cannot be continued to its end.
Accepted == (More /\ ~ENABLED TraceNext) => PrintT("REJECT " \o ToString(t) \o " " \o ToString(l))
Inv == TypeOK /\ (~drained => Sane) /\ NeverBothStuck
=============================================================================
