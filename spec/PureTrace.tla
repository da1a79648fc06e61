------------------------------- MODULE PureTrace -------------------------------
(* Judges recorded histories against Pure. *)
EXTENDS Pure, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
vars == <<pureVars, t, l>>
E == Traces[t].ev[l]
More == l <= Len(Traces[t].ev)
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ PureInit(Traces[t].subj)
Is(k) == More /\ E.k = k /\ l' = l + 1 /\ t' = t
TraceNext ==
  \/ Is("op") /\ Op(E.o, E.x, E.v, E.res, E.subj)
  \/ Is("kept") /\ Kept(E.i, E.res)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == (More /\ ~ENABLED TraceNext) => PrintT("REJECT " \o ToString(t) \o " " \o ToString(l))
Inv == TRUE
=============================================================================
