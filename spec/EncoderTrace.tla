----------------------------- MODULE EncoderTrace -----------------------------
(* Judges recorded encoder programs against Encoder. *)
EXTENDS Encoder, TLC, Json, IOUtils
W == INSTANCE Wire
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
vars == <<encVars, t, l>>
E == Traces[t].ev[l]
More == l <= Len(Traces[t].ev)
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ EncInit
Is(k) == More /\ E.k = k /\ l' = l + 1 /\ t' = t
\* a nil array may be written as null or as empty: take what the stream shows next
NilArrays == {"Int32Array", "Int64Array", "StringArray"}
TraceNext ==
  \/ Is("put") /\ (Put(W!EncPrim(E.t, E.x, "strict"))
                   \/ (E.t \in NilArrays /\ E.x.z /\ Put(W!EncPrim(E.t, E.x, "null"))))
  \/ Is("long") /\ PutUnfit
  \/ Is("w") /\ Write(E.b, E.fail)
  \/ Is("flushcall") /\ UNCHANGED encVars
  \/ Is("flush") /\ Flush(E.err, E.fault)
TraceSpec == TraceInit /\ [][TraceNext]_vars
\* reaching the end on some path accepts the trace
Done == ~More => PrintT("OUT " \o ToString(t))
=============================================================================
