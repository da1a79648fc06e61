---------------------------- MODULE TransportTrace ----------------------------
(* Judges what real connections did: the options are applied one by one, then every   *)
(* connection a peer saw has to be proper, then the outcome has to be the expected one. *)
EXTENDS Transport, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, cfg
vars == <<t, l, cfg>>
R == Traces[t]
NO == Len(R.opts)
NC == Len(R.conns)
Init == t \in 1..Len(Traces) /\ l = 1 /\ cfg = Config0
Peer(h) == R.hosts[h]
Reach(h) == Reaches(cfg, Peer(h))
\* the outcome; which servers a client asks and dials is not this property's business
Direct == R.op \in {"connect", "broker"}
Cannot == (\A i \in 1..Len(R.boot) : ~Reach(R.boot[i])) \/ (R.target # 0 /\ ~Reach(R.target))
Talked == \E i \in 1..NC : R.conns[i].asked > 0 /\ In(R.conns[i].host, R.boot)
Outcome == /\ Cannot => ~R.ok
           /\ Direct /\ Reach(R.boot[1]) => R.ok
           /\ ~Direct /\ Reach(R.boot[1]) => Talked
Next ==
  /\ t' = t /\ l' = l + 1
  /\ \/ l <= NO /\ cfg' = Apply(cfg, R.opts[l])
     \/ l > NO /\ l <= NO + NC /\ cfg' = cfg /\ LET x == R.conns[l - NO] IN Proper(cfg, Peer(x.host), x) /\ Served(cfg, Peer(x.host), x)
     \/ l = NO + NC + 1 /\ cfg' = cfg /\ (~R.stuck => Outcome)
TraceSpec == Init /\ [][Next]_vars
Accepted == (l <= NO + NC + 1 /\ ~ENABLED Next) => PrintT("REJECT " \o ToString(t) \o " " \o ToString(l))
Inv == TRUE
=============================================================================
