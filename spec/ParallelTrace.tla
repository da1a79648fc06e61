---------------------------- MODULE ParallelTrace ----------------------------
(* Judges recorded executions of overlapping client operations against Parallel. *)
EXTENDS Parallel, Wire, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
vars == <<pvars, t, l>>
Ev(i) == Traces[t].ev[i]
E == Ev(l)
More == l <= Len(Traces[t].ev)
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ PInit
Is(k) == More /\ E.k = k /\ l' = l + 1 /\ t' = t

ClientId == "github.com/savaki/kafka"
Fit(ty, ver, v, b) ==
  /\ ver \in 0..MaxVersion(ty)
  /\ \/ Match(ty, ver, v, b, 1, "strict") = Len(b) + 1
     \/ Flexible(ty, ver) /\ Match(ty, ver, v, b, 1, "flex") = Len(b) + 1
HelloFits(e) == e.cid = ClientId /\ e.ver \in 0..3 /\ Walk("ApiVersionsRequest", e.ver, e.body, 1) = Len(e.body) + 1
StartEv(o) == Ev(CHOOSE i \in 1..l : Ev(i).k = "start" /\ Ev(i).o = o)
MetaReq(ts) == [Topics |-> [z |-> ts = <<>>, v |-> [i \in 1..Len(ts) |-> [Name |-> ts[i]]]], AllowAutoTopicCreation |-> FALSE,
                IncludeClusterAuthorizedOperations |-> FALSE, IncludeTopicAuthorizedOperations |-> FALSE]
AskFits(o, e) ==
  /\ e.cid = ClientId
  /\ IF ops[o].k = "coordinator" THEN Fit("FindCoordinatorRequest", e.ver, [Key |-> StartEv(o).group, KeyType |-> 0], e.body)
     ELSE Fit("MetadataRequest", e.ver, MetaReq(StartEv(o).topics), e.body)

RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Pick(s, P(_)) == {i \in 1..Len(s) : P(s[i])}
One(S) == CHOOSE i \in S : \A j \in S : i <= j
NodeOf(v, id, d) ==
  LET B == Pick(v.Brokers.v, LAMBDA b : b.NodeId = id) IN
  IF B = {} THEN <<"none", <<>>>> ELSE LET b == v.Brokers.v[One(B)] IN <<d, <<b.Host, Dec(b.Port)>>>>
LeaderOf(v, topic, part) ==
  LET T == Pick(v.Topics.v, LAMBDA x : x.Name = topic) IN
  IF T = {} THEN <<"none", <<>>>>
  ELSE LET top == v.Topics.v[One(T)]
           P == Pick(top.Partitions.v, LAMBDA x : x.PartitionIndex = part) IN
       IF P = {} THEN <<"none", <<>>>>
       ELSE LET p == top.Partitions.v[One(P)] IN NodeOf(v, p.LeaderId, IF top.ErrorCode # 0 \/ p.ErrorCode # 0 THEN "may" ELSE "node")
Decision(o, e) ==
  LET k == ops[o].k IN
  IF e.how # "ok" \/ k = "metadata" THEN <<"none", <<>>>>
  ELSE IF k = "leader" THEN LeaderOf(e.val, StartEv(o).topic, StartEv(o).part)
  ELSE IF k = "controller" THEN NodeOf(e.val, e.val.ControllerId, "node")
  ELSE IF e.val.ErrorCode # 0 THEN <<"err", <<>>>> ELSE <<"node", <<e.val.Host, Dec(e.val.Port)>>>>

AnswerTo(o) == {i \in 1..l : Ev(i).k = "told" /\ Ev(i).n = ops[o].conn /\ Ev(i).id = ops[o].qid}
Mine(o, e) == ops[o].k = "metadata" /\ e.ok => AnswerTo(o) # {} /\ LET r == Ev(One(AnswerTo(o))) IN Same("MetadataResponse", r.ver, r.val, e.val)
\* a call on the broker operation o returned
Invoked(c) == CHOOSE i \in 1..l : Ev(i).k = "invoke" /\ Ev(i).c = c
Calls == {Ev(i).c : i \in {j \in 1..l : Ev(j).k = "invoke"}}
Unanswered == {c \in Calls : ~\E i \in 1..(l - 1) : Ev(i).k = "ret" /\ Ev(i).c = c}
CallFits(c, e) == e.cid = ClientId /\ e.key = Ev(Invoked(c)).key /\ Fit(Ev(Invoked(c)).api \o "Request", e.ver, Ev(Invoked(c)).val, e.body)
RespTo(c) == {i \in Invoked(c)..l : Ev(i).k = "resp"}
Got(c, e) == e.ok /\ RespTo(c) # {} /\ LET r == Ev(One(RespTo(c))) IN Same(Ev(Invoked(c)).api \o "Response", r.ver, r.val, e.val)

Strict ==
  \/ Is("client") /\ Client(E.boot)
  \/ Is("start") /\ Start(E.o, E.op)
  \/ Is("dial") /\ (DialBoot(E.n, E.addr, E.ok) \/ DialNode(E.n, <<E.host, E.port>>, E.ok))
  \/ Is("frame") /\
       \/ E.key = 18 /\ Hello(E.n, E.key, E.id, HelloFits(E))
       \/ \E o \in {x \in 1..Len(ops) : ops[x].st = "boot"} : Ask(o, E.n, E.key, E.ver, E.id, AskFits(o, E))
       \/ \E c \in Unanswered : Request(Ev(Invoked(c)).o, E.n, E.key, E.ver, E.id, CallFits(c, E))
  \/ Is("hi") /\ Hi(E.n, E.how, E.code, E.off)
  \/ Is("told") /\ \E o \in Running : ops[o].conn = E.n /\ LET d == Decision(o, E) IN Told(o, E.n, E.id, E.how, d[1], d[2])
  \/ Is("shut") /\ Shut(E.n)
  \/ Is("done") /\ Done(E.o, E.ok, Mine(E.o, E)) /\ (E.ok /\ Yields(E.o) => ~E.nil)
  \/ Is("invoke") /\ Held(E.o) /\ UNCHANGED pvars
  \/ Is("resp") /\ UNCHANGED pvars
  \/ Is("ret") /\ Got(E.c, E) /\ UNCHANGED pvars
  \/ Is("release") /\ Release(E.o)
  \/ Is("released") /\ Released(E.o)
  \/ Is("rest") /\ Rest(E.g, E.stuck)

Dialling == \E o \in 1..Len(ops) : Yields(o)
Blame ==
  CASE E.k = "dial" -> IF \E i \in 1..Len(boot) : boot[i] = E.addr THEN {"C18"} ELSE {"C17"}
    [] E.k \in {"frame", "junk"} -> {"C18"} \cup (IF Dialling THEN {"C17"} ELSE {})
    [] E.k = "shut" -> {"C18"} \cup (IF Dialling THEN {"C17"} ELSE {})
    [] E.k = "done" ->
         IF E.o \notin Running THEN {} ELSE
         LET x == ops[E.o] IN
         (IF (x.conn # 0 /\ ~conns[x.conn].closed) \/ (x.tconn # 0 /\ ~E.ok /\ ~conns[x.tconn].closed) THEN {"C19"} ELSE {})
         \cup (IF (x.st = "ok" /\ E.ok /\ ((x.tconn # 0 /\ conns[x.tconn].closed) \/ E.nil)) \/ (x.st = "ok" /\ ~E.ok) \/ (x.st # "ok" /\ E.ok)
               THEN (IF Yields(E.o) /\ x.conn # 0 THEN {"C17"} ELSE {"C18"}) ELSE {})
         \cup (IF x.st \in {"wait", "target", "tnego"} \/ (x.st = "boot" /\ failed = 0) THEN {"C18", "C17"} ELSE {})
         \cup (IF ~Mine(E.o, E) THEN {"C18"} ELSE {})
    [] E.k = "ret" -> {"C17"}
    [] E.k = "released" -> {"C19"}
    [] E.k = "rest" -> IF E.stuck \/ Running # {} THEN {"C17", "C18"} ELSE {"C19"}
    [] OTHER -> {}
Ids == <<"C17", "C18", "C19">>
Show(S) == LET G[k \in 0..Len(Ids)] == IF k = 0 THEN "" ELSE G[k-1] \o (IF Ids[k] \in S THEN "+" \o Ids[k] ELSE "") IN G[Len(Ids)]
Lenient == IOEnv.LENIENT
Loose ==
  /\ More /\ l' = l + 1 /\ t' = t
  /\ CASE E.k = "shut" /\ Alive(E.n) -> conns' = [conns EXCEPT ![E.n].closed = TRUE] /\ UNCHANGED <<boot, ops, at, failed>>
       [] E.k = "done" /\ E.o \in Running ->
            /\ ops' = [ops EXCEPT ![E.o].st = "done"]
            /\ conns' = IF E.ok /\ Yields(E.o) /\ ops[E.o].tconn # 0 THEN [conns EXCEPT ![ops[E.o].tconn].held = TRUE] ELSE conns
            /\ failed' = IF ops[E.o].st = "boot" /\ failed > 0 THEN failed - 1 ELSE failed
            /\ UNCHANGED <<boot, at>>
       [] E.k = "dial" -> conns' = Append(conns, New("stray", 0, 0, E.ok)) /\ UNCHANGED <<boot, ops, at, failed>>
       [] OTHER -> UNCHANGED pvars
TraceNext == Strict \/ (Lenient # "" /\ More /\ ~ENABLED Strict /\ Lenient \notin Blame /\ Loose)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == (More /\ ~ENABLED TraceNext) => PrintT("REJECT " \o ToString(t) \o " " \o ToString(l) \o " " \o Show(Blame))
Inv == TRUE
=============================================================================
