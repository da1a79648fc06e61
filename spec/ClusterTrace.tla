----------------------------- MODULE ClusterTrace -----------------------------
(* Judges recorded executions of real brokers and clients against Cluster. *)
EXTENDS Cluster, Wire, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l,
  hb,     \* brokers returned to the user: their connections
  st,     \* the event that started the operation in progress
  told    \* the event that answered its question, or 0
vars == <<cvars, t, l, hb, st, told>>
Ev(i) == Traces[t].ev[i]
E == Ev(l)
More == l <= Len(Traces[t].ev)
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ CInit /\ hb = <<>> /\ st = 0 /\ told = 0
Is(k) == More /\ E.k = k /\ l' = l + 1 /\ t' = t
Same3 == UNCHANGED <<hb, st, told>>

ClientId == "github.com/savaki/kafka"
Fit(ty, ver, v, b) ==
  /\ ver \in 0..MaxVersion(ty)
  /\ \/ Match(ty, ver, v, b, 1, "strict") = Len(b) + 1
     \/ Flexible(ty, ver) /\ Match(ty, ver, v, b, 1, "flex") = Len(b) + 1
HelloFits(e) == e.cid = ClientId /\ e.ver \in 0..3 /\ Walk("ApiVersionsRequest", e.ver, e.body, 1) = Len(e.body) + 1

\* the question an operation has to ask
MetaReq(ts) == [Topics |-> [z |-> ts = <<>>, v |-> [i \in 1..Len(ts) |-> [Name |-> ts[i]]]], AllowAutoTopicCreation |-> FALSE,
                IncludeClusterAuthorizedOperations |-> FALSE, IncludeTopicAuthorizedOperations |-> FALSE]
QType == IF op.k = "coordinator" THEN "FindCoordinatorRequest" ELSE "MetadataRequest"
QVal == IF op.k = "coordinator" THEN [Key |-> Ev(st).group, KeyType |-> 0] ELSE MetaReq(Ev(st).topics)
AskFits(e) == e.cid = ClientId /\ e.key = Key(op.k) /\ Fit(QType, e.ver, QVal, e.body)

\* a port in decimal
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Pick(s, P(_)) == {i \in 1..Len(s) : P(s[i])}
One(S) == CHOOSE i \in S : \A j \in S : i <= j
\* what the answer says about the node to dial: <<decision, node>>
NodeOf(v, id, d) ==
  LET B == Pick(v.Brokers.v, LAMBDA b : b.NodeId = id) IN
  IF B = {} THEN <<"none", <<>>>> ELSE LET b == v.Brokers.v[One(B)] IN <<d, <<b.Host, Dec(b.Port)>>>>
LeaderOf(v, topic, part) ==
  LET T == Pick(v.Topics.v, LAMBDA x : x.Name = topic) IN
  IF T = {} THEN <<"none", <<>>>>
  ELSE LET top == v.Topics.v[One(T)]
           P == Pick(top.Partitions.v, LAMBDA x : x.PartitionIndex = part) IN
       IF P = {} THEN <<"none", <<>>>>
       ELSE LET p == top.Partitions.v[One(P)] IN NodeOf(v, p.LeaderId, IF top.ErrorCode # 0 \/ p.ErrorCode # 0 THEN "may" ELSE "node")
Decision(e) ==
  IF e.how # "ok" \/ op.k = "metadata" THEN <<"none", <<>>>>
  ELSE IF op.k = "leader" THEN LeaderOf(e.val, Ev(st).topic, Ev(st).part)
  ELSE IF op.k = "controller" THEN NodeOf(e.val, IF e.ver = 0 THEN 0 ELSE e.val.ControllerId, IF e.ver = 0 THEN "may" ELSE "node")
  ELSE IF e.val.ErrorCode # 0 THEN <<"err", <<>>>> ELSE <<"node", <<e.val.Host, Dec(e.val.Port)>>>>

\* calls on held brokers
CallEv(c) == CHOOSE i \in 1..l : Ev(i).k = "invoke" /\ Ev(i).c = c
ReqType(c) == Ev(CallEv(c)).api \o "Request"
RespType(c) == Ev(CallEv(c)).api \o "Response"
CallFits(c, e) == e.cid = ClientId /\ Fit(ReqType(c), e.ver, Ev(CallEv(c)).val, e.body)
Waiting(n, key) == {c \in 1..Len(calls) : calls[c].st = "new" /\ calls[c].conn = n /\ calls[c].key = key}
Answered(n, id) == {c \in 1..Len(calls) : calls[c].st = "sent" /\ calls[c].conn = n /\ calls[c].id = id}
Answers(c) == {i \in 1..(l-1) : Ev(i).k = "resp" /\ Ev(i).n = calls[c].conn /\ Ev(i).id = calls[c].id}
GotIt(c, e) == LET ans == Answers(c) IN ans # {} /\ LET r == Ev(One(ans)) IN Same(RespType(c), r.ver, r.val, e.val)

Strict ==
  \/ Is("start") /\ Start(E.op, E.boot) /\ st' = l /\ told' = 0 /\ hb' = hb
  \/ Is("dial") /\ Dial(E.n, E.addr, <<E.host, E.port>>, E.ok) /\ Same3
  \/ Is("frame") /\ Same3 /\
       \/ E.key = 18 /\ Alive(E.n) /\ conns[E.n].ph = "new" /\ Hello(E.n, E.key, E.id, HelloFits(E))
       \/ op # Idle /\ op.stage = "ask" /\ Ask(E.n, E.key, E.ver, E.id, AskFits(E))
       \/ \E c \in Waiting(E.n, E.key) : Request(c, E.n, E.key, E.ver, E.id, CallFits(c, E))
  \/ Is("hi") /\ Hi(E.n, E.how, E.code, E.off) /\ Same3
  \/ Is("told") /\ LET d == Decision(E) IN Told(E.n, E.id, E.how, d[1], d[2]) /\ told' = l /\ UNCHANGED <<hb, st>>
  \/ Is("shut") /\ Shut(E.n) /\ Same3
  \/ Is("done") /\ Done(E.ok, op.k = "metadata" /\ E.ok /\ told # 0 => Same("MetadataResponse", Ev(told).ver, Ev(told).val, E.val))
                /\ (E.ok /\ Yields => ~E.nil)
                /\ hb' = (IF E.ok /\ Yields THEN Append(hb, op.conn) ELSE hb) /\ UNCHANGED <<st, told>>
  \/ Is("invoke") /\ Invoke(E.c, hb[E.b], E.key, E.oneway) /\ Same3
  \/ Is("resp") /\ (\E c \in Answered(E.n, E.id) : Response(c, E.n, E.id)) /\ Same3
  \/ Is("ret") /\ Return(E.c, E.ok, GotIt(E.c, E)) /\ Same3
  \/ Is("release") /\ Release(hb[E.b]) /\ Same3
  \/ Is("released") /\ Released(hb[E.b]) /\ Same3
  \/ Is("rest") /\ Rest(E.g, E.stuck) /\ Same3

\* ---- which properties a rejected observation breaks
Phase == IF op = Idle THEN "C19" ELSE IF op.k = "direct" THEN "C09" ELSE IF told # 0 /\ op.k # "metadata" /\ Ev(told).how = "ok" THEN "C17" ELSE "C18"
\* the frame or the result is that of another version
OtherFit(ty, ver, v, b) == \E w \in 0..MaxVersion(ty) : w # ver /\ Match(ty, w, v, b, 1, "strict") = Len(b) + 1
FrameBlame ==
  IF ~Alive(E.n) \/ conns[E.n].ph = "new" THEN {"C10"} \cup (IF op # Idle /\ op.k # "direct" THEN {"C18"} ELSE {})
  ELSE IF conns[E.n].ph = "asked" \/ conns[E.n].ph = "dead" THEN {Phase, "C10"}
  ELSE IF op # Idle THEN
    {"C18"} \cup (IF op.k \in Dials /\ E.key = Key(op.k) THEN {"C17"} ELSE {}) \cup (IF op.stage = "ask" /\ E.key = Key(op.k) /\ Advertised(conns[E.n].off, E.key) /\ E.ver # Version(conns[E.n].off, E.key) THEN {"C09"} ELSE {})
  ELSE LET W == Waiting(E.n, E.key) IN
    {"C10"}
    \cup (IF W # {} /\ Advertised(conns[E.n].off, E.key)
             /\ (E.ver # Version(conns[E.n].off, E.key) \/ \E c \in W : OtherFit(ReqType(c), E.ver, Ev(CallEv(c)).val, E.body)) THEN {"C09"} ELSE {})
    \cup (IF ~Fresh(E.n, E.id) THEN {"C04"} ELSE {})
RetBlame ==
  {"C10"} \cup
  (IF ~calls[E.c].oneway /\ calls[E.c].st = "told" /\ Answers(E.c) # {} THEN
     LET r == Ev(One(Answers(E.c)))  ty == RespType(E.c)
         b == Enc(ty, r.ver, r.val, "strict")
         others == (0..MaxVersion(ty)) \ {r.ver} IN
     IF \E w \in others : IF E.ok THEN Match(ty, w, E.val, b, 1, "lax") # 0 ELSE Walk(ty, w, b, 1) = 0 THEN {"C09"} ELSE {}
   ELSE IF calls[E.c].oneway THEN {"C22"} ELSE {})
  \cup (IF \E i \in 1..l : Ev(i).k = "start" /\ Ev(i).op \in Dials THEN {"C17"} ELSE {})
Honest == IF op.stage = "ok" THEN E.ok ELSE ~E.ok /\ op.stage \in {"fail", "may"}
Blame ==
  CASE E.k = "dial" -> IF op = Idle THEN {"C19"}
                       ELSE {Phase} \cup (IF op.k \in Dials /\ ~\E i \in 1..Len(op.boot) : op.boot[i] = E.addr THEN {"C17"} ELSE {})
    [] E.k \in {"frame", "junk"} -> IF E.k = "junk" THEN {"C04", "C10"} ELSE FrameBlame
    [] E.k = "shut" -> IF conns[E.n].held THEN {IF \E i \in 1..l : Ev(i).k = "start" /\ Ev(i).op \in Dials THEN "C17" ELSE "C10"} ELSE {Phase}
    [] E.k = "done" -> IF op = Idle THEN {} ELSE
         (IF Left \ (IF E.ok /\ Yields THEN {op.conn} ELSE {}) # {} THEN {"C19"} ELSE {})
         \cup (IF ~Honest THEN {Phase} \cup (IF op.k \in Dials THEN {"C17"} ELSE {})
               ELSE IF op.k = "metadata" THEN (IF Left = {} THEN {"C18"} ELSE {})
               ELSE IF E.ok /\ (E.nil \/ op.conn \notin Left) THEN {Phase} ELSE {})
    [] E.k = "ret" -> RetBlame
    [] E.k = "released" -> {"C06", "C19"}
    [] E.k = "rest" -> (IF E.stuck THEN (IF op # Idle THEN {Phase} ELSE {"C10"}) ELSE {"C19"})
    [] OTHER -> {}
Ids == <<"C04", "C06", "C09", "C10", "C17", "C18", "C19", "C22">>
Show(S) == LET G[k \in 0..Len(Ids)] == IF k = 0 THEN "" ELSE G[k-1] \o (IF Ids[k] \in S THEN "+" \o Ids[k] ELSE "") IN G[Len(Ids)]

\* A trace that breaks another property than the one in question is followed beyond
\* that point, as if the step had been allowed.
Lenient == IOEnv.LENIENT
Seen(n) == n \in 1..Len(conns)
LooseFrame ==
  LET W == Waiting(E.n, E.key) IN
  IF ~Seen(E.n) THEN UNCHANGED cvars
  ELSE IF conns[E.n].ph = "new" /\ E.key = 18 THEN Sent(E.n, E.id, "asked") /\ UNCHANGED <<op, calls>>
  ELSE IF op # Idle /\ op.conn = E.n /\ op.stage = "ask" /\ E.key \in {3, 10}
       THEN conns' = conns /\ op' = [op EXCEPT !.stage = "wait", !.qid = E.id] /\ UNCHANGED calls
  ELSE IF op = Idle /\ W # {}
       THEN calls' = [calls EXCEPT ![One(W)].st = "sent", ![One(W)].id = E.id] /\ UNCHANGED <<conns, op>>
  ELSE UNCHANGED cvars
LooseDial ==
  /\ conns' = Append(conns, IF E.ok THEN Conn0 ELSE [Conn0 EXCEPT !.ph = "dead", !.closed = TRUE])
  /\ op' = IF op = Idle THEN op
           ELSE IF op.stage \in {"target", "may"} \/ (told # 0 /\ op.k \in Dials)
           THEN [op EXCEPT !.stage = IF E.ok THEN "tnego" ELSE "fail", !.conn = E.n]
           ELSE [op EXCEPT !.stage = IF E.ok THEN "nego" ELSE "dial", !.conn = E.n, !.next = IF E.ok \/ @ >= Len(op.boot) THEN @ ELSE @ + 1]
  /\ UNCHANGED calls
LooseHi ==
  IF Seen(E.n) /\ E.how = "ok" THEN conns' = [conns EXCEPT ![E.n].ph = "ready", ![E.n].off = E.off] /\ UNCHANGED <<op, calls>> ELSE UNCHANGED cvars
LooseDone ==
  /\ op' = Idle /\ UNCHANGED calls
  /\ LET yes == E.ok /\ op # Idle /\ Yields  n == IF Seen(E.conn) THEN E.conn ELSE 0 IN
     /\ conns' = IF yes /\ n # 0 THEN [conns EXCEPT ![n].held = TRUE] ELSE conns
     /\ hb' = IF yes /\ ~E.nil THEN Append(hb, n) ELSE hb
Loose ==
  /\ More /\ l' = l + 1 /\ t' = t
  /\ CASE E.k = "frame" -> LooseFrame /\ Same3
       [] E.k = "dial" -> LooseDial /\ Same3
       [] E.k = "hi" -> LooseHi /\ Same3
       [] E.k = "told" -> UNCHANGED cvars /\ told' = l /\ UNCHANGED <<hb, st>>
       [] E.k = "shut" /\ Seen(E.n) -> conns' = [conns EXCEPT ![E.n].closed = TRUE] /\ UNCHANGED <<op, calls>> /\ Same3
       [] E.k = "done" -> LooseDone /\ UNCHANGED <<st, told>>
       [] E.k = "resp" -> calls' = [c \in 1..Len(calls) |-> IF c \in Answered(E.n, E.id) THEN [calls[c] EXCEPT !.st = "told"] ELSE calls[c]] /\ UNCHANGED <<conns, op>> /\ Same3
       [] E.k = "ret" /\ E.c \in 1..Len(calls) -> calls' = [calls EXCEPT ![E.c].st = "done"] /\ UNCHANGED <<conns, op>> /\ Same3
       [] E.k = "start" -> FALSE
       [] E.k = "invoke" -> FALSE
       [] OTHER -> UNCHANGED cvars /\ Same3
TraceNext == Strict \/ (Lenient # "" /\ More /\ ~ENABLED Strict /\ Lenient \notin Blame /\ Loose)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == (More /\ ~ENABLED TraceNext) => PrintT("REJECT " \o ToString(t) \o " " \o ToString(l) \o " " \o Show(Blame))
Inv == TRUE
=============================================================================
