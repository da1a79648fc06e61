------------------------------- MODULE Parallel -------------------------------
(***************************************************************************)
(* Operations of one client that overlap in time (Cluster has them one     *)
(* after the other).  Each operation gets hold of a bootstrap server, asks *)
(* its own question, and - when dialling - connects to the node named in   *)
(* the answer to *its* question.                                           *)
(*                                                                         *)
(* Until it has asked its question an operation cannot be told from the    *)
(* others by looking at the network, so at[i] only counts the operations   *)
(* that still have to dial bootstrap server i, and failed those that found *)
(* none.  The questions of overlapping operations are distinct, and so are *)
(* the nodes in the answers.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Negotiate

VARIABLES
  boot,     \* the bootstrap servers, distinct
  ops,      \* per operation [k, st, conn, qid, node, tconn]
  at,       \* at[i]: operations that have to dial server i next
  failed,   \* operations that have run out of servers, and have not reported it yet
  conns     \* per connection [role, pos, op, ph, off, ids, closed, held]
pvars == <<boot, ops, at, failed, conns>>

PInit == boot = <<>> /\ ops = <<>> /\ at = <<>> /\ failed = 0 /\ conns = <<>>
\* op.st:  boot -> wait -> target | may -> tnego -> ok | fail -> done
Running == {o \in 1..Len(ops) : ops[o].st # "done"}
Key(k) == IF k = "coordinator" THEN 10 ELSE 3

Client(b) == ops = <<>> /\ boot' = b /\ at' = [i \in 1..Len(b) |-> 0] /\ UNCHANGED <<ops, failed, conns>>
Start(o, k) ==
  /\ o = Len(ops) + 1
  /\ ops' = Append(ops, [k |-> k, st |-> "boot", conn |-> 0, qid |-> 0, node |-> <<>>, tconn |-> 0])
  /\ IF boot = <<>> THEN failed' = failed + 1 /\ at' = at ELSE at' = [at EXCEPT ![1] = @ + 1] /\ failed' = failed
  /\ UNCHANGED <<boot, conns>>

\* an operation has found server i unusable
Onward(i, a) == IF i = Len(boot) THEN at' = a /\ failed' = failed + 1 ELSE at' = [a EXCEPT ![i + 1] = @ + 1] /\ failed' = failed
New(role, pos, o, ok) == [role |-> role, pos |-> pos, op |-> o, ph |-> IF ok THEN "new" ELSE "dead", off |-> <<>>, ids |-> {}, closed |-> ~ok, held |-> FALSE]

DialBoot(n, addr, ok) ==
  /\ n = Len(conns) + 1
  /\ \E i \in 1..Len(boot) :
       /\ boot[i] = addr /\ at[i] > 0
       /\ conns' = Append(conns, New("boot", i, 0, ok))
       /\ IF ok THEN at' = [at EXCEPT ![i] = @ - 1] /\ failed' = failed ELSE Onward(i, [at EXCEPT ![i] = @ - 1])
  /\ UNCHANGED <<boot, ops>>
Wanting(node) == {o \in 1..Len(ops) : ops[o].st \in {"target", "may"} /\ ops[o].node = node}
DialNode(n, node, ok) ==
  /\ n = Len(conns) + 1
  /\ \E o \in Wanting(node) :
       /\ conns' = Append(conns, New("node", 0, o, ok))
       /\ ops' = [ops EXCEPT ![o].st = IF ok THEN "tnego" ELSE "fail", ![o].tconn = n]
  /\ UNCHANGED <<boot, at, failed>>

Alive(n) == n \in 1..Len(conns) /\ ~conns[n].closed
Fresh(n, id) == id \notin conns[n].ids
Hello(n, key, id, fits) ==
  /\ Alive(n) /\ conns[n].ph = "new" /\ key = 18 /\ fits
  /\ conns' = [conns EXCEPT ![n].ph = "asked", ![n].ids = {id}]
  /\ UNCHANGED <<boot, ops, at, failed>>
Hi(n, how, code, off) ==
  /\ n \in 1..Len(conns) /\ (conns[n].ph = "asked" \/ (conns[n].ph = "new" /\ how # "ok"))
  /\ LET good == how = "ok" /\ Acceptable(code, off)  c == conns[n] IN
     /\ conns' = [conns EXCEPT ![n].ph = IF good THEN "ready" ELSE "dead", ![n].off = IF good THEN off ELSE @]
     /\ IF c.role = "node"
        THEN ops' = [ops EXCEPT ![c.op].st = IF good THEN "ok" ELSE "fail"] /\ UNCHANGED <<at, failed>>
        ELSE /\ IF good THEN UNCHANGED <<at, failed>> ELSE Onward(c.pos, at)
             /\ ops' = ops
  /\ UNCHANGED boot

RightVersion(n, key, ver) == Advertised(conns[n].off, key) => ver = Version(conns[n].off, key)
\* operation o's question
Ask(o, n, key, ver, id, fits) ==
  /\ o \in 1..Len(ops) /\ ops[o].st = "boot" /\ key = Key(ops[o].k) /\ fits
  /\ Alive(n) /\ conns[n].role = "boot" /\ conns[n].ph = "ready" /\ conns[n].op = 0
  /\ Fresh(n, id) /\ RightVersion(n, key, ver)
  /\ conns' = [conns EXCEPT ![n].op = o, ![n].ids = @ \cup {id}]
  /\ ops' = [ops EXCEPT ![o].st = "wait", ![o].conn = n, ![o].qid = id]
  /\ UNCHANGED <<boot, at, failed>>
Told(o, n, id, how, dec, node) ==
  /\ ops[o].st = "wait" /\ ops[o].conn = n /\ ops[o].qid = id
  /\ ops' = [ops EXCEPT ![o].node = node,
              ![o].st = IF how # "ok" THEN "fail" ELSE IF ops[o].k = "metadata" THEN "ok"
                        ELSE IF dec \in {"none", "err"} THEN "fail" ELSE IF dec = "may" THEN "may" ELSE "target"]
  /\ conns' = [conns EXCEPT ![n].ph = "spent"]
  /\ UNCHANGED <<boot, at, failed>>

Useful(n) == conns[n].held \/ (conns[n].ph \notin {"dead", "spent"} /\ (conns[n].op = 0 \/ ops[conns[n].op].st # "done"))
Shut(n) == Alive(n) /\ ~Useful(n) /\ conns' = [conns EXCEPT ![n].closed = TRUE] /\ UNCHANGED <<boot, ops, at, failed>>

Yields(o) == ops[o].k # "metadata"
Done(o, ok, same) ==
  /\ o \in Running
  /\ \/ ops[o].st = "boot" /\ failed > 0 /\ ~ok /\ failed' = failed - 1
     \/ ops[o].st = "ok" /\ ok /\ same /\ failed' = failed
     \/ ops[o].st \in {"fail", "may"} /\ ~ok /\ failed' = failed
  \* what it opened is closed
  /\ ops[o].conn # 0 => conns[ops[o].conn].closed
  /\ ops[o].tconn # 0 => conns[ops[o].tconn].closed = ~ok
  /\ conns' = IF ok /\ Yields(o) THEN [conns EXCEPT ![ops[o].tconn].held = TRUE] ELSE conns
  /\ ops' = [ops EXCEPT ![o].st = "done"]
  /\ UNCHANGED <<boot, at>>

\* the broker operation o returned
Held(o) == o \in 1..Len(ops) /\ ops[o].tconn # 0 /\ conns[ops[o].tconn].held
Request(o, n, key, ver, id, fits) ==
  /\ Held(o) /\ n = ops[o].tconn /\ Alive(n) /\ fits /\ Fresh(n, id) /\ RightVersion(n, key, ver)
  /\ conns' = [conns EXCEPT ![n].ids = @ \cup {id}] /\ UNCHANGED <<boot, ops, at, failed>>
Release(o) == Held(o) /\ conns' = [conns EXCEPT ![ops[o].tconn].held = FALSE, ![ops[o].tconn].ph = "spent"] /\ UNCHANGED <<boot, ops, at, failed>>
Released(o) == conns[ops[o].tconn].closed /\ UNCHANGED pvars

Left == {n \in 1..Len(conns) : ~conns[n].closed /\ ~conns[n].held}
\* everything has come to rest; no server owes an answer in these scenarios
Rest(g, stuck) ==
  /\ ~stuck /\ Running = {} /\ Left = {} /\ failed = 0
  /\ (\A n \in 1..Len(conns) : conns[n].closed) => g = 0
  /\ UNCHANGED pvars
=============================================================================
