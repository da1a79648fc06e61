------------------------------- MODULE Cluster -------------------------------
(***************************************************************************)
(* Brokers and clients as their user and the network see them.             *)
(*                                                                         *)
(* One operation at a time is in progress (op): opening a broker directly, *)
(* or one of the client's operations - a metadata query, or dialling the   *)
(* leader of a partition, the controller or a group coordinator.  A client *)
(* operation first gets hold of a bootstrap server, asks its question,     *)
(* and - when dialling - connects to the node the answer names.            *)
(* Brokers that were returned are held until closed; calls on them are in  *)
(* `calls'.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Negotiate

VARIABLES
  conns,    \* every connection opened: [ph, off, ids, closed, held]
  op,       \* the operation in progress, or Idle
  calls     \* calls on held brokers: c -> [conn, key, id, st, rep]
cvars == <<conns, op, calls>>

Idle == [k |-> "idle"]
CInit == conns = <<>> /\ op = Idle /\ calls = <<>>

\* op stages
\*   dial    the next bootstrap server has to be dialled
\*   nego    connected to a server, versions being negotiated
\*   ask     negotiated: the question has to be asked
\*   wait    asked
\*   target  the answer names a node: it has to be dialled
\*   may     the answer names a node but also reports an error: dial it or give up
\*   tnego   connected to that node, versions being negotiated
\*   ok, fail  what the operation has to report
Dials == {"leader", "controller", "coordinator"}
Key(k) == IF k = "coordinator" THEN 10 ELSE 3
\* boot: the addresses to try; for a direct open just the one
Start(k, boot) ==
  /\ op = Idle
  /\ op' = [k |-> k, boot |-> boot, next |-> 1, conn |-> 0, qid |-> 0,
            stage |-> IF boot = <<>> THEN "fail" ELSE "dial", node |-> <<>>]
  /\ UNCHANGED <<conns, calls>>

Conn0 == [ph |-> "new", off |-> <<>>, ids |-> {}, closed |-> FALSE, held |-> FALSE]
NextServer == IF op.next + 1 > Len(op.boot) THEN [op EXCEPT !.stage = "fail", !.next = @ + 1]
              ELSE [op EXCEPT !.stage = "dial", !.next = @ + 1]
\* the server or node being negotiated with turned out to be unusable
GiveUp == IF op.stage = "tnego" THEN [op EXCEPT !.stage = "fail"] ELSE NextServer

\* addr: as dialled; node: <<host, port>> as dialled
Dial(n, addr, node, ok) ==
  /\ op # Idle /\ n = Len(conns) + 1
  /\ \/ /\ op.stage = "dial" /\ addr = op.boot[op.next]
        /\ op' = IF ok THEN [op EXCEPT !.stage = "nego", !.conn = n] ELSE NextServer
     \/ /\ op.stage \in {"target", "may"} /\ node = op.node
        /\ op' = IF ok THEN [op EXCEPT !.stage = "tnego", !.conn = n] ELSE [op EXCEPT !.stage = "fail"]
  /\ conns' = Append(conns, IF ok THEN Conn0 ELSE [Conn0 EXCEPT !.ph = "dead", !.closed = TRUE])
  /\ UNCHANGED calls

Alive(n) == n \in 1..Len(conns) /\ ~conns[n].closed
Fresh(n, id) == id \notin conns[n].ids
Sent(n, id, ph) == conns' = [conns EXCEPT ![n].ids = @ \cup {id}, ![n].ph = ph]

\* the negotiation request
Hello(n, key, id, fits) ==
  /\ Alive(n) /\ conns[n].ph = "new" /\ key = 18 /\ fits
  /\ Sent(n, id, "asked") /\ UNCHANGED <<op, calls>>
\* ... and what became of it; how # "ok": no (intelligible) answer
Hi(n, how, code, off) ==
  /\ op # Idle /\ op.conn = n /\ op.stage \in {"nego", "tnego"}
  /\ conns[n].ph = "asked" \/ (conns[n].ph = "new" /\ how # "ok")
  /\ IF how = "ok" /\ Acceptable(code, off)
     THEN /\ conns' = [conns EXCEPT ![n].ph = "ready", ![n].off = off]
          /\ op' = [op EXCEPT !.stage = IF op.k = "direct" \/ op.stage = "tnego" THEN "ok" ELSE "ask"]
     ELSE conns' = [conns EXCEPT ![n].ph = "dead"] /\ op' = GiveUp
  /\ UNCHANGED calls

RightVersion(n, key, ver) == Advertised(conns[n].off, key) => ver = Version(conns[n].off, key)
\* the operation's question; fits: the frame's body is the question at that version
Ask(n, key, ver, id, fits) ==
  /\ op # Idle /\ op.stage = "ask" /\ op.conn = n /\ key = Key(op.k) /\ fits
  /\ Fresh(n, id) /\ RightVersion(n, key, ver)
  /\ Sent(n, id, "ready") /\ op' = [op EXCEPT !.stage = "wait", !.qid = id] /\ UNCHANGED calls
\* the answer; how # "ok": the connection broke or the answer is unintelligible.
\* dec: "none" the answer names no node, "err" it reports an error, "may", "node"
Told(n, id, how, dec, node) ==
  /\ op # Idle /\ op.stage \in {"ask", "wait"} /\ op.conn = n
  /\ ((op.stage = "wait" /\ id = op.qid) \/ how # "ok")
  /\ op' = IF how # "ok" THEN [op EXCEPT !.stage = "fail"]
           ELSE IF op.k = "metadata" THEN [op EXCEPT !.stage = "ok"]
           ELSE IF dec \in {"none", "err"} THEN [op EXCEPT !.stage = "fail"]
           ELSE [op EXCEPT !.stage = IF dec = "may" THEN "may" ELSE "target", !.node = node]
  /\ UNCHANGED <<conns, calls>>

\* A connection may be closed as soon as it is of no further use, and not before.
Useful(n) ==
  \/ conns[n].held
  \/ op # Idle /\ op.conn = n
     /\ (op.stage \in {"nego", "tnego", "ask", "wait"} \/ (op.stage = "ok" /\ op.k # "metadata"))
Shut(n) == Alive(n) /\ ~Useful(n) /\ conns' = [conns EXCEPT ![n].closed = TRUE] /\ UNCHANGED <<op, calls>>

\* Nothing the operation opened on its own behalf may be left
Left == {n \in 1..Len(conns) : ~conns[n].closed /\ ~conns[n].held}
Yields == op.k # "metadata"
\* same: for a metadata query, the answer returned is the answer given
Done(ok, same) ==
  /\ op # Idle
  /\ ((op.stage = "ok" /\ ok /\ same) \/ (op.stage \in {"fail", "may"} /\ ~ok))
  /\ Left = IF ok /\ Yields THEN {op.conn} ELSE {}
  /\ conns' = IF ok /\ Yields THEN [conns EXCEPT ![op.conn].held = TRUE] ELSE conns
  /\ op' = Idle /\ UNCHANGED calls

---------------------------------------------------------------- \* held brokers
\* oneway: no answer is to be expected
Invoke(c, n, key, oneway) ==
  /\ c = Len(calls) + 1 /\ n \in 1..Len(conns) /\ conns[n].held
  /\ calls' = Append(calls, [conn |-> n, key |-> key, id |-> 0, st |-> "new", oneway |-> oneway])
  /\ UNCHANGED <<conns, op>>
\* c's request; fits: the body is c's request encoded at that version
Request(c, n, key, ver, id, fits) ==
  /\ c \in 1..Len(calls) /\ calls[c].st = "new" /\ calls[c].conn = n /\ calls[c].key = key /\ fits
  /\ Alive(n) /\ Fresh(n, id) /\ RightVersion(n, key, ver)
  /\ Sent(n, id, "ready")
  /\ calls' = [calls EXCEPT ![c].st = "sent", ![c].id = id] /\ UNCHANGED op
Response(c, n, id) ==
  /\ c \in 1..Len(calls) /\ calls[c].st = "sent" /\ calls[c].conn = n /\ calls[c].id = id
  /\ calls' = [calls EXCEPT ![c].st = "told"] /\ UNCHANGED <<conns, op>>
Return(c, ok, same) ==
  /\ c \in 1..Len(calls) /\ ok
  /\ IF calls[c].oneway THEN calls[c].st = "sent" ELSE calls[c].st = "told" /\ same
  /\ calls' = [calls EXCEPT ![c].st = "done"] /\ UNCHANGED <<conns, op>>

\* the user closes a held broker
Release(n) == n \in 1..Len(conns) /\ conns[n].held /\ conns' = [conns EXCEPT ![n].held = FALSE] /\ UNCHANGED <<op, calls>>
Released(n) == conns[n].closed /\ UNCHANGED cvars
\* somebody owes the library an answer
Owed ==
  \/ op # Idle /\ (op.stage = "wait" \/ (op.stage \in {"nego", "tnego"} /\ conns[op.conn].ph = "asked"))
  \/ \E c \in 1..Len(calls) : calls[c].st = "sent" /\ ~calls[c].oneway
\* everything has come to rest: g background goroutines; stuck: with an operation or a call unfinished
Rest(g, stuck) ==
  IF stuck THEN Owed /\ UNCHANGED cvars ELSE
  /\ op = Idle
  /\ Left = {} /\ ((\A n \in 1..Len(conns) : conns[n].closed) => g = 0)
  /\ UNCHANGED cvars
=============================================================================
