----------------------------- MODULE ParallelAlg -----------------------------
(* The client's algorithm as implemented, with several operations of one client in     *)
(* progress at the same time: every observable step has to be allowed by Parallel.     *)
(* Variants share state between the operations, as a defective client might:           *)
(* "meta" the answer is kept in the client, "conn" the bootstrap broker is,            *)
(* "index" the position in the bootstrap list is.                                      *)
EXTENDS Parallel, TLC
CONSTANTS Variant, NBoot, NOps
VARIABLES p,      \* per operation [pc, i, cur, ok, node]
          shared, \* what a defective client shares
          bad
avars == <<pvars, p, shared, bad>>
S == <<"s1", "s2", "s3">>
NodeFor(o) == <<<<"n", o>>, 1>>
P0 == [pc |-> "idle", i |-> 1, cur |-> 0, ok |-> FALSE, node |-> <<>>]
Init == PInit /\ p = [o \in 1..NOps |-> P0] /\ shared = [node |-> <<>>, conn |-> 0, i |-> 1] /\ bad = FALSE
Setup == boot = <<>> /\ at = <<>> /\ ops = <<>> /\ ~bad /\ Client(SubSeq(S, 1, NBoot)) /\ UNCHANGED <<p, shared, bad>>
\* do A if the specification allows it, else record that it does not; q: the operation's next state
Try(Act, o, q) ==
  /\ ~bad
  /\ \/ Act /\ bad' = FALSE /\ p' = [p EXCEPT ![o] = q]
     \/ ~ENABLED Act /\ bad' = TRUE /\ UNCHANGED <<pvars, p>>
At(o, pc) == p[o].pc = pc
To(o, pc) == [p[o] EXCEPT !.pc = pc]
Keep == shared' = shared
Cur(o) == IF Variant = "conn" THEN shared.conn ELSE p[o].cur
Begin(o) == /\ At(o, "idle") /\ at # <<>> /\ o = Len(ops) + 1
            /\ \E k \in {"leader", "metadata"} : Try(Start(o, k), o, To(o, "boot")) /\ Keep
Pos(o) == IF Variant = "index" THEN shared.i ELSE p[o].i
Boot(o) ==
  /\ At(o, "boot")
  /\ IF Pos(o) > Len(boot) THEN p' = [p EXCEPT ![o] = To(o, "ret")] /\ UNCHANGED <<pvars, shared, bad>>
     ELSE \E ok \in BOOLEAN :
       /\ Try(DialBoot(Len(conns) + 1, boot[Pos(o)], ok), o,
              [p[o] EXCEPT !.pc = IF ok THEN "hello" ELSE "boot", !.cur = Len(conns) + 1, !.i = IF ok THEN @ ELSE @ + 1])
       /\ shared' = [shared EXCEPT !.conn = Len(conns) + 1, !.i = IF ok THEN @ ELSE @ + 1]
HelloStep(o) == (At(o, "hello") \/ At(o, "thello")) /\ Try(Hello(p[o].cur, 18, 1, TRUE), o, To(o, IF At(o, "hello") THEN "hi" ELSE "thi")) /\ Keep
HiStep(o) ==
  /\ At(o, "hi") \/ At(o, "thi")
  /\ \E good \in BOOLEAN :
       Try(Hi(p[o].cur, IF good THEN "ok" ELSE "eof", 0, <<>>), o,
           [p[o] EXCEPT !.pc = IF At(o, "hi") THEN (IF good THEN "ask" ELSE "drop") ELSE IF good THEN "ret" ELSE "tdrop",
                        !.ok = good /\ At(o, "thi"), !.i = IF good \/ At(o, "thi") THEN @ ELSE @ + 1])
  /\ Keep
Drop(o) == (At(o, "drop") \/ At(o, "tdrop")) /\ Try(Shut(p[o].cur), o, To(o, IF At(o, "drop") THEN "boot" ELSE "ret")) /\ Keep
AskStep(o) == At(o, "ask") /\ Try(Ask(o, Cur(o), Key(ops[o].k), 0, 2, TRUE), o, To(o, "told")) /\ Keep
ToldStep(o) ==
  /\ At(o, "told") /\ ops[o].conn # 0
  /\ \E how \in {"ok", "eof"}, dec \in {"none", "node"} :
       LET nd == IF how = "ok" /\ dec = "node" /\ Yields(o) THEN NodeFor(o) ELSE <<>> IN
       /\ Try(Told(o, ops[o].conn, 2, how, dec, NodeFor(o)), o, [p[o] EXCEPT !.pc = "shut", !.ok = (how = "ok" /\ ~Yields(o)), !.node = nd])
       /\ shared' = [shared EXCEPT !.node = nd]
ShutStep(o) == At(o, "shut") /\ Try(Shut(Cur(o)), o, To(o, "after")) /\ Keep
After(o) ==
  /\ At(o, "after")
  /\ LET nd == IF Variant = "meta" THEN shared.node ELSE p[o].node IN
     p' = [p EXCEPT ![o] = [@ EXCEPT !.pc = IF ~Yields(o) \/ nd = <<>> THEN "ret" ELSE "tdial", !.node = nd]]
  /\ UNCHANGED <<pvars, shared, bad>>
TDial(o) == /\ At(o, "tdial")
            /\ \E ok \in BOOLEAN : Try(DialNode(Len(conns) + 1, p[o].node, ok), o, [p[o] EXCEPT !.pc = IF ok THEN "thello" ELSE "ret", !.cur = Len(conns) + 1])
            /\ Keep
RetStep(o) == At(o, "ret") /\ Try(Done(o, p[o].ok, TRUE), o, To(o, IF p[o].ok /\ Yields(o) THEN "held" ELSE "end")) /\ Keep
Close1(o) == At(o, "held") /\ Try(Release(o), o, To(o, "close")) /\ Keep
Close2(o) == At(o, "close") /\ Try(Shut(p[o].cur), o, To(o, "end")) /\ Keep
Step(o) == Begin(o) \/ Boot(o) \/ HelloStep(o) \/ HiStep(o) \/ Drop(o) \/ AskStep(o) \/ ToldStep(o) \/ ShutStep(o) \/ After(o) \/ TDial(o) \/ RetStep(o) \/ Close1(o) \/ Close2(o)
Next == Setup \/ \E o \in 1..NOps : Step(o)
Spec == Init /\ [][Next]_avars /\ WF_avars(Next)
Allowed == ~bad
AllEnd == \A o \in 1..NOps : p[o].pc = "end"
NoLeak == AllEnd => ENABLED Rest(0, FALSE)
Ends == <>(bad \/ AllEnd)
=============================================================================
