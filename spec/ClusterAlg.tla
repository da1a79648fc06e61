------------------------------ MODULE ClusterAlg ------------------------------
(* The client's algorithm as implemented (client.go, NewBroker), with every outcome   *)
(* the servers can have.  Each observable step has to be allowed by Cluster.           *)
EXTENDS Cluster, TLC
CONSTANTS Variant, NBoot, NOps
VARIABLES pc, i, cur, ok, node, bad, n
avars == <<cvars, pc, i, cur, ok, node, bad, n>>
S == <<"s1", "s2", "s3">>
Nodes == {<<"n1", 1>>, <<"n2", 2>>}
Kinds == Dials \cup {"metadata", "direct"}
Init == CInit /\ pc = "idle" /\ i = 1 /\ cur = 0 /\ ok = FALSE /\ node = <<>> /\ bad = FALSE /\ n = 0
\* do A if the specification allows it, else record that it does not
Try(Act, p) == /\ ~bad
             /\ \/ Act /\ bad' = FALSE /\ pc' = p
                \/ ~ENABLED Act /\ bad' = TRUE /\ UNCHANGED cvars /\ pc' = "bad"
Begin == /\ pc = "idle" /\ n < NOps
         /\ \E k \in Kinds, m \in 0..NBoot :
              /\ k = "direct" => m = 1
              /\ (IF Variant = "emptyok" /\ m = 0 /\ k = "metadata" THEN Try(Start(k, SubSeq(S, 1, m)), "ret") /\ ok' = TRUE ELSE Try(Start(k, SubSeq(S, 1, m)), "boot") /\ ok' = FALSE)
         /\ i' = 1 /\ cur' = 0 /\ node' = <<>> /\ n' = n + 1
Boot == /\ pc = "boot"
        /\ IF i > Len(op.boot) THEN pc' = "ret" /\ UNCHANGED <<cvars, i, cur, bad>>
           ELSE \E o \in BOOLEAN :
                /\ Try(Dial(Len(conns) + 1, IF Variant = "skip" /\ Len(op.boot) > 1 THEN op.boot[Len(op.boot) + 1 - i] ELSE op.boot[i], <<>>, o),
                       IF o THEN "hello" ELSE IF Variant = "nofailover" THEN "ret" ELSE "boot")
                /\ cur' = Len(conns) + 1 /\ i' = IF o THEN i ELSE i + 1
        /\ UNCHANGED <<ok, node, n>>
HelloStep == pc \in {"hello", "thello"} /\ Try(Hello(cur, 18, 1, TRUE), IF pc = "hello" THEN "hi" ELSE "thi") /\ UNCHANGED <<i, cur, ok, node, n>>
HiStep == /\ pc \in {"hi", "thi"}
          /\ \E h \in {"ok", "code", "lost"} :
               /\ Try(Hi(cur, IF h = "lost" THEN "eof" ELSE "ok", IF h = "code" THEN 35 ELSE 0, <<>>),
                      IF h = "ok" \/ (h = "code" /\ Variant = "nocode")
                      THEN (IF pc = "thi" \/ op.k = "direct" THEN "ret" ELSE "ask")
                      ELSE IF Variant = "leaknego" THEN (IF pc = "thi" THEN "ret" ELSE "boot")
                      ELSE (IF pc = "thi" THEN "tdrop" ELSE "drop"))
               /\ ok' = (h = "ok" /\ (pc = "thi" \/ op.k = "direct"))
               /\ i' = IF pc = "hi" /\ h # "ok" THEN i + 1 ELSE i
          /\ UNCHANGED <<cur, node, n>>
Drop == pc \in {"drop", "tdrop"} /\ Try(Shut(cur), IF pc = "drop" THEN "boot" ELSE "ret") /\ UNCHANGED <<i, cur, ok, node, n>>
AskStep == pc = "ask" /\ Try(Ask(cur, Key(op.k), 0, 2, TRUE), "told") /\ UNCHANGED <<i, cur, ok, node, n>>
ToldStep == /\ pc = "told"
            /\ \E h \in {"ok", "lost"}, d \in {"none", "err", "node", "may"}, x \in Nodes :
                 /\ Try(Told(cur, 2, h, d, x),
                        IF h = "lost" /\ Variant = "reask" THEN "dropask" ELSE IF Variant = "leakboot" THEN "after" ELSE "shut")
                 /\ ok' = (h = "ok" /\ op.k = "metadata")
                 /\ node' = IF h = "lost" \/ op.k = "metadata" \/ d = "none" \/ (d = "err" /\ Variant # "noerr") THEN <<>>
                            ELSE IF Variant = "wrongnode" /\ d = "node" THEN <<"n1", 1>> ELSE x
            /\ UNCHANGED <<i, cur, n>>
Reask == pc = "dropask" /\ Try(Shut(cur), "boot") /\ i' = i + 1 /\ UNCHANGED <<cur, ok, node, n>>
ShutStep == pc = "shut" /\ Try(Shut(cur), "after") /\ UNCHANGED <<i, cur, ok, node, n>>
After == pc = "after" /\ pc' = (IF node = <<>> THEN "ret" ELSE "tdial") /\ UNCHANGED <<cvars, i, cur, ok, node, bad, n>>
TDial == /\ pc = "tdial"
         /\ \E o \in BOOLEAN : Try(Dial(Len(conns) + 1, "", node, o), IF o THEN "thello" ELSE "ret") /\ cur' = Len(conns) + 1
         /\ UNCHANGED <<i, ok, node, n>>
RetStep == pc = "ret" /\ Try(Done(ok, TRUE), IF ok /\ op.k # "metadata" THEN "held" ELSE "idle") /\ UNCHANGED <<i, cur, ok, node, n>>
Close1 == pc = "held" /\ Try(Release(cur), "close") /\ UNCHANGED <<i, cur, ok, node, n>>
Close2 == pc = "close" /\ Try(Shut(cur), "idle") /\ UNCHANGED <<i, cur, ok, node, n>>
Next == Begin \/ Boot \/ HelloStep \/ HiStep \/ Drop \/ AskStep \/ ToldStep \/ Reask \/ ShutStep \/ After \/ TDial \/ RetStep \/ Close1 \/ Close2
Spec == Init /\ [][Next]_avars /\ WF_avars(Next)
Allowed == ~bad
NoLeak == pc = "idle" => \A k \in 1..Len(conns) : conns[k].closed
Ends == (pc # "idle") ~> (pc \in {"idle", "bad"})
=============================================================================
