----------------------------- MODULE TransportAlg -----------------------------
(* Option application and dialling as implemented - one option after the other, a TCP *)
(* connection through the dialer, then the handshake; a client dials a bootstrap       *)
(* server and then a node with the same options - for every option sequence and peers. *)
EXTENDS Transport, TLC
CONSTANTS Variant, MaxOpts
VARIABLES opts, peers, i, cfg, at, stage, seen, ok
vars == <<opts, peers, i, cfg, at, stage, seen, ok>>
D(n) == [o |-> "dialer", nil |-> FALSE, from |-> n, refuse |-> FALSE, takes |-> 0, limit |-> 0, names |-> FALSE]
T(ca, skip, sni, max) == [o |-> "tls", nil |-> FALSE, roots |-> <<ca>>, skip |-> skip, sni |-> sni, max |-> max, cert |-> FALSE]
Opts == {D(11), D(12), [D(13) EXCEPT !.refuse = TRUE], [D(14) EXCEPT !.takes = 2, !.limit = 1], [D(15) EXCEPT !.names = TRUE, !.takes = 1, !.limit = 9], [D(1) EXCEPT !.nil = TRUE],
         T("A", FALSE, "", 13), T("B", FALSE, "k", 12), T("B", TRUE, "", 13), NoTLS}
P(k, ca, dns, ip, min) == [name |-> "", kind |-> k, ca |-> ca, dns |-> dns, ip |-> ip, min |-> min, want |-> FALSE]
Peers == {[P("tls", "A", <<"n">>, FALSE, 12) EXCEPT !.name = "n"], [P("plain", "", <<>>, FALSE, 12) EXCEPT !.name = "n"], P("plain", "", <<>>, FALSE, 12), P("tls", "A", <<"k">>, TRUE, 12), P("tls", "A", <<>>, FALSE, 13), P("both", "B", <<"k">>, FALSE, 13), P("eof", "", <<>>, FALSE, 12)}
Init == /\ opts \in UNION {[1..n -> Opts] : n \in 0..MaxOpts}
        /\ peers \in [1..2 -> Peers]
        /\ i = 1 /\ cfg = Config0 /\ at = 1 /\ stage = "opts" /\ seen = <<>> /\ ok = "?"
Step1(c, o) ==
  CASE Variant = "first" -> IF o.o = "tls" THEN (IF c.tls.nil THEN [c EXCEPT !.tls = o] ELSE c) ELSE Apply(c, o)
    [] Variant = "keepnil" -> IF o.nil THEN c ELSE Apply(c, o)
    [] OTHER -> Apply(c, o)
Option == /\ stage = "opts" /\ i <= Len(opts) /\ cfg' = Step1(cfg, opts[i]) /\ i' = i + 1
          /\ UNCHANGED <<opts, peers, at, stage, seen, ok>>
Ready == stage = "opts" /\ i > Len(opts) /\ stage' = "dial" /\ UNCHANGED <<opts, peers, i, cfg, at, seen, ok>>
Used == IF Variant = "target" /\ at = 2 THEN Config0 ELSE cfg   \* the options are forgotten for nodes
From == IF Variant = "nodialer" /\ Secure(cfg) THEN 1 ELSE Used.dialer.from
Fail == stage' = "end" /\ ok' = "fail"
\* a defective dial that leaves parts of the dialer behind
Dialer == CASE Variant = "nolimit" -> [Used.dialer EXCEPT !.limit = 0]
            [] Variant = "noresolver" -> [Used.dialer EXCEPT !.names = FALSE]
            [] OTHER -> Used.dialer
Refused == ~Dials(Dialer, peers[at])
\* a defective dial that looks the host up first and verifies the address
Met == IF Variant = "lookup" THEN [peers[at] EXCEPT !.name = ""] ELSE peers[at]
Dial == /\ stage = "dial"
        /\ IF Refused THEN Fail /\ UNCHANGED <<seen>>
           ELSE IF Secure(Used) THEN
             LET h == Handshake(Used, Met)
                 x == [at |-> at, from |-> From, bytes |-> "tls", hs |-> IF h THEN "ok" ELSE "fail", sni |-> IF Used.tls.sni # "" THEN Used.tls.sni ELSE Met.name, ver |-> Used.tls.max, cert |-> FALSE, asked |-> IF h THEN 1 ELSE 0] IN
             /\ seen' = Append(seen, x)
             /\ IF h THEN stage' = "up" /\ ok' = ok ELSE IF Variant = "fallback" THEN stage' = "plain" /\ ok' = ok ELSE Fail
           ELSE stage' = "plain" /\ UNCHANGED <<seen, ok>>
        /\ UNCHANGED <<opts, peers, i, cfg, at>>
Plain == /\ stage = "plain"
         /\ seen' = Append(seen, [at |-> at, from |-> From, bytes |-> "plain", hs |-> "-", sni |-> "", ver |-> 0, cert |-> FALSE, asked |-> 1])
         /\ IF peers[at].kind \in {"plain", "both"} THEN stage' = "up" /\ ok' = ok ELSE Fail
         /\ UNCHANGED <<opts, peers, i, cfg, at>>
Up == /\ stage = "up"
      /\ IF at = 1 THEN at' = 2 /\ stage' = "dial" /\ ok' = ok ELSE at' = at /\ stage' = "end" /\ ok' = "ok"
      /\ UNCHANGED <<opts, peers, i, cfg, seen>>
Spec == Init /\ [][Option \/ Ready \/ Dial \/ Plain \/ Up]_vars
C == Fold(Config0, opts)
Honoured == \A k \in 1..Len(seen) : Proper(C, peers[seen[k].at], seen[k]) /\ Served(C, peers[seen[k].at], seen[k])
Outcome == stage = "end" => (ok = "ok" <=> Reaches(C, peers[1]) /\ Reaches(C, peers[2]))
=============================================================================
