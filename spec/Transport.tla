------------------------------ MODULE Transport ------------------------------
(***************************************************************************)
(* The transport of connections: which dialer opens them, whether they     *)
(* speak TLS, and with whom they can be established.                       *)
(* An option is a record [o |-> "dialer" | "tls", nil |-> .., ..]:         *)
(*   dialers have an identity (from), may refuse to dial (refuse), take    *)
(*   some seconds (takes) and give up after so many (limit, 0: never), and *)
(*   know the names of hosts or do not (names);                            *)
(*   TLS configurations say whom they trust (roots, skip), the server name *)
(*   they ask for (sni, empty: the host dialled), the highest version they *)
(*   speak (max) and whether they present a certificate (cert).            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
DefaultDialer == [o |-> "dialer", nil |-> FALSE, from |-> 1, refuse |-> FALSE, takes |-> 0, limit |-> 0, names |-> FALSE]
NoTLS == [o |-> "tls", nil |-> TRUE]
Config0 == [dialer |-> DefaultDialer, tls |-> NoTLS]
\* options apply in order, the last one of a kind wins
Apply(c, o) == IF o.o = "tls" THEN [c EXCEPT !.tls = o] ELSE [c EXCEPT !.dialer = IF o.nil THEN DefaultDialer ELSE o]
RECURSIVE Fold(_, _)
Fold(c, os) == IF os = <<>> THEN c ELSE Fold(Apply(c, Head(os)), Tail(os))
Secure(c) == ~c.tls.nil
Wire(c) == IF Secure(c) THEN "tls" ELSE "plain"
In(x, s) == \E i \in 1..Len(s) : s[i] = x

Timely(d) == d.limit = 0 \/ d.takes < d.limit
Known(d, p) == p.name \in {"", "localhost"} \/ d.names
Dials(d, p) == ~d.refuse /\ Timely(d) /\ Known(d, p)

(* A peer: name (empty: known by its address only), kind plain (serves plaintext, turns TLS away), tls, both, junk or eof, with *)
(* its certificate (ca, dns names, ip: valid for its address) and demands (min, want).   *)
Handshake(c, p) ==
  /\ p.kind \in {"tls", "both"}
  /\ c.tls.skip \/ (In(p.ca, c.tls.roots) /\ (IF c.tls.sni # "" THEN In(c.tls.sni, p.dns) ELSE IF p.name # "" THEN In(p.name, p.dns) ELSE p.ip))
  /\ p.min <= c.tls.max
  /\ p.want => c.tls.cert
\* can this configuration talk to this peer?
Reaches(c, p) ==
  /\ Dials(c.dialer, p)
  /\ IF Secure(c) THEN Handshake(c, p) ELSE p.kind \in {"plain", "both"}
(* What may be seen of a connection at the peer: whence it came, what its bytes are      *)
(* (none, tls records, plain requests, mixed) and the outcome of the handshake.          *)
Proper(c, p, x) ==
  /\ x.from = c.dialer.from /\ ~c.dialer.refuse /\ Known(c.dialer, p)
  /\ x.bytes \in {"none", Wire(c)}
  /\ x.bytes # "none" => Timely(c.dialer)
  /\ x.hs = "ok" => /\ Handshake(c, p) /\ x.sni = (IF c.tls.sni # "" THEN c.tls.sni ELSE p.name) /\ x.ver <= c.tls.max
                    /\ p.want => x.cert
\* a secure connection carries requests only after the handshake; one to a peer that can
\* be reached does carry them
Served(c, p, x) ==
  /\ x.asked > 0 /\ Secure(c) => x.hs = "ok"
  /\ x.bytes # "none" /\ Reaches(c, p) => x.asked > 0
=============================================================================
