------------------------------ MODULE Isolation ------------------------------
(***************************************************************************)
(* Several connections in one process.  The specification is the product   *)
(* of single connections: every connection keeps, in its own calls, frames *)
(* and end, what Conn demands of it alone, whatever happens on the others. *)
(* (A recorded execution with several connections is therefore judged one  *)
(* connection at a time, with ConnTrace.)                                  *)
(*                                                                         *)
(* This module is the design: what a connection keeps - its outstanding    *)
(* requests by correlation id, its negotiated version, its end, the bytes  *)
(* it is about to send and the payload it is decoding - is its own.  The   *)
(* variants share one of these between connections.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NConn, NCalls, Variant   \* ok, requests, version, end, wire, payload

C == 1..NConn
Ks == 1..NCalls
Own(c) == c                        \* what connection c's broker offers (its version)
None == <<0, 0>>
Wait == <<0, 1>>
Err == <<0, 2>>
At(what, c) == IF Variant = what THEN 1 ELSE c

VARIABLES
  ver,      \* slot -> negotiated version
  up,       \* connection -> "new", "up", "down" (as its peer and its user know)
  over,     \* slot -> the library considers it ended
  nextId,   \* connection -> last correlation id
  reqs,     \* slot -> outstanding requests: set of [id, c, k]
  out,      \* slot -> frame under construction, or <<>>
  peer,     \* connection -> frames its peer has received, unanswered
  inbox,    \* connection -> responses on their way
  pay,      \* slot -> payload being decoded, or <<>>
  pend,     \* connection -> request whose payload is being decoded, or <<>>
  res,      \* <<c, k>> -> None, Wait, Err, or whose answer it got
  sentv     \* <<c, k>> -> version the request was sent with (0: not sent)
vars == <<ver, up, over, nextId, reqs, out, peer, inbox, pay, pend, res, sentv>>

Init ==
  /\ ver = [c \in C |-> 0] /\ up = [c \in C |-> "new"] /\ over = [c \in C |-> FALSE] /\ nextId = [c \in C |-> 0]
  /\ reqs = [c \in C |-> {}] /\ out = [c \in C |-> <<>>] /\ peer = [c \in C |-> {}] /\ inbox = [c \in C |-> {}]
  /\ pay = [c \in C |-> <<>>] /\ pend = [c \in C |-> <<>>]
  /\ res = [x \in C \X Ks |-> None] /\ sentv = [x \in C \X Ks |-> 0]

Connect(c) ==
  /\ up[c] = "new" /\ up' = [up EXCEPT ![c] = "up"]
  /\ ver' = [ver EXCEPT ![At("version", c)] = Own(c)]
  /\ UNCHANGED <<over, nextId, reqs, out, peer, inbox, pay, pend, res, sentv>>

\* a call registers its request, unless the connection is known to be over
Start(c, k) ==
  /\ up[c] # "new" /\ res[<<c, k>>] = None
  /\ IF over[At("end", c)]
     THEN /\ res' = [res EXCEPT ![<<c, k>>] = Err] /\ UNCHANGED <<nextId, reqs>>
     ELSE /\ nextId' = [nextId EXCEPT ![c] = @ + 1]
          /\ reqs' = [reqs EXCEPT ![At("requests", c)] = {r \in @ : r.id # nextId[c] + 1} \cup {[id |-> nextId[c] + 1, c |-> c, k |-> k]}]
          /\ res' = [res EXCEPT ![<<c, k>>] = Wait]
  /\ UNCHANGED <<ver, up, over, out, peer, inbox, pay, pend, sentv>>

\* it encodes the request (one at a time on a connection) ...
Encode(c, k) ==
  /\ up[c] = "up" /\ res[<<c, k>>] = Wait /\ sentv[<<c, k>>] = 0
  /\ \A q \in Ks : sentv[<<c, q>>] # -1
  /\ \E id \in 1..nextId[c] :
       /\ id \notin {f.id : f \in peer[c]}
       /\ (Variant # "requests" => \E r \in reqs[c] : r.id = id /\ r.k = k)
       /\ (Variant = "requests" => id = nextId[c])
       /\ out' = [out EXCEPT ![At("wire", c)] = <<[id |-> id, c |-> c, k |-> k, v |-> ver[At("version", c)]]>>]
  /\ sentv' = [sentv EXCEPT ![<<c, k>>] = -1]
  /\ UNCHANGED <<ver, up, over, nextId, reqs, peer, inbox, pay, pend, res>>
\* ... and sends it
Flush(c, k) ==
  /\ sentv[<<c, k>>] = -1
  /\ LET s == At("wire", c) IN
     /\ IF out[s] = <<>> \/ up[c] # "up" THEN peer' = peer /\ out' = out
        ELSE peer' = [peer EXCEPT ![c] = @ \cup {out[s][1]}] /\ out' = [out EXCEPT ![s] = <<>>]
     /\ sentv' = [sentv EXCEPT ![<<c, k>>] = IF out[s] = <<>> THEN -2 ELSE out[s][1].v]
  /\ UNCHANGED <<ver, up, over, nextId, reqs, inbox, pay, pend, res>>

Answer(c) ==
  /\ up[c] = "up"
  /\ \E f \in peer[c] :
       /\ peer' = [peer EXCEPT ![c] = @ \ {f}]
       /\ inbox' = [inbox EXCEPT ![c] = @ \cup {[id |-> f.id, a |-> <<c, f.k>>]}]
  /\ UNCHANGED <<ver, up, over, nextId, reqs, out, pay, pend, res, sentv>>

\* the dispatcher takes a response, finds its request, and (another step) decodes it
Take(c) ==
  /\ ~over[At("end", c)] /\ pend[c] = <<>>
  /\ \E m \in inbox[c] :
       /\ inbox' = [inbox EXCEPT ![c] = @ \ {m}]
       /\ LET s == At("requests", c)
              rs == {r \in reqs[s] : r.id = m.id} IN
          IF rs = {} THEN UNCHANGED <<reqs, pay, pend>>
          ELSE /\ reqs' = [reqs EXCEPT ![s] = @ \ rs]
               /\ pend' = [pend EXCEPT ![c] = <<CHOOSE r \in rs : TRUE>>]
               /\ pay' = [pay EXCEPT ![At("payload", c)] = <<m.a>>]
  /\ UNCHANGED <<ver, up, over, nextId, out, peer, res, sentv>>
Deliver(c) ==
  /\ pend[c] # <<>>
  /\ LET r == pend[c][1] IN res' = [res EXCEPT ![<<r.c, r.k>>] = pay[At("payload", c)][1]]
  /\ pend' = [pend EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<ver, up, over, nextId, reqs, out, peer, inbox, pay, sentv>>

\* the peer goes away (what it sent last may be lost); the library notices
Down(c) ==
  /\ up[c] = "up" /\ up' = [up EXCEPT ![c] = "down"]
  /\ UNCHANGED <<ver, over, nextId, reqs, out, peer, inbox, pay, pend, res, sentv>>
Notice(c) ==
  /\ up[c] = "down" /\ pend[c] = <<>> /\ ~over[At("end", c)]
  /\ over' = [over EXCEPT ![At("end", c)] = TRUE]
  /\ LET s == At("requests", c) IN
     /\ res' = [x \in C \X Ks |-> IF \E r \in reqs[s] : <<r.c, r.k>> = x THEN Err ELSE res[x]]
     /\ reqs' = [reqs EXCEPT ![s] = {}]
  /\ UNCHANGED <<ver, up, nextId, out, peer, inbox, pay, pend, sentv>>

Next == \E c \in C : Connect(c) \/ Answer(c) \/ Take(c) \/ Deliver(c) \/ Down(c) \/ Notice(c)
                     \/ \E k \in Ks : Start(c, k) \/ Encode(c, k) \/ Flush(c, k)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* what a connection alone guarantees
OwnAnswer == \A c \in C, k \in Ks : res[<<c, k>>] \in {None, Wait, Err} \/ res[<<c, k>>] = <<c, k>>
OwnVersion == \A c \in C, k \in Ks : sentv[<<c, k>>] \in {0, -1} \/ sentv[<<c, k>>] = Own(c) \/ up[c] = "down"
OwnEnd == \A c \in C, k \in Ks : res[<<c, k>>] = Err => up[c] = "down"
OwnFrames == \A c \in C : \A f \in peer[c] : f.c = c
\* nothing is left waiting when nothing can move
NoneLost == ~ENABLED (\E c \in C : Answer(c) \/ Take(c) \/ Deliver(c) \/ Notice(c) \/ \E k \in Ks : Encode(c, k) \/ Flush(c, k))
            => \A c \in C, k \in Ks : res[<<c, k>>] # Wait
=============================================================================
