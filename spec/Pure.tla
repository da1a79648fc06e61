--------------------------------- MODULE Pure ---------------------------------
(***************************************************************************)
(* What the library may do with what a caller hands it: look at it.        *)
(*                                                                         *)
(*   Op(what, x, ver, res, v)  an operation (size, encode, decode, send,   *)
(*        query, connect) on subject x at version ver had result res; v is *)
(*        what all subjects - messages with everything they refer to,      *)
(*        encoded input, bootstrap lists, dialers, TLS configurations -    *)
(*        look like afterwards ("" when not looked at: operations overlap) *)
(*   Kept(i, res)  the result of the i-th operation is looked at again     *)
(*                                                                         *)
(* Subjects never change, and a result is a function of the operation, the *)
(* subject and the version: not of what was done before, or meanwhile.     *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES subj, memo, results
pureVars == <<subj, memo, results>>
PureInit(v) == subj = v /\ memo = {} /\ results = <<>>
Op(what, x, ver, res, v) ==
  /\ v = "" \/ v = subj
  /\ \A m \in memo : m[1] = <<what, x, ver>> => m[2] = res
  /\ memo' = memo \cup {<< <<what, x, ver>>, res >>}
  /\ results' = Append(results, res)
  /\ UNCHANGED subj
Kept(i, res) == results[i] = res /\ UNCHANGED pureVars
=============================================================================
