---------------------------- MODULE GenMalformed ----------------------------
(* Every text of up to G tokens; the tokens are numbers into an alphabet of the check's. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS G, A
VARIABLE t
Init == t = <<>>
Next == Len(t) < G /\ \E k \in 1..A : t' = Append(t, k) /\ PrintT(ToJson([t |-> t']))
Spec == Init /\ [][Next]_t
=============================================================================
