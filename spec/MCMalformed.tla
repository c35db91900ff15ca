---------------------------- MODULE MCMalformed ----------------------------
(* The automaton and the balanced texts, on every shape of up to N tokens. *)
EXTENDS Malformed
CONSTANT N
VARIABLE s
Alpha == {"(", ")", "[", "]", "{", "}", ";", "x"}
Init == MInit /\ s = <<>>
Next == UNCHANGED known /\ Len(s) < N /\ \E t \in Alpha : s' = Append(s, t)
Spec == Init /\ [][Next]_<<s, known>>

Agree == (OpenAt(s) = <<>>) = Balanced(s)
(* A beginning of a balanced text is never wrong, and it can be completed by closing what is open. *)
Closer(o) == IF o = "(" THEN ")" ELSE IF o = "[" THEN "]" ELSE "}"
Completed == LET st == OpenAt(s) IN IF st = Wrong THEN TRUE ELSE Balanced(s \o [k \in 1..Len(st) |-> Closer(st[Len(st) + 1 - k])])
WrongStays == OpenAt(s) = Wrong => \A t \in Alpha : OpenAt(Append(s, t)) = Wrong
(* A finished declaration is balanced, and a text that is a whole declaration is not also an unfinished one. *)
Finished == \A k \in {"struct", "function", "type"} : IF Unfinished(k, s) THEN TRUE ELSE OpenAt(s) = <<>>
Cut == \A k \in {"struct", "function", "type"} : Outcomes(k, s, "cut") \cap Outcomes(k, s, "good") = (IF Unfinished(k, s) THEN {} ELSE {"node"})

=============================================================================
