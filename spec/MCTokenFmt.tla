----------------------------- MODULE MCTokenFmt -----------------------------
(* The scanner as a state machine over all small templates, token maps and buffers: it terminates, never writes past the
   buffer, and what it has written is always a prefix of the substitution. Also prints the templates for the real code. *)
EXTENDS TokenFmt, TLC, Json, FiniteSets
CONSTANT MaxLen
Chars == {LT, GT, 97, 98}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \union {<<c>> \o s : c \in Chars, s \in Texts(n - 1)}
A == <<97>>
B == <<98>>
Maps == { <<>>, <<[n |-> A, v |-> B]>>, <<[n |-> A, v |-> <<>>], [n |-> B, v |-> <<LT, 97, GT>>]>>,
          <<[n |-> <<97, 98>>, v |-> <<120, 121, 122>>], [n |-> <<>>, v |-> A]>>, <<[n |-> A, v |-> A], [n |-> A, v |-> <<98, 98>>]>>,
          <<[n |-> <<LT, 97>>, v |-> <<99>>]>> }
Caps == {0, 1, 3, 64}
VARIABLES t, m, cap, pos, out
vars == <<t, m, cap, pos, out>>
Init == /\ t \in Texts(MaxLen) /\ m \in Maps /\ cap \in Caps
        /\ pos = 1 /\ out = <<>>
        /\ PrintT(ToJson([t |-> t, m |-> m, cap |-> cap]))
Literal == /\ pos <= Len(t) /\ Len(out) < cap /\ TokenEnd(t, m, pos) = 0
           /\ out' = Append(out, t[pos]) /\ pos' = pos + 1
Replace == /\ pos <= Len(t) /\ Len(out) < cap /\ TokenEnd(t, m, pos) # 0
           /\ out' = Bounded(out \o Value(m, NameAt(t, pos)), cap) /\ pos' = TokenEnd(t, m, pos)
Next == (Literal \/ Replace) /\ UNCHANGED <<t, m, cap>>
Spec == Init /\ [][Next]_vars
InBounds == Len(out) <= cap
Prefix == Bounded(Subst(t, m), Len(out)) = out
Done == ~ ENABLED Next => out = Bounded(Subst(t, m), cap)
Identity == m = <<>> => Subst(t, m) = t
NoBracketsIdentity == (\A i \in 1..Len(t) : t[i] # LT) => Subst(t, m) = t
Advances == [][pos' > pos]_vars
=============================================================================
