------------------------------ MODULE MCEnums ------------------------------
(* The tables make sense: looking a text up is the inverse of giving an enumerator's text, the tables agree with each other, and with
   the operators and specifiers the other specifications are written with. Prints the texts to look up. *)
EXTENDS Enums, OpTable, Json, FiniteSets

VARIABLE at
RowsOf(kind) == Own[kind]

Letters == {"a", "e", "i", "n", "t", "_", "0", "A", " ", "*", "&", "=", "<", ":", "(", "[", ".", "\\", "\""}
Short == {""} \union Letters \union {x \o y : x \in Letters, y \in Letters} \union {x \o y \o z : x \in {"i", "a", "=", "&", "."}, y \in {"n", "f", "s", " ", "=", "."}, z \in {"t", "d", "m", "0", "=", "."}}
Words_(kind) == {Own[kind][k][2] : k \in 1..Len(Own[kind])} \union {Own[kind][k][1] : k \in 1..Len(Own[kind])}
\* neighbours of every text
Near(t) == {t, t \o "_", "_" \o t, t \o " ", " " \o t, t \o "s", t \o t} \union (IF Len(t) > 1 THEN {SubSeq(t, 1, Len(t) - 1), SubSeq(t, 2, Len(t)), SubSeq(t, 2, Len(t)) \o SubSeq(t, 1, 1)} ELSE {})
Lookups == Short \union UNION {Near(t) : t \in Words_("spec") \union Words_("tok") \union Words_("op")}
Init == at = "start"
Next == at = "start" /\ at' = "end" /\ \A t \in Lookups : PrintT(ToJson([text |-> t]))
Spec_ == Init /\ [][Next]_at
TypeOK == \A k \in Kinds : Sound(k, Own[k])
Inverse == /\ Invert(Specs_)
           /\ \A k \in 1..Len(Toks_) : From(Toks_, Toks_[k][2]) = Toks_[k][1] \/ Toks_[k][2] \in Shared
\* a specifier token is a specifier's text
SpecToks == \A k \in 1..Len(Toks_) : (Len(Toks_[k][1]) > 5 /\ SubSeq(Toks_[k][1], 1, 5) = "Spec_" /\ Toks_[k][1] # "Spec_Alignas") => From(Specs_, Toks_[k][2]) # "Invalid"
OpsAre == Names(Ops_) = Ops \union {"Invalid"}
=============================================================================
