------------------------------- MODULE MCOps -------------------------------
(* The whole operator table: every operator with up to three parameters and every return type over a few types, checked against
   what C++ says about operands, and printed for the real code. *)
EXTENDS OpTable, Integers, TLC, Json
CONSTANTS Types, MaxParams
VARIABLES op, ps, ret, made
vars == <<op, ps, ret, made>>
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \union {<<t>> \o q : t \in Types, q \in Lists(n - 1)}
Init == /\ op \in Ops /\ ps \in Lists(MaxParams) /\ ret \in Types /\ made = "?"
        /\ PrintT(ToJson([op |-> op, ps |-> ps, ret |-> ret]))
Next == made = "?" /\ made' = Overload(op, ps, ret) /\ UNCHANGED <<op, ps, ret>>
Spec == Init /\ [][Next]_vars
Done == made # "?"
\* operands the language gives the operator (variable: call, subscript, new and delete)
Operands(o) == IF o \in {"Assign"} \union Assigns \union Binary THEN 2 ELSE IF o \in Steps \union Unary \union {"MemberOfPointer"} THEN 1 ELSE 0
Postfix == op \in Steps /\ ps # <<>> /\ ps[Len(ps)] = "int"
Arity == Done /\ Operands(op) # 0 =>
           LET n == Len(ps) - (IF Postfix /\ Len(ps) = (IF made = "Member" THEN 1 ELSE 2) THEN 1 ELSE 0)
           IN (made = "Member" => n = Operands(op) - 1) /\ (made = "Global" => n = Operands(op))
\* C++ [over.ass], [over.sub], [over.call], [over.ref]: these are non-static members
OnlyMembers == Done /\ op \in {"Assign", "Subscript", "FunctionCall", "MemberOfPointer"} => made # "Global"
Truth == Done /\ op = "UnaryNot" /\ made # "Refuse" => ret = "bool"
\* no operator is refused whatever it is given
Usable == \E q \in Lists(2), r \in Types : Overload(op, q, r) # "Refuse"
Total == made \in {"?", "Member", "Global", "Refuse"}
Spelled == Symbol(op) # "?"
\* only +, -, *, & spell two operators
Told == \A o \in Ops \ {op} : Symbol(o) = Symbol(op) => {o, op} \in {{"Add", "Unary_Plus"}, {"Subtract", "Unary_Minus"}, {"Multiply", "Indirection"}, {"BAnd", "AddressOf"}}
=============================================================================
