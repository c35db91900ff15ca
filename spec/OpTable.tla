------------------------------ MODULE OpTable ------------------------------
(* Which operator overloads there are: what a definition with the given parameter types (the names of the types, in order) and
   return type is - a member, a non-member ("Global"), or nothing the library accepts ("Refuse").
   From the library's documentation of def_operator: a member has one parameter less than the operator has operands. Compound
   assignment, and prefix and postfix steps that are not members work on the type they return; logical not returns bool. *)
EXTENDS Naturals, Sequences
Assigns == {"Assign_Add", "Assign_Subtract", "Assign_Multiply", "Assign_Divide", "Assign_Modulo", "Assign_BAnd", "Assign_BOr", "Assign_BXOr", "Assign_LShift", "Assign_RShift"}
Steps == {"Increment", "Decrement"}
Unary == {"Unary_Plus", "Unary_Minus", "UnaryNot", "BNot", "Indirection", "AddressOf"}
Arith == {"Add", "Subtract", "Multiply", "Divide", "Modulo", "BAnd", "BOr", "BXOr", "LShift", "RShift"}
Logic == {"LAnd", "LOr", "LEqual", "LNot", "Lesser", "Greater", "LesserEqual", "GreaterEqual"}
Binary == Arith \union Logic \union {"PtrToMemOfPtr", "Comma"}
Memory == {"New", "NewArray", "Delete", "DeleteArray"}
Ops == {"Assign", "Subscript", "FunctionCall", "MemberOfPointer"} \union Assigns \union Steps \union Unary \union Binary \union Memory

Overload(op, ps, ret) ==
  LET n == Len(ps) IN
  CASE op = "Assign" -> IF n = 1 THEN "Member" ELSE "Refuse"
    [] op \in Assigns -> IF n = 1 THEN "Member" ELSE IF n = 2 /\ ps[1] = ret THEN "Global" ELSE "Refuse"
    [] op \in Steps -> IF n = 0 THEN "Member"
                       ELSE IF n = 1 THEN (IF ps[1] = "int" THEN "Member" ELSE IF ps[1] = ret THEN "Global" ELSE "Refuse")
                       ELSE IF n = 2 /\ ps[1] = ret /\ ps[2] = "int" THEN "Global" ELSE "Refuse"
    [] op = "UnaryNot" -> IF ret # "bool" THEN "Refuse" ELSE IF n = 0 THEN "Member" ELSE IF n = 1 THEN "Global" ELSE "Refuse"
    [] op \in Unary -> IF n = 0 THEN "Member" ELSE IF n = 1 THEN "Global" ELSE "Refuse"
    [] op \in Binary -> IF n = 1 THEN "Member" ELSE IF n = 2 THEN "Global" ELSE "Refuse"
    [] op = "Subscript" -> IF n >= 1 THEN "Member" ELSE "Refuse"
    [] op = "FunctionCall" -> "Member"
    [] op = "MemberOfPointer" -> IF n = 0 THEN "Member" ELSE "Refuse"
    [] op \in Memory -> "Global"
    [] OTHER -> "Refuse"

Symbol(op) ==
  CASE op = "Assign" -> "=" [] op = "Assign_Add" -> "+=" [] op = "Assign_Subtract" -> "-=" [] op = "Assign_Multiply" -> "*=" [] op = "Assign_Divide" -> "/="
    [] op = "Assign_Modulo" -> "%=" [] op = "Assign_BAnd" -> "&=" [] op = "Assign_BOr" -> "|=" [] op = "Assign_BXOr" -> "^=" [] op = "Assign_LShift" -> "<<="
    [] op = "Assign_RShift" -> ">>=" [] op = "Increment" -> "++" [] op = "Decrement" -> "--" [] op = "Unary_Plus" -> "+" [] op = "Unary_Minus" -> "-"
    [] op = "UnaryNot" -> "!" [] op = "Add" -> "+" [] op = "Subtract" -> "-" [] op = "Multiply" -> "*" [] op = "Divide" -> "/" [] op = "Modulo" -> "%"
    [] op = "BNot" -> "~" [] op = "BAnd" -> "&" [] op = "BOr" -> "|" [] op = "BXOr" -> "^" [] op = "LShift" -> "<<" [] op = "RShift" -> ">>"
    [] op = "LAnd" -> "&&" [] op = "LOr" -> "||" [] op = "LEqual" -> "==" [] op = "LNot" -> "!=" [] op = "Lesser" -> "<" [] op = "Greater" -> ">"
    [] op = "LesserEqual" -> "<=" [] op = "GreaterEqual" -> ">=" [] op = "Subscript" -> "[]" [] op = "Indirection" -> "*" [] op = "AddressOf" -> "&"
    [] op = "MemberOfPointer" -> "->" [] op = "PtrToMemOfPtr" -> "->*" [] op = "FunctionCall" -> "()" [] op = "Comma" -> "," [] op = "New" -> "new"
    [] op = "NewArray" -> "new[]" [] op = "Delete" -> "delete" [] op = "DeleteArray" -> "delete[]" [] OTHER -> "?"
=============================================================================
