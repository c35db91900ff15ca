------------------------------- MODULE MCCsv -------------------------------
(* Every small table, written with every blank-padding style, reads back as itself; and the reader as a machine over every
   small text: it always ends, and what it accepts is rectangular. Prints the texts for the real code. *)
EXTENDS Csv, TLC, Json
CONSTANTS MaxLen, MaxRows, MaxCols
D == 44
Alpha == {97, 44, 34, 10, 32}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \union {<<c>> \o s : c \in Alpha, s \in Texts(n - 1)}
Cells == {[q |-> FALSE, s |-> <<97>>], [q |-> FALSE, s |-> <<>>], [q |-> FALSE, s |-> <<98, 32, 34>>],
          [q |-> TRUE, s |-> <<>>], [q |-> TRUE, s |-> <<34>>], [q |-> TRUE, s |-> <<44, 10, 32>>]}
Tables == {<<>>} \union UNION {[1..r -> [1..c -> Cells]] : r \in 1..MaxRows, c \in 1..MaxCols}
VARIABLES kind, text, table
vars == <<kind, text, table>>
(* a single-column row whose cell is empty and unquoted is a blank line, which is no row *)
Writable(tb) == tb # <<>> /\ \A r \in 1..Len(tb) : ~ (Len(tb[r]) = 1 /\ tb[r][1] = [q |-> FALSE, s |-> <<>>])
Init == \/ kind = "text" /\ text \in Texts(MaxLen) /\ table = <<>> /\ PrintT(ToJson(text))
        \/ kind = "table" /\ table \in {tb \in Tables : Writable(tb)} /\ text = <<>>
Write == kind = "table" /\ text = <<>> /\ text' = Print(table, D) /\ UNCHANGED <<kind, table>> /\ PrintT(ToJson(text'))
Read == kind = "text" /\ LET p == Parse(text, D) IN /\ p.k = "ok" /\ kind' = "read" /\ table' = p.rows /\ UNCHANGED text
Next == Write \/ Read
Spec == Init /\ [][Next]_vars
RoundTrip == kind = "table" /\ text # <<>> => Parse(text, D) = [k |-> "ok", rows |-> table]
Rectangular == kind = "read" => \A r \in 1..Len(table) : Len(table[r]) = Len(table[1])
Again == kind = "read" /\ Writable(table) => Parse(Print(table, D), D) = [k |-> "ok", rows |-> table]
Total == kind = "text" => Parse(text, D).k \in {"ok", "eof", "rows", "odd"}
=============================================================================
