-------------------------------- MODULE Csv --------------------------------
(* Tables as text. A text is a sequence of bytes, a cell is [q |-> written in quotes, s |-> text], a table a sequence of rows.

   Blank lines and blanks around cells are not content. A cell that begins with a quote runs to the closing quote, two quotes
   inside standing for one, and may contain anything; any other cell runs to the delimiter or the end of its line. Every row
   has as many cells as the first.

   Parse is the reader: it yields [k |-> "ok", rows], or the first thing wrong with the text: "eof" (quote never closed, or
   nothing there), "rows" (row of another length), or "odd" (text after a closing quote: nothing is promised).
   Print is the writer. *)
EXTENDS Integers, Sequences
QUOTE == 34
NLc == 10
WsAll == {32, 9, 10, 11, 12, 13}
WsLine == WsAll \ {NLc}
RECURSIVE Skip(_, _, _), Find(_, _, _), CloseQuote(_, _), Unquote(_), RTrim(_), Double(_)
Skip(t, i, set) == IF i <= Len(t) /\ t[i] \in set THEN Skip(t, i + 1, set) ELSE i
Find(t, i, set) == IF i > Len(t) \/ t[i] \in set THEN i ELSE Find(t, i + 1, set)
\* position of the quote that closes the cell whose content starts at i; Len(t) + 1 if there is none
CloseQuote(t, i) == LET j == Find(t, i, {QUOTE})
                    IN IF j > Len(t) THEN j ELSE IF j + 1 <= Len(t) /\ t[j + 1] = QUOTE THEN CloseQuote(t, j + 2) ELSE j
Unquote(s) == IF s = <<>> THEN s
              ELSE IF s[1] = QUOTE THEN <<QUOTE>> \o Unquote(SubSeq(s, 3, Len(s))) ELSE <<s[1]>> \o Unquote(Tail(s))
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in WsAll THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Double(s) == IF s = <<>> THEN s ELSE (IF s[1] = QUOTE THEN <<QUOTE, QUOTE>> ELSE <<s[1]>>) \o Double(Tail(s))
(* One cell starting at i (blanks skipped): its content and the position of what ends it. *)
Cell(t, i, d) ==
  IF i <= Len(t) /\ t[i] = QUOTE
  THEN LET c == CloseQuote(t, i + 1)
       IN IF c > Len(t) THEN [k |-> "eof"]
          ELSE LET n == Skip(t, c + 1, WsLine)
               IN IF n <= Len(t) /\ t[n] \notin {d, NLc} THEN [k |-> "odd"]
                  ELSE [k |-> "ok", cell |-> [q |-> TRUE, s |-> Unquote(SubSeq(t, i + 1, c - 1))], next |-> n]
  ELSE LET e == Find(t, i, {d, NLc})
       IN [k |-> "ok", cell |-> [q |-> FALSE, s |-> RTrim(SubSeq(t, i, e - 1))], next |-> e]
RECURSIVE ParseFrom(_, _, _, _, _)
ParseFrom(t, i0, d, row, rows) ==
  LET i == Skip(t, i0, IF row = <<>> THEN WsAll ELSE WsLine)
  IN IF i > Len(t) /\ row = <<>>
     THEN IF rows = <<>> THEN [k |-> "eof"] ELSE [k |-> "ok", rows |-> rows]
     ELSE LET c == Cell(t, i, d)
          IN IF c.k # "ok" THEN c
             ELSE IF c.next <= Len(t) /\ t[c.next] = d THEN ParseFrom(t, c.next + 1, d, Append(row, c.cell), rows)
                  ELSE IF rows # <<>> /\ Len(row) + 1 # Len(rows[1]) THEN [k |-> "rows"]
                       ELSE ParseFrom(t, c.next + 1, d, <<>>, Append(rows, Append(row, c.cell)))
Parse(t, d) == ParseFrom(t, 1, d, <<>>, <<>>)
PrintCell(c) == IF c.q THEN <<QUOTE>> \o Double(c.s) \o <<QUOTE>> ELSE c.s
RECURSIVE PrintRow(_, _), Print(_, _)
PrintRow(r, d) == IF Len(r) = 1 THEN PrintCell(r[1]) ELSE PrintCell(r[1]) \o <<d>> \o PrintRow(Tail(r), d)
Print(rows, d) == IF rows = <<>> THEN <<>> ELSE PrintRow(rows[1], d) \o <<NLc>> \o Print(Tail(rows), d)
Columns(rows) == [c \in 1..Len(rows[1]) |-> [r \in 1..Len(rows) |-> rows[r][c]]]
=============================================================================
