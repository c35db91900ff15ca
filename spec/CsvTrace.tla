------------------------------ MODULE CsvTrace ------------------------------
(* Recorded reads and writes of tables. A cell that ends with the text (no line end after it) may keep its trailing blanks. *)
EXTENDS Csv, TraceBase
EndsPlain(t, d) == Len(t) > 0 /\ t[Len(t)] \in WsLine
SameCells(real, want, t, d) ==
  /\ Len(real) = Len(want)
  /\ \A c \in 1..Len(want) :
       /\ Len(real[c]) = Len(want[c])
       /\ \A r \in 1..Len(want[c]) :
            \/ real[c][r] = want[c][r]
            \/ /\ EndsPlain(t, d) /\ c = Len(want) /\ r = Len(want[c])
               /\ real[c][r].q = want[c][r].q /\ RTrim(real[c][r].s) = want[c][r].s
Read(e) ==
  LET p == Parse(e.text, e.delim)
  IN CASE p.k = "eof" -> e.err = "eof"
       [] p.k = "rows" -> e.err = "rows"
       [] p.k = "odd" -> TRUE
       [] OTHER ->
          /\ e.err = "ok"
          /\ LET cols == Columns(p.rows) IN
             IF e.header
             THEN /\ e.object
                  /\ [c \in 1..Len(e.names) |-> RTrim(e.names[c])] = [c \in 1..Len(cols) |-> RTrim(cols[c][1].s)]
                  /\ (Len(p.rows) > 1 \/ ~ EndsPlain(e.text, e.delim)) => e.names = [c \in 1..Len(cols) |-> cols[c][1].s]
                  /\ SameCells(e.cols, [c \in 1..Len(cols) |-> Tail(cols[c])], e.text, e.delim)
             ELSE /\ ~ e.object /\ e.names = <<>>
                  /\ SameCells(e.cols, cols, e.text, e.delim)
(* what is written back reads as the table that was there *)
RECURSIVE Texts(_)
Texts(rows) == IF rows = <<>> THEN <<>> ELSE <<[c \in 1..Len(rows[1]) |-> rows[1][c].s]>> \o Texts(Tail(rows))
BlankRow(e) == Len(e.cols) = 1 /\ \E r \in 1..Len(e.cols[1]) : ~ e.cols[1][r].q /\ RTrim(e.cols[1][r].s) = <<>>
Write(e) ==
  IF Parse(e.text, e.delim).k # "ok" \/ Len(e.cols[1]) = 0 \/ BlankRow(e) \/ EndsPlain(e.text, e.delim) THEN TRUE
  ELSE LET p == Parse(e.out, e.delim)
       IN /\ p.k = "ok"
          /\ LET cols == Columns(p.rows) IN
             IF e.header
             THEN /\ e.names = [c \in 1..Len(cols) |-> cols[c][1].s]
                  /\ e.cols = [c \in 1..Len(cols) |-> Tail(cols[c])]
             ELSE e.cols = cols
Do(e) ==
  CASE e.op = "Reset" -> TRUE
    [] e.op = "csv" -> Read(e) /\ (e.err = "ok" => Write(e))
    [] OTHER -> FALSE
TInit == l = 1
TNext == HasEvent /\ Do(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_<<l>>
=============================================================================
