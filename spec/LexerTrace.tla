----------------------------- MODULE LexerTrace -----------------------------
(* Recorded registrations and token streams of the real lexer. *)
EXTENDS Lexer, TraceBase
VARIABLES reg, known
Fresh == [x \in {"enum_underlying"} |-> [kind |-> "expr", flags |-> 1]]
tvars == <<l, reg, known>>
TInit == l = 1 /\ reg = Fresh /\ known = TRUE
\* A text outside the supported language may leave any registry behind: nothing is demanded until the next one that starts afresh.
After(e, r) == IF r.bad \/ r.toks = <<>> THEN known' = FALSE /\ UNCHANGED reg
               ELSE e.toks = r.toks /\ reg' = r.reg /\ known' = TRUE
Do(e) ==
  CASE e.op = "Reset" -> reg' = Fresh /\ known' = TRUE
    [] e.op = "reg" -> reg' = Put(reg, e.name, [kind |-> e.kind, flags |-> e.flags]) /\ UNCHANGED known
    [] e.op = "lexf" -> After(e, Lex(e.src, Fresh))
    [] e.op = "lex" -> IF known THEN After(e, Lex(e.src, reg)) ELSE UNCHANGED <<reg, known>>
    [] OTHER -> FALSE
TNext == HasEvent /\ Do(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
