----------------------------- MODULE MacrosTrace -----------------------------
(* Recorded registrations, lookups, token streams and parsed files. *)
EXTENDS Macros, TraceBase
VARIABLES reg, known
Fresh == [x \in {"enum_underlying"} |-> [kind |-> "expr", flags |-> 1]]
tvars == <<l, reg, known>>
TInit == l = 1 /\ reg = Fresh /\ known = TRUE
Lexed(e, r) == IF r.bad \/ r.toks = <<>> THEN known' = FALSE /\ UNCHANGED reg
               ELSE e.toks = r.toks /\ reg' = r.reg /\ known' = TRUE
Found(e) == IF e.name \notin DOMAIN reg THEN ~ e.found
            ELSE /\ e.found /\ e.as = e.name /\ e.kind = reg[e.name].kind /\ e.flags = reg[e.name].flags
                 /\ e.isfunc = Has(reg[e.name].flags, 1) /\ e.isbody = Has(reg[e.name].flags, 2)
Parsed(e) == /\ e.src = FileSrc(e.in, e.items)
             /\ AllFit(reg, e.items, e.in)
             /\ e.ok /\ e.list = FileExp(e.in, e.items)
             /\ reg' = Afters(reg, e.items)
Do(e) ==
  CASE e.op = "Reset" -> reg' = Fresh /\ known' = TRUE
    [] e.op = "reg" -> reg' = Put(reg, e.name, [kind |-> e.kind, flags |-> e.flags]) /\ UNCHANGED known
    [] e.op = "lookup" -> (known => Found(e)) /\ UNCHANGED <<reg, known>>
    [] e.op = "file" -> IF known THEN Parsed(e) /\ UNCHANGED known ELSE UNCHANGED <<reg, known>>
    [] e.op = "lex" -> IF known THEN Lexed(e, Lex(e.src, reg)) ELSE UNCHANGED <<reg, known>>
    [] OTHER -> FALSE
TNext == HasEvent /\ Do(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
