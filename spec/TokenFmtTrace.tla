--------------------------- MODULE TokenFmtTrace ---------------------------
(* Recorded calls of the token formatting entry points. Each call stands alone: nothing of an earlier call may show. *)
EXTENDS TokenFmt, TraceBase
Do(e) ==
  CASE e.op = "Reset" -> TRUE
    [] e.op = "va" -> /\ e.out = Bounded(Subst(e.t, e.m), e.cap)
                      /\ e.len = Len(e.out)
                      /\ e.operands
    [] e.op = "impl" -> /\ e.out = Subst(e.t, e.m)
                        /\ e.len = Len(e.out)
                        /\ e.operands
    [] e.op = "code" -> LET s == Subst(e.t, e.m)
                        IN IF s = <<>> THEN ~ e.valid
                           ELSE e.valid /\ e.untyped /\ e.out = s /\ e.text = s /\ e.name = s
    [] e.op = "str" -> IF e.t = <<>> THEN ~ e.valid
                       ELSE e.valid /\ e.untyped /\ e.out = e.t /\ e.text = e.t /\ e.name = e.t
    [] e.op = "fmt" -> LET s == e.a \o <<58>> \o e.t \o <<58>> \o e.b
                       IN e.valid /\ e.untyped /\ e.out = s /\ e.text = s /\ e.name = s
    [] OTHER -> FALSE
TInit == l = 1
TNext == HasEvent /\ Do(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_<<l>>
=============================================================================
