--------------------------- MODULE MalformedTrace ---------------------------
EXTENDS Malformed, TraceBase
Do(e) == CASE e.op = "Reset" -> known' = <<>>
  [] e.op = "reg" -> UNCHANGED known
  [] e.op = "fresh" -> UNCHANGED known
  [] e.op = "parse" -> MParse(e.as, e.src, e.shape, e.claim, e.out, e.tree, e.said)
  [] OTHER -> FALSE
TInit == MInit /\ l = 1
TNext == HasEvent /\ Do(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_<<known, l>>
=============================================================================
