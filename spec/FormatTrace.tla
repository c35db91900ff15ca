---------------------------- MODULE FormatTrace ----------------------------
EXTENDS Format, TraceBase
tvars == <<l>>
TInit == l = 1
Do(e) == LET r == Render(e.ds) IN
  CASE e.op = "Reset"  -> TRUE
    [] e.op = "fmt"    -> Printed(e.entry, r, e.cap, e.out, e.ret) /\ e.term = 0
    [] e.op = "append" -> e.out = e.before \o r /\ e.term = 0
    [] OTHER -> FALSE
TNext == HasEvent /\ Do(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
