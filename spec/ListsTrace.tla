----------------------------- MODULE ListsTrace -----------------------------
(* Recorded calls: after each, every list of every node made so far. *)
EXTENDS Lists, TraceBase
tvars == <<h, l>>
TInit == l = 1 /\ h = <<>>
Do(e) ==
  CASE e.op = "Reset" -> h' = <<>>
    [] e.op = "mk" -> Make(e.k, e.n)
    [] e.op = "dup" -> Duplicate(e.x)
    [] e.op = "append" -> AppendTo(e.b, e.x)
    [] e.op = "appendbody" -> AppendTo(e.b, e.x)
    [] e.op = "pappend" -> AppendParam(e.b, e.x)
    [] e.op = "iface" -> AddInterface(e.b, e.x)
    [] e.op = "sappend" -> AddSpec(e.b, e.s, e.ok)
    [] e.op = "sremove" -> RemoveSpec(e.b, e.s, e.r)
    [] e.op = "shas" -> UNCHANGED h /\ e.ok = (e.s \in Range(h[e.b].w)) /\ e.r = Index(h[e.b].w, e.s)
    [] e.op = "entry" -> UNCHANGED h /\ e.r = Entry(e.b, e.i)
    [] e.op = "param" -> UNCHANGED h /\ e.r = Param(e.b, e.i)
    [] e.op = "has" -> UNCHANGED h /\ e.ok = (Size(h[e.b]) > 0)
    [] OTHER -> FALSE
Observed(e) == e.h = [i \in 1..Len(h') |-> Seen(h'[i])]
TNext == HasEvent /\ Do(Ev) /\ Observed(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
