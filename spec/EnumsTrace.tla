---------------------------- MODULE EnumsTrace -----------------------------
(* Recorded tables of the repository, enumerators and texts of the library built from it, and lookups. *)
EXTENDS Enums, TraceBase
VARIABLE tabs
Lists == {"op", "spec", "tok", "code"}
Do(e) ==
  CASE e.op = "Reset" -> tabs' = Own
    [] e.op = "table" -> /\ Sound(e.kind, e.rows)
                         /\ tabs' = [tabs EXCEPT ![e.kind] = e.rows]
    [] e.op = "kind" ->  \* every enumerator of one kind, by value
         /\ e.n = Len(tabs[e.kind])
         /\ e.names = [k \in 1..e.n |-> tabs[e.kind][k][1]]
         /\ e.texts = [k \in 1..e.n |-> Text(e.kind, tabs[e.kind][k])]
         /\ e.same
         /\ (e.kind \in DOMAIN Unknown => e.beyond = Unknown[e.kind])
         /\ (e.kind = "code" => e.keywords = [k \in 1..e.n |-> Keyword(tabs.code[k])])
         /\ (e.kind = "spec" => e.trailing = [k \in 1..e.n |-> tabs.spec[k][1] \in Trailing])
         /\ UNCHANGED tabs
    [] e.op = "from" ->
         /\ e.spec = From(tabs.spec, e.text) /\ e.tok = From(tabs.tok, e.text) /\ e.same
         /\ UNCHANGED tabs
    [] OTHER -> FALSE
TInit == l = 1 /\ tabs = Own
TNext == HasEvent /\ Do(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_<<l, tabs>>
=============================================================================
