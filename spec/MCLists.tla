------------------------------ MODULE MCLists ------------------------------
(* Small exhaustive model of Lists, also the generator of every operation sequence of length Depth. Nodes 1..8 are there from the start. *)
EXTENDS Lists, TLC, Json
CONSTANTS Depth, Most, Gen
VARIABLE hist
mvars == <<h, hist>>
Start == <<New("Body", "a"), New("Body", "b"), New("Item", "x"), New("Class", "c"), New("Params", "p"), New("Params", "q"), New("Specs", ""), New("Type", "T")>>
H(x) == hist' = Append(hist, x)
MInit == h = Start /\ hist = <<>>
\* (the generator looks at what is there from the start and at the first few duplicates)
N == 1..(IF Len(h) < 11 THEN Len(h) ELSE 11)
Ops ==
  \/ \E b \in N, x \in N : CanAppend(b, x) /\ AppendTo(b, x) /\ H(<<"append", b, x>>)
  \/ \E b \in N, x \in N : CanAppendParam(b, x) /\ AppendParam(b, x) /\ H(<<"pappend", b, x>>)
  \/ \E b \in N, x \in N : CanAdd(b, x) /\ AddInterface(b, x) /\ H(<<"iface", b, x>>)
  \/ \E x \in N : Duplicate(x) /\ H(<<"dup", x>>)
  \/ \E s \in N, x \in {"Ptr", "Const"}, ok \in BOOLEAN : AddSpec(s, x, ok) /\ H(<<"sappend", s, x>>)
  \/ \E s \in N, x \in {"Ptr", "Const"}, r \in -1..3 : RemoveSpec(s, x, r) /\ H(<<"sremove", s, x>>)
MNext == (Len(hist) < Depth \/ ~ Gen) /\ Ops
MSpec == MInit /\ [][MNext]_mvars
Bound == Len(h) <= Most /\ \A i \in 1..Len(h) : Len(h[i].e) <= 3 /\ Len(h[i].w) <= 1
View == h
Emit == (Gen /\ Len(hist) = Depth) => PrintT(ToJson(hist))
GView == hist
=============================================================================
