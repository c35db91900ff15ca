------------------------------- MODULE Lists -------------------------------
(* Bodies, parameter lists, specifier lists and the interfaces of a class, with the identity of what is in them. `h` is the heap: node i is
   h[i], with its kind, its name, the list it is in (0: none), the nodes in its list in order, and its specifiers. A node is in one list at
   most: what is in one already is put into another as a duplicate. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE h
Cap == 14
Kinds == {"Body", "Item", "Class", "Params", "Specs", "Type"}
New(k, n) == [k |-> k, n |-> n, p |-> 0, e |-> <<>>, w |-> <<>>]
Range(q) == {q[i] : i \in 1..Len(q)}
Owns(k) == k \in {"Body", "Params"} \* (the types of a class do not say which class)

\* ------------------------------------------------------------------ making nodes
Make(k, n) == h' = Append(h, New(k, n))
\* a copy of x with copies of what is in its list; p: the list it will be in. The copies are the next nodes, in that order.
RECURSIVE Copy(_, _, _), CopyAll(_, _, _)
Copy(g, x, p) == CopyAll(Append(g, [g[x] EXCEPT !.p = p, !.e = <<>>]), Len(g) + 1, g[x].e)
CopyAll(g, me, q) ==
  IF q = <<>> THEN g
  ELSE LET id == Len(g) + 1
           c == Copy(g, Head(q), IF Owns(g[me].k) THEN me ELSE 0)
       IN CopyAll([c EXCEPT ![me].e = Append(@, id)], me, Tail(q))
Duplicate(x) == h' = Copy(h, x, 0)

\* ------------------------------------------------------------------ lists
\* node x becomes the last of list b: itself when it is in none, a duplicate otherwise
Put(g, b, x) ==
  IF g[x].p = 0 THEN [g EXCEPT ![x].p = b, ![b].e = Append(@, x)]
  ELSE LET id == Len(g) + 1 IN [Copy(g, x, b) EXCEPT ![b].e = Append(@, id)]
RECURSIVE PutAll(_, _, _)
PutAll(g, b, q) == IF q = <<>> THEN g ELSE PutAll(Put(g, b, Head(q)), b, Tail(q))
CanAppend(b, x) == h[b].k = "Body" /\ x # b /\ h[x].k \in {"Item", "Class", "Body"}
\* a body is not put into a body: what is in it is
AppendTo(b, x) == CanAppend(b, x) /\ h' = IF h[x].k = "Body" THEN PutAll(h, b, h[x].e) ELSE Put(h, b, x)
CanAppendParam(b, x) == h[b].k = "Params" /\ h[x].k = "Params" /\ x # b /\ h[b].p = 0 /\ h[x].e = <<>>
AppendParam(b, x) == CanAppendParam(b, x) /\ h' = Put(h, b, x)
CanAdd(c, t) == h[c].k = "Class" /\ h[t].k = "Type"
AddInterface(c, t) == CanAdd(c, t) /\ LET id == Len(h) + 1 IN h' = [Copy(h, t, 0) EXCEPT ![c].e = Append(@, id)]

\* ------------------------------------------------------------------ specifiers
Index(w, x) == IF x \in Range(w) THEN (CHOOSE i \in 1..Len(w) : w[i] = x /\ \A j \in 1..i - 1 : w[j] # x) - 1 ELSE -1
Without(w, i) == SubSeq(w, 1, i) \o SubSeq(w, i + 2, Len(w))
AddSpec(s, x, ok) == h[s].k = "Specs" /\ ok = (Len(h[s].w) < Cap) /\ h' = IF ok THEN [h EXCEPT ![s].w = Append(@, x)] ELSE h
RemoveSpec(s, x, r) == h[s].k = "Specs" /\ r = Index(h[s].w, x) /\ h' = IF r = -1 THEN h ELSE [h EXCEPT ![s].w = Without(@, r)]

\* ------------------------------------------------------------------ what can be asked
Entry(b, k) == IF k < Len(h[b].e) THEN h[b].e[k + 1] ELSE 0
Param(b, k) == IF k = 0 THEN b ELSE IF k <= Len(h[b].e) THEN h[b].e[k] ELSE 0
Size(x) == IF x.k = "Body" THEN Len(x.e) ELSE IF x.k = "Params" THEN 1 + Len(x.e) ELSE IF x.k = "Specs" THEN Len(x.w) ELSE 0
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* forwards, backwards (bodies only), the last, the number
Seen(x) == [k |-> x.k, n |-> x.n, p |-> x.p, f |-> x.e, b |-> IF x.k = "Body" THEN Reverse(x.e) ELSE <<>>,
            last |-> IF x.e = <<>> \/ x.k = "Class" THEN 0 ELSE x.e[Len(x.e)], num |-> Size(x), w |-> x.w]

\* ------------------------------------------------------------------ what holds
Lists == {i \in 1..Len(h) : h[i].e # <<>>}
OneOwner == \A i \in Lists : \A j \in Lists : \A x \in Range(h[i].e) \intersect Range(h[j].e) : i = j
Once == \A i \in Lists : Cardinality(Range(h[i].e)) = Len(h[i].e)
Parents == \A x \in 1..Len(h) : h[x].p # 0 <=> \E i \in Lists : Owns(h[i].k) /\ x \in Range(h[i].e)
ParentIsList == \A x \in 1..Len(h) : h[x].p # 0 => x \in Range(h[h[x].p].e)
Flat == \A i \in Lists : \A x \in Range(h[i].e) : h[x].k # "Body" /\ (h[i].k = "Params" => h[x].e = <<>>)
\* no operation takes anything out of a list, moves it, or changes a list it does not name
Kept == [][\A i \in 1..Len(h) : SubSeq(h'[i].e, 1, Len(h[i].e)) = h[i].e /\ h'[i].n = h[i].n /\ (h[i].p # 0 => h'[i].p = h[i].p)]_h
OneChanges == [][Cardinality({i \in 1..Len(h) : h'[i].e # h[i].e}) <= 1]_h
=============================================================================
