------------------------------ MODULE MCArray ------------------------------
(* Small exhaustive model of Array, also the generator of every operation sequence of length Depth. *)
EXTENDS Array, TLC, Json
CONSTANTS Depth, MaxLen, Gen
VARIABLE hist
mvars == <<arr, last, hist>>
Ids == {1, 2}
V == {1, 2}
R == {TRUE, FALSE}
M == IF Gen THEN {FALSE} ELSE R
(* capacities an operation may end with *)
CS(a) == {arr[a].cap, arr[a].cap + 1, arr[a].cap + 2} \cup {1, 4}
H(x) == hist' = Append(hist, x)
Caps(n) == {n, n + 3}
F == 0..1
fl(b) == IF b THEN 1 ELSE 0
MInit == Init(Ids) /\ hist = <<>>
Ops(a) ==
  \/ \E n \in {1, 3} : (\E c \in Caps(n) : InitReserve(a, n, c)) /\ H(<<"init", a, n, 0>>)
  \/ InitFail(a) /\ H(<<"init", a, 2, 1>>)
  \/ \E v \in V, r \in R, ok \in R, m \in M, c \in CS(a) : Append_(a, v, ok, c, m, r) /\ H(<<"append", a, v, fl(r)>>)
  \/ \E vs \in {<<1, 2>>}, r \in R, ok \in R, m \in M, c \in CS(a) : AppendItems(a, vs, ok, c, m, r) /\ H(<<"append_items", a, fl(r), 1, 2>>)
  \/ \E b \in Ids, r \in R, ok \in R, m \in M, c \in CS(a) : AppendArray(a, b, ok, c, m, r) /\ H(<<"append_array", a, b, fl(r)>>)
  \/ \E v \in {2}, i \in 0..2, r \in R, ok \in R, m \in M, c \in CS(a) : AppendAt(a, v, i, ok, c, m, r) /\ H(<<"append_at", a, v, i, fl(r)>>)
  \/ \E i \in 0..2, r \in {FALSE}, ok \in R, m \in M, c \in CS(a) : AppendItemsAt(a, <<2, 1>>, i, ok, c, m, r) /\ H(<<"append_items_at", a, i, fl(r), 2, 1>>)
  \/ \E val \in {None} \cup {<<v>> : v \in 1..2} : Back(a, val) /\ H(<<"back", a>>)
  \/ Clear(a) /\ H(<<"clear", a>>)
  \/ \E b \in 0..1, e \in 0..2, ok \in R : Fill(a, b, e, 2, ok) /\ H(<<"fill", a, b, e, 2>>)
  \/ Free(a) /\ H(<<"free", a>>)
  \/ Pop(a) /\ H(<<"pop", a>>)
  \/ \E i \in 0..2 : RemoveAt(a, i) /\ H(<<"remove_at", a, i>>)
  \/ \E n \in {1, 4}, r \in R, ok \in R, m \in M, c \in CS(a) : Reserve(a, n, ok, c, m, r) /\ H(<<"reserve", a, n, fl(r)>>)
  \/ \E n \in {1, 4}, r \in R, ok \in R, m \in M, c \in CS(a) : Grow(a, n, ok, c, m, r) /\ H(<<"grow", a, n, fl(r)>>)
  \/ \E n \in {0, 1, 4}, f \in {<<>>, <<1>>, <<1, 1>>, <<1, 1, 1>>}, r \in R, ok \in R, m \in M, c \in CS(a) : Resize(a, n, f, ok, c, m, r) /\ H(<<"resize", a, n, fl(r)>>)
  \/ \E n \in {0, 1, 4}, r \in R, ok \in R, m \in M, c \in CS(a) : SetCapacity(a, n, ok, c, m, r) /\ n > 0 /\ H(<<"set_capacity", a, n, fl(r)>>)
MNext == (Len(hist) < Depth \/ ~Gen) /\ \E a \in Ids : Ops(a)
MSpec == MInit /\ [][MNext]_mvars
Bound == \A a \in Ids : Len(arr[a].items) <= MaxLen /\ arr[a].cap <= MaxLen + 3
(* exhaustive checking looks at the abstract state only *)
View == <<arr, last>>
Emit == (Gen /\ Len(hist) = Depth) => PrintT(ToJson(hist))
GView == hist
=============================================================================
