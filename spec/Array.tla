------------------------------- MODULE Array -------------------------------
(* The growable array: a sequence of items with a capacity, over an allocator that may refuse a request.            *)
(* One action per public operation. An action is parametrised by what the caller passed and by what the caller sees: *)
(* ok (returned value), cap2 (capacity afterwards), moved (whether the storage address changed).                    *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE arr      \* [id -> [alive, items, cap]]
VARIABLE last     \* what the last call let its caller see (observations only)

vars == <<arr, last>>
Dead == [alive |-> FALSE, items |-> <<>>, cap |-> 0]
Min(a, b) == IF a < b THEN a ELSE b
Rest(s, k) == SubSeq(s, k, Len(s))

Put(a, items, cap) == arr' = [arr EXCEPT ![a] = [alive |-> TRUE, items |-> items, cap |-> cap]]
Same == arr' = arr
Saw(ok, moved, val) == last' = [ok |-> ok, moved |-> moved, val |-> val]
None == <<>>

(* An operation that needs room for `need` items and leaves `items`. Within the capacity it cannot fail and does not *)
(* move the storage; beyond it, it fails exactly when the allocator refuses and then changes nothing.              *)
Needs(a, need, items, ok, cap2, moved, refuse) ==
  IF need <= arr[a].cap
    THEN ok /\ ~moved /\ cap2 = arr[a].cap /\ Put(a, items, cap2)
    ELSE IF refuse THEN ~ok /\ ~moved /\ cap2 = arr[a].cap /\ Same
                   ELSE ok /\ cap2 >= need /\ Put(a, items, cap2)

InitReserve(a, n, cap2) == ~arr[a].alive /\ n > 0 /\ cap2 >= n /\ Put(a, <<>>, cap2) /\ Saw(TRUE, FALSE, None)
InitFail(a)             == ~arr[a].alive /\ Same /\ Saw(FALSE, FALSE, None)

Append_(a, v, ok, cap2, moved, refuse) ==
  /\ arr[a].alive
  /\ Needs(a, Len(arr[a].items) + 1, Append(arr[a].items, v), ok, cap2, moved, refuse) /\ Saw(ok, moved, None)
AppendItems(a, vs, ok, cap2, moved, refuse) ==
  /\ arr[a].alive /\ Len(vs) > 0
  /\ Needs(a, Len(arr[a].items) + Len(vs), arr[a].items \o vs, ok, cap2, moved, refuse) /\ Saw(ok, moved, None)
AppendArray(a, b, ok, cap2, moved, refuse) == /\ a # b /\ arr[b].alive /\ AppendItems(a, arr[b].items, ok, cap2, moved, refuse)

InsertSeq(s, vs, i) == SubSeq(s, 1, i) \o vs \o Rest(s, i + 1)
AppendAt(a, v, i, ok, cap2, moved, refuse) ==
  /\ arr[a].alive
  /\ LET s == arr[a].items IN
       Needs(a, Len(s) + 1, InsertSeq(s, <<v>>, Min(i, Len(s))), ok, cap2, moved, refuse) /\ Saw(ok, moved, None)
AppendItemsAt(a, vs, i, ok, cap2, moved, refuse) ==
  /\ arr[a].alive /\ Len(vs) > 0
  /\ LET s == arr[a].items IN
       Needs(a, Len(s) + Len(vs), InsertSeq(s, vs, Min(i, Len(s))), ok, cap2, moved, refuse) /\ Saw(ok, moved, None)

Back(a, val) ==
  /\ arr[a].alive
  /\ val = (IF arr[a].items = <<>> THEN None ELSE <<arr[a].items[Len(arr[a].items)]>>) /\ Same /\ Saw(TRUE, FALSE, val)
Clear(a)     == arr[a].alive /\ Put(a, <<>>, arr[a].cap) /\ Saw(TRUE, FALSE, None)
Fill(a, b, e, v, ok) ==
  /\ arr[a].alive /\ b <= e
  /\ ok = (e <= Len(arr[a].items))
  /\ IF ok THEN Put(a, [i \in 1..Len(arr[a].items) |-> IF b < i /\ i <= e THEN v ELSE arr[a].items[i]], arr[a].cap) ELSE Same
  /\ Saw(ok, FALSE, None)
Free(a)      == arr[a].alive /\ arr' = [arr EXCEPT ![a] = Dead] /\ Saw(TRUE, FALSE, None)
Pop(a)       == arr[a].alive /\ arr[a].items # <<>> /\ Put(a, SubSeq(arr[a].items, 1, Len(arr[a].items) - 1), arr[a].cap) /\ Saw(TRUE, FALSE, None)
RemoveAt(a, i) ==
  /\ arr[a].alive /\ i < Len(arr[a].items)
  /\ Put(a, SubSeq(arr[a].items, 1, i) \o Rest(arr[a].items, i + 2), arr[a].cap) /\ Saw(TRUE, FALSE, None)
Reserve(a, n, ok, cap2, moved, refuse) ==
  /\ arr[a].alive
  /\ Needs(a, n, arr[a].items, ok, cap2, moved, refuse) /\ Saw(ok, moved, None)
Grow(a, n, ok, cap2, moved, refuse) ==
  /\ arr[a].alive
  /\ IF ok THEN cap2 >= n /\ cap2 >= Len(arr[a].items) /\ Put(a, arr[a].items, cap2)
           ELSE refuse /\ ~moved /\ cap2 = arr[a].cap /\ Same
  /\ Saw(ok, moved, None)
(* Resizing up exposes items whose values the caller still has to set: `fresh` is whatever is there.                *)
Resize(a, n, fresh, ok, cap2, moved, refuse) ==
  /\ arr[a].alive
  /\ LET s == arr[a].items IN
       /\ (ok => Len(fresh) = (IF n > Len(s) THEN n - Len(s) ELSE 0))
       /\ Needs(a, n, SubSeq(s, 1, Min(n, Len(s))) \o fresh, ok, cap2, moved, refuse)
  /\ Saw(ok, moved, None)
SetCapacity(a, n, ok, cap2, moved, refuse) ==
  /\ arr[a].alive
  /\ LET s == arr[a].items IN
     IF n < Len(s) THEN ok /\ cap2 >= n /\ Put(a, SubSeq(s, 1, n), cap2)
     ELSE IF n = arr[a].cap THEN ok /\ ~moved /\ cap2 = n /\ Same
     ELSE IF refuse THEN ~ok /\ ~moved /\ cap2 = arr[a].cap /\ Same
     ELSE ok /\ cap2 = n /\ Put(a, s, n)
  /\ Saw(ok, moved, None)

Restart(ids) == arr' = [a \in ids |-> Dead] /\ Saw(TRUE, FALSE, None)
Init(ids) == arr = [a \in ids |-> Dead] /\ last = [ok |-> TRUE, moved |-> FALSE, val |-> None]

(* ---- what the actions together guarantee (checked by TLC on the small model) -------------------------------------*)
CapacityHolds == \A a \in DOMAIN arr : Len(arr[a].items) <= arr[a].cap
(* A call that reports failure changed nothing. *)
FailureIsAtomic == [][ ~last'.ok => arr' = arr ]_vars
(* A call only ever touches one array. *)
Isolation == [][ Cardinality({ a \in DOMAIN arr : arr'[a] # arr[a] }) <= 1 ]_vars
(* Storage does not move unless the capacity changes or items are dropped. *)
StableStorage == [][ \A a \in DOMAIN arr : last'.moved /\ arr'[a].cap = arr[a].cap /\ arr'[a] # arr[a] => Len(arr'[a].items) < Len(arr[a].items) ]_vars
=============================================================================
