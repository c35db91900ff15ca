----------------------------- MODULE ArrayTrace -----------------------------
(* Recorded calls must be a behaviour of Array, with the whole projected state equal after every call. *)
EXTENDS Array, TraceBase
Ids == 1..3
tvars == <<arr, last, l>>
TInit == l = 1 /\ Init(Ids)
After(a, e) == /\ arr'[a].alive = e.alive
               /\ (e.alive => arr'[a].items = e.items /\ arr'[a].cap = e.cap)
               /\ e.live = Cardinality({ x \in Ids : arr'[x].alive })      \* blocks held: one per live array
Do(e) == LET a == e.a IN
  CASE e.op = "Reset"           -> Restart(Ids)
    [] e.op = "init"            -> (IF e.refuse THEN InitFail(a) /\ ~e.ok ELSE InitReserve(a, e.n, e.cap) /\ e.ok) /\ After(a, e)
    [] e.op = "append"          -> Append_(a, e.v, e.ok, e.cap, e.moved, e.refuse) /\ After(a, e)
    [] e.op = "append_items"    -> AppendItems(a, e.vs, e.ok, e.cap, e.moved, e.refuse) /\ After(a, e)
    [] e.op = "append_array"    -> AppendArray(a, e.b, e.ok, e.cap, e.moved, e.refuse) /\ After(a, e)
    [] e.op = "append_at"       -> AppendAt(a, e.v, e.i, e.ok, e.cap, e.moved, e.refuse) /\ After(a, e)
    [] e.op = "append_items_at" -> AppendItemsAt(a, e.vs, e.i, e.ok, e.cap, e.moved, e.refuse) /\ After(a, e)
    [] e.op = "back"            -> Back(a, e.val) /\ After(a, e)
    [] e.op = "clear"           -> Clear(a) /\ After(a, e)
    [] e.op = "fill"            -> Fill(a, e.b, e.e, e.v, e.ok) /\ After(a, e)
    [] e.op = "free"            -> Free(a) /\ After(a, e)
    [] e.op = "pop"             -> Pop(a) /\ After(a, e)
    [] e.op = "remove_at"       -> RemoveAt(a, e.i) /\ After(a, e)
    [] e.op = "reserve"         -> Reserve(a, e.n, e.ok, e.cap, e.moved, e.refuse) /\ After(a, e)
    [] e.op = "grow"            -> Grow(a, e.n, e.ok, e.cap, e.moved, e.refuse) /\ After(a, e)
    [] e.op = "resize"          -> Resize(a, e.n, Rest(e.items, Len(arr[a].items) + 1), e.ok, e.cap, e.moved, e.refuse) /\ After(a, e)
    [] e.op = "set_capacity"    -> SetCapacity(a, e.n, e.ok, e.cap, e.moved, e.refuse) /\ After(a, e)
    [] OTHER                    -> FALSE
TNext == HasEvent /\ Do(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
