----------------------------- MODULE TextTrace -----------------------------
EXTENDS Text, TraceBase
Ids == 1..3
tvars == <<vars, l>>
TInit == l = 1 /\ Init(Ids)
(* the whole projected state of builder a: contents, terminator, capacity; and the number of blocks held *)
After(e) == LET a == e.a IN
  /\ sb'[a].alive = e.alive
  /\ (e.alive => sb'[a].bytes = e.bytes /\ sb'[a].cap = e.cap /\ e.term = 0 /\ e.avail = e.cap - Len(e.bytes))
  /\ e.live = Cardinality({ x \in Ids : sb'[x].alive })
Set(s) == { s[i] : i \in 1..Len(s) }
Do(e) ==
  CASE e.op = "Reset" -> Restart(Ids)
    [] e.op = "pure"  -> e.r = Pure(e.f, e.x, e.y, e.n) /\ UNCHANGED vars
    [] e.op \in {"make_c_str", "make_str", "make_length"} -> Make(e.a, e.x, e.cap, e.ok, e.refuse) /\ After(e)
    [] e.op = "join" -> Make(e.a, JoinWith(e.parts, e.x), e.cap, e.ok, FALSE) /\ After(e)
    [] e.op = "make_reserve" -> Reserve(e.a, e.n, e.cap, e.ok, e.refuse) /\ After(e)
    [] e.op \in {"append_char", "append_c_str", "append_str", "append_len"} -> Append_(e.a, e.x, e.cap, e.ok, e.moved, e.refuse) /\ After(e)
    [] e.op = "append_sb" -> AppendSB(e.a, e.b, e.cap, e.ok, e.moved, e.refuse) /\ After(e)
    [] e.op = "make_space" -> MakeSpace(e.a, e.n, e.cap, e.ok, e.moved, e.refuse) /\ After(e)
    [] e.op = "clear" -> Clear(e.a) /\ After(e)
    [] e.op = "trim"  -> TrimSet(e.a, Set(e.x)) /\ After(e)
    [] e.op = "trim_space" -> TrimSet(e.a, Spaces) /\ After(e)
    [] e.op = "strip_space" -> StripSpace(e.a) /\ After(e)
    [] e.op = "free"  -> Free(e.a) /\ After(e)
    [] e.op = "dup"   -> Duplicate(e.a, e.b, e.cap) /\ After(e)
    [] e.op = "vis"   -> Visualise(e.a, e.b, e.cap) /\ After(e)
    [] e.op = "back"  -> Ask(e.a, e.r) /\ e.r = sb[e.a].bytes[Len(sb[e.a].bytes)] /\ After(e)
    [] e.op = "eq"    -> Ask(e.a, e.r) /\ e.r = (sb[e.a].bytes = sb[e.b].bytes) /\ After(e)
    [] e.op = "eq_str" -> Ask(e.a, e.r) /\ e.r = (sb[e.a].bytes = e.x) /\ After(e)
    [] e.op = "contains_str" -> Ask(e.a, e.r) /\ e.r = Contains(sb[e.a].bytes, e.x) /\ After(e)
    [] e.op = "contains" -> Ask(e.a, e.r) /\ e.r = Contains(sb[e.a].bytes, sb[e.b].bytes) /\ After(e)
    [] e.op = "starts_str" -> Ask(e.a, e.r) /\ e.r = StartsWith(sb[e.a].bytes, e.x) /\ After(e)
    [] e.op = "starts" -> Ask(e.a, e.r) /\ e.r = StartsWith(sb[e.a].bytes, sb[e.b].bytes) /\ After(e)
    [] e.op = "to_str" -> Ask(e.a, e.r) /\ e.r = sb[e.a].bytes /\ After(e)
    [] OTHER -> FALSE
TNext == HasEvent /\ Do(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
