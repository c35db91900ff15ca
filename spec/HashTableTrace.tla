--------------------------- MODULE HashTableTrace ---------------------------
EXTENDS HashTable, TraceBase
tvars == <<vars, l>>
TInit == l = 1 /\ Init
(* After every call the driver looked up every key it ever used: e.all is the sequence of <<key, value>> found. *)
After(e) == /\ live' = e.live
            /\ {e.all[i] : i \in 1..Len(e.all)} = {<<k, map'[k]>> : k \in DOMAIN map'}
            /\ e.blocks = (IF live' THEN 2 ELSE 0)
Do(e) ==
  CASE e.op = "Reset"       -> Restart
    [] e.op = "init"        -> InitTable /\ After(e)
    [] e.op = "destroy"     -> Destroy /\ After(e)
    [] e.op = "set"         -> Set(e.k, e.v) /\ After(e)
    [] e.op = "get"         -> Get(e.k, e.r) /\ After(e)
    [] e.op = "poke"        -> Poke(e.k, e.v, e.r) /\ After(e)
    [] e.op = "remove"      -> Remove(e.k) /\ After(e)
    [] e.op = "remove_entry"-> Remove(e.k) /\ After(e)
    [] e.op = "clear"       -> Clear /\ After(e)
    [] e.op \in {"grow", "rehash", "rehash_fast"} -> Reorganise /\ After(e)
    [] e.op = "map"         -> MapAll(e.vs) /\ After(e)
    [] e.op = "map_mut"     -> MapMut(e.vs, e.d) /\ After(e)
    [] OTHER                -> FALSE
TNext == HasEvent /\ Do(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
