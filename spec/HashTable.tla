----------------------------- MODULE HashTable -----------------------------
(* The hash table: a finite map from 64-bit keys to values. Buckets, chains, load and rehashing are not part of what a  *)
(* caller may rely on; that every operation leaves the map as below, whatever the keys' residues, is.                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES live,   \* the table exists
          map,    \* key -> value
          seen    \* what the last call let its caller see: <<>> or <<x>>

vars == <<live, map, seen>>
Empty == [k \in {} |-> 0]
Put(m, k, v) == [x \in (DOMAIN m) \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in (DOMAIN m) \ {k} |-> m[x]]

InitTable   == ~live /\ live' = TRUE /\ map' = Empty /\ seen' = <<>>
Destroy     == live /\ live' = FALSE /\ map' = Empty /\ seen' = <<>>
Set(k, v)   == live /\ map' = Put(map, k, v) /\ seen' = <<>> /\ UNCHANGED live
Get(k, r)   == live /\ r = (IF k \in DOMAIN map THEN <<map[k]>> ELSE <<>>) /\ seen' = r /\ UNCHANGED <<live, map>>
(* writing through the address a lookup returned *)
Poke(k, v, r) == /\ live
                 /\ r = (k \in DOMAIN map)
                 /\ map' = (IF r THEN Put(map, k, v) ELSE map) /\ seen' = <<>> /\ UNCHANGED live
Remove(k)   == live /\ map' = Del(map, k) /\ seen' = <<>> /\ UNCHANGED live
Clear       == live /\ map' = Empty /\ seen' = <<>> /\ UNCHANGED live
(* growing and rehashing move entries about, and change nothing a caller can see *)
Reorganise  == live /\ seen' = <<>> /\ UNCHANGED <<live, map>>
(* visits: a sequence of <<key, value>>; each entry exactly once, in no particular order *)
VisitsAll(vs) == Len(vs) = Cardinality(DOMAIN map) /\ {vs[i] : i \in 1..Len(vs)} = {<<k, map[k]>> : k \in DOMAIN map}
MapAll(vs)  == live /\ VisitsAll(vs) /\ seen' = <<>> /\ UNCHANGED <<live, map>>
MapMut(vs, d) == live /\ VisitsAll(vs) /\ map' = [k \in DOMAIN map |-> map[k] + d] /\ seen' = <<>> /\ UNCHANGED live

Init == live = FALSE /\ map = Empty /\ seen = <<>>
Restart == live' = FALSE /\ map' = Empty /\ seen' = <<>>

(* ---- checked on the small model ---- *)
DeadIsEmpty == ~live => map = Empty
(* a call changes the binding of at most one key, unless it is a clear, a destroy or a mutating visit *)
OneKeyAtATime == [][ (map' # Empty /\ DOMAIN map' # DOMAIN map) => Cardinality((DOMAIN map' \ DOMAIN map) \cup (DOMAIN map \ DOMAIN map')) = 1 ]_vars
=============================================================================
