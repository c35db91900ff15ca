---------------------------- MODULE MCHashTable ----------------------------
EXTENDS HashTable, TLC, Json
CONSTANTS Depth, Gen, Keys
VARIABLE hist
mvars == <<vars, hist>>
V == {1, 2}
H(x) == hist' = Append(hist, x)
Perms(S) == { s \in [1..Cardinality(S) -> S] : {s[i] : i \in DOMAIN s} = S }
MInit == Init /\ hist = <<>>
Ops ==
  \/ \E n \in {1, 2, 8} : InitTable /\ H(<<"init", n>>)
  \/ Destroy /\ H(<<"destroy">>)
  \/ \E k \in Keys, v \in V : Set(k, v) /\ H(<<"set", k, v>>)
  \/ \E k \in Keys, r \in {<<>>} \cup {<<v>> : v \in 1..9} : Get(k, r) /\ H(<<"get", k>>)
  \/ \E k \in Keys, r \in {TRUE, FALSE} : Poke(k, 2, r) /\ H(<<"poke", k, 2>>)
  \/ \E k \in Keys : Remove(k) /\ H(<<"remove", k>>)
  \/ Clear /\ H(<<"clear">>)
  \/ Reorganise /\ (H(<<"grow">>) \/ H(<<"rehash", 1>>) \/ H(<<"rehash", 3>>) \/ H(<<"rehash_fast">>))
  \/ \E vs \in Perms({<<k, map[k]>> : k \in DOMAIN map}) : MapAll(vs) /\ H(<<"map">>)
  \/ \E vs \in Perms({<<k, map[k]>> : k \in DOMAIN map}) : MapMut(vs, 1) /\ H(<<"map_mut", 1>>)
MNext == (Gen => Len(hist) < Depth) /\ Ops
MSpec == MInit /\ [][MNext]_mvars
Bound == \A k \in DOMAIN map : map[k] <= 5
View == <<live, map, seen>>
Emit == (Gen /\ Len(hist) = Depth) => PrintT(ToJson(hist))
GView == hist
=============================================================================
