----------------------------- MODULE MCIntern -----------------------------
(* The design of the string store: a table keyed by (hash, probe) in front of string arenas of a configured size; a string that
   does not fit the last arena gets a new arena, one large enough for it. It implements Context's interning for texts of all
   lengths relative to the arena and to the sharing limit, with colliding hashes, and no two stored strings share memory. *)
EXTENDS Context, TLC, Json
CONSTANTS Depth, ArenaSize, Limit, PrintHist
VARIABLES table,   \* <<hash, probe>> -> [text, id]
          arenas,  \* sequence of [size, used]
          where,   \* id -> [arena, from, len]
          hist
vars == <<cvars, table, arenas, where, hist>>
\* text -> [hash class, length]; lengths around the arena size and the limit
Texts == [a |-> [h |-> 0, n |-> 1], b |-> [h |-> 0, n |-> 2], c |-> [h |-> 0, n |-> 5], d |-> [h |-> 1, n |-> 3],
          L |-> [h |-> 1, n |-> 9], M |-> [h |-> 2, n |-> 12]]
Overhead == 2
Need(n) == n + Overhead
RECURSIVE Probe(_, _)
Probe(t, p) == LET k == <<Texts[t].h, p>>
               IN IF k \notin DOMAIN table THEN k ELSE IF table[k].text = t THEN k ELSE Probe(t, p + 1)
Place(id, n) ==
  LET last == Len(arenas)
      fits == arenas[last].used + Need(n) <= arenas[last].size
      size == IF Need(n) > ArenaSize THEN Need(n) ELSE ArenaSize
  IN IF fits THEN /\ arenas' = [arenas EXCEPT ![last].used = @ + Need(n)]
                  /\ where' = Put(where, id, [arena |-> last, from |-> arenas[last].used, len |-> Need(n)])
     ELSE /\ arenas' = Append(arenas, [size |-> size, used |-> Need(n)])
          /\ where' = Put(where, id, [arena |-> last + 1, from |-> 0, len |-> Need(n)])
Cache(t) ==
  LET n == Texts[t].n
      k == Probe(t, 0)
      id == Cardinality(DOMAIN where) + 1
  IN IF n > Limit THEN Place(id, n) /\ Intern(t, n, id) /\ UNCHANGED table
     ELSE IF k \in DOMAIN table THEN Intern(t, n, table[k].id) /\ UNCHANGED <<table, arenas, where>>
     ELSE Place(id, n) /\ Intern(t, n, id) /\ table' = Put(table, k, [text |-> t, id |-> id])
Init == /\ ctx = [x \in Ctxs |-> IF x = 1 THEN Fresh(Limit) ELSE Down] /\ cur = 1 /\ base = 1
        /\ table = Empty /\ arenas = <<[size |-> ArenaSize, used |-> 0]>> /\ where = Empty /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E t \in DOMAIN Texts : Cache(t) /\ hist' = Append(hist, t)
Spec == Init /\ [][Next]_vars
Disjoint == /\ \A i \in DOMAIN where : where[i].from + where[i].len <= arenas[where[i].arena].size
            /\ \A i, j \in DOMAIN where : i # j /\ where[i].arena = where[j].arena =>
                 where[i].from + where[i].len <= where[j].from \/ where[j].from + where[j].len <= where[i].from
\* the design can always store the next text, and what it does is always what Context allows
Total == Len(hist) < Depth => \A t \in DOMAIN Texts :
           LET k == Probe(t, 0)
           IN Texts[t].n <= Limit => IF k \in DOMAIN table THEN t \in DOMAIN ctx[1].store /\ table[k].id = ctx[1].store[t]
                                     ELSE t \notin DOMAIN ctx[1].store /\ Cardinality(DOMAIN where) + 1 \notin ctx[1].ids
Emit == (PrintHist /\ Len(hist) = Depth) => PrintT(ToJson(hist))
=============================================================================
