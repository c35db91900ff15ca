----------------------------- MODULE MCContext -----------------------------
(* The design of the string cache - a table keyed by (hash, probe) whose entries are compared by content - implements Context's
   interning although hashes collide; and lifecycle histories for replay. *)
EXTENDS Context, TLC, Json
CONSTANTS Depth, Texts, HashOf(_), PrintHist
VARIABLES table,  \* context -> (<<hash, probe>> -> [text, id])
          next, hist
vars == <<cvars, table, next, hist>>
Log(h) == hist' = Append(hist, h)
RECURSIVE Probe(_, _, _)
Probe(tb, t, p) == IF <<HashOf(t), p>> \notin DOMAIN tb THEN <<HashOf(t), p>>
                   ELSE IF tb[<<HashOf(t), p>>].text = t THEN <<HashOf(t), p>> ELSE Probe(tb, t, p + 1)
Cache(t) ==
  LET tb == table[cur]
      k == Probe(tb, t, 0)
  IN IF k \in DOMAIN tb THEN Intern(t, 1, tb[k].id) /\ UNCHANGED <<table, next>>
     ELSE /\ Intern(t, 1, next) /\ next' = next + 1
          /\ table' = [table EXCEPT ![cur] = Put(tb, k, [text |-> t, id |-> next])]
Init == ctx = [c \in Ctxs |-> Down] /\ cur = 0 /\ base = 0 /\ table = [c \in Ctxs |-> Empty] /\ next = 1 /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E c \in 1..2 : CInit(c, 10) /\ UNCHANGED <<table, next>> /\ Log(<<"cinit", c>>)
     \/ \E c \in 1..2 : c # cur /\ CSwitch(c) /\ UNCHANGED <<table, next>> /\ Log(<<"cswitch", c>>)
     \/ \E c \in 1..2 : CReset(c) /\ table' = [table EXCEPT ![c] = Empty] /\ UNCHANGED next /\ Log(<<"creset", c>>)
     \/ \E c \in 1..2 : CDeinit(c) /\ table' = [table EXCEPT ![c] = Empty] /\ UNCHANGED next /\ Log(<<"cdeinit", c>>)
     \/ \E t \in Texts : cur # 0 /\ Cache(t) /\ Log(<<"intern", t>>)
     \/ cur # 0 /\ PrintHist /\ Register("MM", "stmt", 0) /\ UNCHANGED <<table, next>> /\ Log(<<"reg", "MM", "stmt", 0>>)
     \/ cur # 0 /\ PrintHist /\ Defined("MM", FALSE) /\ UNCHANGED <<table, next>> /\ Log(<<"def", "MM", 0>>)
     \/ cur # 0 /\ PrintHist /\ UNCHANGED <<cvars, table, next>> /\ hist[Len(hist)][1] # "sample" /\ Log(<<"sample">>)
Spec == Init /\ [][Next]_vars
\* the cache design never blocks: what it returns is always allowed by Context
Works == cur # 0 => \A t \in Texts :
           LET tb == table[cur]
               k == Probe(tb, t, 0)
           IN IF k \in DOMAIN tb THEN t \in DOMAIN ctx[cur].store /\ tb[k].id = ctx[cur].store[t]
              ELSE t \notin DOMAIN ctx[cur].store /\ next \notin ctx[cur].ids
Collide(t) == IF t \in {"a", "b", "c"} THEN 0 ELSE 1
Emit == (PrintHist /\ Len(hist) = Depth) => PrintT(ToJson(hist))
=============================================================================
