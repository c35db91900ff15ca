------------------------------- MODULE MCText -------------------------------
EXTENDS Text, TLC, Json
CONSTANTS Depth, Gen, MaxLen
VARIABLE hist
mvars == <<vars, hist>>
Ids == {1, 2}
S == {<<>>, <<97>>, <<32, 97>>, <<97, 32>>}
R == {TRUE, FALSE}
fl(b) == IF b THEN 1 ELSE 0
M == IF Gen THEN {FALSE} ELSE R
CS(a) == {sb[a].cap, sb[a].cap + 1, sb[a].cap + 2} \cup {0, 1, 2, 4}
H(x) == hist' = Append(hist, x)
MInit == Init(Ids) /\ hist = <<>>
Ops(a) ==
  \/ \E s \in S, r \in R, ok \in R, c \in CS(a), k \in (IF Gen THEN {"make_c_str", "make_str", "make_length"} ELSE {"make"}) : Make(a, s, c, ok, r) /\ H(<<k, a, s, fl(r)>>)
  \/ \E n \in {0, 3}, r \in R, ok \in R, c \in CS(a) : Reserve(a, n, c, ok, r) /\ H(<<"make_reserve", a, n, fl(r)>>)
  \/ \E s \in S, r \in R, ok \in R, c \in CS(a), m \in M, k \in (IF Gen THEN {"append_c_str", "append_str", "append_len"} ELSE {"append"}) : Append_(a, s, c, ok, m, r) /\ H(<<k, a, s, fl(r)>>)
  \/ \E r \in R, ok \in R, c \in CS(a), m \in M : Append_(a, <<98>>, c, ok, m, r) /\ H(<<"append_char", a, <<98>>, fl(r)>>)
  \/ \E b \in Ids, r \in R, ok \in R, c \in CS(a), m \in M : AppendSB(a, b, c, ok, m, r) /\ H(<<"append_sb", a, b, fl(r)>>)
  \/ \E r \in R, ok \in R, c \in CS(a), m \in M : MakeSpace(a, 2, c, ok, m, r) /\ H(<<"make_space", a, 2, fl(r)>>)
  \/ Clear(a) /\ H(<<"clear", a>>)
  \/ TrimSet(a, {97}) /\ H(<<"trim", a, <<97>>>>)
  \/ TrimSet(a, Spaces) /\ H(<<"trim_space", a>>)
  \/ StripSpace(a) /\ H(<<"strip_space", a>>)
  \/ Free(a) /\ H(<<"free", a>>)
  \/ \E b \in Ids : \E c \in CS(b) : Duplicate(a, b, c) /\ H(<<"dup", a, b>>)
  \/ \E b \in Ids : \E c \in CS(b) \cup {8} : Visualise(a, b, c) /\ H(<<"vis", a, b>>)
  \/ \E b \in Ids, k \in {"eq", "contains", "starts"} : sb[b].alive /\ Ask(a, TRUE) /\ H(<<k, a, b>>)
  \/ \E s \in S, k \in {"eq_str", "contains_str", "starts_str"} : Ask(a, TRUE) /\ H(<<k, a, s>>)
  \/ Ask(a, TRUE) /\ H(<<"to_str", a>>)
MNext == (Gen => Len(hist) < Depth) /\ \E a \in Ids : Ops(a)
MSpec == MInit /\ [][MNext]_mvars
Bound == \A a \in Ids : Len(sb[a].bytes) <= MaxLen /\ sb[a].cap <= MaxLen + 2
View == vars
Emit == (Gen /\ Len(hist) = Depth) => PrintT(ToJson(hist))
GView == hist
=============================================================================
