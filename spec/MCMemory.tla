------------------------------ MODULE MCMemory ------------------------------
EXTENDS Memory, Json
CONSTANTS N, Depth, Gen
VARIABLE hist
mvars == <<m, hist>>
At == 0..(N - 1)
Run == {<<d, s, n>> \in At \X At \X (0..N) : d + n <= N /\ s + n <= N}
H(x) == hist' = IF Gen THEN Append(hist, x) ELSE <<>>
MInit == m = Pattern(N, 0) /\ hist = <<>>
Ops ==
  \/ \E r \in Run : Copy(r[1], r[2], r[3]) /\ H(<<"copy", r[1], r[2], r[3]>>)
  \/ \E r \in Run : Move(r[1], r[2], r[3]) /\ H(<<"move", r[1], r[2], r[3]>>)
  \/ \E r \in Run : r[2] = 0 /\ Fill(r[1], 200, r[3]) /\ H(<<"set", r[1], 200, r[3]>>)
  \/ \E r \in Run : r[3] = 1 /\ Swap(r[1], r[2], 1) /\ H(<<"swap", r[1], r[2], 1>>)
MNext == (Gen => Len(hist) < Depth) /\ Ops
MSpec == MInit /\ [][MNext]_mvars
Emit == (Gen /\ Len(hist) = Depth) => PrintT(ToJson(hist))
GView == hist
(* ---- checked ---- *)
Bytewise == \A i \in DOMAIN m : m[i] \in {Pattern(N, 0)[k] : k \in 1..N} \cup {200}      \* bytes are moved, never made
Searching == \A s \in At : \A n \in 0..(N - s) : \A v \in {m[i] : i \in DOMAIN m} \cup {0} :
               LET f == Found(v, s, n) IN IF f = -1 THEN \A i \in s..(s + n - 1) : m[i + 1] # v ELSE f >= s /\ f < s + n /\ m[f + 1] = v
SwapTwice == [][ \A r \in Run : Disjoint(r[1], r[2], r[3]) => Exchanged(r[1], r[2], r[3]) = Exchanged(r[2], r[1], r[3]) ]_mvars
Arithmetic == \A x \in -20..40 : \A a \in {1, 2, 4, 8, 16, 64} : IsAlignUp(x, a, AlignUp(x, a))
=============================================================================
