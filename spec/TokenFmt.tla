------------------------------ MODULE TokenFmt ------------------------------
(* Token substitution. A template is scanned from left to right: a '<' opens a token if a '>' follows somewhere; the token's
   name is everything up to the first '>'. If that name was given, the whole <name> is replaced by its value; otherwise the
   '<' is ordinary text and scanning goes on right after it. The result never exceeds the buffer.
   Texts are sequences of byte values; a token map is a sequence of [n |-> name, v |-> value], later entries winning. *)
EXTENDS Naturals, Sequences
LT == 60
GT == 62
Min2(a, b) == IF a < b THEN a ELSE b
NextGT(t, i) == LET S == {j \in i..Len(t) : t[j] = GT} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
Given(m, n) == \E k \in 1..Len(m) : m[k].n = n
Value(m, n) == m[CHOOSE k \in 1..Len(m) : m[k].n = n /\ \A j \in (k + 1)..Len(m) : m[j].n # n].v
\* the token that starts at position i, if it is one that was given: position after it, else 0
TokenEnd(t, m, i) ==
  IF t[i] # LT THEN 0
  ELSE LET g == NextGT(t, i + 1) IN IF g # 0 /\ Given(m, SubSeq(t, i + 1, g - 1)) THEN g + 1 ELSE 0
NameAt(t, i) == SubSeq(t, i + 1, NextGT(t, i + 1) - 1)
RECURSIVE SubstFrom(_, _, _)
SubstFrom(t, m, i) ==
  IF i > Len(t) THEN <<>>
  ELSE LET e == TokenEnd(t, m, i)
       IN IF e # 0 THEN Value(m, NameAt(t, i)) \o SubstFrom(t, m, e)
          ELSE <<t[i]>> \o SubstFrom(t, m, i + 1)
Subst(t, m) == SubstFrom(t, m, 1)
Bounded(s, n) == SubSeq(s, 1, Min2(Len(s), n))
=============================================================================
