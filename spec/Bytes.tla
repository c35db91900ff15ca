------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of 0..255. Pure operators shared by the text specifications. *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Lo(a, b) == IF a < b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, Lo(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
IsAt(s, p, i) == i + Len(p) <= Len(s) /\ \A k \in 1..Len(p) : s[i + k] = p[k]     \* p occurs in s after i bytes
StartsWith(s, p) == IsAt(s, p, 0)
Contains(s, p) == \E i \in 0..Len(s) : IsAt(s, p, i)
Spaces == {32, 9, 10, 13, 11, 12}
RECURSIVE TrimL(_, _), TrimR(_, _), Keep(_, _), Concat(_), JoinWith(_, _)
TrimL(s, set) == IF s # <<>> /\ Head(s) \in set THEN TrimL(Tail(s), set) ELSE s
TrimR(s, set) == IF s # <<>> /\ s[Len(s)] \in set THEN TrimR(SubSeq(s, 1, Len(s) - 1), set) ELSE s
Trim(s, set) == TrimR(TrimL(s, set), set)
Keep(s, set) == SelectSeq(s, LAMBDA c : c \in set)
Without(s, set) == SelectSeq(s, LAMBDA c : c \notin set)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
JoinWith(ss, g) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o g \o JoinWith(Tail(ss), g)
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsDigit(c) == c \in 48..57
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsHex(c) == IsDigit(c) \/ c \in 97..102 \/ c \in 65..70
IsIdent(c) == IsAlpha(c) \/ IsDigit(c) \/ c = 95
Lower(c) == IF IsUpper(c) THEN c + 32 ELSE c
Upper(c) == IF IsLower(c) THEN c - 32 ELSE c
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
(* the first position (0-based) of a byte of set in s, or Len(s) *)
RECURSIVE FindIn(_, _)
FindIn(s, set) == IF s = <<>> \/ Head(s) \in set THEN 0 ELSE 1 + FindIn(Tail(s), set)
Fill(c, n) == IF n <= 0 THEN <<>> ELSE [i \in 1..n |-> c]

(* Numbers wider than TLC's integers: a sequence of 16-bit limbs, most significant first. *)
RECURSIVE DivL(_, _, _), AllZero(_), DigitsR(_, _)
AllZero(v) == \A i \in 1..Len(v) : v[i] = 0
(* <<quotient limbs, remainder>> of limbs v, with r carried in, divided by base b < 2^15 *)
DivL(v, b, r) == IF v = <<>> THEN [q |-> <<>>, r |-> r]
                 ELSE LET t == r * 65536 + Head(v) IN LET rest == DivL(Tail(v), b, t % b) IN [q |-> <<t \div b>> \o rest.q, r |-> rest.r]
DigitChar(d) == IF d < 10 THEN 48 + d ELSE IF d < 36 THEN 65 + d - 10 ELSE IF d < 62 THEN 97 + d - 36 ELSE IF d = 62 THEN 64 ELSE 36
DigitsR(v, b) == IF AllZero(v) THEN <<>> ELSE LET d == DivL(v, b, 0) IN DigitsR(d.q, b) \o <<DigitChar(d.r)>>
Digits(v, b) == IF AllZero(v) THEN <<48>> ELSE DigitsR(v, b)
(* value of a digit string as limbs: n limbs, wrapping *)
RECURSIVE MulAdd(_, _, _), ValueR(_, _, _)
MulAdd(v, b, a) == IF v = <<>> THEN [v |-> <<>>, c |-> a]
                   ELSE LET rest == MulAdd(Tail(v), b, a) IN LET t == Head(v) * b + rest.c IN [v |-> <<t % 65536>> \o rest.v, c |-> t \div 65536]
ValueR(acc, ds, b) == IF ds = <<>> THEN acc ELSE ValueR(MulAdd(acc, b, Head(ds)).v, Tail(ds), b)
Value(ds, b) == ValueR(<<0, 0, 0, 0>>, ds, b)
RECURSIVE NegR(_)
NegR(v) == IF v = <<>> THEN [v |-> <<>>, c |-> 1]
           ELSE LET rest == NegR(Tail(v)) IN LET t == (65535 - Head(v)) + rest.c IN [v |-> <<t % 65536>> \o rest.v, c |-> t \div 65536]
Neg(v) == NegR(v).v                  \* two's complement
IsNeg(v) == Head(v) >= 32768
Signed(v, b) == IF IsNeg(v) THEN <<45>> \o Digits(Neg(v), b) ELSE Digits(v, b)
=============================================================================
