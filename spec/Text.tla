-------------------------------- MODULE Text --------------------------------
(* String builders (growable, always NUL-terminated byte strings with a capacity, over an allocator that may refuse)   *)
(* and the pure operations on strings.                                                                                 *)
EXTENDS Bytes
VARIABLES sb,     \* [id -> [alive, bytes, cap]]
          out     \* what the last call returned
vars == <<sb, out>>
Dead == [alive |-> FALSE, bytes |-> <<>>, cap |-> 0]
Same == sb' = sb
Put(a, s, cap) == sb' = [sb EXCEPT ![a] = [alive |-> TRUE, bytes |-> s, cap |-> cap]]
Ret(x) == out' = x

Make(a, s, cap2, ok, refuse) ==
  /\ ~sb[a].alive
  /\ ok = ~refuse
  /\ IF ok THEN cap2 >= Len(s) /\ Put(a, s, cap2) ELSE Same
  /\ Ret(ok)
Reserve(a, n, cap2, ok, refuse) ==
  /\ ~sb[a].alive
  /\ ok = ~refuse
  /\ IF ok THEN cap2 >= n /\ Put(a, <<>>, cap2) ELSE Same
  /\ Ret(ok)
(* Room for `more` further bytes: never refused, never moved, within the capacity; beyond it the allocator decides.    *)
Room(a, more, s2, cap2, ok, moved, refuse) ==
  /\ sb[a].alive
  /\ IF Len(sb[a].bytes) + more <= sb[a].cap
       THEN ok /\ ~moved /\ cap2 = sb[a].cap /\ Put(a, s2, cap2)
       ELSE IF refuse THEN ~ok /\ ~moved /\ cap2 = sb[a].cap /\ Same
                      ELSE ok /\ cap2 >= Len(sb[a].bytes) + more /\ Put(a, s2, cap2)
  /\ Ret(ok)
Append_(a, s, cap2, ok, moved, refuse)   == Room(a, Len(s), sb[a].bytes \o s, cap2, ok, moved, refuse)
AppendSB(a, b, cap2, ok, moved, refuse)  == /\ a # b /\ sb[b].alive /\ Append_(a, sb[b].bytes, cap2, ok, moved, refuse)
MakeSpace(a, n, cap2, ok, moved, refuse) == Room(a, n, sb[a].bytes, cap2, ok, moved, refuse)
(* in-place edits keep the storage *)
Edit(a, s2) == sb[a].alive /\ Put(a, s2, sb[a].cap) /\ Ret(TRUE)
Clear(a)         == Edit(a, <<>>)
TrimSet(a, set)  == Edit(a, Trim(sb[a].bytes, set))
StripSpace(a)    == Edit(a, Without(sb[a].bytes, Spaces))
Free(a)          == sb[a].alive /\ sb' = [sb EXCEPT ![a] = Dead] /\ Ret(TRUE)
Duplicate(a, b, cap2) == sb[b].alive /\ ~sb[a].alive /\ cap2 >= Len(sb[b].bytes) /\ Put(a, sb[b].bytes, cap2) /\ Ret(TRUE)
Visible(c) == CASE c = 32 -> <<194, 183>> [] c = 9 -> <<226, 134, 146>> [] c = 10 -> <<226, 134, 181>>
                [] c = 13 -> <<226, 143, 142>> [] c = 11 -> <<226, 135, 149>> [] c = 12 -> <<226, 140, 130>> [] OTHER -> <<c>>
Visualised(s) == Concat(Map(s, Visible))
Visualise(a, b, cap2) == sb[b].alive /\ ~sb[a].alive /\ cap2 >= Len(Visualised(sb[b].bytes)) /\ Put(a, Visualised(sb[b].bytes), cap2) /\ Ret(TRUE)
(* questions *)
Ask(a, x) == sb[a].alive /\ Same /\ Ret(TRUE)
Init(ids) == sb = [a \in ids |-> Dead] /\ out = TRUE
Restart(ids) == sb' = [a \in ids |-> Dead] /\ out' = TRUE

(* ---- checked on the small model ---- *)
Fits == \A a \in DOMAIN sb : Len(sb[a].bytes) <= sb[a].cap
FailureIsAtomic == [][ out' = FALSE => sb' = sb ]_vars
Isolation == [][ Cardinality({ a \in DOMAIN sb : sb'[a] # sb[a] }) <= 1 ]_vars

(* ---- pure functions: the value each must return (or the text it must leave) ---- *)
Pure(f, x, y, n) ==
  CASE f = "is_alpha"  -> IsAlpha(x[1])   [] f = "is_alnum" -> IsAlpha(x[1]) \/ IsDigit(x[1])
    [] f = "is_digit"  -> IsDigit(x[1])   [] f = "is_hex"   -> IsHex(x[1])
    [] f = "is_space"  -> x[1] \in Spaces
    [] f = "to_lower"  -> Lower(x[1])     [] f = "to_upper" -> Upper(x[1])
    [] f = "hex_val"   -> HexVal(x[1])    [] f = "digit_val" -> x[1] - 48
    [] f = "first_occ" -> (LET i == FindIn(x, {n}) IN IF i < Len(x) \/ n = 0 THEN i ELSE -1)
    [] f = "cmp_zero"  -> x = y
    [] f = "cmp_sign"  -> (IF x = y THEN 0 ELSE
                             LET d == FindIn([i \in 1..(IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)) |-> IF x[i] = y[i] THEN 0 ELSE 1], {1}) IN
                             LET cx == IF d < Len(x) THEN x[d + 1] ELSE 0  cy == IF d < Len(y) THEN y[d + 1] ELSE 0 IN IF cx < cy THEN -1 ELSE 1)
    [] f = "cmpn_zero" -> Take(x, n) = Take(y, n)
    [] f = "copy"      -> Take(x, n) \o Fill(0, n - Len(x))
    [] f = "copy_pad"  -> Take(x, n) \o Fill(0, n - Len(x))
    [] f = "copy_pad_n"-> (IF Len(x) < n THEN Len(x) ELSE n)
    [] f = "len"       -> Len(x)
    [] f = "len_cap"   -> (IF Len(x) < n THEN Len(x) ELSE n)
    [] f = "reverse"   -> Rev(x)
    [] f = "skip"      -> FindIn(x, {n})
    [] f = "skip_any"  -> FindIn(x, {y[i] : i \in 1..Len(y)})
    [] f = "trim"      -> Len(x) - Len(TrimL(x, IF n = 1 THEN Spaces \ {10} ELSE Spaces))
    [] f = "lower"     -> Map(x, Lower)   [] f = "upper" -> Map(x, Upper)
    [] f = "str_eq"    -> x = y           [] f = "str_contains" -> Contains(x, y)
    [] f = "str_starts"-> StartsWith(x, y)
    [] f = "str_dup"   -> x               [] f = "to_str" -> x
    [] f = "str_vis"   -> Visualised(x)
    [] f = "u64_str"   -> Digits(x, n)    \* x: limbs, n: base
    [] f = "i64_str"   -> Signed(x, n)
    (* parse: x text, n base (0: decide by prefix). Result: limbs \o <<bytes consumed>> *)
    [] f = "parse"     -> (LET neg == x # <<>> /\ x[1] = 45
                               s1  == IF neg THEN Drop(x, 1) ELSE x
                               b   == IF n # 0 THEN n ELSE IF Len(x) > 2 /\ StartsWith(x, <<48, 120>>) THEN 16 ELSE 10
                               s2  == IF b = 16 /\ StartsWith(s1, <<48, 120>>) THEN Drop(s1, 2) ELSE s1
                               k   == FindIn(s2, {c \in 0..255 : ~(IF b = 16 THEN IsHex(c) ELSE IsDigit(c))})
                               v   == Value(Map(Take(s2, k), HexVal), b)
                           IN (IF neg THEN Neg(v) ELSE v) \o <<(Len(x) - Len(s2)) + k>>)
=============================================================================
