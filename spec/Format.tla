------------------------------- MODULE Format -------------------------------
(* The formatted printer. A format is a sequence of pieces; each piece is literal text or a directive with its argument. *)
(* A directive: k (conversion), minus, zero, width (-1: none), prec (-1: none), mod ("", "hh", "h", "l", "ll", "z"),       *)
(* text (bytes, for text conversions) and v (64-bit argument as four 16-bit limbs, for number conversions).             *)
EXTENDS Bytes
Limb8(v, signed) == LET b == v[4] % 256 IN IF signed /\ b >= 128 THEN <<65535, 65535, 65535, 65280 + b>> ELSE <<0, 0, 0, b>>
Limb16(v, signed) == IF signed /\ v[4] >= 32768 THEN <<65535, 65535, 65535, v[4]>> ELSE <<0, 0, 0, v[4]>>
Limb32(v, signed) == IF signed /\ v[3] >= 32768 THEN <<65535, 65535, v[3], v[4]>> ELSE <<0, 0, v[3], v[4]>>
Narrow(v, mod, signed) == CASE mod = "hh" -> Limb8(v, signed) [] mod = "h" -> Limb16(v, signed) [] mod = "" -> Limb32(v, signed) [] OTHER -> v
IsNum(k) == k \in {"d", "i", "u", "x", "X", "o"}
(* what the argument looks like before padding *)
Body(d) ==
  CASE d.k \in {"d", "i"} -> Signed(Narrow(d.v, d.mod, TRUE), 10)
    [] d.k = "u" -> Digits(Narrow(d.v, d.mod, FALSE), 10)
    [] d.k = "x" -> Map(Digits(Narrow(d.v, d.mod, FALSE), 16), Lower)
    [] d.k = "X" -> Digits(Narrow(d.v, d.mod, FALSE), 16)
    [] d.k = "o" -> Digits(Narrow(d.v, d.mod, FALSE), 8)
    [] d.k = "p" -> Map(Digits(d.v, 16), Lower)
    [] d.k = "c" -> Take(d.text, 1)
    [] d.k = "s" -> (IF d.prec >= 0 THEN Take(d.text, d.prec) ELSE d.text)
    [] d.k \in {"S", "SB"} -> d.text
    [] d.k = "%" -> <<37>>
Pad(d) == IF d.zero /\ d.prec < 0 THEN 48 ELSE 32
Render1(d) ==
  IF d.k = "lit" THEN d.text
  ELSE IF d.k = "r" THEN Fill(d.text[1], IF d.width > 0 THEN d.width ELSE 1)
  ELSE LET b == Body(d)  pad == Fill(Pad(d), d.width - Len(b)) IN IF d.minus THEN b \o pad ELSE pad \o b
RECURSIVE Render(_)
Render(ds) == IF ds = <<>> THEN <<>> ELSE Render1(Head(ds)) \o Render(Tail(ds))
(* What is printed into cap bytes: the text and its terminator (the count includes it), or, reported by -1, a beginning of the text. *)
Fits(r, cap) == Len(r) < cap
Beginning(o, r) == Len(o) <= Len(r) /\ o = SubSeq(r, 1, Len(o))
Reports(entry) == entry \in {"va", "fmt"}
Printed(entry, r, cap, o, ret) ==
  IF Fits(r, cap) THEN o = r /\ ret = Len(r) + 1
  ELSE /\ Beginning(o, r) /\ Len(o) < cap
       /\ IF Reports(entry) THEN ret = -1 ELSE TRUE
Lit(t) == [k |-> "lit", minus |-> FALSE, zero |-> FALSE, width |-> -1, prec |-> -1, mod |-> "", text |-> t, v |-> <<0, 0, 0, 0>>]
=============================================================================
