------------------------------- MODULE Memory -------------------------------
(* The memory primitives: copying, moving, filling, searching and exchanging bytes, address arithmetic, and the checksums.
   Memory is a sequence of bytes. The library works by machine words, unrolled and from either end; what a caller relies on is
   the effect on the bytes, whatever the addresses, lengths and overlap, and that nothing else is touched. *)
EXTENDS Integers, Sequences, TLC
VARIABLE m

Pattern(n, q) == [i \in 1..n |-> ((i * 7 + q) % 251) + 1]
(* positions count from 0 *)
Moved(d, s, n)  == [i \in DOMAIN m |-> IF i > d /\ i <= d + n THEN m[i - d + s] ELSE m[i]]
Filled(d, v, n) == [i \in DOMAIN m |-> IF i > d /\ i <= d + n THEN v ELSE m[i]]
Exchanged(a, b, n) == [i \in DOMAIN m |-> IF i > a /\ i <= a + n THEN m[i - a + b] ELSE IF i > b /\ i <= b + n THEN m[i - b + a] ELSE m[i]]
Disjoint(d, s, n) == d + n <= s \/ s + n <= d
Hits(v, s, n) == {i \in s..(s + n - 1) : m[i + 1] = v}
Found(v, s, n) == LET h == Hits(v, s, n) IN IF h = {} THEN -1 ELSE CHOOSE i \in h : \A j \in h : i <= j

Copy(d, s, n) == Disjoint(d, s, n) /\ m' = Moved(d, s, n)
Move(d, s, n) == m' = Moved(d, s, n)
Fill(d, v, n) == m' = Filled(d, v, n)
Swap(a, b, n) == Disjoint(a, b, n) /\ m' = Exchanged(a, b, n)

(* ---- arithmetic ---- *)
PowerOfTwo(x) == x > 0 /\ \E k \in 0..30 : x = 2^k
AlignUp(x, a) == x + ((a - (x % a)) % a)      \* the least multiple of a that is not below x
IsAlignUp(x, a, r) == r % a = 0 /\ r >= x /\ r < x + a

(* ---- checksums: the register is a sequence of bits, the lowest first; a message is a sequence of bytes ---- *)
Bit(bytes, k) == (bytes[((k - 1) \div 8) + 1] \div 2^((k - 1) % 8)) % 2
Bits(bytes) == [k \in 1..(8 * Len(bytes)) |-> Bit(bytes, k)]
Bytes(bits) == [j \in 1..(Len(bits) \div 8) |-> bits[8*j-7] + 2*bits[8*j-6] + 4*bits[8*j-5] + 8*bits[8*j-4] + 16*bits[8*j-3] + 32*bits[8*j-2] + 64*bits[8*j-1] + 128*bits[8*j]]
Not(bits) == [k \in DOMAIN bits |-> 1 - bits[k]]
(* dividing by the polynomial, one bit of the message at a time *)
Divide(reg, poly, b) == LET fb == (reg[1] + b) % 2 IN [k \in 1..Len(reg) |-> ((IF k < Len(reg) THEN reg[k + 1] ELSE 0) + fb * poly[k]) % 2]
RECURSIVE Feed(_, _, _, _)
Feed(reg, poly, bits, k) == IF k > Len(bits) THEN reg ELSE LET r == TLCEval(Divide(reg, poly, bits[k])) IN Feed(r, poly, bits, k + 1)
Poly32 == TLCEval(Bits(<<32, 131, 184, 237>>))                                  \* 0xEDB88320, reflected
Poly64 == TLCEval(Bits(<<181, 201, 75, 172, 41, 147, 172, 149>>))               \* 0x95AC9329AC4BC9B5, reflected
Zeros(n) == [k \in 1..n |-> 0]
Crc32(msg) == Bytes(TLCEval(Not(Feed(TLCEval(Not(Zeros(32))), Poly32, TLCEval(Bits(msg)), 1))))
Crc64(msg) == Bytes(TLCEval(Feed(TLCEval(Zeros(64)), Poly64, TLCEval(Bits(msg)), 1)))
(* the published check values of "123456789": 0xCBF43926 and 0xE9C6D914C4B8D9CA *)
Check == <<49, 50, 51, 52, 53, 54, 55, 56, 57>>
ASSUME Crc32(Check) = <<38, 57, 244, 203>>
ASSUME Crc64(Check) = <<202, 217, 184, 196, 20, 217, 198, 233>>
=============================================================================
