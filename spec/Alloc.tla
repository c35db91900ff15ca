------------------------------- MODULE Alloc -------------------------------
(* Allocators: arenas, pools and the library's fallback buckets.

   An allocator owns one or more regions of memory. A region has a base address (only its residue matters) and a size. The
   live blocks of an allocator are the blocks handed out and not yet given back. What a caller relies on:
     - a block lies inside one region of its allocator, has the alignment asked for, and touches no other live block;
     - a block's bytes are zero when it is handed out and change only when its owner changes them;
     - a request that cannot be met is refused and changes nothing;
     - giving back returns the memory (pools: to be handed out again; arenas: all at once);
     - resizing keeps the bytes the old and the new block have in common. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLE al       \* allocator name -> record

NoAlloc == [kind |-> "none", region |-> <<>>, live |-> <<>>, top |-> 0, slack |-> 0, n |-> 0, bsize |-> 0, balign |-> 1]
\* region: sequence of [base, size]; live: sequence of [id, r, off, len]; top: end of the highest block handed out since the
\* last time all memory was given back (arenas only go up); slack: rounding the last request may have cost
Range(s) == {s[i] : i \in DOMAIN s}
Max(a, b) == IF a > b THEN a ELSE b
Up(x, a) == ((x + a - 1) \div a) * a

Apart(b, c) == b.r # c.r \/ b.off + b.len <= c.off \/ c.off + c.len <= b.off
Inside(A, b) == b.r \in DOMAIN A.region /\ b.off >= 0 /\ b.off + b.len <= A.region[b.r].size
AlignedTo(A, b, a) == (A.region[b.r].base + b.off) % a = 0
Without(A, id) == SelectSeq(A.live, LAMBDA b : b.id # id)
\* b can be handed out by A next to the live blocks `others`
Proper(A, b, a, others) == Inside(A, b) /\ AlignedTo(A, b, a) /\ \A c \in Range(others) : Apart(b, c)

Sound(A) == /\ \A b \in Range(A.live) : Inside(A, b)
            /\ \A i, j \in DOMAIN A.live : i # j => Apart(A.live[i], A.live[j])

Give(A, b, a, others) == [A EXCEPT !.live = Append(others, b), !.top = Max(A.top, b.off + b.len), !.slack = IF b.off + b.len > A.top THEN a ELSE Max(A.slack, a)]
\* an arena of one region must meet a request that fits above everything handed out, whatever the rounding
MustFit(A, size, a) == A.top + A.slack + a + Up(size, a) <= A.region[1].size
=============================================================================
