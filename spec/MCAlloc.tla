------------------------------ MODULE MCAlloc ------------------------------
(* The design of the arena (bump allocation) and of the pool (intrusive free list) against Alloc. *)
EXTENDS Alloc, TLC, Json
CONSTANTS Depth, Sizes, Aligns, Bases, Total, PrintHist
VARIABLES used,    \* arena: bytes consumed
          free,    \* pool: the free list, a sequence of block numbers
          hist
vars == <<al, used, free, hist>>
A == al["arena"]
P == al["pool"]
NB == 3
Init == /\ \E b \in Bases :
             /\ al = [arena |-> [NoAlloc EXCEPT !.kind = "arena", !.region = <<[base |-> b, size |-> Total]>>],
                      pool  |-> [NoAlloc EXCEPT !.kind = "pool", !.region = <<[base |-> 16, size |-> NB * 32]>>, !.n = NB, !.bsize = 24, !.balign = 16]]
             /\ hist = <<<<"anew", "A", b, Total>>, <<"pnew", "P", NB, 24, 16>>>>
        /\ used = 0 /\ free = [i \in 1..NB |-> i]
Id == Len(hist)
Log(h) == hist' = Append(hist, h)
ArenaAlloc(n, a) ==
  LET off == Up(A.region[1].base + used, a) - A.region[1].base
      u   == off + Up(n, a)
      b   == [id |-> Id, r |-> 1, off |-> off, len |-> n]
  IN /\ Log(<<"alloc", "A", Id, n, a>>)
     /\ IF u > Total THEN UNCHANGED <<al, used>>
        ELSE used' = u /\ al' = [al EXCEPT !["arena"] = Give(A, b, a, A.live)]
     /\ UNCHANGED free
ArenaFreeAll == used' = 0 /\ al' = [al EXCEPT !["arena"].live = <<>>, !["arena"].top = 0, !["arena"].slack = 0] /\ Log(<<"freeall", "A">>) /\ UNCHANGED free
PoolAlloc ==
  /\ free # <<>>
  /\ al' = [al EXCEPT !["pool"] = Give(P, [id |-> Id, r |-> 1, off |-> (free[1] - 1) * 32, len |-> P.bsize], P.balign, P.live)]
  /\ free' = Tail(free) /\ Log(<<"palloc", "P", Id>>) /\ UNCHANGED used
PoolFree(i) ==
  /\ al' = [al EXCEPT !["pool"].live = Without(P, P.live[i].id)]
  /\ free' = <<P.live[i].off \div 32 + 1>> \o free /\ Log(<<"pfree", "P", P.live[i].id>>) /\ UNCHANGED used
PoolClear(op) == al' = [al EXCEPT !["pool"].live = <<>>] /\ free' = [i \in 1..NB |-> i] /\ Log(<<op, "P">>) /\ UNCHANGED used
Next == /\ Len(hist) < Depth
        /\ \/ \E n \in Sizes, a \in Aligns : ArenaAlloc(n, a)
           \/ ArenaFreeAll \/ PoolAlloc
           \/ \E i \in DOMAIN P.live : PoolFree(i)
           \/ PoolClear("pclear") \/ PoolClear("pfreeall")
Spec == Init /\ [][Next]_vars
Disjoint == Sound(A) /\ Sound(P)
AllAligned == \A b \in Range(P.live) : AlignedTo(P, b, P.balign)
NoneLost == Len(P.live) + Len(free) = NB
Room == \A n \in Sizes, a \in Aligns : MustFit(A, n, a) => Up(Up(A.region[1].base + used, a) - A.region[1].base + Up(n, a), 1) <= Total
LastAligned == hist[Len(hist)][1] = "alloc" =>
                 LET h == hist[Len(hist)] IN \A b \in Range(A.live) : b.id = h[3] => AlignedTo(A, b, h[5])
Undisturbed == [][\A b \in Range(P.live) : b \in Range(P'.live) \/ Len(P'.live) < Len(P.live)]_vars
Emit == (PrintHist /\ Len(hist) = Depth) => PrintT(ToJson(hist))
=============================================================================
