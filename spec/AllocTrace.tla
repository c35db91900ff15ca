----------------------------- MODULE AllocTrace -----------------------------
(* Recorded allocator calls. Blocks are reported by region and offset; `intact` says every live block of every allocator still
   holds the bytes its owner put there, `zero` that a new block was all zero, `kept` that a resize kept the common bytes. *)
EXTENDS Alloc, TraceBase
tvars == <<l, al>>
Names == {"A", "B", "P", "Q", "F", "H"}
TInit == l = 1 /\ al = [n \in Names |-> NoAlloc]
Blk(e) == [id |-> e.id, r |-> e.r, off |-> e.off, len |-> e.size]
\* the regions as reported (the fallback allocator opens new ones)
\* len: the size the heap reserved; off: the size the caller knows of
HBlk(e) == [id |-> e.id, r |-> 0, off |-> e.size, len |-> e.size]
\* resizing to less keeps the block
Resized(e) == LET b == SelectSeq(al["H"].live, LAMBDA x : x.id = e.id)[1] IN IF e.size > b.off THEN HBlk(e) ELSE [b EXCEPT !.off = e.size]
Grown(a, e) == [a EXCEPT !.region = e.regions]
Fresh(e, old) == \* regions only get added
  Len(e.regions) >= Len(old.region) /\ \A i \in DOMAIN old.region : e.regions[i] = old.region[i]
Do(e) ==
  CASE e.op = "Reset" -> al' = [n \in Names |-> NoAlloc]
    [] e.op = "anew" -> al' = [al EXCEPT ![e.a] = [NoAlloc EXCEPT !.kind = "arena", !.region = <<[base |-> e.base, size |-> e.total]>>]]
    [] e.op = "pnew" -> al' = [al EXCEPT ![e.a] = [NoAlloc EXCEPT !.kind = "pool", !.region = <<[base |-> e.base, size |-> e.total]>>,
                                                                   !.n = e.n, !.bsize = e.bsize, !.balign = e.balign]]
    [] e.op = "fnew" -> al' = [al EXCEPT ![e.a] = [NoAlloc EXCEPT !.kind = "fallback", !.region = e.regions, !.bsize = e.bucket]]
    [] e.op = "alloc" ->
         LET A == al[e.a] IN
         IF e.ok THEN /\ Proper(A, Blk(e), e.align, A.live) /\ e.zero
                      /\ al' = [al EXCEPT ![e.a] = Give(A, Blk(e), e.align, A.live)]
         ELSE ~ MustFit(A, e.size, e.align) /\ UNCHANGED al
    [] e.op = "falloc" ->
         LET A == Grown(al[e.a], e) IN
         /\ Fresh(e, al[e.a])
         /\ IF e.ok THEN Proper(A, Blk(e), e.align, A.live) /\ e.zero /\ al' = [al EXCEPT ![e.a] = Give(A, Blk(e), e.align, A.live)]
            ELSE Up(e.size, e.align) + e.align > A.bsize /\ al' = [al EXCEPT ![e.a] = A]
    [] e.op \in {"resize", "fresize"} ->
         LET A == IF e.op = "fresize" THEN Grown(al[e.a], e) ELSE al[e.a]
             rest == Without(A, e.id)
         IN /\ e.op = "fresize" => Fresh(e, al[e.a])
            /\ IF e.ok THEN Proper(A, Blk(e), e.align, rest) /\ e.kept /\ al' = [al EXCEPT ![e.a] = Give(A, Blk(e), e.align, rest)]
               ELSE /\ IF e.op = "resize" THEN ~ MustFit(A, e.size, e.align) ELSE Up(e.size, e.align) + e.align > A.bsize
                    /\ al' = [al EXCEPT ![e.a] = A]
    [] e.op = "free" -> al' = [al EXCEPT ![e.a].live = Without(al[e.a], e.id)]
    [] e.op = "freeall" -> al' = [al EXCEPT ![e.a].live = <<>>, ![e.a].top = 0, ![e.a].slack = 0]
    [] e.op = "remaining" ->
         LET A == al[e.a] IN
         /\ e.ret <= A.region[1].size - A.top
         /\ e.ret >= A.region[1].size - A.top - A.slack - e.align
         /\ UNCHANGED al
    [] e.op = "palloc" ->
         LET A == al[e.a] IN
         IF Len(A.live) < A.n THEN /\ e.ok /\ e.size = A.bsize /\ Proper(A, Blk(e), A.balign, A.live) /\ e.zero
                                   /\ al' = [al EXCEPT ![e.a].live = Append(A.live, Blk(e))]
         ELSE ~ e.ok /\ UNCHANGED al
    [] e.op = "pfree" -> al' = [al EXCEPT ![e.a].live = Without(al[e.a], e.id)]
    [] e.op \in {"pclear", "pfreeall"} -> al' = [al EXCEPT ![e.a].live = <<>>]
    \* the heap: addresses are told by their residue, and `apart` that the block touches no other live one
    [] e.op = "halloc" -> e.apart /\ e.mod % e.align = 0 /\ e.zero /\ al' = [al EXCEPT !["H"].live = Append(@, HBlk(e))]
    [] e.op = "hresize" -> /\ e.kept
                           /\ IF e.size = 0 THEN al' = [al EXCEPT !["H"].live = Without(al["H"], e.id)]
                              ELSE /\ e.apart /\ e.mod % e.align = 0
                                   /\ al' = [al EXCEPT !["H"].live = Append(Without(al["H"], e.id), Resized(e))]
    [] e.op = "hfree" -> al' = [al EXCEPT !["H"].live = Without(al["H"], e.id)]
    [] OTHER -> FALSE
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s).len + Total(Tail(s))
Observed(e) ==
  IF e.op = "Reset" THEN TRUE
  ELSE /\ e.intact
       /\ ("stats" \in DOMAIN e /\ e.stats # <<>>) => e.stats = <<Len(al'["H"].live), Total(al'["H"].live)>>
       /\ e.op \in {"palloc", "pfree", "pclear", "pfreeall", "pnew"} => e.used = al'[e.a].bsize * Len(al'[e.a].live)
TNext == HasEvent /\ Do(Ev) /\ Observed(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
