---------------------------- MODULE MemoryTrace ----------------------------
(* Recorded calls of the memory primitives; e.m is the whole buffer after the call, with the guard bytes around it. *)
EXTENDS Memory, TraceBase
tvars == <<m, l>>
TInit == l = 1 /\ m = <<>>
After(e) == m' = e.m
Do(e) ==
  CASE e.op = "Reset" -> m' = <<>>
    [] e.op = "new"   -> m' = Pattern(e.n, e.q) /\ After(e)
    [] e.op = "copy"  -> Copy(e.d, e.s, e.n) /\ e.ret = e.d /\ After(e)
    [] e.op = "move"  -> Move(e.d, e.s, e.n) /\ e.ret = e.d /\ After(e)
    [] e.op = "set"   -> Fill(e.d, e.v, e.n) /\ e.ret = e.d /\ After(e)
    [] e.op = "zero"  -> Fill(e.d, 0, e.n) /\ After(e)
    [] e.op = "swap"  -> Swap(e.d, e.s, e.n) /\ After(e)
    [] e.op = "find"  -> e.ret = Found(e.v, e.s, e.n) /\ UNCHANGED m /\ After(e)
    [] e.op = "null"  -> e.rets = <<TRUE, TRUE, TRUE>> /\ UNCHANGED m /\ After(e)      \* nowhere to write: nothing is written
    [] e.op = "arith" -> /\ e.pow = PowerOfTwo(e.x)
                         /\ e.up = AlignUp(e.x, e.a)
                         /\ IsAlignUp(e.at, e.a, e.ptr)
                         /\ e.add = e.x /\ e.cadd = e.x /\ e.diff = e.x
                         /\ UNCHANGED m
    [] e.op = "crc"   -> e.c32 = Crc32(e.msg) /\ e.c64 = Crc64(e.msg) /\ UNCHANGED m
    [] OTHER -> FALSE
TNext == HasEvent /\ Do(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
