------------------------------- MODULE Files -------------------------------
(* Files, memory streams, the builder and the scanner over an operating system that may fail.

   disk      path -> content, or Missing
   slot      open handles: [k, path, rd, wr, pos, buf, grow]   k = "none" | "file" | "mem"
   bld       the builder: [open, path, buf]

   Each operation has a fault argument: 0 none; for an open the error code the system answers; for a read or write "fail", or
   the number of bytes that go through. After a refused or partial operation the position of the handle is unspecified. *)
EXTENDS Integers, Sequences, FiniteSets
Missing == <<-1>>
NoSlot == [k |-> "none", path |-> "", rd |-> FALSE, wr |-> FALSE, pos |-> 0, buf |-> <<>>, grow |-> FALSE]
NoBld == [open |-> FALSE, path |-> "", buf |-> <<>>]
VARIABLES disk, slot, bld
fvars == <<disk, slot, bld>>
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
Zeros(n) == IF n <= 0 THEN <<>> ELSE [i \in 1..n |-> 0]
(* content t with d written at (0-based) offset o *)
Put(t, d, o) == IF d = <<>> THEN t
                ELSE [i \in 1..Hi(Len(t), o + Len(d)) |->
                        IF i > o /\ i <= o + Len(d) THEN d[i - o] ELSE IF i <= Len(t) THEN t[i] ELSE 0]
Get(t, o, n) == SubSeq(t, o + 1, Lo(Len(t), o + n))
Content(s) == IF slot[s].k = "mem" THEN slot[s].buf ELSE disk[slot[s].path]
Err(code) == CASE code = 2 -> "not_exists" [] code = 80 -> "exists" [] code = 183 -> "exists" [] code = 5 -> "permission" [] OTHER -> "invalid"
Modes == {"r", "w", "a", "r+", "w+", "a+"}
Rd(m) == m \in {"r", "r+", "w+", "a+"}
Wr(m) == m # "r"
Handles == Cardinality({s \in DOMAIN slot : slot[s].k = "file"}) + (IF bld.open THEN 1 ELSE 0)

OpenErr(path, m, fault) == IF fault # 0 THEN Err(fault)
                           ELSE IF m \in {"r", "r+"} /\ disk[path] = Missing THEN "not_exists" ELSE "none"
Open(s, path, m, fault) ==
  /\ slot[s].k = "none"
  /\ IF OpenErr(path, m, fault) # "none" THEN UNCHANGED <<disk, slot>>
     ELSE LET c == IF m \in {"w", "w+"} \/ disk[path] = Missing THEN <<>> ELSE disk[path]
          IN /\ disk' = [disk EXCEPT ![path] = c]
             /\ slot' = [slot EXCEPT ![s] = [NoSlot EXCEPT !.k = "file", !.path = path, !.rd = Rd(m), !.wr = Wr(m),
                                              !.pos = IF m \in {"a", "a+"} THEN Len(c) ELSE 0]]
  /\ UNCHANGED bld
StreamNew(s) ==
  /\ slot[s].k = "none"
  /\ slot' = [slot EXCEPT ![s] = [NoSlot EXCEPT !.k = "mem", !.rd = TRUE, !.wr = TRUE, !.grow = TRUE]]
  /\ UNCHANGED <<disk, bld>>
(* a view over the caller's buffer: read-only, writable in place, or a growing copy *)
StreamOpen(s, data, kind) ==
  /\ slot[s].k = "none"
  /\ slot' = [slot EXCEPT ![s] = [NoSlot EXCEPT !.k = "mem", !.rd = TRUE, !.wr = kind # "ro", !.grow = kind = "clone", !.buf = data]]
  /\ UNCHANGED <<disk, bld>>
(* how much of n bytes written at offset o goes through; -1: refused *)
Accepted(s, n, o, fault) ==
  LET h == slot[s] IN
  IF ~ h.wr THEN -1
  ELSE IF h.k = "mem"
       THEN IF o > Len(h.buf) THEN -1 ELSE IF h.grow THEN n ELSE Lo(n, Len(h.buf) - o)
       ELSE IF fault = -1 THEN -1 ELSE IF fault > 0 THEN Lo(n, fault - 1) ELSE n     \* fault f > 0: f - 1 bytes go through
Store(s, d, o) ==
  IF slot[s].k = "mem"
  THEN slot' = [slot EXCEPT ![s].buf = Put(@, d, o)] /\ UNCHANGED <<disk, bld>>
  ELSE disk' = [disk EXCEPT ![slot[s].path] = Put(@, d, o)] /\ UNCHANGED <<slot, bld>>
(* the position after an operation is pos *)
At(s, pos) == slot' = [slot EXCEPT ![s].pos = pos]
WriteAt(s, data, o, fault, pos) ==
  /\ slot[s].k # "none"
  /\ LET n == Accepted(s, Len(data), o, fault)
         d == IF n < 0 THEN <<>> ELSE SubSeq(data, 1, n)
     IN /\ slot' = [slot EXCEPT ![s].pos = pos, ![s].buf = IF slot[s].k = "mem" THEN Put(@, d, o) ELSE @]
        /\ disk' = IF slot[s].k = "mem" THEN disk ELSE [disk EXCEPT ![slot[s].path] = Put(@, d, o)]
  /\ UNCHANGED bld
Whole(s, n, o, fault) == Accepted(s, n, o, fault) = n
SeekTo(s, o) == IF slot[s].k = "mem" THEN Lo(Hi(o, 0), Len(slot[s].buf)) ELSE o
Seek(s, pos) == slot[s].k # "none" /\ At(s, pos) /\ UNCHANGED <<disk, bld>>
Close(s) == slot[s].k # "none" /\ slot' = [slot EXCEPT ![s] = NoSlot] /\ UNCHANGED <<disk, bld>>

(* the builder: opening truncates the file, nothing is written before write *)
BuilderOpen(path, fault) ==
  /\ ~ bld.open
  /\ IF fault # 0 THEN UNCHANGED <<disk, bld>>
     ELSE disk' = [disk EXCEPT ![path] = <<>>] /\ bld' = [open |-> TRUE, path |-> path, buf |-> <<>>]
  /\ UNCHANGED slot
BuilderAdd(d) == bld.open /\ bld' = [bld EXCEPT !.buf = @ \o d] /\ UNCHANGED <<disk, slot>>
BuilderDone(fault) == IF fault = -1 THEN <<>> ELSE IF fault > 0 THEN SubSeq(bld.buf, 1, Lo(fault - 1, Len(bld.buf))) ELSE bld.buf
BuilderFails(fault) == BuilderDone(fault) # bld.buf \/ fault = -1 \/ (fault > 0 /\ fault - 1 < Len(bld.buf))
BuilderWrite(fault) ==
  /\ bld.open
  /\ disk' = [disk EXCEPT ![bld.path] = Put(@, BuilderDone(fault), 0)]
  /\ bld' = NoBld
  /\ UNCHANGED slot

(* The scanner drops the leading #ifdef INTELLISENSE_DIRECTIVES ... #endif block and what is before it. *)
SPC == {32, 9, 10, 11, 12, 13}
IFDEF == <<105, 102, 100, 101, 102>>
ENDIF == <<101, 110, 100, 105, 102>>
INTELLISENSE == <<73, 78, 84, 69, 76, 76, 73, 83, 69, 78, 83, 69, 95, 68, 73, 82, 69, 67, 84, 73, 86, 69, 83>>
RECURSIVE Blanks(_, _), LineEnd(_, _)
Blanks(t, i) == IF i <= Len(t) /\ t[i] \in SPC THEN Blanks(t, i + 1) ELSE i
LineEnd(t, i) == IF i > Len(t) \/ t[i] \in {10, 13} THEN i ELSE LineEnd(t, i + 1)
Has(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w
\* the first character after the line that contains i (a line end of two characters counts once)
NextLine(t, i) == LET e == LineEnd(t, i) IN IF e + 1 <= Len(t) /\ t[e + 1] = 10 THEN e + 2 ELSE Lo(e + 1, Len(t) + 1)
RECURSIVE ScanFrom(_, _, _)
ScanFrom(t, i, found) ==
  IF i > Len(t) THEN 1
  ELSE IF t[i] # 35 THEN ScanFrom(t, i + 1, found)
  ELSE LET j == Blanks(t, i + 1)
       IN IF ~ found
          THEN IF Has(t, j, IFDEF)
               THEN LET k == Blanks(t, j + 5) IN ScanFrom(t, NextLine(t, IF Has(t, k, INTELLISENSE) THEN k + 23 ELSE k), Has(t, k, INTELLISENSE))
               ELSE ScanFrom(t, NextLine(t, j), FALSE)
          ELSE IF Has(t, j, ENDIF) THEN NextLine(t, j + 5) ELSE ScanFrom(t, j + 1, TRUE)
Scanned(t) == SubSeq(t, ScanFrom(t, 1, FALSE), Len(t))
=============================================================================
