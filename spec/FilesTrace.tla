----------------------------- MODULE FilesTrace -----------------------------
(* Recorded file, stream, builder and scanner operations. Every event carries the content of all files on disk and the number
   of open system handles, which must be those of the specification. *)
EXTENDS Files, TraceBase
tvars == <<l, fvars>>
Paths == {"a", "b", "c"}
TInit == l = 1 /\ disk = [p \in Paths |-> Missing] /\ slot = [s \in 1..3 |-> NoSlot] /\ bld = NoBld
Restart == disk' = [p \in Paths |-> Missing] /\ slot' = [s \in 1..3 |-> NoSlot] /\ bld' = NoBld
Same == UNCHANGED fvars
\* the position the code reports after an operation that need not leave it anywhere in particular
Do(e) ==
  CASE e.op = "Reset" -> Restart
    [] e.op = "open" -> Open(e.s, e.path, e.mode, e.fault) /\ e.err = OpenErr(e.path, e.mode, e.fault)
                        /\ (e.err = "none" => e.name = e.path)
    [] e.op = "snew" -> StreamNew(e.s) /\ e.ret
    [] e.op = "sopen" -> StreamOpen(e.s, e.data, e.kind) /\ e.ret
    [] e.op = "write" ->
         LET o == slot[e.s].pos IN
         /\ WriteAt(e.s, e.data, o, e.fault, e.pos)
         /\ e.ret = Whole(e.s, Len(e.data), o, e.fault)
         /\ e.ret => e.pos = o + Len(e.data)
    [] e.op = "writeat" ->
         LET n == Accepted(e.s, Len(e.data), e.off, e.fault) IN
         /\ WriteAt(e.s, e.data, e.off, e.fault, e.pos)
         /\ e.ret = (n >= 0)
         /\ n >= 0 => e.count = n
    [] e.op = "read" ->
         LET o == slot[e.s].pos
             d == Get(Content(e.s), o, e.n)
         IN /\ Seek(e.s, e.pos)
            /\ IF ~ slot[e.s].rd \/ e.fault = -1 THEN ~ e.ret /\ e.data = <<>>
               ELSE IF e.fault > 0 THEN e.data = SubSeq(d, 1, Lo(e.fault - 1, Len(d)))
               ELSE e.ret /\ e.data = d /\ (Len(d) = e.n => e.pos = o + e.n)
    [] e.op = "readat" ->
         LET d == Get(Content(e.s), e.off, e.n) IN
         /\ Seek(e.s, e.pos)
         /\ IF ~ slot[e.s].rd \/ e.fault = -1 THEN ~ e.ret /\ e.data = <<>>
            ELSE IF e.fault > 0 THEN e.data = SubSeq(d, 1, Lo(e.fault - 1, Len(d))) /\ (e.ret => e.count = Len(e.data))
            ELSE e.ret /\ e.data = d /\ e.count = Len(d)
    [] e.op = "seek" -> Seek(e.s, e.pos) /\ e.ret = SeekTo(e.s, e.off) /\ e.pos = e.ret
    [] e.op = "seekend" -> Seek(e.s, e.pos) /\ e.ret = Len(Content(e.s)) /\ e.pos = e.ret
    [] e.op = "size" -> Seek(e.s, slot[e.s].pos) /\ e.ret = Len(Content(e.s)) /\ e.pos = slot[e.s].pos
    [] e.op = "buf" -> Same /\ slot[e.s].k = "mem" /\ e.data = slot[e.s].buf
    [] e.op = "close" -> Close(e.s) /\ e.ret = "none"
    [] e.op = "contents" ->
         /\ Same
         /\ IF disk[e.path] = Missing \/ disk[e.path] = <<>> \/ e.fault # 0 THEN ~ e.has /\ e.size = 0
            ELSE e.has /\ e.size = Len(disk[e.path]) /\ e.data = disk[e.path] /\ (e.zero => e.term)
    [] e.op = "bopen" -> BuilderOpen(e.path, e.fault) /\ (e.fault # 0 <=> e.reported)
    [] e.op = "bpad" -> BuilderAdd([i \in 1..e.n |-> 10])
    [] e.op = "bprint" -> BuilderAdd(e.text)
    [] e.op = "bfmt" -> BuilderAdd(e.text)
    [] e.op = "bwrite" -> BuilderWrite(e.fault) /\ (BuilderFails(e.fault) <=> e.reported)
    [] e.op = "mk" -> disk' = [disk EXCEPT ![e.path] = e.data] /\ UNCHANGED <<slot, bld>>
    [] e.op = "scan" ->
         /\ Same
         /\ IF disk[e.path] = Missing \/ disk[e.path] = <<>> \/ e.fault # 0 THEN e.status = "refused" /\ e.reported
            ELSE LET t == Scanned(disk[e.path])
                 IN IF t = <<>> THEN e.status = "invalid"
                    ELSE e.status = "ok" /\ e.leaked = 0 /\ (e.data = t \/ <<10>> \o e.data = t \/ e.data = <<10>> \o t)
    [] OTHER -> FALSE
Observed(e) ==
  IF e.op = "Reset" THEN TRUE
  ELSE /\ \A p \in Paths : IF disk'[p] = Missing THEN p \notin DOMAIN e.disk ELSE p \in DOMAIN e.disk /\ e.disk[p] = disk'[p]
       /\ e.handles = Handles'
TNext == HasEvent /\ Do(Ev) /\ Observed(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
